"""Updating and searching the tree behind a Map, in terms of its entries in order.

Induction over the tree: a recursive call stands for an arbitrary tree that satisfies the contract of
the function; a tree whose shape is not known on a path stands for an arbitrary list of entries."""
from typing import Any, Callable

from expression import Nothing, Option, Some
from expression.collections import maptree as M
from expression.collections.maptree import MapTree, MapTreeLeaf, MapTreeNode

from specs.lib import assume, opaque
from specs.tree import added, balanced, changed, changed_tree, contents, ht, on_shape, removed, spliced, wf

ON_SHAPE = "on_shape"
ZONE = True
CONTRACTS = {
    "expression.collections.maptree.add": "added",
    "expression.collections.maptree.remove": "removed",
    "expression.collections.maptree.change": "changed",
    "expression.collections.maptree.splice_out_successor": "spliced",
    "expression.collections.maptree.rebalance": "balanced",
    "expression.collections.maptree.height": "ht",
    "expression.collections.maptree.try_find": "spec_tryFind",
    "expression.collections.maptree.mem": "spec_mem",
}


def impl_mk(t1: MapTree[Any, Any], k, v, t2: MapTree[Any, Any]):
    return contents(M.mk(t1, k, v, t2)) == (*contents(t1), (k, v), *contents(t2))


def spec_mk(t1, k, v, t2):
    return True


def impl_rebalance(t1: MapTree[Any, Any], k, v, t2: MapTree[Any, Any]):
    return contents(M.rebalance(t1, k, v, t2)) == (*contents(t1), (k, v), *contents(t2))


def spec_rebalance(t1, k, v, t2):
    return True


def impl_add(k, v, m: MapTree[Any, Any]):
    t = M.add(k, v, m)
    if m.is_none():
        return contents(t) == ((k, v),)
    n = m.value
    if isinstance(n, MapTreeNode):
        if k == n.key:
            return contents(t) == (*contents(n.left), (k, v), *contents(n.right))
        if k < n.key:
            return contents(t) == (*contents(added(k, v, n.left)), (n.key, n.value), *contents(n.right))
        return contents(t) == (*contents(n.left), (n.key, n.value), *contents(added(k, v, n.right)))
    if k == n.key:
        return contents(t) == ((k, v),)
    if k < n.key:
        return contents(t) == ((k, v), (n.key, n.value))
    return contents(t) == ((n.key, n.value), (k, v))


def spec_add(k, v, m):
    return True


def impl_remove(k, m: MapTree[Any, Any]):
    t = M.remove(k, m)
    if m.is_none():
        return contents(t) == ()
    n = m.value
    if isinstance(n, MapTreeNode):
        if k == n.key:
            return contents(t) == (*contents(n.left), *contents(n.right))
        if k < n.key:
            return contents(t) == (*contents(removed(k, n.left)), (n.key, n.value), *contents(n.right))
        return contents(t) == (*contents(n.left), (n.key, n.value), *contents(removed(k, n.right)))
    if k == n.key:
        return contents(t) == ()
    return contents(t) == ((n.key, n.value),)


def spec_remove(k, m):
    return True


def impl_splice(m: MapTree[Any, Any]):
    assume(m.is_some())
    k, v, t = M.splice_out_successor(m)
    n = m.value
    if isinstance(n, MapTreeNode):
        return ((k, v), *contents(t)) == (*contents(n.left), (n.key, n.value), *contents(n.right))
    return ((k, v), *contents(t)) == ((n.key, n.value),)


def spec_splice(m):
    return True


def impl_change(k, u: Callable[..., Option[Any]], m: MapTree[Any, Any]):
    """the entry becomes what u answers for it"""
    answers = []

    def asked(o):
        r = u(o)
        answers.append(r)
        return r

    t = M.change(k, asked, m)
    if not answers:
        return False
    r = answers[0]
    if m.is_none():
        return contents(t) == entry(k, r)
    n = m.value
    if isinstance(n, MapTreeNode):
        if k == n.key:
            return contents(t) == (*contents(n.left), *entry(k, r), *contents(n.right))
        if k < n.key:
            return contents(t) == (*contents(changed_tree(k, n.left)), (n.key, n.value), *contents(n.right))
        return contents(t) == (*contents(n.left), (n.key, n.value), *contents(changed_tree(k, n.right)))
    if k == n.key:
        return contents(t) == entry(k, r)
    if k < n.key:
        return contents(t) == (*entry(k, r), (n.key, n.value))
    return contents(t) == ((n.key, n.value), *entry(k, r))


def spec_change(k, u: Callable[..., Option[Any]], m: MapTree[Any, Any]):
    if m.is_none():
        u(Nothing)
        return True
    n = m.value
    if k == n.key:
        u(Some(n.value))
    elif isinstance(n, MapTreeNode):
        u(("change", k, n.left if k < n.key else n.right))
    else:
        u(Nothing)
    return True


def entry(k, answer):
    return ((k, answer.value),) if answer.is_some() else ()


def impl_tryFind(k, m: MapTree[Any, Any]):
    return M.try_find(k, m)


def spec_tryFind(k, m: MapTree[Any, Any]) -> Option[Any]:
    if m.is_none():
        return Nothing
    n = m.value
    if k == n.key:
        return Some(n.value)
    if isinstance(n, MapTreeNode):
        return spec_tryFind(k, n.left if k < n.key else n.right)
    return Nothing


def impl_mem(k, m: MapTree[Any, Any]):
    return M.mem(k, m)


def spec_mem(k, m: MapTree[Any, Any]) -> bool:
    if m.is_none():
        return False
    n = m.value
    if k == n.key:
        return True
    if isinstance(n, MapTreeNode):
        return spec_mem(k, n.left if k < n.key else n.right)
    return False


def impl_find(k, m: MapTree[Any, Any]):
    return M.find(k, m)


def spec_find(k, m: MapTree[Any, Any]):
    r = spec_tryFind(k, m)
    if r.is_some():
        return r.value
    raise KeyError("missing")
