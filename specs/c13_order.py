"""Contents of the tree behind a Map in key order: sizes, lists and iterators.

A tree whose shape is not known on a path stands for an arbitrary list of entries."""
from typing import Any

from expression import Nothing, Option, Some
from expression.collections import Block
from expression.collections import maptree as M
from expression.collections.maptree import MapTree, MapTreeLeaf, MapTreeNode

from specs.lib import assume, define, defined, is_opaque, known_empty, known_nonempty, opaque, shape_known

CONTRACTS = {
    "expression.collections.maptree.size_aux": "size_aux",
    "expression.collections.maptree.size": "count",
    "expression.collections.maptree.to_list.loop": "to_list_loop",
    "expression.collections.maptree.collapseLHS": "collapse",
}


def contents(t):
    """the entries of a tree in order"""
    if not shape_known(t, MapTreeNode):
        return opaque("contents", "tuple[Any, ...]", t)
    if t.is_none():
        return ()
    n = t.value
    if isinstance(n, MapTreeNode):
        return (*contents(n.left), (n.key, n.value), *contents(n.right))
    return ((n.key, n.value),)


def count(t):
    if not shape_known(t, MapTreeNode):
        return opaque("count", "int", t)
    if t.is_none():
        return 0
    n = t.value
    if isinstance(n, MapTreeNode):
        return count(n.left) + 1 + count(n.right)
    return 1


def stacked(xs):
    """the entries of a stack of trees"""
    if defined("stacked", xs):
        return opaque("stacked", "tuple[Any, ...]", xs)
    if known_nonempty(xs):
        return (*contents(xs[0]), *stacked(xs[1:]))
    if known_empty(xs):
        return ()
    return opaque("stacked", "tuple[Any, ...]", xs)


def size_aux(acc, m):
    return acc + count(m)


def to_list_loop(m, acc):
    return Block((*contents(m), *acc))


def collapse(stack):
    r = opaque("collapsed", "Block[Any]", stack._value)
    define("stacked", stacked(stack._value), r._value)
    return r


def impl_sizeAux(acc: int, m: MapTree[Any, Any]):
    return M.size_aux(acc, m) == acc + count(m)


def spec_sizeAux(acc: int, m: MapTree[Any, Any]):
    return True


def impl_size(m: MapTree[Any, Any]):
    return M.size(m) == count(m)


def spec_size(m: MapTree[Any, Any]):
    return True


def impl_toList(m: MapTree[Any, Any]):
    return tuple(M.to_list(m)) == contents(m)


def spec_toList(m: MapTree[Any, Any]):
    return True


def impl_collapse(m: MapTree[Any, Any], rest: tuple[MapTree[Any, Any], ...]):
    r = M.collapseLHS(Block((m, *rest)))
    return stacked(r._value) == stacked((m, *rest))


def spec_collapse(m: MapTree[Any, Any], rest: tuple[MapTree[Any, Any], ...]):
    return True


def impl_collapseTop(m: MapTree[Any, Any], rest: tuple[MapTree[Any, Any], ...]):
    r = M.collapseLHS(Block((m, *rest)))
    if is_opaque(r):
        return True
    return r.is_empty() or isinstance(r.head(), Option) and r.head().is_some() and not isinstance(r.head().value, MapTreeNode)


def spec_collapseTop(m: MapTree[Any, Any], rest: tuple[MapTree[Any, Any], ...]):
    return True


def impl_collapseEmpty():
    return M.collapseLHS(Block(())).is_empty()


def spec_collapseEmpty():
    return True
