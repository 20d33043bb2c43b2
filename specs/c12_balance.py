"""Balance of the tree behind a Map: recorded heights are right and siblings differ by at most two.

Difference bounds over the heights; recursive calls and rebalancing stand for their contracts
(specs/tree.py), each of which is established here for the function itself."""
from typing import Any, Callable

from expression import Option
from expression.collections import maptree as M
from expression.collections.maptree import MapTree, MapTreeLeaf, MapTreeNode

from specs.lib import assume, opaque
from specs.tree import added, balanced, changed, ht, on_shape, removed, spliced, wf

ON_SHAPE = "on_shape"
ZONE = True
CONTRACTS = {
    "expression.collections.maptree.add": "added",
    "expression.collections.maptree.remove": "removed",
    "expression.collections.maptree.change": "changed",
    "expression.collections.maptree.splice_out_successor": "spliced",
    "expression.collections.maptree.rebalance": "balanced",
    "expression.collections.maptree.height": "ht",
    "expression.collections.maptree.map": "mapped",
}


def mapped(f, m):
    t = opaque("mapped", "MapTree[Any, Any]", m)
    assume(ht(t) == ht(m))
    return t


def impl_height(m: MapTree[Any, Any]):
    return M.height(m) == ht(m)


def spec_height(m):
    return True


def impl_mk(t1: MapTree[Any, Any], k, v, t2: MapTree[Any, Any]):
    assume(ht(t1) <= ht(t2) + 2)
    assume(ht(t2) <= ht(t1) + 2)
    t = M.mk(t1, k, v, t2)
    return wf(t) and ht(t) == (ht(t2) + 1 if ht(t1) < ht(t2) else ht(t1) + 1)


def spec_mk(t1, k, v, t2):
    return True


def impl_rebalance(t1: MapTree[Any, Any], k, v, t2: MapTree[Any, Any]):
    h1, h2 = ht(t1), ht(t2)
    assume(h1 <= h2 + 3)
    assume(h2 <= h1 + 3)
    t = M.rebalance(t1, k, v, t2)
    top = h2 if h1 < h2 else h1
    if not wf(t):
        return "unbalanced"
    if h1 + 2 < h2 or h2 + 2 < h1:
        return top <= ht(t) <= top + 1
    return ht(t) == top + 1


def spec_rebalance(t1, k, v, t2):
    return True


def impl_add(k, v, m: MapTree[Any, Any]):
    t = M.add(k, v, m)
    return wf(t) and ht(m) <= ht(t) <= ht(m) + 1 and ht(t) >= 1


def spec_add(k, v, m):
    return True


def impl_remove(k, m: MapTree[Any, Any]):
    t = M.remove(k, m)
    return wf(t) and ht(m) - 1 <= ht(t) <= ht(m)


def spec_remove(k, m):
    return True


def impl_splice(m: MapTree[Any, Any]):
    assume(m.is_some())
    k, v, t = M.splice_out_successor(m)
    return wf(t) and ht(m) - 1 <= ht(t) <= ht(m)


def spec_splice(m):
    return True


def impl_change(k, a: Option[Any], m: MapTree[Any, Any]):
    t = M.change(k, lambda o: a, m)
    return wf(t) and ht(m) - 1 <= ht(t) <= ht(m) + 1


def spec_change(k, a, m):
    return True


def impl_map(f, m: MapTree[Any, Any]):
    t = M.map(lambda k, v: k, m)
    return wf(t) and ht(t) == ht(m)


def spec_map(f, m):
    return True
