"""The iterator over a tree hands out the stacked entries one by one."""
from typing import Any

from expression import Nothing, Option, Some
from expression.collections import Block
from expression.collections import maptree as M
from expression.collections.maptree import MapTree, MapTreeLeaf, MapTreeNode, MkIterator

from specs.lib import require
from specs.c13_order import collapse as collapse_
from specs.c13_order import contents, stacked

ENTRY = False
CONTRACTS = {
    "expression.collections.maptree.collapseLHS": "collapse",
}


def collapse(stack):
    return collapse_(stack)


def impl_start(m: MapTree[Any, Any]):
    it = M.mk_iterator(m)
    require(hasattr(it, "stack"))
    return stacked(it.stack._value) == contents(m)


def spec_start(m: MapTree[Any, Any]):
    return True


def impl_step(k, v, rest: tuple[Any, ...]):
    it = MkIterator(Nothing)
    require(hasattr(it, "stack"))
    it.stack = Block((Some(MapTreeLeaf(k, v)), *rest))
    r = next(it)
    return r == (k, v) and stacked(it.stack._value) == stacked(rest)


def spec_step(k, v, rest: tuple[Any, ...]):
    return True


def impl_stop():
    it = MkIterator(Nothing)
    require(hasattr(it, "stack"))
    it.stack = Block(())
    try:
        next(it)
    except StopIteration:
        return it.stack.is_empty()
    return False


def spec_stop():
    return True
