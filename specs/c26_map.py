"""Equality of maps is equality of their entries in order."""
from typing import Any

from expression.collections import Map
from expression.collections.maptree import MapTree

from specs.lib import opaque

ENTRY = False
CONTRACTS = {
    "expression.collections.maptree.mk_iterator": "entries",
    "expression.collections.maptree.size": "count",
}


def contents(m):
    return opaque("contents", "tuple[tuple[Any, Any], ...]", m)


def entries(m):
    return iter(contents(m))


def count(m):
    return len(contents(m))


def impl_equal(a: MapTree[Any, Any], b: MapTree[Any, Any]):
    return Map(a) == Map(b)


def spec_equal(a: MapTree[Any, Any], b: MapTree[Any, Any]):
    other = iter(contents(b))
    for x in contents(a):
        try:
            y = next(other)
        except StopIteration:
            return False
        if x != y:
            return False
    return next(other, None) is None


def impl_foreign(a: MapTree[Any, Any], n: int, s: str):
    m = Map(a)
    return (m == n, m == s, m == None, m == (), m != n)


def spec_foreign(a: MapTree[Any, Any], n: int, s: str):
    return (False, False, False, False, True)
