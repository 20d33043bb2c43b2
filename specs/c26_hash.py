"""Maps with the same entries hash equally, whatever their trees look like."""
from typing import Any

from expression.collections import Map
from expression.collections.maptree import MapTree

from specs.lib import opaque

ENTRY = False
CONTRACTS = {
    "expression.collections.maptree.mk_iterator": "entries",
    "expression.collections.maptree.size": "count",
}


def contents():
    """any two trees have these entries"""
    return opaque("contents", "tuple[tuple[Any, Any], ...]")


def entries(m):
    return iter(contents())


def count(m):
    return len(contents())


def impl_hash(a: MapTree[Any, Any], b: MapTree[Any, Any]):
    return hash(Map(a))


def spec_hash(a: MapTree[Any, Any], b: MapTree[Any, Any]):
    return hash(Map(b))
