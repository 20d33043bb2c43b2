"""Traversing methods and functions of Map in terms of the tree traversals of c13_traversals."""
from typing import Any, Callable

from expression import Nothing, Option, Some
from expression.collections import Block, Map
from expression.collections import map as F
from expression.collections.maptree import MapTree

from specs.lib import opaque, require

ENTRY = False
CONTRACTS = {
    "expression.collections.maptree.exists": "spec_treeExists",
    "expression.collections.maptree.forall": "spec_treeForall",
    "expression.collections.maptree.iter": "spec_treeIter",
    "expression.collections.maptree.map": "spec_treeMap",
    "expression.collections.maptree.filter": "spec_treeFilter",
    "expression.collections.maptree.partition": "spec_treePartition",
    "expression.collections.maptree.try_pick": "spec_treeTryPick",
    "expression.collections.maptree.fold": "spec_treeFold",
    "expression.collections.maptree.fold_back": "spec_treeFoldBack",
    "expression.collections.maptree.mk_iterator": "entries",
}


def spec_treeExists(f, m) -> bool:
    pass


def spec_treeForall(f, m) -> bool:
    pass


def spec_treeIter(f, m) -> None:
    pass


def spec_treeMap(f, m) -> MapTree[Any, Any]:
    pass


def spec_treeFilter(f, m) -> MapTree[Any, Any]:
    pass


def spec_treePartition(f, m) -> tuple[MapTree[Any, Any], MapTree[Any, Any]]:
    pass


def spec_treeTryPick(f, m) -> Option[Any]:
    pass


def spec_treeFold(f, x, m) -> Any:
    pass


def spec_treeFoldBack(f, m, x) -> Any:
    pass


def entries(m):
    return iter(opaque("contents", "tuple[tuple[Any, Any], ...]", m))


def tree(m):
    require(hasattr(m, "_tree"))
    return m._tree


def impl_exists(f, t: MapTree[Any, Any]):
    return Map(t).exists(f)


def impl_exists__fn(f, t: MapTree[Any, Any]):
    return F.exists(f)(Map(t))


def spec_exists(f, t: MapTree[Any, Any]):
    return spec_treeExists(f, t)


def impl_forall(f, t: MapTree[Any, Any]):
    return Map(t).for_all(f)


def impl_forall__fn(f, t: MapTree[Any, Any]):
    return F.for_all(f)(Map(t))


def spec_forall(f, t: MapTree[Any, Any]):
    return spec_treeForall(f, t)


def impl_iterate(f, t: MapTree[Any, Any]):
    return Map(t).iterate(f)


def impl_iterate__fn(f, t: MapTree[Any, Any]):
    return F.iterate(f)(Map(t))


def spec_iterate(f, t: MapTree[Any, Any]):
    return spec_treeIter(f, t)


def impl_map(f, t: MapTree[Any, Any]):
    return tree(Map(t).map(f))


def impl_map__fn(f, t: MapTree[Any, Any]):
    return tree(F.map(f)(Map(t)))


def spec_map(f, t: MapTree[Any, Any]):
    return spec_treeMap(f, t)


def impl_filter(f, t: MapTree[Any, Any]):
    return tree(Map(t).filter(f))


def impl_filter__fn(f, t: MapTree[Any, Any]):
    return tree(F.filter(f)(Map(t)))


def spec_filter(f, t: MapTree[Any, Any]):
    return spec_treeFilter(f, t)


def impl_partition(f, t: MapTree[Any, Any]):
    return [tree(x) for x in Map(t).partition(f)]


def impl_partition__fn(f, t: MapTree[Any, Any]):
    return [tree(x) for x in F.partition(f)(Map(t))]


def spec_partition(f, t: MapTree[Any, Any]):
    a, b = spec_treePartition(f, t)
    return [a, b]


def impl_tryPick(f, t: MapTree[Any, Any]):
    return Map(t).try_pick(f)


def impl_tryPick__fn(f, t: MapTree[Any, Any]):
    return F.try_pick(f)(Map(t))


def spec_tryPick(f, t: MapTree[Any, Any]):
    return spec_treeTryPick(f, t)


def impl_pick__fn(f, t: MapTree[Any, Any]):
    return F.pick(f)(Map(t))


def spec_pick(f, t: MapTree[Any, Any]):
    r = spec_treeTryPick(f, t)
    if r.is_some():
        return r.value
    raise KeyError()


def impl_fold(f, s, t: MapTree[Any, Any]):
    return Map(t).fold(f, s)


def impl_fold__fn(f, s, t: MapTree[Any, Any]):
    return F.fold(f, s)(Map(t))


def spec_fold(f, s, t: MapTree[Any, Any]):
    return spec_treeFold(f, s, t)


def impl_foldBack(f, s, t: MapTree[Any, Any]):
    return Map(t).fold_back(f, s)


def impl_foldBack__fn(f, s, t: MapTree[Any, Any]):
    return F.fold_back(f, Map(t))(s)


def spec_foldBack(f, s, t: MapTree[Any, Any]):
    return spec_treeFoldBack(f, t, s)
