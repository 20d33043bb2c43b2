"""Traversals of the tree behind a Map: every entry once, in ascending key order.

Structural induction: the recursive calls inside the library functions stand for the specification
functions on the subtrees."""
from typing import Any, Callable

from expression import Nothing, Option, Some
from expression.collections import maptree as M
from expression.collections.maptree import MapTree, MapTreeLeaf, MapTreeNode

from specs.lib import opaque

CONTRACTS = {
    "expression.collections.maptree.fold": "spec_fold",
    "expression.collections.maptree.fold_back": "spec_foldBack",
    "expression.collections.maptree.exists": "spec_exists",
    "expression.collections.maptree.forall": "spec_forall",
    "expression.collections.maptree.iter": "spec_iter",
    "expression.collections.maptree.map": "spec_map",
    "expression.collections.maptree.try_pick": "spec_tryPick",
    "expression.collections.maptree.filter_aux": "spec_filterAux",
    "expression.collections.maptree.partition_aux": "spec_partitionAux",
    "expression.collections.maptree.add": "add",
}


def add(k, v, m):
    return opaque("add", "MapTree[Any, Any]", k, v, m)


def impl_fold(f, x, m: MapTree[Any, Any]):
    return M.fold(f, x, m)


def spec_fold(f, x, m: MapTree[Any, Any]):
    if m.is_none():
        return x
    n = m.value
    if isinstance(n, MapTreeNode):
        return spec_fold(f, f(spec_fold(f, x, n.left), (n.key, n.value)), n.right)
    return f(x, (n.key, n.value))


def impl_foldBack(f, m: MapTree[Any, Any], x):
    return M.fold_back(f, m, x)


def spec_foldBack(f, m: MapTree[Any, Any], x):
    if m.is_none():
        return x
    n = m.value
    if isinstance(n, MapTreeNode):
        return spec_foldBack(f, n.left, f((n.key, n.value), spec_foldBack(f, n.right, x)))
    return f((n.key, n.value), x)


def impl_exists(f, m: MapTree[Any, Any]):
    return bool(M.exists(f, m))


def spec_exists(f, m: MapTree[Any, Any]):
    if m.is_none():
        return False
    n = m.value
    if isinstance(n, MapTreeNode):
        return bool(spec_exists(f, n.left) or f(n.key, n.value) or spec_exists(f, n.right))
    return bool(f(n.key, n.value))


def impl_forall(f, m: MapTree[Any, Any]):
    return bool(M.forall(f, m))


def spec_forall(f, m: MapTree[Any, Any]):
    if m.is_none():
        return True
    n = m.value
    if isinstance(n, MapTreeNode):
        return bool(spec_forall(f, n.left) and f(n.key, n.value) and spec_forall(f, n.right))
    return bool(f(n.key, n.value))


def impl_iter(f, m: MapTree[Any, Any]):
    return M.iter(f, m)


def spec_iter(f, m: MapTree[Any, Any]) -> None:
    if m.is_none():
        return
    n = m.value
    if isinstance(n, MapTreeNode):
        spec_iter(f, n.left)
        f(n.key, n.value)
        spec_iter(f, n.right)
    else:
        f(n.key, n.value)


def impl_map(f, m: MapTree[Any, Any]):
    return M.map(f, m)


def spec_map(f, m: MapTree[Any, Any]) -> MapTree[Any, Any]:
    if m.is_none():
        return Nothing
    n = m.value
    if isinstance(n, MapTreeNode):
        left = spec_map(f, n.left)
        v = f(n.key, n.value)
        right = spec_map(f, n.right)
        return Some(MapTreeNode(n.key, v, left, right, n.height))
    return Some(MapTreeLeaf(n.key, f(n.key, n.value)))


def impl_tryPick(f: Callable[..., Option[Any]], m: MapTree[Any, Any]):
    return M.try_pick(f, m)


def spec_tryPick(f: Callable[..., Option[Any]], m: MapTree[Any, Any]) -> Option[Any]:
    if m.is_none():
        return Nothing
    n = m.value
    if isinstance(n, MapTreeNode):
        a = spec_tryPick(f, n.left)
        if a.is_some():
            return a
        b = f(n.key, n.value)
        if b.is_some():
            return b
        return spec_tryPick(f, n.right)
    return f(n.key, n.value)


def impl_filterAux(f, m: MapTree[Any, Any], acc: MapTree[Any, Any]):
    return M.filter_aux(f, m, acc)


def spec_filterAux(f, m: MapTree[Any, Any], acc: MapTree[Any, Any]) -> MapTree[Any, Any]:
    if m.is_none():
        return acc
    n = m.value
    if isinstance(n, MapTreeNode):
        acc = spec_filterAux(f, n.left, acc)
        if f(n.key, n.value):
            acc = add(n.key, n.value, acc)
        return spec_filterAux(f, n.right, acc)
    return add(n.key, n.value, acc) if f(n.key, n.value) else acc


def impl_filter(f, m: MapTree[Any, Any]):
    return M.filter(f, m)


def spec_filter(f, m: MapTree[Any, Any]):
    return spec_filterAux(f, m, Nothing)


def impl_partitionAux(f, m: MapTree[Any, Any], acc: tuple[MapTree[Any, Any], MapTree[Any, Any]]):
    return M.partition_aux(f, m, acc)


def keep(f, n, acc):
    yes, no = acc
    return (add(n.key, n.value, yes), no) if f(n.key, n.value) else (yes, add(n.key, n.value, no))


def spec_partitionAux(f, m: MapTree[Any, Any], acc: tuple[MapTree[Any, Any], MapTree[Any, Any]]) -> tuple[MapTree[Any, Any], MapTree[Any, Any]]:
    if m.is_none():
        return acc
    n = m.value
    if isinstance(n, MapTreeNode):
        return spec_partitionAux(f, n.left, keep(f, n, spec_partitionAux(f, n.right, acc)))
    return keep(f, n, acc)


def spec_partitionAux__ascending(f, m: MapTree[Any, Any], acc: tuple[MapTree[Any, Any], MapTree[Any, Any]]) -> tuple[MapTree[Any, Any], MapTree[Any, Any]]:
    if m.is_none():
        return acc
    n = m.value
    if isinstance(n, MapTreeNode):
        return spec_partitionAux(f, n.right, keep(f, n, spec_partitionAux(f, n.left, acc)))
    return keep(f, n, acc)


def impl_partition(f, m: MapTree[Any, Any]):
    return M.partition(f, m)


def spec_partition(f, m: MapTree[Any, Any]):
    return spec_partitionAux(f, m, (Nothing, Nothing))
