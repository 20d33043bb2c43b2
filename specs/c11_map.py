"""Map methods and functions in terms of the tree operations.

Calls of the tree functions stand for the operations established in c11_tree and c13_*."""
from typing import Any, Callable

from expression import Nothing, Option, Some
from expression.collections import Block, Map
from expression.collections import map as F
from expression.collections.maptree import MapTree

from specs.lib import Iter, opaque, require

ENTRY = False
CONTRACTS = {
    "expression.collections.maptree.add": "added",
    "expression.collections.maptree.remove": "removed",
    "expression.collections.maptree.change": "spec_changeTree",
    "expression.collections.maptree.try_find": "found",
    "expression.collections.maptree.mem": "member",
    "expression.collections.maptree.size": "count",
    "expression.collections.maptree.mk_iterator": "entries",
    "expression.collections.maptree.to_list": "listed",
}

T = MapTree[Any, Any]


def added(k, v, m):
    return opaque("added", "MapTree[Any, Any]", k, v, m)


def removed(k, m):
    return opaque("removed", "MapTree[Any, Any]", k, m)


def spec_changeTree(k, u, m) -> MapTree[Any, Any]:
    pass


def found(k, m):
    return opaque("found", "Option[Any]", k, m)


def member(k, m):
    return found(k, m).is_some()


def count(m):
    return len(contents(m))


def contents(m):
    return opaque("contents", "tuple[tuple[Any, Any], ...]", m)


def entries(m):
    return iter(contents(m))


def listed(m):
    return Block(contents(m))


def tree(m):
    require(hasattr(m, "_tree"))
    return m._tree


# ------------------------------------------------------------------ updating
def impl_add(k, v, t: MapTree[Any, Any]):
    return tree(Map(t).add(k, v))


def impl_add__fn(k, v, t: MapTree[Any, Any]):
    return tree(F.add(k, v)(Map(t)))


def spec_add(k, v, t: MapTree[Any, Any]):
    return added(k, v, t)


def impl_remove(k, t: MapTree[Any, Any]):
    return tree(Map(t).remove(k))


def impl_remove__fn(k, t: MapTree[Any, Any]):
    return tree(F.remove(k)(Map(t)))


def spec_remove(k, t: MapTree[Any, Any]):
    return removed(k, t)


def impl_change(k, f, t: MapTree[Any, Any]):
    return tree(Map(t).change(k, f))


def impl_change__fn(k, f, t: MapTree[Any, Any]):
    return tree(F.change(k, f)(Map(t)))


def spec_change(k, f, t: MapTree[Any, Any]):
    return spec_changeTree(k, f, t)


def impl_persistent(k, v, f, t: MapTree[Any, Any]):
    m = Map(t)
    m.add(k, v)
    m.remove(k)
    m.change(k, f)
    return tree(m)


def spec_persistent(k, v, f, t: MapTree[Any, Any]):
    spec_changeTree(k, f, t)
    return t


# ------------------------------------------------------------------ building
def impl_build(xs: Iter[tuple[Any, Any]]):
    return tree(Map.of_seq(xs))


def impl_build__fn(xs: Iter[tuple[Any, Any]]):
    return tree(F.of_seq(xs))


def impl_build__create(xs: Iter[tuple[Any, Any]]):
    return tree(Map.create(xs))


def impl_build__createFn(xs: Iter[tuple[Any, Any]]):
    return tree(F.create(xs))


def spec_build(xs: Iter[tuple[Any, Any]]):
    t = Nothing
    for k, v in xs:
        t = added(k, v, t)
    return t


def impl_ofList(xs: list[tuple[Any, Any]]):
    return tree(Map.of_list(xs))


def impl_ofList__fn(xs: list[tuple[Any, Any]]):
    return tree(F.of_list(xs))


def spec_ofList(xs: list[tuple[Any, Any]]):
    t = Nothing
    for k, v in xs:
        t = added(k, v, t)
    return t


def impl_ofBlock(xs: tuple[tuple[Any, Any], ...]):
    return tree(Map.of_block(Block(xs)))


def impl_ofBlock__fn(xs: tuple[tuple[Any, Any], ...]):
    return tree(F.of_block(Block(xs)))


def spec_ofBlock(xs: tuple[tuple[Any, Any], ...]):
    t = Nothing
    for k, v in xs:
        t = added(k, v, t)
    return t


def impl_of(x, y):
    return tree(Map.of(a=x, b=y))


def impl_of__fn(x, y):
    return tree(F.of(a=x, b=y))


def spec_of(x, y):
    return added("b", y, added("a", x, Nothing))


def impl_empty():
    return (tree(Map.empty()), tree(Map()), tree(F.empty), Map.empty().is_empty(), F.is_empty(Map()), bool(Map()))


def spec_empty():
    return (Nothing, Nothing, Nothing, True, True, False)


# ------------------------------------------------------------------ looking up
def impl_tryFind(k, t: MapTree[Any, Any]):
    return Map(t).try_find(k)


def impl_tryFind__fn(k, t: MapTree[Any, Any]):
    return F.try_find(k)(Map(t))


def spec_tryFind(k, t: MapTree[Any, Any]):
    return found(k, t)


def impl_find(k, t: MapTree[Any, Any]):
    return Map(t)[k]


def impl_find__fn(k, t: MapTree[Any, Any]):
    return F.find(k)(Map(t))


def spec_find(k, t: MapTree[Any, Any]):
    r = found(k, t)
    if r.is_some():
        return r.value
    raise KeyError("missing")


def impl_tryGetValue(k, t: MapTree[Any, Any]):
    out = []
    ok = Map(t).try_get_value(k, out)
    return (ok, out)


def spec_tryGetValue(k, t: MapTree[Any, Any]):
    r = found(k, t)
    return (True, [r.value]) if r.is_some() else (False, [])


def impl_contains(k, t: MapTree[Any, Any]):
    return Map(t).contains_key(k)


def impl_contains__fn(k, t: MapTree[Any, Any]):
    return F.contains_key(k)(Map(t))


def impl_contains__operator(k, t: MapTree[Any, Any]):
    return k in Map(t)


def spec_contains(k, t: MapTree[Any, Any]):
    return member(k, t)


def impl_len(t: MapTree[Any, Any]):
    return len(Map(t))


def impl_len__fn(t: MapTree[Any, Any]):
    return F.count(Map(t))


def spec_len(t: MapTree[Any, Any]):
    return count(t)


def impl_isEmpty(t: MapTree[Any, Any]):
    m = Map(t)
    return (m.is_empty(), F.is_empty(m), bool(m))


def spec_isEmpty(t: MapTree[Any, Any]):
    return (t.is_none(), t.is_none(), t.is_some())


def spec_isEmpty__size(t: MapTree[Any, Any]):
    e = len(contents(t)) == 0
    return (e, e, not e)


def impl_keys(t: MapTree[Any, Any]):
    return list(Map(t))


def spec_keys(t: MapTree[Any, Any]):
    return [k for k, _ in contents(t)]


def impl_toSeq(t: MapTree[Any, Any]):
    return list(Map(t).to_seq())


def impl_toSeq__fn(t: MapTree[Any, Any]):
    return list(F.to_seq(Map(t)))


def spec_toSeq(t: MapTree[Any, Any]):
    return [x for x in contents(t)]


def impl_toSeqAgain(t: MapTree[Any, Any]):
    s = Map(t).to_seq()
    list(s)
    return list(s)


def spec_toSeqAgain(t: MapTree[Any, Any]):
    return [x for x in contents(t)]


def impl_toList(t: MapTree[Any, Any]):
    return tuple(Map(t).to_list())


def impl_toList__fn(t: MapTree[Any, Any]):
    return tuple(F.to_list(Map(t)))


def spec_toList(t: MapTree[Any, Any]):
    return contents(t)
