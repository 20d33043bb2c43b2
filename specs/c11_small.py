"""Short histories of a Map with known keys and arbitrary values: the tree functions themselves, no contracts."""
from typing import Any

from expression import Nothing, Option, Some
from expression.collections import Block, Map
from expression.collections import map as F

ENTRY = False
DEEP = 12


def view(m, keys):
    """everything the public interface says about these keys"""
    return (
        len(m), list(m), list(m.to_seq()), tuple(m.to_list()), [x for x in m.items()], bool(m),
        [(m.contains_key(k), k in m, m.try_find(k), m[k] if k in m else None) for k in keys],
    )


def said(entries, keys):
    """what a mapping with these entries, in key order, has to say about them"""
    found = []
    for k in keys:
        hit = Nothing
        for x, y in entries:
            if x == k:
                hit = Some(y)
        found.append((hit.is_some(), hit.is_some(), hit, hit.value if hit.is_some() else None))
    return (len(entries), [k for k, _ in entries], list(entries), tuple(entries), list(entries), len(entries) > 0, found)


K = (0, 1, 2, 3, 4, 5, 6, 7)


def impl_ascending(a, b, c, d, e):
    return view(Map.of_seq([(1, a), (2, b), (3, c), (4, d), (5, e)]), K)


def impl_ascending__descending(a, b, c, d, e):
    return view(Map.of_seq([(5, e), (4, d), (3, c), (2, b), (1, a)]), K)


def impl_ascending__inside(a, b, c, d, e):
    return view(Map.of_seq([(1, a), (5, e), (3, c), (2, b), (4, d)]), K)


def impl_ascending__outside(a, b, c, d, e):
    return view(Map.of_seq([(3, c), (4, d), (2, b), (5, e), (1, a)]), K)


def impl_ascending__repeated(a, b, c, d, e):
    return view(Map.of_seq([(3, e), (4, d), (2, b), (3, a), (5, e), (1, b), (3, c), (1, a)]), K)


def impl_ascending__list(a, b, c, d, e):
    return view(Map.of_list([(3, e), (4, d), (2, b), (3, c), (5, e), (1, a)]), K)


def impl_ascending__block(a, b, c, d, e):
    return view(Map.of_block(Block.of_seq([(3, e), (4, d), (2, b), (3, c), (5, e), (1, a)])), K)


def impl_ascending__create(a, b, c, d, e):
    return view(Map.create([(4, d), (2, b), (3, c), (5, e), (1, a)]), K)


def impl_ascending__added(a, b, c, d, e):
    return view(Map.empty().add(2, e).add(1, a).add(2, b).add(5, e).add(3, c).add(4, d), K)


def impl_ascending__removed(a, b, c, d, e):
    m = Map.of_seq([(1, e), (0, a), (7, a), (2, b), (6, c), (3, c), (5, e), (4, d)])
    return view(m.remove(7).remove(0).add(1, a).remove(6), K)


def impl_ascending__changed(a, b, c, d, e):
    m = Map.of_seq([(1, e), (7, a), (2, b), (6, c), (3, c), (5, e)])
    m = m.change(7, lambda o: Nothing).change(4, lambda o: Some(d)).change(1, lambda o: Some(a))
    return view(m.change(6, lambda o: Nothing).change(0, lambda o: Nothing), K)


def spec_ascending(a, b, c, d, e):
    return said(((1, a), (2, b), (3, c), (4, d), (5, e)), K)


def impl_removeEach(a, b, c, d, e):
    m = Map.of_seq([(1, a), (2, b), (3, c), (4, d), (5, e)])
    return [tuple(m.remove(k).to_list()) for k in (0, 1, 2, 3, 4, 5, 6)]


def impl_removeEach__change(a, b, c, d, e):
    m = Map.of_seq([(3, c), (1, a), (5, e), (2, b), (4, d)])
    return [tuple(m.change(k, lambda o: Nothing).to_list()) for k in (0, 1, 2, 3, 4, 5, 6)]


def spec_removeEach(a, b, c, d, e):
    all = ((1, a), (2, b), (3, c), (4, d), (5, e))
    return [tuple(x for x in all if x[0] != k) for k in (0, 1, 2, 3, 4, 5, 6)]


def impl_removeAll(a, b, c):
    m = Map.of_seq([(2, a), (1, b), (3, c)])
    return (view(m.remove(1).remove(2).remove(3), K), view(m.remove(3).remove(1).remove(2), K), view(m.remove(2).remove(3).remove(1), K))


def spec_removeAll(a, b, c):
    e = said((), K)
    return (e, e, e)


def impl_changeEach(f, a, b, c):
    """the entry is handed to the function and replaced by its answer"""
    m = Map.of_seq([(2, b), (1, a), (3, c)])
    return [tuple(m.change(k, lambda o: Some((k, o))).to_list()) for k in (0, 1, 2, 3, 4)]


def spec_changeEach(f, a, b, c):
    return [
        ((0, (0, Nothing)), (1, a), (2, b), (3, c)),
        ((1, (1, Some(a))), (2, b), (3, c)),
        ((1, a), (2, (2, Some(b))), (3, c)),
        ((1, a), (2, b), (3, (3, Some(c)))),
        ((1, a), (2, b), (3, c), (4, (4, Nothing))),
    ]
