"""Traversals of small maps with known keys and arbitrary values: the tree functions themselves, no contracts."""
from typing import Any, Callable

from expression import Nothing, Option, Some
from expression.collections import Block, Map
from expression.collections import map as F

ENTRY = False
DEEP = 16


def four(a, b, c, d):
    return Map.of_seq([(3, c), (1, a), (4, d), (2, b)])


def listed(m):
    return (list(m.to_seq()), tuple(m.to_list()), len(m))


def impl_seven(a, b, c, d, e, f, g):
    m = Map.of_seq([(6, f), (1, a), (4, d), (2, b), (7, g), (3, c), (5, e)])
    return (list(m), list(m.to_seq()), list(F.to_seq(m)), tuple(m.to_list()), [x for x in m.items()], m.fold(lambda s, x: (*s, x), ()),
            m.fold_back(lambda x, s: (*s, x), ()), len(m))


def spec_seven(a, b, c, d, e, f, g):
    all = [(1, a), (2, b), (3, c), (4, d), (5, e), (6, f), (7, g)]
    return ([1, 2, 3, 4, 5, 6, 7], all, all, tuple(all), all, tuple(all), ((7, g), (6, f), (5, e), (4, d), (3, c), (2, b), (1, a)), 7)


def impl_iterate(f, a, b, c, d):
    four(a, b, c, d).iterate(f)


def spec_iterate(f, a, b, c, d):
    f(1, a)
    f(2, b)
    f(3, c)
    f(4, d)


def impl_map(f, a, b, c, d):
    return listed(four(a, b, c, d).map(f))


def spec_map(f, a, b, c, d):
    all = [(1, f(1, a)), (2, f(2, b)), (3, f(3, c)), (4, f(4, d))]
    return (all, tuple(all), 4)


def impl_filter(f, a, b, c, d):
    return tuple(four(a, b, c, d).filter(f).to_list())


def spec_filter(f, a, b, c, d):
    return tuple([x for x in ((1, a), (2, b), (3, c), (4, d)) if f(x[0], x[1])])


def impl_partition(f, a, b, c):
    x, y = Map.of_seq([(2, b), (1, a), (3, c)]).partition(f)
    return (tuple(x.to_list()), tuple(y.to_list()))


def spec_partition(f, a, b, c):
    x = ()
    y = ()
    for k, v in ((3, c), (2, b), (1, a)):
        if f(k, v):
            x = ((k, v), *x)
        else:
            y = ((k, v), *y)
    return (x, y)


def impl_exists(f, a, b, c, d):
    return bool(four(a, b, c, d).exists(f))


def spec_exists(f, a, b, c, d):
    return bool(f(1, a) or f(2, b) or f(3, c) or f(4, d))


def impl_forall(f, a, b, c, d):
    return bool(four(a, b, c, d).for_all(f))


def spec_forall(f, a, b, c, d):
    return bool(f(1, a) and f(2, b) and f(3, c) and f(4, d))


def impl_tryPick(f: Callable[..., Option[Any]], a, b, c, d):
    return four(a, b, c, d).try_pick(f)


def spec_tryPick(f: Callable[..., Option[Any]], a, b, c, d):
    for k, v in ((1, a), (2, b), (3, c), (4, d)):
        r = f(k, v)
        if r.is_some():
            return r
    return Nothing


def impl_fold(f, s, a, b, c, d):
    return four(a, b, c, d).fold(f, s)


def spec_fold(f, s, a, b, c, d):
    return f(f(f(f(s, (1, a)), (2, b)), (3, c)), (4, d))


def impl_foldBack(f, s, a, b, c, d):
    return four(a, b, c, d).fold_back(f, s)


def spec_foldBack(f, s, a, b, c, d):
    return f((1, a), f((2, b), f((3, c), f((4, d), s))))
