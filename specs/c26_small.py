"""Small maps with known keys and arbitrary values: equality and hash follow the entries, not the tree."""
from typing import Any

from expression import Nothing, Some
from expression.collections import Map
from expression.collections import map as F

from specs.lib import assume

ENTRY = False
DEEP = 12
STEPS = 40


def shapes(a, b, c, d):
    """one mapping, reached in different ways"""
    return (
        Map.of_seq([(1, a), (2, b), (3, c), (4, d)]),
        Map.of_seq([(4, d), (3, c), (2, b), (1, a)]),
        Map.of_seq([(3, a), (1, d), (4, d), (3, c), (2, b), (1, a)]),
        Map.of_seq([(9, a), (0, b), (2, b), (1, a), (5, a), (3, c), (4, d)]).remove(0).remove(9).remove(5),
        Map.of_seq([(2, b), (1, c), (3, c), (4, a)]).change(1, lambda o: Some(a)).change(4, lambda o: Some(d)),
        Map.of_seq([(2, b), (3, c), (4, d)]).add(1, a).filter(lambda k, v: True),
    )


def impl_hash(a, b, c, d):
    return [hash(m) for m in shapes(a, b, c, d)]


def spec_hash(a, b, c, d):
    h = hash(Map.of_seq([(2, b), (1, a), (3, c), (4, d)]))
    return [h, h, h, h, h, h]


def impl_hashTwice(a, b, c):
    m = Map.of_seq([(2, b), (1, a), (3, c)])
    return (hash(m), hash(m))


def spec_hashTwice(a, b, c):
    h = hash(Map.of_seq([(1, a), (2, b), (3, c)]))
    return (h, h)


def impl_equal(a, b, c, d):
    assume(a == a and b == b and c == c and d == d)
    m = Map.of_seq([(2, b), (1, a), (3, c), (4, d)])
    return [(x == m, m == x, x != m) for x in shapes(a, b, c, d)]


def spec_equal(a, b, c, d):
    return [(True, True, False), (True, True, False), (True, True, False), (True, True, False), (True, True, False), (True, True, False)]


def impl_missing(a, b, c):
    m = Map.of_seq([(2, b), (1, a), (3, c)])
    return [(x == m, m == x) for x in (m.remove(1), m.remove(2), m.remove(3), m.add(0, a), m.add(4, c), Map.empty(), Map.of_seq([(1, a), (2, b), (4, c)]))]


def spec_missing(a, b, c):
    return [(False, False), (False, False), (False, False), (False, False), (False, False), (False, False), (False, False)]


def impl_values(a, b, x, y):
    assume(a == a and b == b)
    m = Map.of_seq([(2, b), (1, a)])
    return bool(m == Map.of_seq([(1, x), (2, y)]))


def spec_values(a, b, x, y):
    return bool(a == x and b == y)
