"""Vocabulary for the tree behind a Map: its entries in order, its heights, and the contracts of the
functions that update it (used in place of calls inside one another)."""
from typing import Any

from expression import Option
from expression.collections.maptree import MapTree, MapTreeLeaf, MapTreeNode

from specs.lib import assume, define, defined, known_zero, opaque, shape_known


def contents(t):
    """the entries in order"""
    if defined("contents", t):
        return opaque("contents", "tuple[Any, ...]", t)
    if not shape_known(t, MapTreeNode):
        if known_zero(ht(t)):
            return ()
        return opaque("contents", "tuple[Any, ...]", t)
    if t.is_none():
        return ()
    n = t.value
    if isinstance(n, MapTreeNode):
        return (*contents(n.left), (n.key, n.value), *contents(n.right))
    return ((n.key, n.value),)


def ht(t):
    """the height"""
    if defined("height", t):
        return opaque("height", "int", t)
    if not shape_known(t, MapTreeNode):
        h = opaque("height", "int", t)
        assume(h >= 0)
        return h
    if t.is_none():
        return 0
    n = t.value
    if isinstance(n, MapTreeNode):
        return n.height
    return 1


def on_shape(t):
    """what is known of an arbitrary tree of the library once its shape is known"""
    h = opaque("height", "int", t)
    if t.is_none():
        assume(h == 0)
        return
    assume(h >= 1)
    if shape_known(t, MapTreeNode):
        n = t.value
        if isinstance(n, MapTreeNode):
            left, right = ht(n.left), ht(n.right)
            assume(n.height >= 2)
            assume(h == n.height)
            assume(left <= right + 2)
            assume(right <= left + 2)
            if left < right:
                assume(n.height == right + 1)
            else:
                assume(n.height == left + 1)
        else:
            assume(h == 1)


def wf(t):
    """is every node of the tree balanced and its recorded height right?"""
    if defined("unbalanced", t):
        return False
    if not shape_known(t, MapTreeNode):
        return True
    if t.is_none():
        return True
    n = t.value
    if isinstance(n, MapTreeNode):
        left, right = ht(n.left), ht(n.right)
        if not (wf(n.left) and wf(n.right) and left <= right + 2 and right <= left + 2):
            return False
        return n.height >= 2 and n.height == (right + 1 if left < right else left + 1)
    return True


def added(k, v, m):
    t = opaque("added", "MapTree[Any, Any]", k, v, m)
    assume(ht(m) <= ht(t))
    assume(ht(t) <= ht(m) + 1)
    assume(ht(t) >= 1)
    return t


def removed(k, m):
    t = opaque("removed", "MapTree[Any, Any]", k, m)
    assume(ht(m) - 1 <= ht(t))
    assume(ht(t) <= ht(m))
    return t


def changed_tree(k, m):
    t = opaque("changed", "MapTree[Any, Any]", k, m)
    assume(ht(m) - 1 <= ht(t))
    assume(ht(t) <= ht(m) + 1)
    return t


def changed(k, u, m):
    u(("change", k, m))
    return changed_tree(k, m)


def spliced(m):
    """the first entry of a tree that has one, and a tree of the others"""
    if m.is_none():
        raise RuntimeError("no first entry")
    k = opaque("first key", "Any", m)
    v = opaque("first value", "Any", m)
    t = opaque("others", "MapTree[Any, Any]", m)
    assume(ht(m) - 1 <= ht(t))
    assume(ht(t) <= ht(m))
    define("contents", ((k, v), *contents(t)), m)
    return (k, v, t)


def balanced(t1, k, v, t2):
    t = opaque("balanced", "MapTree[Any, Any]", t1, k, v, t2)
    define("contents", (*contents(t1), (k, v), *contents(t2)), t)
    h1, h2 = ht(t1), ht(t2)
    h = ht(t)
    top = h2 if h1 < h2 else h1
    if h1 + 2 < h2 or h2 + 2 < h1:
        assume(top <= h)
        assume(h <= top + 1)
        if h1 + 3 < h2 or h2 + 3 < h1:
            define("unbalanced", True, t)
    else:
        assume(h == top + 1)
    return t
