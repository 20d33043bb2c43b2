"""Tagged unions: exactly one case, immutable, equality/hash/order by case and payload."""
from copy import deepcopy
from dataclasses import field
from typing import Any

from expression.core.tagged_union import case, tag, tagged_union

from .lib import Fn


class Decl:
    tag: str
    a: Any
    b: Any
    c: Any


class Twin:
    tag: str
    a: Any
    b: Any
    c: Any


class Mixed:
    tag: str
    zeta: Any
    alpha: Any
    mid: Any


class Init:
    tag: str
    a: Any
    b: Any

    def __init__(self):
        self.more = 1


# ---------------------------------------------------------------- construction
def impl_one(v: Any, frozen: bool, eq: bool, order: bool):
    C = tagged_union(Decl, frozen=frozen, eq=eq, order=order)
    x, y, z = C(a=v), C(b=v), C(c=v)
    return (x.tag, x.a, hasattr(x, "b"), hasattr(x, "c"), y.tag, y.b, hasattr(y, "a"), hasattr(y, "c"), z.tag, z.c, hasattr(z, "a"), hasattr(z, "b"))


def impl_one__decorator(v: Any, frozen: bool, eq: bool, order: bool):
    C = tagged_union(frozen=frozen, eq=eq, order=order)(Decl)
    x, y, z = C(a=v), C(b=v), C(c=v)
    return (x.tag, x.a, hasattr(x, "b"), hasattr(x, "c"), y.tag, y.b, hasattr(y, "a"), hasattr(y, "c"), z.tag, z.c, hasattr(z, "a"), hasattr(z, "b"))


def spec_one(v: Any, frozen: bool, eq: bool, order: bool):
    return ("a", v, False, False, "b", v, False, False, "c", v, False, False)


def impl_withTag(v: Any, t: str, frozen: bool):
    C = tagged_union(Decl, frozen=frozen)
    try:
        x = C(tag=t, b=v)
    except TypeError:
        return "rejected"
    return x.tag, x.b


def spec_withTag(v: Any, t: str, frozen: bool):
    if t == "b":
        return "b", v
    return "rejected"


def impl_tagNone(v: Any):
    C = tagged_union(Decl, frozen=True)
    x = C(tag=None, b=v)
    return x.tag, x.b


def spec_tagNone(v: Any):
    return "b", v


def impl_rejected(v: Any, w: Any, t: str, frozen: bool):
    C = tagged_union(Decl, frozen=frozen)
    out = []
    try:
        out.append(C())
    except TypeError:
        out.append("none")
    try:
        out.append(C(tag=t))
    except TypeError:
        out.append("only tag")
    try:
        out.append(C(a=v, b=w))
    except TypeError:
        out.append("two")
    try:
        out.append(C(b=v, c=w))
    except TypeError:
        out.append("two")
    try:
        out.append(C(a=v, unknown=w))
    except TypeError:
        out.append("two")
    try:
        out.append(C(unknown=v))
    except TypeError:
        out.append("unknown")
    try:
        out.append(C(tag="a", a=v, b=w))
    except TypeError:
        out.append("two")
    return out


def spec_rejected(v: Any, w: Any, t: str, frozen: bool):
    return ["none", "only tag", "two", "two", "two", "unknown", "two"]


def impl_ownInit(v: Any):
    C = tagged_union(Init, frozen=False)
    x = C(b=v)
    return x.tag, x.b, x.more


def spec_ownInit(v: Any):
    return "b", v, 1


# ---------------------------------------------------------------- immutability
def impl_frozenSet(v: Any, w: Any, n: str):
    C = tagged_union(Decl, frozen=True)
    x = C(b=v)
    C.__setattr__(x, n, w)
    return "accepted", x.tag, x.b


def impl_frozenDel(v: Any, n: str):
    C = tagged_union(Decl, frozen=True)
    x = C(b=v)
    C.__delattr__(x, n)
    return "accepted", x.tag, x.b


def spec_frozenSet(v: Any, w: Any, n: str):
    if n in ("tag", "a", "b", "c"):
        raise TypeError()
    object.__setattr__(Decl, n, w)
    return "accepted", "b", v


def spec_frozenDel(v: Any, n: str):
    if n in ("tag", "a", "b", "c"):
        raise TypeError()
    object.__delattr__(Decl, n)
    return "accepted", "b", v


def impl_frozenAssign(v: Any, w: Any):
    C = tagged_union(Decl, frozen=True)
    x = C(b=v)
    out = []
    try:
        x.b = w
    except TypeError:
        out.append("b")
    try:
        x.tag = w
    except TypeError:
        out.append("tag")
    try:
        x.a = w
    except TypeError:
        out.append("a")
    try:
        x.c = w
    except TypeError:
        out.append("c")
    try:
        del x.b
    except TypeError:
        out.append("del b")
    try:
        del x.tag
    except TypeError:
        out.append("del tag")
    return out, x.tag, x.b


def spec_frozenAssign(v: Any, w: Any):
    return ["b", "tag", "a", "c", "del b", "del tag"], "b", v


# ---------------------------------------------------------------- equality, hash, order
def impl_eq(v: Any, w: Any, frozen: bool, order: bool):
    C = tagged_union(Decl, frozen=frozen, order=order)
    return (C.__eq__(C(a=v), C(a=w)), C.__eq__(C(a=v), C(b=w)), C.__eq__(C(b=v), C(a=w)), C.__eq__(C(c=v), C(c=w)))


def spec_eq(v: Any, w: Any, frozen: bool, order: bool):
    return v == w, False, False, v == w


def impl_eqForeign(v: Any, o: Any):
    C = tagged_union(Decl, frozen=True)
    return C.__eq__(C(a=v), 1), C.__eq__(C(b=v), None), C.__eq__(C(a=v), "a"), C.__eq__(C(a=v), Init())


def spec_eqForeign(v: Any, o: Any):
    return False, False, False, False


def impl_eqOtherUnion(v: Any, frozen: bool, order: bool):
    C = tagged_union(Decl, frozen=frozen, order=order)
    D = tagged_union(Twin, frozen=frozen, order=order)
    return C.__eq__(C(a=v), D(a=v)), C.__eq__(C(c=v), D(c=v)), D.__eq__(D(b=v), C(b=v)), C.__eq__(C(a=v), D(b=v))


def spec_eqOtherUnion(v: Any, frozen: bool, order: bool):
    return False, False, False, False


def impl_hash(v: Any, w: Any):
    C = tagged_union(Decl, frozen=True)
    if v == w:
        return hash(C(a=v)) == hash(C(a=w)), hash(C(c=v)) == hash(C(c=w))


def spec_hash(v: Any, w: Any):
    if v == w:
        return True, True


def impl_order(v: Any, w: Any):
    C = tagged_union(Decl, frozen=True, order=True)
    return (C.__lt__(C(a=v), C(b=w)), C.__lt__(C(a=v), C(c=w)), C.__lt__(C(b=v), C(c=w)),
            C.__lt__(C(b=v), C(a=w)), C.__lt__(C(c=v), C(a=w)), C.__lt__(C(c=v), C(b=w)))


def spec_order(v: Any, w: Any):
    return True, True, True, False, False, False


def impl_orderDeclared(v: Any, w: Any):
    C = tagged_union(Mixed, frozen=True, order=True)
    return (C.__lt__(C(zeta=v), C(alpha=w)), C.__lt__(C(zeta=v), C(mid=w)), C.__lt__(C(alpha=v), C(mid=w)),
            C.__lt__(C(alpha=v), C(zeta=w)), C.__lt__(C(mid=v), C(zeta=w)), C.__lt__(C(mid=v), C(alpha=w)))


def spec_orderDeclared(v: Any, w: Any):
    return True, True, True, False, False, False


def impl_orderSame(v: int, w: int):
    C = tagged_union(Decl, frozen=True, order=True)
    return C.__lt__(C(a=v), C(a=w)), C.__lt__(C(c=v), C(c=w))


def spec_orderSame(v: int, w: int):
    return v < w, v < w


def impl_orderText(v: str, w: str):
    C = tagged_union(Decl, frozen=True, order=True)
    return C.__lt__(C(a=v), C(a=w)), C.__lt__(C(c=v), C(c=w))


def spec_orderText(v: str, w: str):
    return v < w, v < w


def impl_orderForeign(v: Any):
    C = tagged_union(Decl, frozen=True, order=True)
    return C.__lt__(C(a=v), 1), C.__lt__(C(a=v), None)


def spec_orderForeign(v: Any):
    return NotImplemented, NotImplemented


# ---------------------------------------------------------------- copies
def impl_copy(v: Any, frozen: bool):
    C = tagged_union(Decl, frozen=frozen)
    x = C(b=v)
    y = C.__copy__(x)
    return y.tag, y.b, hasattr(y, "a"), hasattr(y, "c"), y is x, y.b is v


def spec_copy(v: Any, frozen: bool):
    return "b", v, False, False, False, True


def impl_deepcopy(v: Any, memo: Any, frozen: bool):
    C = tagged_union(Decl, frozen=frozen)
    y = C.__deepcopy__(C(c=v), memo)
    return y.tag, y.c, hasattr(y, "a"), hasattr(y, "b")


def spec_deepcopy(v: Any, memo: Any, frozen: bool):
    return "c", deepcopy(v, memo), False, False


def impl_deepcopyShared(v: Any, w: Any, frozen: bool):
    C = tagged_union(Decl, frozen=frozen)
    return C.__deepcopy__(C(b=v), {id(v): w}).b


def spec_deepcopyShared(v: Any, w: Any, frozen: bool):
    return w                            # what has been copied already is not copied again


def impl_pickle(v: Any, frozen: bool):
    C = tagged_union(Decl, frozen=frozen)
    y = C.__new__(C)
    C.__setstate__(y, C.__getstate__(C(b=v)))
    return y.tag, y.b, hasattr(y, "a"), hasattr(y, "c")


def spec_pickle(v: Any, frozen: bool):
    return "b", v, False, False


def impl_pickleCompares(v: Any, w: Any):
    C = tagged_union(Decl, frozen=True, order=True)
    y = C.__new__(C)
    C.__setstate__(y, C.__getstate__(C(b=v)))
    return C.__eq__(y, C(b=w)), C.__lt__(y, C(c=w)), C.__lt__(C(a=w), y)


def spec_pickleCompares(v: Any, w: Any):
    return v == w, True, True


def impl_declared():
    return case(), tag()


def spec_declared():
    return field(init=False, kw_only=True), field(init=False, kw_only=True)
