"""The comparison, hash and ordering that Option and Result get from the union decorator, on declared unions."""
from typing import Any

from expression.core.tagged_union import tagged_union


class Decl:
    tag: str
    a: Any
    b: Any
    c: Any


class Twin:
    tag: str
    a: Any
    b: Any
    c: Any


class Mixed:
    tag: str
    zeta: Any
    alpha: Any
    mid: Any


class Init:
    tag: str
    a: Any
    b: Any

    def __init__(self):
        self.more = 1


def impl_eq(v: Any, w: Any, frozen: bool, order: bool):
    C = tagged_union(Decl, frozen=frozen, order=order)
    return (C.__eq__(C(a=v), C(a=w)), C.__eq__(C(a=v), C(b=w)), C.__eq__(C(b=v), C(a=w)), C.__eq__(C(c=v), C(c=w)))


def spec_eq(v: Any, w: Any, frozen: bool, order: bool):
    return v == w, False, False, v == w


def impl_eqForeign(v: Any, o: Any):
    C = tagged_union(Decl, frozen=True)
    return C.__eq__(C(a=v), 1), C.__eq__(C(b=v), None), C.__eq__(C(a=v), "a"), C.__eq__(C(a=v), Init())


def spec_eqForeign(v: Any, o: Any):
    return False, False, False, False


def impl_eqOtherUnion(v: Any, frozen: bool, order: bool):
    C = tagged_union(Decl, frozen=frozen, order=order)
    D = tagged_union(Twin, frozen=frozen, order=order)
    return C.__eq__(C(a=v), D(a=v)), C.__eq__(C(c=v), D(c=v)), D.__eq__(D(b=v), C(b=v)), C.__eq__(C(a=v), D(b=v))


def spec_eqOtherUnion(v: Any, frozen: bool, order: bool):
    return False, False, False, False


def impl_hash(v: Any, w: Any):
    C = tagged_union(Decl, frozen=True)
    if v == w:
        return hash(C(a=v)) == hash(C(a=w)), hash(C(c=v)) == hash(C(c=w))


def spec_hash(v: Any, w: Any):
    if v == w:
        return True, True


def impl_order(v: Any, w: Any):
    C = tagged_union(Decl, frozen=True, order=True)
    return (C.__lt__(C(a=v), C(b=w)), C.__lt__(C(a=v), C(c=w)), C.__lt__(C(b=v), C(c=w)),
            C.__lt__(C(b=v), C(a=w)), C.__lt__(C(c=v), C(a=w)), C.__lt__(C(c=v), C(b=w)))


def spec_order(v: Any, w: Any):
    return True, True, True, False, False, False


def impl_orderDeclared(v: Any, w: Any):
    C = tagged_union(Mixed, frozen=True, order=True)
    return (C.__lt__(C(zeta=v), C(alpha=w)), C.__lt__(C(zeta=v), C(mid=w)), C.__lt__(C(alpha=v), C(mid=w)),
            C.__lt__(C(alpha=v), C(zeta=w)), C.__lt__(C(mid=v), C(zeta=w)), C.__lt__(C(mid=v), C(alpha=w)))


def spec_orderDeclared(v: Any, w: Any):
    return True, True, True, False, False, False


def impl_orderSame(v: int, w: int):
    C = tagged_union(Decl, frozen=True, order=True)
    return C.__lt__(C(a=v), C(a=w)), C.__lt__(C(c=v), C(c=w))


def spec_orderSame(v: int, w: int):
    return v < w, v < w


def impl_orderText(v: str, w: str):
    C = tagged_union(Decl, frozen=True, order=True)
    return C.__lt__(C(a=v), C(a=w)), C.__lt__(C(c=v), C(c=w))


def spec_orderText(v: str, w: str):
    return v < w, v < w


def impl_orderForeign(v: Any):
    C = tagged_union(Decl, frozen=True, order=True)
    return C.__lt__(C(a=v), 1), C.__lt__(C(a=v), None)


def spec_orderForeign(v: Any):
    return NotImplemented, NotImplemented
