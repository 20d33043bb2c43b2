"""Tail-recursive functions: the trampoline makes the same calls the plain recursion would make."""
from typing import Any

from expression import TailCall, tailrec, tailrec_async

from .lib import AFn, Fn


def impl_tailrec(f: Fn[Any], a: Any, k: Any):
    return tailrec(f)(a, key=k)


def spec_tailrec(f: Fn[Any], a: Any, k: Any):
    r = f(a, key=k)
    while isinstance(r, TailCall):
        r = f(*r.args, **r.kw)
    return r


async def impl_tailrecAsync(f: AFn[Any], a: Any, k: Any):
    return await tailrec_async(f)(a, key=k)


async def spec_tailrecAsync(f: AFn[Any], a: Any, k: Any):
    r = await f(a, key=k)
    while isinstance(r, TailCall):
        r = await f(*r.args, **r.kw)
    return r


def impl_twice(f: Fn[Any], a: Any, b: Any):
    g = tailrec(f)
    x = g(a)
    y = g(b)
    return (x, y)


def spec_twice(f: Fn[Any], a: Any, b: Any):
    x = f(a)
    while isinstance(x, TailCall):
        x = f(*x.args, **x.kw)
    y = f(b)
    while isinstance(y, TailCall):
        y = f(*y.args, **y.kw)
    return (x, y)


def impl_tailcall(a: Any, b: Any, k: Any):
    t = TailCall(a, b, key=k)
    return (t.args, t.kw)


def spec_tailcall(a: Any, b: Any, k: Any):
    return ((a, b), {"key": k})
