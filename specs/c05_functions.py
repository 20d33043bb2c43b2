"""Currying, flipping and partial application deliver every argument to its position."""
from typing import Any

from expression import curry, curry_flip, flip, fst, identity, pipeable, snd
from expression.core.misc import starid
from specs.lib import Fn


def impl_curry0(f: Fn[Any], a: Any):
    return curry(0)(f)(a)


def impl_curry0__0(f: Fn[Any], a: Any):
    return curry(0)(f)(a)


def spec_curry0(f: Fn[Any], a: Any):
    return f(a)


def impl_curry1(f: Fn[Any], a: Any, b: Any):
    return curry(1)(f)(a)(b)


def spec_curry1(f: Fn[Any], a: Any, b: Any):
    return f(a, b)


def impl_curry2(f: Fn[Any], a: Any, b: Any, c: Any):
    return curry(2)(f)(a)(b)(c)


def spec_curry2(f: Fn[Any], a: Any, b: Any, c: Any):
    return f(a, b, c)


def impl_curry3(f: Fn[Any], a: Any, b: Any, c: Any, d: Any):
    return curry(3)(f)(a)(b)(c)(d)


def spec_curry3(f: Fn[Any], a: Any, b: Any, c: Any, d: Any):
    return f(a, b, c, d)


def impl_curry4(f: Fn[Any], a: Any, b: Any, c: Any, d: Any, e: Any):
    return curry(4)(f)(a)(b)(c)(d)(e)


def spec_curry4(f: Fn[Any], a: Any, b: Any, c: Any, d: Any, e: Any):
    return f(a, b, c, d, e)


def impl_curryRest(f: Fn[Any], a: Any, b: Any, c: Any, k: Any):
    return curry(1)(f)(a)(b, c, key=k)


def spec_curryRest(f: Fn[Any], a: Any, b: Any, c: Any, k: Any):
    return f(a, b, c, key=k)


def impl_curryShared(f: Fn[Any], a: Any, b: Any, c: Any):
    g = curry(1)(f)(a)
    x = g(b)
    y = g(c)
    return (x, y)


def spec_curryShared(f: Fn[Any], a: Any, b: Any, c: Any):
    x = f(a, b)
    y = f(a, c)
    return (x, y)


def impl_curryFresh(f: Fn[Any], a: Any, b: Any, c: Any, d: Any):
    h = curry(1)(f)
    g1 = h(a)
    g2 = h(b)
    x = g1(c)
    y = g2(d)
    return (x, y)


def spec_curryFresh(f: Fn[Any], a: Any, b: Any, c: Any, d: Any):
    x = f(a, c)
    y = f(b, d)
    return (x, y)


def impl_curryIdle(f: Fn[Any], a: Any, b: Any):
    curry(2)(f)(a)(b)
    return None


def spec_curryIdle(f: Fn[Any], a: Any, b: Any):
    return None


def impl_curryFlip0(f: Fn[Any], a: Any, b: Any, k: Any):
    return curry_flip(0)(f)(a, b, key=k)


def spec_curryFlip0(f: Fn[Any], a: Any, b: Any, k: Any):
    return f(a, b, key=k)


def impl_curryFlip1(f: Fn[Any], a: Any, b: Any, c: Any, k: Any):
    return curry_flip(1)(f)(a, b, key=k)(c)


def spec_curryFlip1(f: Fn[Any], a: Any, b: Any, c: Any, k: Any):
    return f(c, a, b, key=k)


def impl_curryFlip2(f: Fn[Any], a: Any, b: Any, c: Any, k: Any):
    return curry_flip(2)(f)(a, key=k)(b)(c)


def spec_curryFlip2(f: Fn[Any], a: Any, b: Any, c: Any, k: Any):
    return f(b, c, a, key=k)


def impl_curryFlip3(f: Fn[Any], a: Any, b: Any, c: Any, d: Any):
    return curry_flip(3)(f)(a)(b)(c)(d)


def spec_curryFlip3(f: Fn[Any], a: Any, b: Any, c: Any, d: Any):
    return f(b, c, d, a)


def impl_curryFlip4(f: Fn[Any], a: Any, b: Any, c: Any, d: Any, e: Any):
    return curry_flip(4)(f)(a)(b)(c)(d)(e)


def spec_curryFlip4(f: Fn[Any], a: Any, b: Any, c: Any, d: Any, e: Any):
    return f(b, c, d, e, a)


def impl_curryFlipEmpty(f: Fn[Any], c: Any):
    return curry_flip(1)(f)()(c)


def spec_curryFlipEmpty(f: Fn[Any], c: Any):
    return f(c)


def impl_curryFlipShared(f: Fn[Any], a: Any, b: Any, c: Any):
    g = curry_flip(1)(f)(a)
    x = g(b)
    y = g(c)
    return (x, y)


def spec_curryFlipShared(f: Fn[Any], a: Any, b: Any, c: Any):
    x = f(b, a)
    y = f(c, a)
    return (x, y)


def impl_curryFlipFresh(f: Fn[Any], a: Any, b: Any, c: Any, d: Any):
    h = curry_flip(1)(f)
    g1 = h(a)
    g2 = h(b)
    x = g1(c)
    y = g2(d)
    return (x, y)


def spec_curryFlipFresh(f: Fn[Any], a: Any, b: Any, c: Any, d: Any):
    x = f(c, a)
    y = f(d, b)
    return (x, y)


def impl_pipeable(f: Fn[Any], a: Any, b: Any, c: Any, k: Any):
    return pipeable(f, a, b, key=k)(c)


def spec_pipeable(f: Fn[Any], a: Any, b: Any, c: Any, k: Any):
    return f(c, a, b, key=k)


def impl_flip(f: Fn[Any], a: Any, b: Any):
    return flip(f)(a, b)


def spec_flip(f: Fn[Any], a: Any, b: Any):
    return f(b, a)


def impl_fst(a: Any, b: Any):
    return fst((a, b))


def spec_fst(a: Any, b: Any):
    return a


def impl_snd(a: Any, b: Any):
    return snd((a, b))


def spec_snd(a: Any, b: Any):
    return b


def impl_identity(a: Any):
    return identity(a)


def spec_identity(a: Any):
    return a


def impl_starid(*xs: Any):
    return starid(*xs)


def spec_starid(*xs: Any):
    return xs


# ---------------------------------------------------------------- any number of arguments
def impl_curryMany(f: Fn[Any], a: Any, b: Any, k: Any, *xs: Any):
    return curry(1)(f)(a)(b, *xs, key=k)


def spec_curryMany(f: Fn[Any], a: Any, b: Any, k: Any, *xs: Any):
    return f(a, b, *xs, key=k)


def impl_curryFlipMany(f: Fn[Any], a: Any, k: Any, *xs: Any):
    return curry_flip(1)(f)(*xs, key=k)(a)


def impl_curryFlipMany__pipeable(f: Fn[Any], a: Any, k: Any, *xs: Any):
    return pipeable(f, *xs, key=k)(a)


def spec_curryFlipMany(f: Fn[Any], a: Any, k: Any, *xs: Any):
    return f(a, *xs, key=k)


def impl_curryFlip2Many(f: Fn[Any], a: Any, b: Any, k: Any, *xs: Any):
    return curry_flip(2)(f)(*xs, key=k)(a)(b)


def spec_curryFlip2Many(f: Fn[Any], a: Any, b: Any, k: Any, *xs: Any):
    return f(a, b, *xs, key=k)


def impl_curryFlipTwice(f: Fn[Any], a: Any, b: Any):
    g = curry_flip(1)(f)(a, key=b)
    x = g(b)
    y = g(b)
    return (x, y)


def spec_curryFlipTwice(f: Fn[Any], a: Any, b: Any):
    x = f(b, a, key=b)
    y = f(b, a, key=b)
    return (x, y)


def impl_curryFlip4Twice(f: Fn[Any], a: Any, b: Any, c: Any, d: Any, e: Any):
    g = curry_flip(4)(f)(a)(b)
    x = g(c)(d)(e)
    y = g(c)(d)(e)
    return (x, y)


def spec_curryFlip4Twice(f: Fn[Any], a: Any, b: Any, c: Any, d: Any, e: Any):
    x = f(b, c, d, e, a)
    y = f(b, c, d, e, a)
    return (x, y)


def impl_curryTwice(f: Fn[Any], a: Any, b: Any):
    g = curry(1)(f)(a)
    x = g(b, key=a)
    y = g(b, key=a)
    return (x, y)


def spec_curryTwice(f: Fn[Any], a: Any, b: Any):
    x = f(a, b, key=a)
    y = f(a, b, key=a)
    return (x, y)
