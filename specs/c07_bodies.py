"""Computation blocks with particular bodies: what each kind of step sends, skips and returns.

The bodies are ordinary generators; they are followed step by step through the builder."""
from typing import Any

from expression import Error, Nothing, Ok, Option, Result, Some, effect
from expression.core.error import EffectError

from .lib import Fn


# ---------------------------------------------------------------- option
def impl_optionTwo(o: Option[Any], p: Option[Any], f: Fn[Any], g: Fn[Any]):
    def body():
        x = yield from o
        f(x)
        y = yield from p
        g(y)
        return (x, y)

    return effect.option()(body)()


def spec_optionTwo(o: Option[Any], p: Option[Any], f: Fn[Any], g: Fn[Any]):
    try:
        if o.is_none():
            return Nothing
        f(o.value)
        if p.is_none():
            return Nothing
        g(p.value)
    except EffectError as e:            # raised by a step of some other kind: its outcome is the block's
        return e.args[0]
    return Some((o.value, p.value))


def impl_optionYield(a: Any, b: Any):
    def body():
        x = yield a
        y = yield b
        return (x, y)

    return effect.option()(body)()


def spec_optionYield(a: Any, b: Any):
    return Some((a, b))


def impl_optionLast(a: Any, b: Any):
    def body():
        yield a
        yield b

    return effect.option()(body)()


def spec_optionLast(a: Any, b: Any):
    return Some(b)


def impl_optionOneStep(a: Any, o: Option[Any]):
    def one():
        yield a

    def from_():
        yield from o

    return effect.option()(one)(), effect.option()(from_)()


def spec_optionOneStep(a: Any, o: Option[Any]):
    return Some(a), o


def impl_optionNoStep(a: int, c: bool):
    def empty():
        if c:
            return
        yield a

    def plain(x):
        return x

    def nothing():
        pass

    return effect.option()(empty)(), effect.option()(plain)(a), effect.option()(nothing)()


def spec_optionNoStep(a: int, c: bool):
    return (Nothing if c else Some(a)), Some(a), Nothing


def impl_optionReturnFalsy():
    def zero():
        yield 1
        return 0

    def blank():
        yield 1
        return ""

    def false():
        yield 1
        return False

    return effect.option()(zero)(), effect.option()(blank)(), effect.option()(false)()


def spec_optionReturnFalsy():
    return Some(0), Some(""), Some(False)


def impl_optionReturnsContainer(o: Option[Any], a: Any):
    def body():
        yield a
        return o

    def plain():
        return o

    return effect.option()(body)(), effect.option()(plain)()


def spec_optionReturnsContainer(o: Option[Any], a: Any):
    return Some(o), Some(o)


def impl_optionYieldsContainer(o: Option[Any], f: Fn[Any]):
    def body():
        x = yield o                     # a container that is not unwrapped
        return f(x)

    r = effect.option()(body)()
    return r


def spec_optionYieldsContainer(o: Option[Any], f: Fn[Any]):
    try:
        r = f(o)
    except EffectError as e:
        return e.args[0]
    return Some(o) if r is None else Some(r)


def impl_optionCleanup(o: Option[Any], f: Fn[Any], g: Fn[Any]):
    def body():
        try:
            x = yield from o
            f(x)
        finally:
            g()
        return (x,)

    return effect.option()(body)()


def spec_optionCleanup(o: Option[Any], f: Fn[Any], g: Fn[Any]):
    try:
        if o.is_none():
            g()
            return Nothing
        try:
            f(o.value)
        finally:
            g()
    except EffectError as e:
        return e.args[0]
    return Some((o.value,))


def impl_optionRaises(o: Option[Any], f: Fn[Any]):
    def body():
        yield from o
        raise ValueError("stop")

    try:
        return effect.option()(body)()
    except ValueError:
        return "raised"


def spec_optionRaises(o: Option[Any], f: Fn[Any]):
    return "raised" if o.is_some() else Nothing


def impl_optionHandles(o: Option[Any], f: Fn[Any]):
    def body():
        x = yield from o
        try:
            r = f(x)
        except ValueError:
            yield from Nothing
            return "after nothing"
        return (r,)

    return effect.option()(body)()


def spec_optionHandles(o: Option[Any], f: Fn[Any]):
    if o.is_none():
        return Nothing
    try:
        return Some((f(o.value),))
    except ValueError:
        return Nothing
    except EffectError as e:
        return e.args[0]


def impl_optionNested(o: Option[Any], p: Option[Any]):
    def inner(x):
        y = yield from p
        return (x, y)

    def body():
        x = yield from o
        r = yield from effect.option()(inner)(x)
        return r

    return effect.option()(body)()


def spec_optionNested(o: Option[Any], p: Option[Any]):
    if o.is_none() or p.is_none():
        return Nothing
    return Some((o.value, p.value))


def impl_optionArgs(a: Any, b: Any, c: Any):
    def body(x, y, *rest, k, **kw):
        z = yield (x, y)
        return (z, rest, k, kw["m"])

    return effect.option()(body)(a, b, c, k=b, m=c)


def spec_optionArgs(a: Any, b: Any, c: Any):
    return Some(((a, b), (c,), b, c))


def impl_optionInterleaved(a: Any, b: Any, o: Option[Any]):
    """two blocks of one builder, one started while the other is under way"""
    builder = effect.option()

    def first():
        x = yield a
        other = builder(second)()
        y = yield b
        return (x, y, other)

    def second():
        z = yield from o
        return (z,)

    return builder(first)()


def spec_optionInterleaved(a: Any, b: Any, o: Option[Any]):
    return Some((a, b, o.map(lambda z: (z,))))


def impl_optionRepeated(o: Option[Any], p: Option[Any]):
    """one block called again after it has failed or finished"""
    def body(x):
        y = yield from x
        return (y,)

    block = effect.option()(body)
    return block(o), block(p), block(o)


def spec_optionRepeated(o: Option[Any], p: Option[Any]):
    return o.map(lambda y: (y,)), p.map(lambda y: (y,)), o.map(lambda y: (y,))


# ---------------------------------------------------------------- result
def impl_resultTwo(o: Result[Any, Any], p: Result[Any, Any], f: Fn[Any], g: Fn[Any]):
    def body():
        x = yield from o
        f(x)
        y = yield from p
        g(y)
        return (x, y)

    return effect.result()(body)()


def impl_resultTwo__try(o: Result[Any, Any], p: Result[Any, Any], f: Fn[Any], g: Fn[Any]):
    def body():
        x = yield from o
        f(x)
        y = yield from p
        g(y)
        return (x, y)

    return effect.try_()(body)()


def spec_resultTwo(o: Result[Any, Any], p: Result[Any, Any], f: Fn[Any], g: Fn[Any]):
    try:
        if o.is_error():
            return o
        f(o.ok)
        if p.is_error():
            return p
        g(p.ok)
    except EffectError as e:
        return e.args[0]
    return Ok((o.ok, p.ok))


def impl_resultYield(a: Any, b: Any):
    def body():
        x = yield a
        y = yield b
        return (x, y)

    def last():
        yield a
        yield b

    return effect.result()(body)(), effect.result()(last)()


def spec_resultYield(a: Any, b: Any):
    return Ok((a, b)), Ok(b)


def impl_resultNoStep(a: int):
    def empty():
        return
        yield a

    def plain(x):
        return x

    def nothing():
        pass

    return effect.result()(empty)(), effect.result()(plain)(a), effect.result()(nothing)()


def spec_resultNoStep(a: int):
    return Ok(None), Ok(a), Ok(None)


def impl_resultReturnsContainer(o: Result[Any, Any], a: Any):
    def body():
        yield a
        return o

    return effect.result()(body)()


def spec_resultReturnsContainer(o: Result[Any, Any], a: Any):
    return Ok(o)


def impl_resultCleanup(o: Result[Any, Any], f: Fn[Any], g: Fn[Any]):
    def body():
        try:
            x = yield from o
            f(x)
        finally:
            g()
        return (x,)

    return effect.result()(body)()


def spec_resultCleanup(o: Result[Any, Any], f: Fn[Any], g: Fn[Any]):
    try:
        if o.is_error():
            g()
            return o
        try:
            f(o.ok)
        finally:
            g()
    except EffectError as e:
        return e.args[0]
    return Ok((o.ok,))


def impl_resultRaises(o: Result[Any, Any]):
    def body():
        yield from o
        raise ValueError("stop")

    try:
        return effect.result()(body)()
    except ValueError:
        return "raised"


def spec_resultRaises(o: Result[Any, Any]):
    return o if o.is_error() else "raised"


def impl_resultRecovers(o: Result[Any, Any], f: Fn[Any]):
    def body():
        x = yield from o
        try:
            r = f(x)
        except ValueError:
            yield from Error("handled")
            return "after the error"
        return (r,)

    return effect.result()(body)()


def spec_resultRecovers(o: Result[Any, Any], f: Fn[Any]):
    if o.is_error():
        return o
    try:
        return Ok((f(o.ok),))
    except ValueError:
        return Error("handled")
    except EffectError as e:
        return e.args[0]


def impl_resultNested(o: Result[Any, Any], p: Result[Any, Any]):
    def inner(x):
        y = yield from p
        return (x, y)

    def body():
        x = yield from o
        r = yield from effect.result()(inner)(x)
        return r

    return effect.result()(body)()


def spec_resultNested(o: Result[Any, Any], p: Result[Any, Any]):
    if o.is_error():
        return o
    if p.is_error():
        return p
    return Ok((o.ok, p.ok))


def impl_resultRepeated(o: Result[Any, Any], p: Result[Any, Any]):
    def body(x):
        y = yield from x
        return (y,)

    block = effect.result()(body)
    return block(o), block(p), block(o)


def spec_resultRepeated(o: Result[Any, Any], p: Result[Any, Any]):
    return o.map(lambda y: (y,)), p.map(lambda y: (y,)), o.map(lambda y: (y,))


def impl_resultThree(o: Result[Any, Any], p: Result[Any, Any], q: Result[Any, Any]):
    def body():
        x = yield from o
        y = yield from p
        z = yield from q
        return (x, y, z)

    return effect.result()(body)()


def spec_resultThree(o: Result[Any, Any], p: Result[Any, Any], q: Result[Any, Any]):
    return o.bind(lambda x: p.bind(lambda y: q.map(lambda z: (x, y, z))))


# ---------------------------------------------------------------- seq
def impl_seqTwo(a: Any, b: Any, c: Any):
    def body():
        x = yield a
        yield b
        return c

    return list(effect.seq()(body)())


def spec_seqTwo(a: Any, b: Any, c: Any):
    return [a, b] if c is None else [a, b, c]


# ---------------------------------------------------------------- a block entered again while it runs
def impl_optionRecursive(o: Option[Any], p: Option[Any], q: Option[Any]):
    def body(again):
        x = yield from (o if again else p)
        if not again:
            return x
        y = yield from block(False)
        z = yield from q
        return (x, y, z)

    block = effect.option()(body)
    return block(True)


def spec_optionRecursive(o: Option[Any], p: Option[Any], q: Option[Any]):
    if o.is_none() or p.is_none():
        return Nothing
    if p.value is None:
        return Nothing if q.is_none() else Some((o.value, None, q.value))
    return q.map(lambda z: (o.value, p.value, z))


def impl_resultRecursive(o: Result[Any, Any], p: Result[Any, Any], q: Result[Any, Any]):
    def body(again):
        x = yield from (o if again else p)
        if not again:
            return (x,)
        y = yield from block(False)
        z = yield from q
        return (x, y, z)

    block = effect.result()(body)
    return block(True)


def spec_resultRecursive(o: Result[Any, Any], p: Result[Any, Any], q: Result[Any, Any]):
    if o.is_error():
        return o
    if p.is_error():
        return p
    if q.is_error():
        return q
    return Ok((o.ok, (p.ok,), q.ok))


def impl_seqRecursive(a: Any, b: Any, c: Any):
    def body(again):
        yield a
        if again:
            inner = block(False)
            yield b
            yield from inner
        yield c

    block = effect.seq()(body)
    return list(block(True))


def spec_seqRecursive(a: Any, b: Any, c: Any):
    return [a, b, a, c, c]
