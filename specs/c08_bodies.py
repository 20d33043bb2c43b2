"""Asynchronous computation blocks with particular bodies, followed step by step through the builder."""
from typing import Any

from expression import Error, Nothing, Ok, Option, Result, Some, effect
from expression.core.error import EffectError

from .lib import AFn, Fn


# ---------------------------------------------------------------- option
async def impl_optionTwo(o: Option[Any], p: Option[Any], f: AFn[Any], g: Fn[Any]):
    async def body():
        x = await o
        await f(x)
        y = await p
        yield g(x, y)

    return await effect.async_option()(body)()


async def spec_optionTwo(o: Option[Any], p: Option[Any], f: AFn[Any], g: Fn[Any]):
    try:
        if o.is_none():
            return Nothing
        await f(o.value)
        if p.is_none():
            return Nothing
        return Some(g(o.value, p.value))
    except EffectError as e:
        return e.args[0]


async def impl_optionYield(a: Any, b: Any, f: Fn[Any]):
    async def body():
        x = yield a
        y = yield b
        f(x, y)

    return await effect.async_option()(body)()


async def spec_optionYield(a: Any, b: Any, f: Fn[Any]):
    try:
        f(a, b)
    except EffectError as e:
        return e.args[0]
    return Some(b)


async def impl_optionFailsLate(a: Any, o: Option[Any], f: Fn[Any]):
    async def body():
        yield a
        x = await o
        f(x)
        yield x

    return await effect.async_option()(body)()


async def spec_optionFailsLate(a: Any, o: Option[Any], f: Fn[Any]):
    if o.is_none():
        return Nothing
    try:
        f(o.value)
    except EffectError as e:
        return e.args[0]
    return Some(o.value)


async def impl_optionNoStep(a: int, c: bool):
    async def empty():
        if c:
            return
        yield a

    async def plain(x):
        return x

    async def nothing():
        pass

    def sync():
        return a

    return (await effect.async_option()(empty)(), await effect.async_option()(plain)(a), await effect.async_option()(nothing)(),
            await effect.async_option()(sync)())


async def spec_optionNoStep(a: int, c: bool):
    return (Nothing if c else Some(a)), Some(a), Nothing, Some(a)


async def impl_optionCoroutine(o: Option[Any]):
    async def body():
        x = await o
        return (x,)

    return await effect.async_option()(body)()


async def spec_optionCoroutine(o: Option[Any]):
    return o.map(lambda x: (x,))


async def impl_optionFalsy():
    async def zero():
        yield 0

    async def blank():
        return ""

    async def false():
        yield 1
        yield False

    return await effect.async_option()(zero)(), await effect.async_option()(blank)(), await effect.async_option()(false)()


async def spec_optionFalsy():
    return Some(0), Some(""), Some(False)


async def impl_optionCleanup(o: Option[Any], g: Fn[Any]):
    async def body():
        try:
            x = await o
        finally:
            g()
        yield (x,)

    return await effect.async_option()(body)()


async def spec_optionCleanup(o: Option[Any], g: Fn[Any]):
    try:
        g()
    except EffectError as e:
        return e.args[0]
    return o.map(lambda x: (x,))


async def impl_optionRaises(o: Option[Any]):
    async def body():
        x = await o
        yield x
        raise ValueError("stop")

    try:
        return await effect.async_option()(body)()
    except ValueError:
        return "raised"


async def spec_optionRaises(o: Option[Any]):
    return "raised" if o.is_some() else Nothing


async def impl_optionNested(o: Option[Any], p: Option[Any]):
    async def inner(x):
        y = await p
        yield (x, y)

    async def body():
        x = await o
        r = await (await effect.async_option()(inner)(x))
        yield r

    return await effect.async_option()(body)()


async def spec_optionNested(o: Option[Any], p: Option[Any]):
    if o.is_none() or p.is_none():
        return Nothing
    return Some((o.value, p.value))


async def impl_optionArgs(a: Any, b: Any, c: Any):
    async def body(x, *rest, k, **kw):
        yield (x, rest, k, kw["m"])

    return await effect.async_option()(body)(a, b, k=b, m=c)


async def spec_optionArgs(a: Any, b: Any, c: Any):
    return Some((a, (b,), b, c))


async def impl_optionRepeated(o: Option[Any], p: Option[Any]):
    async def body(x):
        y = await x
        yield (y,)

    block = effect.async_option()(body)
    return await block(o), await block(p), await block(o)


async def spec_optionRepeated(o: Option[Any], p: Option[Any]):
    return o.map(lambda y: (y,)), p.map(lambda y: (y,)), o.map(lambda y: (y,))


# ---------------------------------------------------------------- result
async def impl_resultTwo(o: Result[Any, Any], p: Result[Any, Any], f: AFn[Any], g: Fn[Any]):
    async def body():
        x = await o
        await f(x)
        y = await p
        yield g(x, y)

    return await effect.async_result()(body)()


async def impl_resultTwo__try(o: Result[Any, Any], p: Result[Any, Any], f: AFn[Any], g: Fn[Any]):
    async def body():
        x = await o
        await f(x)
        y = await p
        yield g(x, y)

    return await effect.async_try()(body)()


async def spec_resultTwo(o: Result[Any, Any], p: Result[Any, Any], f: AFn[Any], g: Fn[Any]):
    try:
        if o.is_error():
            return o
        await f(o.ok)
        if p.is_error():
            return p
        return Ok(g(o.ok, p.ok))
    except EffectError as e:
        return e.args[0]


async def impl_resultYield(a: Any, b: Any, f: Fn[Any]):
    async def body():
        x = yield a
        y = yield b
        f(x, y)

    return await effect.async_result()(body)()


async def spec_resultYield(a: Any, b: Any, f: Fn[Any]):
    try:
        f(a, b)
    except EffectError as e:
        return e.args[0]
    return Ok(b)


async def impl_resultFailsLate(a: Any, o: Result[Any, Any], f: Fn[Any]):
    async def body():
        yield a
        x = await o
        f(x)
        yield x

    return await effect.async_result()(body)()


async def spec_resultFailsLate(a: Any, o: Result[Any, Any], f: Fn[Any]):
    if o.is_error():
        return o
    try:
        f(o.ok)
    except EffectError as e:
        return e.args[0]
    return o


async def impl_resultNoStep(a: int):
    async def plain(x):
        return x

    async def nothing():
        pass

    def sync():
        return a

    return await effect.async_result()(plain)(a), await effect.async_result()(nothing)(), await effect.async_result()(sync)()


async def spec_resultNoStep(a: int):
    return Ok(a), Ok(None), Ok(a)


async def impl_resultCoroutine(o: Result[Any, Any]):
    async def body():
        x = await o
        return (x,)

    return await effect.async_result()(body)()


async def spec_resultCoroutine(o: Result[Any, Any]):
    return o.map(lambda x: (x,))


async def impl_resultCleanup(o: Result[Any, Any], g: Fn[Any]):
    async def body():
        try:
            x = await o
        finally:
            g()
        yield (x,)

    return await effect.async_result()(body)()


async def spec_resultCleanup(o: Result[Any, Any], g: Fn[Any]):
    try:
        g()
    except EffectError as e:
        return e.args[0]
    return o.map(lambda x: (x,))


async def impl_resultRaises(o: Result[Any, Any]):
    async def body():
        x = await o
        yield x
        raise ValueError("stop")

    try:
        return await effect.async_result()(body)()
    except ValueError:
        return "raised"


async def spec_resultRaises(o: Result[Any, Any]):
    return o if o.is_error() else "raised"


async def impl_resultRepeated(o: Result[Any, Any], p: Result[Any, Any]):
    async def body(x):
        y = await x
        yield (y,)

    block = effect.async_result()(body)
    return await block(o), await block(p), await block(o)


async def spec_resultRepeated(o: Result[Any, Any], p: Result[Any, Any]):
    return o.map(lambda y: (y,)), p.map(lambda y: (y,)), o.map(lambda y: (y,))


# ---------------------------------------------------------------- a block entered again while it runs
async def impl_optionRecursive(o: Option[Any], p: Option[Any], q: Option[Any], f: Fn[Any]):
    async def body(again):
        x = await (o if again else p)
        yield x
        if again:
            r = await block(False)
            y = await r
            yield y
            z = await q
            yield (x, y, z)

    block = effect.async_option()(body)
    return await block(True)


async def spec_optionRecursive(o: Option[Any], p: Option[Any], q: Option[Any], f: Fn[Any]):
    if o.is_none() or p.is_none() or q.is_none():
        return Nothing
    return Some((o.value, p.value, q.value))


async def impl_resultRecursive(o: Result[Any, Any], p: Result[Any, Any], q: Result[Any, Any]):
    async def body(again):
        x = await (o if again else p)
        yield x
        if again:
            r = await block(False)
            y = await r
            yield y
            z = await q
            yield (x, y, z)

    block = effect.async_result()(body)
    return await block(True)


async def spec_resultRecursive(o: Result[Any, Any], p: Result[Any, Any], q: Result[Any, Any]):
    if o.is_error():
        return o
    if p.is_error():
        return p
    if q.is_error():
        return q
    return Ok((o.ok, p.ok, q.ok))
