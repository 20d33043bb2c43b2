"""Asynchronous computation blocks."""
import inspect
from typing import Any

from expression import Error, Nothing, Ok, Option, Result, Some, effect
from expression.core.error import EffectError

from .lib import AFn, Fn


async def impl_optionBlock(body: Fn[Any], a: Any, k: Any):
    return await effect.async_option()(body)(a, key=k)


async def spec_optionBlock(body: Fn[Any], a: Any, k: Any):
    g = body(a, key=k)
    if not inspect.isasyncgen(g):
        if inspect.iscoroutine(g):
            try:
                v = await g
            except EffectError as e:
                return e.args[0]
        else:
            v = g
        return Nothing if v is None else Some(v)
    try:
        sent = await g.asend(None)
    except EffectError as e:
        return e.args[0]
    except StopAsyncIteration:
        return Nothing
    while True:
        try:
            sent = await g.asend(sent)
        except EffectError as e:
            return e.args[0]
        except StopAsyncIteration:
            return Some(sent)


async def impl_resultBlock(body: Fn[Any], a: Any, k: Any):
    return await effect.async_result()(body)(a, key=k)


async def impl_resultBlock__try(body: Fn[Any], a: Any, k: Any):
    return await effect.async_try()(body)(a, key=k)


async def spec_resultBlock(body: Fn[Any], a: Any, k: Any):
    g = body(a, key=k)
    if not inspect.isasyncgen(g):
        if inspect.iscoroutine(g):
            try:
                v = await g
            except EffectError as e:
                return e.args[0]
        else:
            v = g
        return Ok(v)
    try:
        sent = await g.asend(None)
    except EffectError as e:
        return e.args[0]
    except StopAsyncIteration:
        return Ok(None)
    while True:
        try:
            sent = await g.asend(sent)
        except EffectError as e:
            return e.args[0]
        except StopAsyncIteration:
            return Ok(sent)


# ---------------------------------------------------------------- awaiting an option or result
async def impl_awaitOption(o: Option[Any]):
    return await o


async def spec_awaitOption(o: Option[Any]):
    match o:
        case Option(tag="some", some=x):
            return x
        case _:
            raise EffectError(Nothing)


async def impl_awaitResult(r: Result[Any, Any]):
    return await r


async def spec_awaitResult(r: Result[Any, Any]):
    match r:
        case Result(tag="ok", ok=x):
            return x
        case Result(error=e):
            raise EffectError(Error(e))


# ---------------------------------------------------------------- the combinators
async def impl_optionOps(o: Option[Any], p: Option[Any], f: AFn[Option[Any]], x: Any):
    b = effect.async_option()
    return await b.bind(o, f), await b.combine(o, p), await b.return_(x), await b.return_from(o), await b.zero(), await b.run(p)


async def spec_optionOps(o: Option[Any], p: Option[Any], f: AFn[Option[Any]], x: Any):
    match o:
        case Option(tag="some", some=v):
            return await f(v), p, Some(x), o, Nothing, p
        case _:
            return Nothing, Nothing, Some(x), o, Nothing, p


async def impl_resultOps(o: Result[Any, Any], p: Result[Any, Any], f: AFn[Result[Any, Any]], x: Any):
    b = effect.async_result()
    return await b.bind(o, f), await b.combine(o, p), await b.return_(x), await b.return_from(o), await b.zero(), await b.run(p)


async def spec_resultOps(o: Result[Any, Any], p: Result[Any, Any], f: AFn[Result[Any, Any]], x: Any):
    match o:
        case Result(tag="ok", ok=v):
            return await f(v), p, Ok(x), o, Ok(None), p
        case Result(error=e):
            return Error(e), Error(e), Ok(x), o, Ok(None), p
