"""Result / Try as a two-track railway."""
from typing import Any

from expression import Error, Failure, Ok, Result, Success, Try, result
from specs.lib import Fn


def impl_ok(x: Any):
    return Ok(x)


def impl_ok__cls(x: Any):
    return Result.Ok(x)


def spec_ok(x: Any):
    return Result(ok=x)


def impl_error(x: Any):
    return Error(x)


def impl_error__cls(x: Any):
    return Result.Error(x)


def spec_error(x: Any):
    return Result(error=x)


def impl_success(x: Any):
    return Success(x)


def spec_success(x: Any):
    return Try(ok=x)


def impl_failure(e: Any):
    return Failure(e)


def spec_failure(e: Any):
    return Try(error=e)


def impl_map(r: Result[Any, Any], f: Fn[Any]):
    return r.map(f)


def impl_map__fn(r: Result[Any, Any], f: Fn[Any]):
    return result.map(f)(r)


def spec_map(r: Result[Any, Any], f: Fn[Any]):
    return Result(ok=f(r.ok)) if r.tag == "ok" else Result(error=r.error)


def impl_map2(r: Result[Any, Any], s: Result[Any, Any], f: Fn[Any]):
    return r.map2(s, f)


def impl_map2__fn(r: Result[Any, Any], s: Result[Any, Any], f: Fn[Any]):
    return result.map2(f)(r)(s)


def spec_map2(r: Result[Any, Any], s: Result[Any, Any], f: Fn[Any]):
    if r.tag == "error":
        return Result(error=r.error)
    if s.tag == "error":
        return Result(error=s.error)
    return Result(ok=f(r.ok, s.ok))


def impl_apply(r: Result[Any, Any], g: Result[Fn[Any], Any]):
    return r.apply(g)


def impl_apply__fn(r: Result[Any, Any], g: Result[Fn[Any], Any]):
    return result.apply(g)(r)


def spec_apply(r: Result[Any, Any], g: Result[Fn[Any], Any]):
    if g.tag == "error":
        return Result(error=g.error)
    if r.tag == "error":
        return Result(error=r.error)
    return Result(ok=g.ok(r.ok))


def impl_mapError(r: Result[Any, Any], f: Fn[Any]):
    return r.map_error(f)


def impl_mapError__fn(r: Result[Any, Any], f: Fn[Any]):
    return result.map_error(f)(r)


def spec_mapError(r: Result[Any, Any], f: Fn[Any]):
    return Result(ok=r.ok) if r.tag == "ok" else Result(error=f(r.error))


def impl_bind(r: Result[Any, Any], f: Fn[Result[Any, Any]]):
    return r.bind(f)


def impl_bind__fn(r: Result[Any, Any], f: Fn[Result[Any, Any]]):
    return result.bind(f)(r)


def spec_bind(r: Result[Any, Any], f: Fn[Result[Any, Any]]):
    return f(r.ok) if r.tag == "ok" else Result(error=r.error)


def impl_isOk(r: Result[Any, Any]):
    return r.is_ok()


def impl_isOk__fn(r: Result[Any, Any]):
    return result.is_ok(r)


def spec_isOk(r: Result[Any, Any]):
    return r.tag == "ok"


def impl_isError(r: Result[Any, Any]):
    return r.is_error()


def impl_isError__fn(r: Result[Any, Any]):
    return result.is_error(r)


def spec_isError(r: Result[Any, Any]):
    return r.tag == "error"


def impl_filter(r: Result[Any, Any], p: Fn[bool], d: Any):
    return r.filter(p, d)


def impl_filter__fn(r: Result[Any, Any], p: Fn[bool], d: Any):
    return result.filter(p, d)(r)


def spec_filter(r: Result[Any, Any], p: Fn[bool], d: Any):
    if r.tag == "ok":
        return Result(ok=r.ok) if p(r.ok) else Result(error=d)
    return Result(error=r.error)


def impl_filterWith(r: Result[Any, Any], p: Fn[bool], d: Fn[Any]):
    return r.filter_with(p, d)


def impl_filterWith__fn(r: Result[Any, Any], p: Fn[bool], d: Fn[Any]):
    return result.filter_with(p, d)(r)


def spec_filterWith(r: Result[Any, Any], p: Fn[bool], d: Fn[Any]):
    if r.tag == "ok":
        return Result(ok=r.ok) if p(r.ok) else Result(error=d(r.ok))
    return Result(error=r.error)


def impl_swap(r: Result[Any, Any]):
    return r.swap()


def impl_swap__fn(r: Result[Any, Any]):
    return result.swap(r)


def spec_swap(r: Result[Any, Any]):
    return Result(error=r.ok) if r.tag == "ok" else Result(ok=r.error)


def impl_orElse(r: Result[Any, Any], s: Result[Any, Any]):
    return r.or_else(s)


def impl_orElse__fn(r: Result[Any, Any], s: Result[Any, Any]):
    return result.or_else(s)(r)


def spec_orElse(r: Result[Any, Any], s: Result[Any, Any]):
    return r if r.tag == "ok" else s


def impl_orElseWith(r: Result[Any, Any], g: Fn[Result[Any, Any]]):
    return r.or_else_with(g)


def impl_orElseWith__fn(r: Result[Any, Any], g: Fn[Result[Any, Any]]):
    return result.or_else_with(g)(r)


def spec_orElseWith(r: Result[Any, Any], g: Fn[Result[Any, Any]]):
    return r if r.tag == "ok" else g(r.error)


def impl_defaultValue(r: Result[Any, Any], d: Any):
    return r.default_value(d)


def impl_defaultValue__fn(r: Result[Any, Any], d: Any):
    return result.default_value(d)(r)


def spec_defaultValue(r: Result[Any, Any], d: Any):
    return r.ok if r.tag == "ok" else d


def impl_defaultWith(r: Result[Any, Any], g: Fn[Any]):
    return r.default_with(g)


def impl_defaultWith__fn(r: Result[Any, Any], g: Fn[Any]):
    return result.default_with(g)(r)


def spec_defaultWith(r: Result[Any, Any], g: Fn[Any]):
    return r.ok if r.tag == "ok" else g(r.error)


def impl_merge(r: Result[Any, Any]):
    return r.merge()


def impl_merge__fn(r: Result[Any, Any]):
    return result.merge(r)


def spec_merge(r: Result[Any, Any]):
    return r.ok if r.tag == "ok" else r.error


def impl_iter(r: Result[Any, Any]):
    return list(r)


def spec_iter(r: Result[Any, Any]):
    from expression.core.error import EffectError
    if r.tag == "ok":
        return [r.ok]
    raise EffectError(Result(error=r.error))


async def impl_await(r: Result[Any, Any]):
    return await r


async def spec_await(r: Result[Any, Any]):
    from expression.core.error import EffectError
    if r.tag == "ok":
        return r.ok
    raise EffectError(Result(error=r.error))


def impl_pipe(r: Result[Any, Any], f: Fn[Any], g: Fn[Any]):
    return r.pipe(f, g)


def spec_pipe(r: Result[Any, Any], f: Fn[Any], g: Fn[Any]):
    return g(f(r))
