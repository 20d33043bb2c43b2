"""catch: exactly the requested exceptions become errors."""
from typing import Any

from expression import Error, Ok, Result
from expression.extra.result import catch

from .lib import Fn


def impl_catchValue(f: Fn[Any], a: Any, k: Any):
    return catch(f, exception=ValueError)(a, key=k)


def impl_catchValue__decorator(f: Fn[Any], a: Any, k: Any):
    return catch(exception=ValueError)(f)(a, key=k)


def spec_catchValue(f: Fn[Any], a: Any, k: Any):
    try:
        out = f(a, key=k)
    except ValueError as e:
        return Error(e)
    if isinstance(out, Result):
        return out
    return Ok(out)


def impl_catchSub(f: Fn[Any], a: Any, k: Any):
    return catch(exception=LookupError)(f)(a, key=k)


def spec_catchSub(f: Fn[Any], a: Any, k: Any):
    try:
        out = f(a, key=k)
    except LookupError as e:
        return Error(e)
    if isinstance(out, Result):
        return out
    return Ok(out)


def impl_catchException(f: Fn[Any], a: Any, k: Any):
    return catch(exception=Exception)(f)(a, key=k)


def spec_catchException(f: Fn[Any], a: Any, k: Any):
    try:
        out = f(a, key=k)
    except Exception as e:
        return Error(e)
    if isinstance(out, Result):
        return out
    return Ok(out)


def impl_catchResult(f: Fn[Result[Any, Any]], a: Any):
    return catch(exception=ValueError)(f)(a)


def spec_catchResult(f: Fn[Result[Any, Any]], a: Any):
    try:
        return f(a)
    except ValueError as e:
        return Error(e)


def impl_catchTwice(f: Fn[Any], a: Any, b: Any):
    g = catch(exception=ValueError)(f)
    return g(a), g(b)


def spec_catchTwice(f: Fn[Any], a: Any, b: Any):
    out = []
    for x in (a, b):
        try:
            v = f(x)
        except ValueError as e:
            out.append(Error(e))
            continue
        out.append(v if isinstance(v, Result) else Ok(v))
    return out[0], out[1]


def impl_catchStacked(f: Fn[Any], a: Any):
    return catch(exception=KeyError)(catch(exception=ValueError)(f))(a)


def spec_catchStacked(f: Fn[Any], a: Any):
    try:
        out = f(a)
    except ValueError as e:
        return Error(e)
    except KeyError as e:
        return Error(e)
    if isinstance(out, Result):
        return out
    return Ok(out)
