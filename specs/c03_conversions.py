"""Conversions between Option, Result and optional values keep the payload."""
from typing import Any

from expression import Error, Nothing, Ok, Option, Result, Some, option, result
from specs.lib import Fn


def impl_ofOptional(x: Any):
    return option.of_optional(x)


def impl_ofOptional__cls(x: Any):
    return Option.of_optional(x)


def impl_ofOptional__obj(x: Any):
    return Option.of_obj(x)


def impl_ofOptional__objfn(x: Any):
    return option.of_obj(x)


def spec_ofOptional(x: Any):
    return Option(none=None) if x is None else Option(some=x)


def impl_toOptional(o: Option[Any]):
    return o.to_optional()


def impl_toOptional__fn(o: Option[Any]):
    return option.to_optional(o)


def spec_toOptional(o: Option[Any]):
    return o.some if o.tag == "some" else None


def impl_ofResult(r: Result[Any, Any]):
    return Option.of_result(r)


def impl_ofResult__fn(r: Result[Any, Any]):
    return option.of_result(r)


def impl_ofResult__to(r: Result[Any, Any]):
    return r.to_option()


def impl_ofResult__tofn(r: Result[Any, Any]):
    return result.to_option(r)


def spec_ofResult(r: Result[Any, Any]):
    return Option(some=r.ok) if r.tag == "ok" else Option(none=None)


def impl_toResult(o: Option[Any], e: Any):
    return o.to_result(e)


def impl_toResult__fn(o: Option[Any], e: Any):
    return option.to_result(o, e)


def impl_toResult__of(o: Option[Any], e: Any):
    return Result.of_option(o, e)


def impl_toResult__offn(o: Option[Any], e: Any):
    return result.of_option(o, e)


def spec_toResult(o: Option[Any], e: Any):
    return Result(ok=o.some) if o.tag == "some" else Result(error=e)


def impl_toResultWith(o: Option[Any], g: Fn[Any]):
    return o.to_result_with(g)


def impl_toResultWith__fn(o: Option[Any], g: Fn[Any]):
    return option.to_result_with(o, g)


def impl_toResultWith__of(o: Option[Any], g: Fn[Any]):
    return Result.of_option_with(o, g)


def impl_toResultWith__offn(o: Option[Any], g: Fn[Any]):
    return result.of_option_with(o, g)


def spec_toResultWith(o: Option[Any], g: Fn[Any]):
    return Result(ok=o.some) if o.tag == "some" else Result(error=g())


def impl_roundOption(o: Option[Any], e: Any):
    return o.to_result(e).to_option()


def spec_roundOption(o: Option[Any], e: Any):
    return o


def impl_roundOptional(x: Any):
    return option.of_optional(x).to_optional()


def spec_roundOptional(x: Any):
    return x


def impl_swapTwice(r: Result[Any, Any]):
    return r.swap().swap()


def spec_swapTwice(r: Result[Any, Any]):
    return r
