"""Option operations as functions of the case alone."""
from typing import Any

from expression import Nothing, Option, Some, default_arg, option
from specs.lib import Fn


def impl_some(x: Any):
    return Some(x)


def impl_some__cls(x: Any):
    return Option.Some(x)


def spec_some(x: Any):
    return Option(some=x)


def impl_nothing():
    return Nothing


def impl_nothing__cls():
    return Option.Nothing()


def spec_nothing():
    return Option(none=None)


def impl_map(o: Option[Any], f: Fn[Any]):
    return o.map(f)


def impl_map__fn(o: Option[Any], f: Fn[Any]):
    return option.map(f)(o)


def spec_map(o: Option[Any], f: Fn[Any]):
    return Option(some=f(o.some)) if o.tag == "some" else Option(none=None)


def impl_map2(o: Option[Any], p: Option[Any], f: Fn[Any]):
    return o.map2(f, p)


def impl_map2__fn(o: Option[Any], p: Option[Any], f: Fn[Any]):
    return option.map2(f)(o)(p)


def spec_map2(o: Option[Any], p: Option[Any], f: Fn[Any]):
    if o.tag == "some" and p.tag == "some":
        return Option(some=f(o.some, p.some))
    return Option(none=None)


def impl_apply(o: Option[Any], g: Option[Fn[Any]]):
    return o.apply(g)


def impl_apply__fn(o: Option[Any], g: Option[Fn[Any]]):
    return option.apply(g)(o)


def spec_apply(o: Option[Any], g: Option[Fn[Any]]):
    if o.tag == "some" and g.tag == "some":
        return Option(some=g.some(o.some))
    return Option(none=None)


def impl_starmap(o: Option[Any], f: Fn[Any]):
    return o.starmap(f)


def impl_starmap__fn(o: Option[Any], f: Fn[Any]):
    return option.starmap(f)(o)


def spec_starmap(o: Option[Any], f: Fn[Any]):
    return Option(some=f(*o.some)) if o.tag == "some" else Option(none=None)


def impl_bind(o: Option[Any], f: Fn[Option[Any]]):
    return o.bind(f)


def impl_bind__fn(o: Option[Any], f: Fn[Option[Any]]):
    return option.bind(f)(o)


def spec_bind(o: Option[Any], f: Fn[Option[Any]]):
    return f(o.some) if o.tag == "some" else Option(none=None)


def impl_filter(o: Option[Any], p: Fn[bool]):
    return o.filter(p)


def spec_filter(o: Option[Any], p: Fn[bool]):
    if o.tag == "some":
        if p(o.some):
            return Option(some=o.some)
    return Option(none=None)


def impl_defaultValue(o: Option[Any], d: Any):
    return o.default_value(d)


def impl_defaultValue__fn(o: Option[Any], d: Any):
    return option.default_value(d)(o)


def impl_defaultValue__arg(o: Option[Any], d: Any):
    return default_arg(o, d)


def spec_defaultValue(o: Option[Any], d: Any):
    return o.some if o.tag == "some" else d


def impl_defaultWith(o: Option[Any], g: Fn[Any]):
    return o.default_with(g)


def impl_defaultWith__fn(o: Option[Any], g: Fn[Any]):
    return option.default_with(g)(o)


def spec_defaultWith(o: Option[Any], g: Fn[Any]):
    return o.some if o.tag == "some" else g()


def impl_orElse(o: Option[Any], p: Option[Any]):
    return o.or_else(p)


def impl_orElse__fn(o: Option[Any], p: Option[Any]):
    return option.or_else(o, p)


def spec_orElse(o: Option[Any], p: Option[Any]):
    return o if o.tag == "some" else p


def impl_orElseWith(o: Option[Any], g: Fn[Option[Any]]):
    return o.or_else_with(g)


def spec_orElseWith(o: Option[Any], g: Fn[Option[Any]]):
    return o if o.tag == "some" else g()


def impl_isSome(o: Option[Any]):
    return o.is_some()


def impl_isSome__fn(o: Option[Any]):
    return option.is_some(o)


def spec_isSome(o: Option[Any]):
    return o.tag == "some"


def impl_isNone(o: Option[Any]):
    return o.is_none()


def impl_isNone__fn(o: Option[Any]):
    return option.is_none(o)


def spec_isNone(o: Option[Any]):
    return o.tag == "none"


def impl_value(o: Option[Any]):
    return o.value


def spec_value(o: Option[Any]):
    if o.tag == "some":
        return o.some
    raise ValueError("There is no value.")


def impl_toList(o: Option[Any]):
    return o.to_list()


def impl_toList__fn(o: Option[Any]):
    return option.to_list(o)


def spec_toList(o: Option[Any]):
    return [o.some] if o.tag == "some" else []


def impl_toSeq(o: Option[Any]):
    return list(o.to_seq())


def impl_toSeq__fn(o: Option[Any]):
    return list(option.to_seq(o))


def spec_toSeq(o: Option[Any]):
    return [o.some] if o.tag == "some" else []


def impl_iter(o: Option[Any]):
    return list(o)


def spec_iter(o: Option[Any]):
    from expression.core.error import EffectError
    if o.tag == "some":
        return [o.some]
    raise EffectError(Option(none=None))


async def impl_await(o: Option[Any]):
    return await o


async def spec_await(o: Option[Any]):
    from expression.core.error import EffectError
    if o.tag == "some":
        return o.some
    raise EffectError(Option(none=None))


def impl_pipe(o: Option[Any], f: Fn[Any], g: Fn[Any]):
    return o.pipe(f, g)


def spec_pipe(o: Option[Any], f: Fn[Any], g: Fn[Any]):
    return g(f(o))
