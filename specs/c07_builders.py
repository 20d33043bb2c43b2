"""Synchronous computation blocks: stop at the first failure, never resume."""
import inspect
from typing import Any

from expression import Error, Nothing, Ok, Option, Result, Some, effect
from expression.core.error import EffectError

from .lib import Fn, Iter


# ---------------------------------------------------------------- option
def impl_optionBlock(body: Fn[Any], a: Any, k: Any):
    return effect.option()(body)(a, key=k)


def spec_optionBlock(body: Fn[Any], a: Any, k: Any):
    g = body(a, key=k)
    if not inspect.isgenerator(g):
        return Nothing if g is None else Some(g)
    try:
        sent = g.send(None)
    except EffectError as e:
        return e.args[0]
    except StopIteration as e:
        return Nothing if e.value is None else Some(e.value)
    while True:
        try:
            sent = g.send(sent)
        except EffectError as e:
            return e.args[0]
        except StopIteration as e:
            return Some(sent) if e.value is None else Some(e.value)


# ---------------------------------------------------------------- result
def impl_resultBlock(body: Fn[Any], a: Any, k: Any):
    return effect.result()(body)(a, key=k)


def impl_resultBlock__try(body: Fn[Any], a: Any, k: Any):
    return effect.try_()(body)(a, key=k)


def spec_resultBlock(body: Fn[Any], a: Any, k: Any):
    g = body(a, key=k)
    if not inspect.isgenerator(g):
        return Ok(g)
    try:
        sent = g.send(None)
    except EffectError as e:
        return e.args[0]
    except StopIteration as e:
        return Ok(e.value)
    while True:
        try:
            sent = g.send(sent)
        except EffectError as e:
            return e.args[0]
        except StopIteration as e:
            return Ok(sent) if e.value is None else Ok(e.value)


# ---------------------------------------------------------------- seq
def impl_seqBlock(body: Fn[Any], a: Any, k: Any):
    return list(effect.seq()(body)(a, key=k))


def spec_seqBlock(body: Fn[Any], a: Any, k: Any):
    g = body(a, key=k)
    if not inspect.isgenerator(g):
        return [] if g is None else [g]
    try:
        sent = g.send(None)
    except EffectError as e:
        return list(e.args[0])
    except StopIteration as e:
        return [] if e.value is None else [e.value]
    out = [sent]
    while True:
        try:
            sent = g.send(sent)
            out.append(sent)
        except EffectError as e:
            return [*out, *e.args[0]]
        except StopIteration as e:
            return out if e.value is None else [*out, e.value]


def spec_seqBlock__later(body: Fn[Any], a: Any, k: Any):
    g = body(a, key=k)
    if not inspect.isgenerator(g):
        return [] if g is None else [g]
    try:
        sent = g.send(None)
    except EffectError as e:
        return list(e.args[0])
    except StopIteration as e:
        return [] if e.value is None else [e.value]
    out = [sent]
    try:
        sent = g.send(sent)
        out.append(sent)
    except EffectError as e:
        return [*out, *e.args[0]]
    except StopIteration as e:
        return out if e.value is None else [*out, e.value]
    while True:
        try:
            sent = g.send(sent)
            out.append(sent)
        except EffectError as e:
            return [*out, *e.args[0]]
        except StopIteration as e:
            return out if e.value is None else [*out, e.value]


# ---------------------------------------------------------------- steps of a block
def impl_optionStep(o: Option[Any]):
    return (yield from o)


def spec_optionStep(o: Option[Any]):
    match o:
        case Option(tag="some", some=x):
            return (yield x)
        case _:
            raise EffectError(Nothing)


def impl_resultStep(r: Result[Any, Any]):
    return (yield from r)


def spec_resultStep(r: Result[Any, Any]):
    match r:
        case Result(tag="ok", ok=x):
            return (yield x)
        case Result(error=e):
            raise EffectError(Error(e))


# ---------------------------------------------------------------- a decorated function can be run again
def once_option(body, a):
    g = body(a)
    if not inspect.isgenerator(g):
        return Nothing if g is None else Some(g)
    try:
        sent = g.send(None)
    except EffectError as e:
        return e.args[0]
    except StopIteration as e:
        return Nothing if e.value is None else Some(e.value)
    while True:
        try:
            sent = g.send(sent)
        except EffectError as e:
            return e.args[0]
        except StopIteration as e:
            return Some(sent) if e.value is None else Some(e.value)


def once_result(body, a):
    g = body(a)
    if not inspect.isgenerator(g):
        return Ok(g)
    try:
        sent = g.send(None)
    except EffectError as e:
        return e.args[0]
    except StopIteration as e:
        return Ok(e.value)
    while True:
        try:
            sent = g.send(sent)
        except EffectError as e:
            return e.args[0]
        except StopIteration as e:
            return Ok(sent) if e.value is None else Ok(e.value)


def impl_optionAgain(body: Fn[Any], a: Any, b: Any):
    f = effect.option()(body)
    return f(a), f(b)


def spec_optionAgain(body: Fn[Any], a: Any, b: Any):
    return once_option(body, a), once_option(body, b)


def impl_optionShared(body: Fn[Any], other: Fn[Any], a: Any):
    o = effect.option()
    f = o(body)
    g = o(other)
    return f(a), g(a)


def spec_optionShared(body: Fn[Any], other: Fn[Any], a: Any):
    return once_option(body, a), once_option(other, a)


def impl_resultAgain(body: Fn[Any], a: Any, b: Any):
    f = effect.result()(body)
    return f(a), f(b)


def spec_resultAgain(body: Fn[Any], a: Any, b: Any):
    return once_result(body, a), once_result(body, b)


# ---------------------------------------------------------------- the combinators a builder is made of
def impl_optionOps(o: Option[Any], p: Option[Any], f: Fn[Option[Any]], x: Any):
    b = effect.option()
    return b.bind(o, f), b.combine(o, p), b.return_(x), b.return_from(o), b.zero(), b.run(p)


def spec_optionOps(o: Option[Any], p: Option[Any], f: Fn[Option[Any]], x: Any):
    match o:
        case Option(tag="some", some=v):
            return f(v), p, Some(x), o, Nothing, p
        case _:
            return Nothing, Nothing, Some(x), o, Nothing, p


def impl_resultOps(o: Result[Any, Any], p: Result[Any, Any], f: Fn[Result[Any, Any]], x: Any):
    b = effect.result()
    return b.bind(o, f), b.combine(o, p), b.return_(x), b.return_from(o), b.zero(), b.run(p)


def spec_resultOps(o: Result[Any, Any], p: Result[Any, Any], f: Fn[Result[Any, Any]], x: Any):
    match o:
        case Result(tag="ok", ok=v):
            return f(v), p, Ok(x), o, Ok(None), p
        case Result(error=e):
            return Error(e), Error(e), Ok(x), o, Ok(None), p


def impl_seqOps(xs: Iter[Any], ys: Iter[Any], f: Fn[Iter[Any]], x: Any):
    b = effect.seq()
    return list(b.bind(xs, f)), list(b.combine(xs, ys)), list(b.return_(x)), list(b.return_from(xs)), list(b.zero()), list(b.run(ys))


def spec_seqOps(xs: Iter[Any], ys: Iter[Any], f: Fn[Iter[Any]], x: Any):
    out = []
    for v in xs:
        out.extend(f(v))
    return out, [*xs, *ys], [x], list(xs), [], list(ys)
