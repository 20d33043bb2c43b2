"""Pipelines apply every stage exactly once, left to right, feeding each result on."""
from typing import Any

from expression import Nothing, Ok, Option, Result, Some, compose, pipe, pipe2, pipe3
from expression.core.compose import starcompose
from expression.core.pipe import starpipe
from expression.extra.option.pipeline import pipeline as opipeline
from expression.extra.result.pipeline import pipeline as rpipeline
from specs.lib import Fn


def impl_compose(x: Any, *fs: Fn[Any]):
    return compose(*fs)(x)


def impl_compose__pipe(x: Any, *fs: Fn[Any]):
    return pipe(x, *fs)


def spec_compose(x: Any, *fs: Fn[Any]):
    for f in fs:
        x = f(x)
    return x


def impl_composeIdle(x: Any, *fs: Fn[Any]):
    compose(*fs)
    return None


def spec_composeIdle(x: Any, *fs: Fn[Any]):
    return None


def impl_pipe2(a: Any, b: Any, f: Fn[Fn[Any]], *fs: Fn[Any]):
    return pipe2((a, b), f, *fs)


def spec_pipe2(a: Any, b: Any, f: Fn[Fn[Any]], *fs: Fn[Any]):
    x = f(a)(b)
    for g in fs:
        x = g(x)
    return x


def impl_pipe2none(a: Any, b: Any):
    return pipe2((a, b))


def spec_pipe2none(a: Any, b: Any):
    return (a, b)


def impl_pipe3(a: Any, b: Any, c: Any, f: Fn[Fn[Fn[Any]]], *fs: Fn[Any]):
    return pipe3((a, b, c), f, *fs)


def spec_pipe3(a: Any, b: Any, c: Any, f: Fn[Fn[Fn[Any]]], *fs: Fn[Any]):
    x = f(a)(b)(c)
    for g in fs:
        x = g(x)
    return x


def impl_starpipe(t: Any, f: Fn[Any], *fs: Fn[Any]):
    return starpipe(t, f, *fs)


def spec_starpipe(t: Any, f: Fn[Any], *fs: Fn[Any]):
    x = f(*t)
    for g in fs:
        x = g(*x)
    return x


def impl_starpipeNone(t: tuple):
    return starpipe(t)


def spec_starpipeNone(t: tuple):
    return t


def impl_starcompose(x: Any, *fs: Fn[Any]):
    return starcompose(*fs)(x)


def spec_starcompose(x: Any, *fs: Fn[Any]):
    for g in fs:
        x = g(*x)
    return x


def impl_optionPipeline0(x: Any):
    return opipeline()(x)


def spec_optionPipeline0(x: Any):
    return Option(some=x)


def impl_optionPipeline1(x: Any, f: Fn[Option[Any]]):
    return opipeline(f)(x)


def spec_optionPipeline1(x: Any, f: Fn[Option[Any]]):
    return f(x)


def impl_optionPipeline3(x: Any, f: Fn[Option[Any]], g: Fn[Option[Any]], h: Fn[Option[Any]]):
    return opipeline(f, g, h)(x)


def spec_optionPipeline3(x: Any, f: Fn[Option[Any]], g: Fn[Option[Any]], h: Fn[Option[Any]]):
    o = f(x)
    if o.tag == "some":
        o = g(o.some)
        if o.tag == "some":
            o = h(o.some)
    return o


def impl_optionPipelineStep(x: Any, f: Fn[Option[Any]], *fs: Fn[Option[Any]]):
    return opipeline(*fs, f)(x)


def spec_optionPipelineStep(x: Any, f: Fn[Option[Any]], *fs: Fn[Option[Any]]):
    o = opipeline(*fs)(x)
    if o.tag == "some":
        return f(o.some)
    return o


def impl_resultPipeline0(x: Any):
    return rpipeline()(x)


def spec_resultPipeline0(x: Any):
    return Result(ok=x)


def impl_resultPipeline1(x: Any, f: Fn[Result[Any, Any]]):
    return rpipeline(f)(x)


def spec_resultPipeline1(x: Any, f: Fn[Result[Any, Any]]):
    return f(x)


def impl_resultPipeline3(x: Any, f: Fn[Result[Any, Any]], g: Fn[Result[Any, Any]], h: Fn[Result[Any, Any]]):
    return rpipeline(f, g, h)(x)


def spec_resultPipeline3(x: Any, f: Fn[Result[Any, Any]], g: Fn[Result[Any, Any]], h: Fn[Result[Any, Any]]):
    o = f(x)
    if o.tag == "ok":
        o = g(o.ok)
        if o.tag == "ok":
            o = h(o.ok)
    return o


def impl_resultPipelineStep(x: Any, f: Fn[Result[Any, Any]], *fs: Fn[Result[Any, Any]]):
    return rpipeline(*fs, f)(x)


def spec_resultPipelineStep(x: Any, f: Fn[Result[Any, Any]], *fs: Fn[Result[Any, Any]]):
    o = rpipeline(*fs)(x)
    if o.tag == "ok":
        return f(o.ok)
    return o


# ---------------------------------------------------------------- compositions are functions like any other
def impl_composeAgain(x: Any, y: Any, *fs: Fn[Any]):
    g = compose(*fs)
    a = g(x)
    return a, g(y)


def spec_composeAgain(x: Any, y: Any, *fs: Fn[Any]):
    for f in fs:
        x = f(x)
    for f in fs:
        y = f(y)
    return x, y


def impl_starcomposeAgain(x: tuple, y: tuple, f: Fn[tuple], g: Fn[Any]):
    h = starcompose(f, g)
    a = h(x)
    return a, h(y)


def spec_starcomposeAgain(x: tuple, y: tuple, f: Fn[tuple], g: Fn[Any]):
    a = g(*f(*x))
    return a, g(*f(*y))


def impl_sameStage(x: Any, f: Fn[Any], g: Fn[Any]):
    return compose(f, f, g, f)(x)


def impl_sameStage__pipe(x: Any, f: Fn[Any], g: Fn[Any]):
    return pipe(x, f, f, g, f)


def impl_sameStage__method(x: Any, f: Fn[Any], g: Fn[Any]):
    return f(Some(x).pipe(option_value, f, f, g))


def option_value(o):
    return o.value


def spec_sameStage(x: Any, f: Fn[Any], g: Fn[Any]):
    return f(g(f(f(x))))


def impl_optionPipelineAgain(x: Any, y: Any, f: Fn[Option[Any]], g: Fn[Option[Any]]):
    h = opipeline(f, f, g)
    a = h(x)
    return a, h(y)


def spec_optionPipelineAgain(x: Any, y: Any, f: Fn[Option[Any]], g: Fn[Option[Any]]):
    a = f(x).bind(f).bind(g)
    return a, f(y).bind(f).bind(g)


def impl_resultPipelineAgain(x: Any, y: Any, f: Fn[Result[Any, Any]], g: Fn[Result[Any, Any]]):
    h = rpipeline(f, f, g)
    a = h(x)
    return a, h(y)


def spec_resultPipelineAgain(x: Any, y: Any, f: Fn[Result[Any, Any]], g: Fn[Result[Any, Any]]):
    a = f(x).bind(f).bind(g)
    return a, f(y).bind(f).bind(g)


def impl_emptyMethod(x: Option[Any], y: Result[Any, Any], f: Fn[Any]):
    return x.pipe(), y.pipe(), x.pipe(f)


def spec_emptyMethod(x: Option[Any], y: Result[Any, Any], f: Fn[Any]):
    return x, y, f(x)
