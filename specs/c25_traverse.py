"""traverse / sequence: order and first failure."""
from typing import Any

from expression import Error, Ok, Result
from expression.collections import Block
from expression.extra.result import sequence, traverse

from .lib import Fn


def impl_traverse(f: Fn[Result[Any, Any]], b: Block[Any]):
    match traverse(f, b):
        case Result(tag="ok", ok=xs):
            return "ok", list(xs)
        case Result(error=e):
            return "error", e


def spec_traverse(f: Fn[Result[Any, Any]], b: Block[Any]):
    acc = Ok(Block())
    for x in reversed(list(b)):
        r = f(x)
        match r:
            case Result(tag="ok", ok=v):
                match acc:
                    case Result(tag="ok", ok=vs):
                        acc = Ok(Block([v, *vs]))
                    case Result(error=e):
                        acc = Error(e)
            case Result(error=e):
                acc = Error(e)
    match acc:
        case Result(tag="ok", ok=vs):
            return "ok", list(vs)
        case Result(error=e):
            return "error", e


def spec_traverse__forward(f: Fn[Result[Any, Any]], b: Block[Any]):
    acc = Ok(Block())
    for x in b:
        r = f(x)
        match acc:
            case Result(tag="ok", ok=vs):
                match r:
                    case Result(tag="ok", ok=v):
                        acc = Ok(Block([*vs, v]))
                    case Result(error=e):
                        acc = Error(e)
            case Result(error=e):
                acc = Error(e)
    match acc:
        case Result(tag="ok", ok=vs):
            return "ok", list(vs)
        case Result(error=e):
            return "error", e


def impl_sequence(b: Block[Result[Any, Any]]):
    match sequence(b):
        case Result(tag="ok", ok=xs):
            return "ok", list(xs)
        case Result(error=e):
            return "error", e


def spec_sequence(b: Block[Result[Any, Any]]):
    acc = Ok(Block())
    for r in reversed(list(b)):
        match r:
            case Result(tag="ok", ok=v):
                match acc:
                    case Result(tag="ok", ok=vs):
                        acc = Ok(Block([v, *vs]))
                    case Result(error=e):
                        acc = Error(e)
            case Result(error=e):
                acc = Error(e)
    match acc:
        case Result(tag="ok", ok=vs):
            return "ok", list(vs)
        case Result(error=e):
            return "error", e


def spec_sequence__forward(b: Block[Result[Any, Any]]):
    out = []
    for r in b:
        match r:
            case Result(tag="ok", ok=v):
                out.append(v)
            case Result(error=e):
                return "error", e
    return "ok", out


def impl_small(f: Fn[Result[Any, Any]], x: Any, y: Any):
    return traverse(f, Block([])), traverse(f, Block([x]))


def spec_small(f: Fn[Result[Any, Any]], x: Any, y: Any):
    match f(x):
        case Result(tag="ok", ok=v):
            return Ok(Block([])), Ok(Block([v]))
        case Result(error=e):
            return Ok(Block([])), Error(e)


def impl_pair(f: Fn[Result[Any, Any]], x: Any, y: Any):
    return traverse(f, Block([x, y]))


def spec_pair(f: Fn[Result[Any, Any]], x: Any, y: Any):
    s = f(y)
    r = f(x)
    match (r, s):
        case (Result(tag="error", error=e), _):
            return Error(e)
        case (_, Result(tag="error", error=e)):
            return Error(e)
    return Ok(Block([r.ok, s.ok]))


def spec_pair__forward(f: Fn[Result[Any, Any]], x: Any, y: Any):
    r = f(x)
    s = f(y)
    match (r, s):
        case (Result(tag="error", error=e), _):
            return Error(e)
        case (_, Result(tag="error", error=e)):
            return Error(e)
    return Ok(Block([r.ok, s.ok]))


def impl_sequence3(r: Result[Any, Any], s: Result[Any, Any], t: Result[Any, Any]):
    return sequence(Block([r, s, t]))


def spec_sequence3(r: Result[Any, Any], s: Result[Any, Any], t: Result[Any, Any]):
    for u in (r, s, t):
        match u:
            case Result(tag="error", error=e):
                return Error(e)
    return Ok(Block([r.ok, s.ok, t.ok]))
