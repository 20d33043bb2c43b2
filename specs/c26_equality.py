"""Equality, hashing and ordering follow case and contents."""
from typing import Any

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block
from expression.collections.array import TypeCode, TypedArray

from .lib import Fn


# ---------------------------------------------------------------- options
def impl_optionEq(a: Option[Any], b: Option[Any]):
    return a == b


def impl_optionEq__method(a: Option[Any], b: Option[Any]):
    return Option.__eq__(a, b)


def spec_optionEq(a: Option[Any], b: Option[Any]):
    match (a, b):
        case (Option(tag="some", some=x), Option(tag="some", some=y)):
            return x == y
        case (Option(tag="none"), Option(tag="none")):
            return True
        case _:
            return False


def impl_optionNe(a: Option[Any], b: Option[Any]):
    return a != b


def spec_optionNe(a: Option[Any], b: Option[Any]):
    match (a, b):
        case (Option(tag="some", some=x), Option(tag="some", some=y)):
            return x != y
        case (Option(tag="none"), Option(tag="none")):
            return False
        case _:
            return True


def impl_optionForeign(a: Option[Any], r: Result[Any, Any]):
    return Option.__eq__(a, 1), Option.__eq__(a, None), Option.__eq__(a, r), Option.__eq__(a, "some")


def spec_optionForeign(a: Option[Any], r: Result[Any, Any]):
    return False, False, False, False


def impl_optionLess(x: int, y: int):
    return Some(x) < Some(y), Nothing < Nothing, Some(x) < Nothing, Nothing < Some(x)


def spec_optionLess(x: int, y: int):
    return x < y, False, False, True


def impl_optionHash(x: Any, y: Any):
    if x == y:
        return hash(Some(x)) == hash(Some(y)), hash(Nothing) == hash(Nothing)


def spec_optionHash(x: Any, y: Any):
    if x == y:
        return True, True


# ---------------------------------------------------------------- results
def impl_resultEq(a: Result[Any, Any], b: Result[Any, Any]):
    return a == b


def spec_resultEq(a: Result[Any, Any], b: Result[Any, Any]):
    match (a, b):
        case (Result(tag="ok", ok=x), Result(tag="ok", ok=y)):
            return x == y
        case (Result(tag="error", error=x), Result(tag="error", error=y)):
            return x == y
        case _:
            return False


def impl_resultLess(x: int, y: int):
    return Ok(x) < Ok(y), Error(x) < Error(y), Ok(x) < Error(y), Error(x) < Ok(y)


def spec_resultLess(x: int, y: int):
    return x < y, x < y, True, False


def impl_resultHash(x: Any, y: Any):
    if x == y:
        return hash(Ok(x)) == hash(Ok(y)), hash(Error(x)) == hash(Error(y))


def spec_resultHash(x: Any, y: Any):
    if x == y:
        return True, True


# ---------------------------------------------------------------- blocks
def impl_blockEq(a: Block[Any], b: Block[Any]):
    return Block.__eq__(a, b)


def spec_blockEq(a: Block[Any], b: Block[Any]):
    return tuple(a) == tuple(b)


def impl_blockSmall(x: Any, y: Any, z: Any):
    return (Block([x]) == Block([y]), Block([x, y]) == Block([x]), Block([x]) == Block([x, y]), Block([]) == Block([]),
            Block([0, y]) == Block([0, z]), Block([x]) == Block([]), Block([]) == Block([x]))


def spec_blockSmall(x: Any, y: Any, z: Any):
    return x == y, False, False, True, y == z, False, False


# ---------------------------------------------------------------- typed arrays
def arr(*xs):
    return TypedArray(xs, TypeCode.Any)


def impl_arraySmall(x: Any, y: Any, z: Any):
    return (arr(x) == arr(y), arr(x, y) == arr(x), arr(x) == arr(x, y), arr() == arr(), arr(0, y) == arr(0, z), arr(x) == arr(), arr() == arr(x))


def spec_arraySmall(x: Any, y: Any, z: Any):
    return x == y, False, False, True, y == z, False, False


def impl_arrayForeign(x: Any):
    return (arr(x) == 1, arr(x) == None, arr() == None, arr() == 0, arr(x) == Some(x))  # noqa


def spec_arrayForeign(x: Any):
    return False, False, False, False, False


def impl_arraySequences(x: Any, y: Any, z: Any):
    return (arr(x) == [y], arr(x) == (y,), arr(0, y) == (0, z), arr() == [], arr() == (), arr(x) == [], arr(x) == (x, y), arr(x) == [x, y],
            arr(x, y) == (x,))


def spec_arraySequences(x: Any, y: Any, z: Any):
    return x == y, x == y, y == z, True, True, False, False, False, False


def impl_arrayEq(xs: tuple, ys: tuple):
    return TypedArray(xs, TypeCode.Any) == TypedArray(ys, TypeCode.Any)


def spec_arrayEq(xs: tuple, ys: tuple):
    if len(xs) != len(ys):
        return False
    for i, x in enumerate(xs):
        if x != ys[i]:
            return False
    return True
