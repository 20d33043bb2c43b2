"""Asynchronous sequences: each element once, in order, on demand."""
from typing import Any

from expression import Option, pipe
from expression.collections import asyncseq
from expression.collections.asyncseq import AsyncSeq
from specs.lib import AIter, Fn

DEMAND = True


async def impl_iter(xs: AIter[Any]):
    async for y in AsyncSeq(xs):
        yield y


async def spec_iter(xs: AIter[Any]):
    async for x in xs:
        yield x


async def impl_empty():
    async for y in AsyncSeq.empty():
        yield y


async def impl_empty__fn():
    async for y in asyncseq.empty():
        yield y


async def spec_empty():
    for x in ():
        yield x


async def impl_range(a: int, b: int, c: int):
    async for y in AsyncSeq.range(a, b, c):
        yield y


async def impl_range__fn(a: int, b: int, c: int):
    async for y in asyncseq.range(a, b, c):
        yield y


async def spec_range(a: int, b: int, c: int):
    for x in range(a, b, c):
        yield x


async def impl_range1(a: int):
    async for y in AsyncSeq.range(a):
        yield y


async def impl_range1__fn(a: int):
    async for y in asyncseq.range(a):
        yield y


async def spec_range1(a: int):
    for x in range(a):
        yield x


async def impl_range2(a: int, b: int):
    async for y in AsyncSeq.range(a, b):
        yield y


async def impl_range2__fn(a: int, b: int):
    async for y in asyncseq.range(a, b):
        yield y


async def spec_range2(a: int, b: int):
    for x in range(a, b):
        yield x


async def impl_repeat(v: Any, n: int):
    async for y in asyncseq.repeat(v, n):
        yield y


async def spec_repeat(v: Any, n: int):
    for _ in range(n):
        yield v


async def impl_map(xs: AIter[Any], f: Fn[Any]):
    async for y in await AsyncSeq(xs).map(f):
        yield y


async def impl_map__fn(xs: AIter[Any], f: Fn[Any]):
    async for y in asyncseq.map(f)(xs):
        yield y


async def spec_map(xs: AIter[Any], f: Fn[Any]):
    async for x in xs:
        yield f(x)


async def impl_filter(xs: AIter[Any], p: Fn[bool]):
    async for y in await AsyncSeq(xs).filter(p):
        yield y


async def impl_filter__fn(xs: AIter[Any], p: Fn[bool]):
    async for y in asyncseq.filter(p)(xs):
        yield y


async def spec_filter(xs: AIter[Any], p: Fn[bool]):
    async for x in xs:
        if p(x):
            yield x


async def impl_choose(xs: AIter[Any], f: Fn[Option[Any]]):
    async for y in await AsyncSeq(xs).choose(f):
        yield y


async def impl_choose__fn(xs: AIter[Any], f: Fn[Option[Any]]):
    async for y in asyncseq.choose(f)(xs):
        yield y


async def spec_choose(xs: AIter[Any], f: Fn[Option[Any]]):
    async for x in xs:
        match f(x):
            case Option(tag="some", some=y):
                yield y
            case _:
                pass


async def impl_collect(xs: AIter[Any], f: Fn[AIter[Any]]):
    async for y in await AsyncSeq(xs).collect(f):
        yield y


async def impl_collect__fn(xs: AIter[Any], f: Fn[AIter[Any]]):
    async for y in asyncseq.collect(f)(xs):
        yield y


async def spec_collect(xs: AIter[Any], f: Fn[AIter[Any]]):
    async for x in xs:
        async for y in f(x):
            yield y


async def impl_concat(xs: AIter[AIter[Any]]):
    async for y in await AsyncSeq(xs).concat():
        yield y


async def spec_concat(xs: AIter[AIter[Any]]):
    async for x in xs:
        async for y in x:
            yield y


async def impl_append(xs: AIter[Any], ys: AIter[Any]):
    async for y in asyncseq.append(ys)(xs):
        yield y


async def impl_append__pipe(xs: AIter[Any], ys: AIter[Any]):
    async for y in pipe(xs, asyncseq.append(ys)):
        yield y


async def spec_append(xs: AIter[Any], ys: AIter[Any]):
    async for x in xs:
        yield x
    async for x in ys:
        yield x


async def impl_scan(xs: AIter[Any], f: Fn[Any], s: Any):
    async for y in AsyncSeq(xs).scan(f, s):
        yield y


async def spec_scan(xs: AIter[Any], f: Fn[Any], s: Any):
    yield s
    async for x in xs:
        s = f(s, x)
        yield s


async def impl_take(xs: AIter[Any], n: int):
    async for y in await AsyncSeq(xs).take(n):
        yield y


async def spec_take(xs: AIter[Any], n: int):
    if n > 0:
        i = 0
        async for x in xs:
            yield x
            i = i + 1
            if i == n:
                break


async def impl_skip(xs: AIter[Any], n: int):
    async for y in await AsyncSeq(xs).skip(n):
        yield y


async def spec_skip(xs: AIter[Any], n: int):
    i = 0
    async for x in xs:
        if i >= n:
            yield x
        i = i + 1


async def impl_tail(xs: AIter[Any]):
    async for y in await AsyncSeq(xs).tail():
        yield y


async def spec_tail(xs: AIter[Any]):
    first = True
    async for x in xs:
        if first:
            first = False
        else:
            yield x


async def spec_tail__count(xs: AIter[Any]):
    i = 0
    async for x in xs:
        if i >= 1:
            yield x
        i = i + 1


async def impl_chained(xs: AIter[Any], f: Fn[Any], p: Fn[bool]):
    async for y in pipe(xs, asyncseq.map(f), asyncseq.filter(p)):
        yield y


async def spec_chained(xs: AIter[Any], f: Fn[Any], p: Fn[bool]):
    async for x in xs:
        y = f(x)
        if p(y):
            yield y


async def impl_fold(xs: AIter[Any], f: Fn[Any], s: Any):
    return await AsyncSeq(xs).fold(f, s)


async def spec_fold(xs: AIter[Any], f: Fn[Any], s: Any):
    async for x in xs:
        s = f(s, x)
    return s


async def impl_foldBack(xs: AIter[Any], f: Fn[Any], s: Any):
    return await AsyncSeq(xs).fold_back(f, s)


async def spec_foldBack(xs: AIter[Any], f: Fn[Any], s: Any):
    ys = [x async for x in xs]
    for y in reversed(ys):
        s = f(y, s)
    return s


async def impl_head(xs: AIter[Any]):
    return await AsyncSeq(xs).head()


async def spec_head(xs: AIter[Any]):
    async for x in xs:
        return x
    raise ValueError


async def impl_length(xs: AIter[Any]):
    return await AsyncSeq(xs).length()


async def spec_length(xs: AIter[Any]):
    n = 0
    async for _ in xs:
        n = n + 1
    return n


async def impl_sum(xs: AIter[Any]):
    return await AsyncSeq(xs).sum()


async def spec_sum(xs: AIter[Any]):
    s = 0
    async for x in xs:
        s = s + x
    return s


async def impl_max(xs: AIter[Any]):
    return await AsyncSeq(xs).max()


async def spec_max(xs: AIter[Any]):
    ys = [x async for x in xs]
    if not ys:
        raise ValueError
    return max(ys)


async def impl_min(xs: AIter[Any]):
    return await AsyncSeq(xs).min()


async def spec_min(xs: AIter[Any]):
    ys = [x async for x in xs]
    if not ys:
        raise ValueError
    return min(ys)
