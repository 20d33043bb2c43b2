"""Seq operations: element semantics, order of effects, laziness, re-iteration."""
from typing import Any

from expression import Option, pipe
from expression.collections import Seq, seq
from expression.collections.block import Block
from specs.lib import Fn, Iter

DEMAND = True


def impl_iter(xs: Iter[Any]):
    return list(Seq(xs))


def impl_iter__of(xs: Iter[Any]):
    return list(seq.of_iterable(xs))


def impl_iter__list(xs: Iter[Any]):
    return list(seq.of_list(xs))


def impl_iter__cls(xs: Iter[Any]):
    return list(Seq.of_iterable(xs))


def spec_iter(xs: Iter[Any]):
    return list(xs)


def impl_ofArgs(*xs: Any):
    return list(Seq.of(*xs))


def impl_ofArgs__fn(*xs: Any):
    return list(seq.of(*xs))


def spec_ofArgs(*xs: Any):
    return list(xs)


def impl_empty():
    return list(Seq.empty())


def impl_empty__const():
    return list(seq.empty)


def impl_empty__ctor():
    return list(Seq())


def spec_empty():
    return []


def impl_singleton(x: Any):
    return list(seq.singleton(x))


def spec_singleton(x: Any):
    return [x]


def impl_map(xs: Iter[Any], f: Fn[Any]):
    return (x for x in Seq(xs).map(f))


def impl_map__fn(xs: Iter[Any], f: Fn[Any]):
    return (x for x in seq.map(f)(xs))


def spec_map(xs: Iter[Any], f: Fn[Any]):
    return (f(x) for x in xs)


def impl_filter(xs: Iter[Any], p: Fn[bool]):
    return (x for x in Seq(xs).filter(p))


def impl_filter__fn(xs: Iter[Any], p: Fn[bool]):
    return (x for x in seq.filter(p)(xs))


def spec_filter(xs: Iter[Any], p: Fn[bool]):
    return (x for x in xs if p(x))


def impl_starmap(xs: Iter[tuple], f: Fn[Any]):
    return (x for x in Seq(xs).starmap(f))


def impl_starmap__fn(xs: Iter[tuple], f: Fn[Any]):
    return (x for x in seq.starmap(f)(xs))


def impl_starmap__map2(xs: Iter[tuple], f: Fn[Any]):
    return (x for x in seq.map2(f)(xs))


def impl_starmap__map3(xs: Iter[tuple], f: Fn[Any]):
    return (x for x in seq.map3(f)(xs))


def spec_starmap(xs: Iter[tuple], f: Fn[Any]):
    return (f(*x) for x in xs)


def impl_choose(xs: Iter[Any], f: Fn[Option[Any]]):
    return (x for x in Seq(xs).choose(f))


def impl_choose__fn(xs: Iter[Any], f: Fn[Option[Any]]):
    return (x for x in seq.choose(f)(xs))


def spec_choose(xs: Iter[Any], f: Fn[Option[Any]]):
    def go():
        for x in xs:
            o = f(x)
            if o.tag == "some":
                yield o.some
    return go()


def impl_collect(xs: Iter[Any], f: Fn[Iter[Any]]):
    return (x for x in Seq(xs).collect(f))


def impl_collect__fn(xs: Iter[Any], f: Fn[Iter[Any]]):
    return (x for x in seq.collect(f)(xs))


def spec_collect(xs: Iter[Any], f: Fn[Iter[Any]]):
    def go():
        for x in xs:
            for y in f(x):
                yield y
    return go()


def impl_concatSeq(xs: Iter[Iter[Any]]):
    return (x for x in Seq(xs).concat())


def spec_concatSeq(xs: Iter[Iter[Any]]):
    def go():
        for x in xs:
            for y in x:
                yield y
    return go()


def impl_concat__fn(*xs: Iter[Any]):
    return (x for x in seq.concat(*xs))


def spec_concat(*xs: Iter[Any]):
    def go():
        for x in xs:
            for y in x:
                yield y
    return go()


def impl_append(xs: Iter[Any], *ys: Iter[Any]):
    return (x for x in Seq(xs).append(*ys))


def impl_append__fn(xs: Iter[Any], *ys: Iter[Any]):
    return (x for x in seq.append(*ys)(xs))


def spec_append(xs: Iter[Any], *ys: Iter[Any]):
    def go():
        for x in xs:
            yield x
        for y in ys:
            for x in y:
                yield x
    return go()


def impl_delay(g: Fn[Iter[Any]]):
    for x in seq.delay(g):
        yield x


def impl_delay__cls(g: Fn[Iter[Any]]):
    for x in Seq.delay(g):
        yield x


def spec_delay(g: Fn[Iter[Any]]):
    for x in g():
        yield x


def impl_fold(xs: Iter[Any], f: Fn[Any], s: Any):
    return Seq(xs).fold(f, s)


def impl_fold__fn(xs: Iter[Any], f: Fn[Any], s: Any):
    return seq.fold(f, s)(xs)


def spec_fold(xs: Iter[Any], f: Fn[Any], s: Any):
    for x in xs:
        s = f(s, x)
    return s


def impl_foldBack__fn(xs: Iter[Any], f: Fn[Any], s: Any):
    return seq.fold_back(f, xs)(s)


def spec_foldBack(xs: Iter[Any], f: Fn[Any], s: Any):
    for x in reversed(list(xs)):
        s = f(x, s)
    return s


def impl_head(xs: Iter[Any]):
    return Seq(xs).head()


def impl_head__fn(xs: Iter[Any]):
    return seq.head(xs)


def spec_head(xs: Iter[Any]):
    for x in xs:
        return x
    raise ValueError("empty")


def impl_length(xs: Iter[Any]):
    return Seq(xs).length()


def impl_length__fn(xs: Iter[Any]):
    return seq.length(xs)


def spec_length(xs: Iter[Any]):
    n = 0
    for x in xs:
        n += 1
    return n


def impl_iterate__fn(xs: Iter[Any], f: Fn[Any]):
    return seq.iter(f)(xs)


def spec_iterate(xs: Iter[Any], f: Fn[Any]):
    for x in xs:
        f(x)
    return None


def impl_mapi(xs: Iter[Any], f: Fn[Any]):
    return (x for x in Seq(xs).mapi(f))


def impl_mapi__fn(xs: Iter[Any], f: Fn[Any]):
    return (x for x in seq.mapi(f)(xs))


def spec_mapi(xs: Iter[Any], f: Fn[Any]):
    def go():
        i = 0
        for x in xs:
            yield f(i, x)
            i += 1
    return go()


def impl_scan(xs: Iter[Any], f: Fn[Any], s: Any):
    return (x for x in Seq(xs).scan(f, s))


def impl_scan__fn(xs: Iter[Any], f: Fn[Any], s: Any):
    return (x for x in seq.scan(f, s)(xs))


def spec_scan(xs: Iter[Any], f: Fn[Any], s: Any):
    def go():
        acc = s
        yield acc
        for x in xs:
            acc = f(acc, x)
            yield acc
    return go()


def impl_skip(xs: Iter[Any], n: int):
    return (x for x in Seq(xs).skip(n))


def impl_skip__fn(xs: Iter[Any], n: int):
    return (x for x in seq.skip(n)(xs))


def spec_skip(xs: Iter[Any], n: int):
    def go():
        i = 0
        for x in xs:
            if i >= n:
                yield x
            i += 1
    return go()


def impl_tail(xs: Iter[Any]):
    return (x for x in Seq(xs).tail())


def impl_tail__fn(xs: Iter[Any]):
    return (x for x in seq.tail(xs))


def spec_tail(xs: Iter[Any]):
    def go():
        i = 0
        for x in xs:
            if i >= 1:
                yield x
            i += 1
    return go()


def impl_take(xs: Iter[Any], n: int):
    return (x for x in Seq(xs).take(n))


def impl_take__fn(xs: Iter[Any], n: int):
    return (x for x in seq.take(n)(xs))


def spec_take(xs: Iter[Any], n: int):
    def go():
        if n > 0:
            i = 0
            for x in xs:
                yield x
                i += 1
                if i >= n:
                    return
    return go()


def impl_sum(xs: Iter[Any]):
    return Seq(xs).sum()


def impl_sum__fn(xs: Iter[Any]):
    return seq.sum(xs)


def spec_sum(xs: Iter[Any]):
    s = 0
    for x in xs:
        s = s + x
    return s


def impl_sumBy(xs: Iter[Any], f: Fn[Any]):
    return Seq(xs).sum_by(f)


def impl_sumBy__fn(xs: Iter[Any], f: Fn[Any]):
    return seq.sum_by(f)(xs)


def spec_sumBy(xs: Iter[Any], f: Fn[Any]):
    s = 0
    for x in xs:
        s = s + f(x)
    return s


def impl_max__fn(xs: Iter[Any]):
    return seq.max(xs)


def spec_max(xs: Iter[Any]):
    return max(xs)


def impl_min__fn(xs: Iter[Any]):
    return seq.min(xs)


def spec_min(xs: Iter[Any]):
    return min(xs)


def impl_maxBy__fn(xs: Iter[Any], f: Fn[Any]):
    return seq.max_by(f)(xs)


def spec_maxBy(xs: Iter[Any], f: Fn[Any]):
    return max([f(x) for x in xs])


def impl_minBy__fn(xs: Iter[Any], f: Fn[Any]):
    return seq.min_by(f)(xs)


def spec_minBy(xs: Iter[Any], f: Fn[Any]):
    return min([f(x) for x in xs])


def impl_pairwise(xs: Iter[Any]):
    return (x for x in Seq(xs).pairwise())


def impl_pairwise__fn(xs: Iter[Any]):
    return (x for x in seq.pairwise(xs))


def spec_pairwise(xs: Iter[Any]):
    import itertools
    def go():
        for p in itertools.pairwise(xs):
            yield p
    return go()


def impl_range(a: int, b: int, c: int):
    return list(Seq.range(a, b, c))


def impl_range__fn(a: int, b: int, c: int):
    return list(seq.range(a, b, c))


def spec_range(a: int, b: int, c: int):
    return list(range(a, b, c))


def impl_toList(xs: Iter[Any]):
    return Seq(xs).to_list()


def impl_toList__fn(xs: Iter[Any]):
    return seq.to_list(xs)


def spec_toList(xs: Iter[Any]):
    return Block(tuple(xs))


def impl_tryFindIndex(xs: Iter[Any], p: Fn[bool]):
    return Seq(xs).try_find_index(p)


def impl_tryFindIndex__fn(xs: Iter[Any], p: Fn[bool]):
    return seq.try_find_index(p)(xs)


def spec_tryFindIndex(xs: Iter[Any], p: Fn[bool]):
    i = 0
    for x in xs:
        if p(x):
            return Option(some=i)
        i += 1
    return Option(none=None)


def impl_tryPick(xs: Iter[Any], f: Fn[Option[Any]]):
    return Seq(xs).try_pick(f)


def impl_tryPick__fn(xs: Iter[Any], f: Fn[Option[Any]]):
    return seq.try_pick(f)(xs)


def spec_tryPick(xs: Iter[Any], f: Fn[Option[Any]]):
    for x in xs:
        o = f(x)
        if o.tag == "some":
            return o
    return Option(none=None)


def impl_unfold(f: Fn[Option[tuple[Any, Any]]], s: Any):
    return (x for x in Seq.unfold(f, s))


def impl_unfold__fn(f: Fn[Option[tuple[Any, Any]]], s: Any):
    return (x for x in seq.unfold(f)(s))


def spec_unfold(f: Fn[Option[tuple[Any, Any]]], s: Any):
    def go():
        t = s
        while True:
            o = f(t)
            if o.tag != "some":
                return
            x, t = o.some
            yield x
    return go()


def impl_zip(xs: Iter[Any], ys: Iter[Any]):
    return (x for x in Seq(xs).zip(ys))


def impl_zip__fn(xs: Iter[Any], ys: Iter[Any]):
    return (x for x in seq.zip(xs)(ys))


def spec_zip(xs: Iter[Any], ys: Iter[Any]):
    return (p for p in zip(xs, ys))


def impl_initInfinite__fn(f: Fn[Any], n: int):
    return (x for x in seq.init_infinite(f))


def spec_initInfinite(f: Fn[Any], n: int):
    def go():
        i = 0
        while True:
            yield f(i)
            i += 1
    return go()


def impl_againMap(xs: Iter[Any], f: Fn[Any]):
    r = Seq(xs).map(f)
    first = list(r)
    return first, list(r)


def impl_againMap__fn(xs: Iter[Any], f: Fn[Any]):
    r = seq.map(f)(xs)
    first = list(r)
    return first, list(r)


def spec_againMap(xs: Iter[Any], f: Fn[Any]):
    def go():
        return [f(x) for x in xs]
    first = list(go())
    return first, list(go())


def impl_againFilter(xs: Iter[Any], p: Fn[bool]):
    r = Seq(xs).filter(p)
    first = list(r)
    return first, list(r)


def impl_againFilter__fn(xs: Iter[Any], p: Fn[bool]):
    r = seq.filter(p)(xs)
    first = list(r)
    return first, list(r)


def spec_againFilter(xs: Iter[Any], p: Fn[bool]):
    def go():
        return [x for x in xs if p(x)]
    first = list(go())
    return first, list(go())


def impl_againScan(xs: Iter[Any], f: Fn[Any], s: Any):
    r = Seq(xs).scan(f, s)
    first = list(r)
    return first, list(r)


def impl_againScan__fn(xs: Iter[Any], f: Fn[Any], s: Any):
    r = seq.scan(f, s)(xs)
    first = list(r)
    return first, list(r)


def spec_againScan(xs: Iter[Any], f: Fn[Any], s: Any):
    def go():
        out = [s]
        acc = s
        for x in xs:
            acc = f(acc, x)
            out.append(acc)
        return out
    first = list(go())
    return first, list(go())


def impl_againSkip(xs: Iter[Any], n: int):
    r = Seq(xs).skip(n)
    first = list(r)
    return first, list(r)


def impl_againSkip__fn(xs: Iter[Any], n: int):
    r = seq.skip(n)(xs)
    first = list(r)
    return first, list(r)


def spec_againSkip(xs: Iter[Any], n: int):
    def go():
        out = []
        i = 0
        for x in xs:
            if i >= n:
                out.append(x)
            i += 1
        return out
    first = list(go())
    return first, list(go())


def impl_againChoose(xs: Iter[Any], f: Fn[Option[Any]]):
    r = Seq(xs).choose(f)
    first = list(r)
    return first, list(r)


def impl_againChoose__fn(xs: Iter[Any], f: Fn[Option[Any]]):
    r = seq.choose(f)(xs)
    first = list(r)
    return first, list(r)


def spec_againChoose(xs: Iter[Any], f: Fn[Option[Any]]):
    def go():
        out = []
        for x in xs:
            o = f(x)
            if o.tag == 'some':
                out.append(o.some)
        return out
    first = list(go())
    return first, list(go())


def impl_againPairwise(xs: Iter[Any]):
    r = Seq(xs).pairwise()
    first = list(r)
    return first, list(r)


def impl_againPairwise__fn(xs: Iter[Any]):
    r = seq.pairwise(xs)
    first = list(r)
    return first, list(r)


def spec_againPairwise(xs: Iter[Any]):
    import itertools
    def go():
        return list(itertools.pairwise(xs))
    first = list(go())
    return first, list(go())


def impl_againUnfold(f: Fn[Option[tuple[Any, Any]]], s: Any):
    r = Seq.unfold(f, s)
    first = list(r)
    return first, list(r)


def impl_againUnfold__fn(f: Fn[Option[tuple[Any, Any]]], s: Any):
    r = seq.unfold(f)(s)
    first = list(r)
    return first, list(r)


def spec_againUnfold(f: Fn[Option[tuple[Any, Any]]], s: Any):
    def go():
        t = s
        out = []
        while True:
            o = f(t)
            if o.tag != 'some':
                return out
            x, t = o.some
            out.append(x)
    first = list(go())
    return first, list(go())


def impl_againZip(xs: Iter[Any], ys: Iter[Any]):
    r = Seq(xs).zip(ys)
    first = list(r)
    return first, list(r)


def impl_againZip__fn(xs: Iter[Any], ys: Iter[Any]):
    r = seq.zip(xs)(ys)
    first = list(r)
    return first, list(r)


def spec_againZip(xs: Iter[Any], ys: Iter[Any]):
    def go():
        return list(zip(xs, ys))
    first = list(go())
    return first, list(go())


def impl_againMapi(xs: Iter[Any], f: Fn[Any]):
    r = Seq(xs).mapi(f)
    first = list(r)
    return first, list(r)


def impl_againMapi__fn(xs: Iter[Any], f: Fn[Any]):
    r = seq.mapi(f)(xs)
    first = list(r)
    return first, list(r)


def spec_againMapi(xs: Iter[Any], f: Fn[Any]):
    def go():
        out = []
        i = 0
        for x in xs:
            out.append(f(i, x))
            i += 1
        return out
    first = list(go())
    return first, list(go())


def impl_againDelay__fn(g: Fn[Iter[Any]]):
    r = seq.delay(g)
    first = list(r)
    return first, list(r)


def spec_againDelay(g: Fn[Iter[Any]]):
    def go():
        return [x for x in g()]
    first = list(go())
    return first, list(go())


def impl_againAppend(xs: Iter[Any], ys: Iter[Any]):
    r = Seq(xs).append(ys)
    first = list(r)
    return first, list(r)


def impl_againAppend__fn(xs: Iter[Any], ys: Iter[Any]):
    r = seq.append(ys)(xs)
    first = list(r)
    return first, list(r)


def spec_againAppend(xs: Iter[Any], ys: Iter[Any]):
    def go():
        return [*xs, *ys]
    first = list(go())
    return first, list(go())


def impl_idle__map(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).map(f)


def impl_idle__filter(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).filter(p)


def impl_idle__choose(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).choose(g)


def impl_idle__fnMap(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    seq.map(f)(xs)


def impl_idle__fnFilter(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    seq.filter(p)(xs)


def impl_idle__fnCollect(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    seq.collect(h)(xs)


def impl_idle__skip(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).skip(n)


def impl_idle__take(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).take(n)


def impl_idle__scan(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).scan(f, n)


def impl_idle__unfold(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq.unfold(g, n)


def impl_idle__pairwise(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).pairwise()


def impl_idle__zip(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).zip(xs)


def impl_idle__append(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).append(xs)


def impl_idle__starmap(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    Seq(xs).starmap(f)


def impl_idle__infinite(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    seq.init_infinite(f)


def impl_idle__delay(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    seq.delay(h)


def spec_idle(xs: Iter[Any], f: Fn[Any], p: Fn[bool], g: Fn[Option[Any]], h: Fn[Iter[Any]], n: int):
    return None


def twice(r):
    return list(r), list(r)


def impl_againRange(n: int, m: int):
    return (twice(seq.range(3)), twice(Seq.range(1, 4)))


def spec_againRange(n: int, m: int):
    return (([0, 1, 2], [0, 1, 2]), ([1, 2, 3], [1, 2, 3]))


def impl_againRangeAny(n: int, m: int):
    return (twice(seq.range(n)), twice(Seq.range(n, m)))


def spec_againRangeAny(n: int, m: int):
    return (twice(range(n)), twice(range(n, m)))


def impl_againMade(x: Any, y: Any):
    return (twice(seq.singleton(x)), twice(seq.of(x, y)), twice(Seq.of(x, y)), twice(seq.of_list([x, y])), twice(seq.of_iterable((y, x))))


def spec_againMade(x: Any, y: Any):
    return (([x], [x]), ([x, y], [x, y]), ([x, y], [x, y]), ([x, y], [x, y]), ([y, x], [y, x]))


def impl_againCollect(xs: Iter[Any], f: Fn[Iter[Any]]):
    return twice(Seq(xs).collect(f))


def impl_againCollect__fn(xs: Iter[Any], f: Fn[Iter[Any]]):
    return twice(seq.collect(f)(xs))


def spec_againCollect(xs: Iter[Any], f: Fn[Iter[Any]]):
    def go():
        return [y for x in xs for y in f(x)]
    first = go()
    return first, go()
