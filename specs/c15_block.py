"""Block operations in terms of the finite sequence of elements they denote."""
from typing import Any

from expression import Option
from expression.collections import Block, block
from specs.lib import Fn, Iter


def impl_build(xs: Iter[Any]):
    return list(Block(xs))


def impl_build__ofseq(xs: Iter[Any]):
    return list(block.of_seq(xs))


def impl_build__clsOfseq(xs: Iter[Any]):
    return list(Block.of_seq(xs))


def spec_build(xs: Iter[Any]):
    return list(xs)


def impl_len(xs: Iter[Any]):
    return len(Block(xs))


def spec_len(xs: Iter[Any]):
    return len(list(xs))


def impl_of(*xs: Any):
    return list(Block.of(*xs))


def impl_of__fn(*xs: Any):
    return list(block.of(*xs))


def spec_of(*xs: Any):
    return list(xs)


def impl_empty():
    return list(Block.empty())


def impl_empty__const():
    return list(block.empty)


def impl_empty__nil():
    return list(block.nil)


def spec_empty():
    return []


def impl_singleton(x: Any):
    return list(Block.singleton(x))


def impl_singleton__fn(x: Any):
    return list(block.singleton(x))


def spec_singleton(x: Any):
    return [x]


def impl_ofOption(o: Option[Any]):
    return list(Block.of_option(o))


def impl_ofOption__fn(o: Option[Any]):
    return list(block.of_option(o))


def spec_ofOption(o: Option[Any]):
    return [o.some] if o.tag == "some" else []


def impl_append(a: Block[Any], b: Block[Any]):
    return list(a.append(b))


def impl_append__fn(a: Block[Any], b: Block[Any]):
    return list(block.append(b)(a))


def impl_append__op(a: Block[Any], b: Block[Any]):
    return list(a + b)


def spec_append(a: Block[Any], b: Block[Any]):
    return [*a, *b]


def impl_cons(b: Block[Any], x: Any):
    return list(b.cons(x))


def impl_cons__fn(b: Block[Any], x: Any):
    return list(block.cons(x, b))


def spec_cons(b: Block[Any], x: Any):
    return [x, *b]


def impl_map(b: Block[Any], f: Fn[Any]):
    return list(b.map(f))


def impl_map__fn(b: Block[Any], f: Fn[Any]):
    return list(block.map(f)(b))


def spec_map(b: Block[Any], f: Fn[Any]):
    return [f(x) for x in b]


def impl_mapi(b: Block[Any], f: Fn[Any]):
    return list(b.mapi(f))


def impl_mapi__fn(b: Block[Any], f: Fn[Any]):
    return list(block.mapi(f)(b))


def spec_mapi(b: Block[Any], f: Fn[Any]):
    out = []
    i = 0
    for x in b:
        out.append(f(i, x))
        i += 1
    return out


def impl_starmap(b: Block[tuple], f: Fn[Any]):
    return list(b.starmap(f))


def impl_starmap__fn(b: Block[tuple], f: Fn[Any]):
    return list(block.starmap(f)(b))


def impl_starmap__map2(b: Block[tuple], f: Fn[Any]):
    return list(block.map2(f)(b))


def impl_starmap__map3(b: Block[tuple], f: Fn[Any]):
    return list(block.map3(f)(b))


def spec_starmap(b: Block[tuple], f: Fn[Any]):
    return [f(*x) for x in b]


def impl_filter(b: Block[Any], p: Fn[bool]):
    return list(b.filter(p))


def impl_filter__fn(b: Block[Any], p: Fn[bool]):
    return list(block.filter(p)(b))


def spec_filter(b: Block[Any], p: Fn[bool]):
    return [x for x in b if p(x)]


def impl_choose(b: Block[Any], f: Fn[Option[Any]]):
    return list(b.choose(f))


def impl_choose__fn(b: Block[Any], f: Fn[Option[Any]]):
    return list(block.choose(f)(b))


def spec_choose(b: Block[Any], f: Fn[Option[Any]]):
    out = []
    for x in b:
        o = f(x)
        if o.tag == "some":
            out.append(o.some)
    return out


def impl_collect(b: Block[Any], f: Fn[Block[Any]]):
    return list(b.collect(f))


def impl_collect__fn(b: Block[Any], f: Fn[Block[Any]]):
    return list(block.collect(f)(b))


def spec_collect(b: Block[Any], f: Fn[Block[Any]]):
    out = []
    for x in b:
        for y in f(x):
            out.append(y)
    return out


def impl_concat(bs: Iter[Block[Any]]):
    return list(block.concat(bs))


def spec_concat(bs: Iter[Block[Any]]):
    out = Block()
    for b in bs:
        out = Block([*out, *b])
    return list(out)


def impl_partition(b: Block[Any], p: Fn[bool]):
    yes, no = b.partition(p)
    return list(yes), list(no)


def impl_partition__fn(b: Block[Any], p: Fn[bool]):
    yes, no = block.partition(p)(b)
    return list(yes), list(no)


def spec_partition(b: Block[Any], p: Fn[bool]):
    yes = []
    no = []
    for x in b:
        if p(x):
            yes.append(x)
        else:
            no.append(x)
    return yes, no


def impl_fold(b: Block[Any], f: Fn[Any], s: Any):
    return b.fold(f, s)


def impl_fold__fn(b: Block[Any], f: Fn[Any], s: Any):
    return block.fold(f, s)(b)


def spec_fold(b: Block[Any], f: Fn[Any], s: Any):
    for x in b:
        s = f(s, x)
    return s


def impl_reduce(xs: tuple, f: Fn[Any]):
    return Block(xs).reduce(f)


def impl_reduce__fn(xs: tuple, f: Fn[Any]):
    return block.reduce(f)(Block(xs))


def spec_reduce(xs: tuple, f: Fn[Any]):
    if not xs:
        raise ValueError("empty")
    s, *rest = xs
    for x in rest:
        s = f(s, x)
    return s


def impl_forall(b: Block[Any], p: Fn[bool]):
    return b.forall(p)


def impl_forall__fn(b: Block[Any], p: Fn[bool]):
    return block.forall(p)(b)


def spec_forall(b: Block[Any], p: Fn[bool]):
    for x in b:
        if not p(x):
            return False
    return True


def impl_head(xs: tuple):
    return Block(xs).head()


def impl_head__fn(xs: tuple):
    return block.head(Block(xs))


def spec_head(xs: tuple):
    if not xs:
        raise ValueError("empty")
    return xs[0]


def impl_tryHead(xs: tuple):
    return Block(xs).try_head()


def impl_tryHead__fn(xs: tuple):
    return block.try_head(Block(xs))


def spec_tryHead(xs: tuple):
    return Option(some=xs[0]) if xs else Option(none=None)


def impl_tail(x: Any, xs: tuple):
    return list(Block((x, *xs)).tail())


def impl_tail__fn(x: Any, xs: tuple):
    return list(block.tail(Block((x, *xs))))


def spec_tail(x: Any, xs: tuple):
    return list(xs)


def impl_isEmpty(xs: tuple):
    return Block(xs).is_empty()


def impl_isEmpty__fn(xs: tuple):
    return block.is_empty(Block(xs))


def spec_isEmpty(xs: tuple):
    return len(xs) == 0


def impl_take(xs: tuple, n: int):
    return list(Block(xs).take(n))


def impl_take__fn(xs: tuple, n: int):
    return list(block.take(n)(Block(xs)))


def spec_take(xs: tuple, n: int):
    return list(xs[:n])


def impl_skip(xs: tuple, n: int):
    return list(Block(xs).skip(n))


def impl_skip__fn(xs: tuple, n: int):
    return list(block.skip(n)(Block(xs)))


def spec_skip(xs: tuple, n: int):
    return list(xs[n:])


def impl_takeLast(xs: tuple, n: int):
    return list(Block(xs).take_last(n))


def impl_takeLast__fn(xs: tuple, n: int):
    return list(block.take_last(n)(Block(xs)))


def spec_takeLast(xs: tuple, n: int):
    return list(xs[-n:])


def impl_skipLast(xs: tuple, n: int):
    return list(Block(xs).skip_last(n))


def impl_skipLast__fn(xs: tuple, n: int):
    return list(block.skip_last(n)(Block(xs)))


def spec_skipLast(xs: tuple, n: int):
    return list(xs[:-n])


def impl_item(b: Block[Any], n: int):
    return b.item(n)


def impl_item__fn(b: Block[Any], n: int):
    return block.item(n)(b)


def impl_item__op(b: Block[Any], n: int):
    return b[n]


def spec_item(b: Block[Any], n: int):
    return tuple(b)[n]


def impl_slice(b: Block[Any], m: int, n: int):
    return list(b[m:n])


def spec_slice(b: Block[Any], m: int, n: int):
    return list(tuple(b)[m:n])


def impl_indexed(b: Block[Any], n: int):
    return list(b.indexed(n))


def spec_indexed(b: Block[Any], n: int):
    out = []
    for x in b:
        out.append((n, x))
        n += 1
    return out


def impl_indexed0(b: Block[Any]):
    return list(b.indexed())


def impl_indexed0__fn(b: Block[Any]):
    return list(block.indexed(b))


def spec_indexed0(b: Block[Any]):
    out = []
    n = 0
    for x in b:
        out.append((n, x))
        n += 1
    return out


def impl_zip(a: Block[Any], b: Block[Any]):
    return list(a.zip(b))


def impl_zip__fn(a: Block[Any], b: Block[Any]):
    return list(block.zip(b)(a))


def spec_zip(a: Block[Any], b: Block[Any]):
    return list(zip(tuple(a), tuple(b)))


def impl_sum(b: Block[Any]):
    return b.sum()


def impl_sum__fn(b: Block[Any]):
    return block.sum(b)


def spec_sum(b: Block[Any]):
    s = 0
    for x in b:
        s = s + x
    return s


def impl_sumBy(b: Block[Any], f: Fn[Any]):
    return b.sum_by(f)


def impl_sumBy__fn(b: Block[Any], f: Fn[Any]):
    return block.sum_by(f)(b)


def spec_sumBy(b: Block[Any], f: Fn[Any]):
    ys = [f(x) for x in b]
    s = 0
    for y in ys:
        s = s + y
    return s


def impl_sort(b: Block[Any], r: bool):
    return list(b.sort(r))


def impl_sort__kw(b: Block[Any], r: bool):
    return list(b.sort(reverse=r))


def impl_sort__fn(b: Block[Any], r: bool):
    return list(block.sort(r)(b))


def spec_sort(b: Block[Any], r: bool):
    return sorted(tuple(b), reverse=r)


def impl_sort0(b: Block[Any]):
    return list(b.sort())


def spec_sort0(b: Block[Any]):
    return sorted(tuple(b), reverse=False)


def impl_sortWith(b: Block[Any], f: Fn[Any], r: bool):
    return list(b.sort_with(f, r))


def impl_sortWith__fn(b: Block[Any], f: Fn[Any], r: bool):
    return list(block.sort_with(f, r)(b))


def spec_sortWith(b: Block[Any], f: Fn[Any], r: bool):
    return sorted(tuple(b), key=f, reverse=r)


def impl_unfold(f: Fn[Option[tuple[Any, Any]]], s: Any):
    return list(Block.unfold(f, s))


def impl_unfold__fn(f: Fn[Option[tuple[Any, Any]]], s: Any):
    return list(block.unfold(f)(s))


def spec_unfold(f: Fn[Option[tuple[Any, Any]]], s: Any):
    out = []
    while True:
        o = f(s)
        if o.tag != "some":
            return out
        x, s = o.some
        out.append(x)


def impl_range(a: int, b: int, c: int):
    return list(Block.range(a, b, c))


def impl_range__fn(a: int, b: int, c: int):
    return list(block.range(a, b, c))


def spec_range(a: int, b: int, c: int):
    return list(range(a, b, c))


def impl_contains(b: Block[Any], v: Any):
    return v in b


def spec_contains(b: Block[Any], v: Any):
    for x in b:
        if x is v or x == v:
            return True
    return False


def impl_eq(xs: tuple, ys: tuple):
    return Block(xs) == Block(ys)


def spec_eq(xs: tuple, ys: tuple):
    return xs == ys


def impl_eqTuple(xs: tuple, ys: tuple):
    return Block(xs) == ys


def spec_eqTuple(xs: tuple, ys: tuple):
    return xs == ys
