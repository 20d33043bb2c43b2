"""Collections keep their own contents when the inputs they were built from are changed afterwards,
and what they hand out can be changed without changing them."""
from typing import Any

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block, Map, Seq
from expression.collections import block as B
from expression.collections import map as F
from expression.collections import seq as Q
from expression.core import option as O
from expression.extra import option as EO
from expression.extra import result as ER

from .lib import Fn, Iter


# ---------------------------------------------------------------- blocks built from a list
def impl_block_list(z: Any, *xs: Any):
    src = [*xs]
    b = Block(src)
    src.append(z)
    return tuple(b), len(b)


def impl_block_list__of_seq(z: Any, *xs: Any):
    src = [*xs]
    b = Block.of_seq(src)
    src.append(z)
    return tuple(b), len(b)


def impl_block_list__fn(z: Any, *xs: Any):
    src = [*xs]
    b = B.of_seq(src)
    src.append(z)
    return tuple(b), len(b)


def impl_block_list__clear(z: Any, *xs: Any):
    src = [*xs]
    b = Block(src)
    src.clear()
    return tuple(b), len(b)


def impl_block_list__of_clear(z: Any, *xs: Any):
    src = [*xs]
    b = B.of_seq(src)
    src.clear()
    return tuple(b), len(b)


def impl_block_list__seq(z: Any, *xs: Any):
    src = [*xs]
    b = Block(Seq(src))
    src.append(z)
    return tuple(b), len(b)


def impl_block_list__seq_of(z: Any, *xs: Any):
    src = [*xs]
    b = Block.of_seq(Seq.of_iterable(src))
    src.append(z)
    return tuple(b), len(b)


def impl_block_list__star(z: Any, *xs: Any):
    src = [*xs]
    b = Block.of(*src)
    src.append(z)
    return tuple(b), len(b)


def spec_block_list(z: Any, *xs: Any):
    return tuple(xs), len(xs)


# derived from a block that was built from a list
def impl_block_cons(y: Any, z: Any, *xs: Any):
    src = [*xs]
    b = Block(src)
    c = b.cons(y)
    src.append(z)
    return tuple(b), tuple(c)


def spec_block_cons(y: Any, z: Any, *xs: Any):
    return tuple(xs), (y, *xs)


def impl_block_append(z: Any, *xs: Any):
    src = [*xs]
    b = Block(src)
    c = b.append(Block(src))
    src.append(z)
    return tuple(b), tuple(c)


def spec_block_append(z: Any, *xs: Any):
    return tuple(xs), (*xs, *xs)


def impl_block_slice(z: Any, *xs: Any):
    src = [*xs]
    b = Block(src)
    c = b[:]
    src.append(z)
    return tuple(b), tuple(c)


def spec_block_slice(z: Any, *xs: Any):
    return tuple(xs), tuple(xs)


# the same block inspected twice, with an operation in between
def impl_block_twice(f: Fn[Any], *xs: Any):
    b = Block(xs)
    p = tuple(b)
    b.map(f)
    b.sort(True)
    b.sort_with(f)
    b.indexed(0)
    b.cons(1)
    b.append(b)
    b.take_last(1)
    return p, tuple(b), len(b)


def spec_block_twice(f: Fn[Any], *xs: Any):
    for x in xs:
        f(x)
    sorted(xs, reverse=True)
    sorted(xs, key=f)
    return tuple(xs), tuple(xs), len(xs)


# a block built from an iterator can be read any number of times
def impl_block_iterator(it: Iter[Any]):
    b = Block(it)
    return tuple(b), tuple(b)


def impl_block_iterator__of_seq(it: Iter[Any]):
    b = Block.of_seq(it)
    return tuple(b), tuple(b)


def spec_block_iterator(it: Iter[Any]):
    t = tuple(it)
    return t, t


# what is handed out belongs to the caller
def impl_block_dict(z: Any, *xs: Any):
    b = Block(xs)
    d = b.dict()
    d.append(z)
    return tuple(b)


def spec_block_dict(z: Any, *xs: Any):
    b = Block(xs)
    b.dict()
    return tuple(xs)


def impl_option_list(o: Option[Any], z: Any):
    p = o.to_list()
    p.append(z)
    return o.to_list()


def spec_option_list(o: Option[Any], z: Any):
    if o.is_some():
        return [o.value]
    return []


def impl_nothing_list(z: Any):
    p = Nothing.to_list()
    p.append(z)
    return Nothing.to_list(), Option.of_optional(None).to_list()


def spec_nothing_list(z: Any):
    return [], []


def impl_seq_list(z: Any, *xs: Any):
    src = [*xs]
    b = Seq(src).to_list()
    src.append(z)
    return tuple(b)


def impl_seq_list__fn(z: Any, *xs: Any):
    src = [*xs]
    b = Q.to_list(src)
    src.append(z)
    return tuple(b)


def spec_seq_list(z: Any, *xs: Any):
    return tuple(xs)
