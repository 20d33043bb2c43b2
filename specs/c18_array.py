"""Typed arrays in terms of the list of their elements; derived arrays own their storage."""
import array as pyarray
from typing import Any

from expression import Option
from expression.collections import array
from expression.collections.array import (
    TypeCode,
    TypedArray,
    array_from_initializer,
    array_from_typecode,
    float32,
    float64,
    int8,
    int16,
    int32,
    int64,
    uint8,
    uint16,
    uint32,
    uint64,
)
from specs.lib import Fn, Iter


def arr(xs):
    return TypedArray(xs, TypeCode.Any)


def impl_build(xs: tuple):
    return list(TypedArray(xs))


def impl_build__any(xs: tuple):
    return list(TypedArray(xs, TypeCode.Any))


def impl_build__int64(xs: tuple):
    return list(TypedArray(xs, TypeCode.Int64))


def impl_build__byte(xs: tuple):
    return list(TypedArray(xs, TypeCode.Byte))


def impl_build__ofseq(xs: tuple):
    return list(array.of_seq(xs))


def impl_build__clsOfseq(xs: tuple):
    return list(TypedArray.of_seq(xs))


def impl_build__of(xs: tuple):
    return list(TypedArray.of(*xs))


def impl_build__fnOf(xs: tuple):
    return list(array.of(*xs))


def spec_build(xs: tuple):
    return list(xs)


def impl_ofSeq(xs: Iter[Any]):
    return list(array.of_seq(xs))


def impl_ofSeq__cls(xs: Iter[Any]):
    return list(TypedArray.of_seq(xs))


def spec_ofSeq(xs: Iter[Any]):
    return list(xs)


def impl_generated(f: Fn[Any], xs: tuple):
    return list(TypedArray(f(x) for x in xs))


def spec_generated(f: Fn[Any], xs: tuple):
    return [f(x) for x in xs]


def impl_empty():
    return list(TypedArray.empty())


def impl_empty__fn():
    return list(array.empty())


def impl_empty__ctor():
    return list(TypedArray())


def spec_empty():
    return []


def impl_singleton(x: Any):
    return list(array.singleton(x))


def spec_singleton(x: Any):
    return [x]


def impl_ofOption(o: Option[Any]):
    return list(array.of_option(o))


def spec_ofOption(o: Option[Any]):
    match o:
        case Option(tag="some", some=x):
            return [x]
        case _:
            return []


def impl_map(f: Fn[Any], xs: tuple):
    return list(arr(xs).map(f))


def impl_map__fn(f: Fn[Any], xs: tuple):
    return list(array.map(f)(arr(xs)))


def spec_map(f: Fn[Any], xs: tuple):
    return [f(x) for x in xs]


def impl_choose(f: Fn[Option[Any]], xs: tuple):
    return list(arr(xs).choose(f))


def spec_choose(f: Fn[Option[Any]], xs: tuple):
    out = []
    for x in xs:
        match f(x):
            case Option(tag="some", some=v):
                out.append(v)
            case _:
                pass
    return out


def impl_collect(f: Fn[Any], xs: tuple):
    return list(arr(xs).collect(lambda x: arr((f(x), x))))


def spec_collect(f: Fn[Any], xs: tuple):
    out = []
    for x in xs:
        out.append(f(x))
        out.append(x)
    return out


def impl_filter(f: Fn[Any], xs: tuple):
    return list(arr(xs).filter(f))


def impl_filter__fn(f: Fn[Any], xs: tuple):
    return list(array.filter(f)(arr(xs)))


def spec_filter(f: Fn[Any], xs: tuple):
    return [x for x in xs if f(x)]


def impl_fold(f: Fn[Any], s: Any, xs: tuple):
    return arr(xs).fold(f, s)


def impl_fold__fn(f: Fn[Any], s: Any, xs: tuple):
    return array.fold(f, s)(arr(xs))


def spec_fold(f: Fn[Any], s: Any, xs: tuple):
    for x in xs:
        s = f(s, x)
    return s


def impl_forall(f: Fn[Any], xs: tuple):
    return arr(xs).forall(f)


def spec_forall(f: Fn[Any], xs: tuple):
    for x in xs:
        if not f(x):
            return False
    return True


def impl_head(xs: tuple):
    return arr(xs).head()


def spec_head(xs: tuple):
    if not xs:
        raise ValueError
    return xs[0]


def impl_tryHead(xs: tuple):
    return arr(xs).try_head()


def impl_tryHead__fn(xs: tuple):
    return array.try_head(arr(xs))


def spec_tryHead(xs: tuple):
    if xs:
        return Option(some=xs[0])
    return Option(none=None)


def impl_indexed(xs: tuple, n: int):
    return list(arr(xs).indexed(n))


def impl_indexed__fn(xs: tuple, n: int):
    return list(array.indexed(n)(arr(xs)))


def spec_indexed(xs: tuple, n: int):
    out = []
    for x in xs:
        out.append((n, x))
        n = n + 1
    return out


def impl_indexedFromZero(xs: tuple):
    return list(arr(xs).indexed())


def spec_indexedFromZero(xs: tuple):
    out = []
    n = 0
    for x in xs:
        out.append((n, x))
        n = n + 1
    return out


def impl_item(xs: tuple, n: int):
    return arr(xs).item(n)


def impl_item__fn(xs: tuple, n: int):
    return array.item(n)(arr(xs))


def impl_item__index(xs: tuple, n: int):
    return arr(xs)[n]


def spec_item(xs: tuple, n: int):
    return xs[n]


def impl_slice(xs: tuple, a: int, b: int):
    return list(arr(xs)[a:b])


def spec_slice(xs: tuple, a: int, b: int):
    return list(xs[a:b])


def impl_skip(xs: tuple, n: int):
    return list(arr(xs).skip(n))


def spec_skip(xs: tuple, n: int):
    return list(xs[n:])


def impl_skipLast(xs: tuple, n: int):
    return list(arr(xs).skip_last(n))


def spec_skipLast(xs: tuple, n: int):
    return list(xs[:-n])


def impl_take(xs: tuple, n: int):
    return list(arr(xs).take(n))


def impl_take__fn(xs: tuple, n: int):
    return list(array.take(n)(arr(xs)))


def spec_take(xs: tuple, n: int):
    return list(xs[:n])


def impl_takeLast(xs: tuple, n: int):
    return list(arr(xs).take_last(n))


def impl_takeLast__fn(xs: tuple, n: int):
    return list(array.take_last(n)(arr(xs)))


def spec_takeLast(xs: tuple, n: int):
    return list(xs[-n:])


def impl_tail(xs: tuple):
    return list(arr(xs).tail())


def spec_tail(xs: tuple):
    if not xs:
        raise ValueError
    return list(xs[1:])


def impl_sort(xs: tuple):
    return list(arr(xs).sort())


def spec_sort(xs: tuple):
    return sorted(xs, reverse=False)


def impl_sortReverse(xs: tuple, r: bool):
    return list(arr(xs).sort(r))


def spec_sortReverse(xs: tuple, r: bool):
    return sorted(xs, reverse=r)


def impl_sortWith(f: Fn[Any], xs: tuple):
    return list(arr(xs).sort_with(f))


def spec_sortWith(f: Fn[Any], xs: tuple):
    return sorted(xs, key=f, reverse=False)


def impl_sortWithReverse(f: Fn[Any], xs: tuple, r: bool):
    return list(arr(xs).sort_with(f, r))


def spec_sortWithReverse(f: Fn[Any], xs: tuple, r: bool):
    return sorted(xs, key=f, reverse=r)


def impl_sum(xs: tuple):
    return arr(xs).sum()


def impl_sum__fn(xs: tuple):
    return array.sum(arr(xs))


def spec_sum(xs: tuple):
    return sum(xs)


def impl_sumBy(f: Fn[Any], xs: tuple):
    return arr(xs).sum_by(f)


def impl_sumBy__fn(f: Fn[Any], xs: tuple):
    return array.sum_by(f)(arr(xs))


def spec_sumBy(f: Fn[Any], xs: tuple):
    ys = [f(x) for x in xs]
    return sum(ys)


def impl_isEmpty(xs: tuple):
    return arr(xs).is_empty()


def impl_isEmpty__fn(xs: tuple):
    return array.is_empty(arr(xs))


def spec_isEmpty(xs: tuple):
    return not xs


def impl_len(xs: tuple):
    return len(arr(xs))


def spec_len(xs: tuple):
    return len(xs)


def impl_unfold(f: Fn[Option[tuple[Any, Any]]], s: Any):
    return list(TypedArray.unfold(f, s))


def impl_unfold__fn(f: Fn[Option[tuple[Any, Any]]], s: Any):
    return list(array.unfold(f)(s))


def spec_unfold(f: Fn[Option[tuple[Any, Any]]], s: Any):
    out = []
    while True:
        match f(s):
            case Option(tag="some", some=(x, s2)):
                out.append(x)
                s = s2
            case _:
                return out


# ---------------------------------------------------------------- changing an array
def impl_setItem(xs: tuple, n: int, v: Any):
    a = arr(xs)
    a[n] = v
    return list(a)


def spec_setItem(xs: tuple, n: int, v: Any):
    a = list(xs)
    a[n] = v
    return a


def impl_changeSmall(x: Any, y: Any, v: Any):
    a, b, c, d = arr((x, y)), arr((x, y)), arr((x, y)), arr((x, y))
    a[0] = v
    b[-1] = v
    del c[0]
    d.insert(1, v)
    return list(a), list(b), list(c), list(d)


def spec_changeSmall(x: Any, y: Any, v: Any):
    return [v, y], [x, v], [y], [x, v, y]


def impl_sliceSmall(x: Any, y: Any, z: Any, v: Any, w: Any):
    a, b, c = arr((x, y, z)), arr((x, y, z)), arr((x, y, z))
    del a[1:]
    b[1:2] = [v, w]
    return list(a), list(b), list(c[1:]), list(c[::-1])


def spec_sliceSmall(x: Any, y: Any, z: Any, v: Any, w: Any):
    return [x], [x, v, w, z], [y, z], [z, y, x]


def impl_sumSmall(x: Any, y: Any, f: Fn):
    return arr((x, y)).sum_by(f), array.sum_by(f)(arr((x, y, x)))


def spec_sumSmall(x: Any, y: Any, f: Fn):
    return sum([f(x), f(y)]), sum([f(x), f(y), f(x)])


def impl_setSlice(xs: tuple, n: int, m: int, v: tuple):
    a = arr(xs)
    a[n:m] = v
    return list(a)


def spec_setSlice(xs: tuple, n: int, m: int, v: tuple):
    a = list(xs)
    a[n:m] = v
    return a


def impl_delItem(xs: tuple, n: int):
    a = arr(xs)
    del a[n]
    return list(a)


def spec_delItem(xs: tuple, n: int):
    a = list(xs)
    del a[n]
    return a


def impl_insert(xs: tuple, n: int, v: Any):
    a = arr(xs)
    a.insert(n, v)
    return list(a)


def spec_insert(xs: tuple, n: int, v: Any):
    a = list(xs)
    a.insert(n, v)
    return a


# ---------------------------------------------------------------- own storage
def changed(a, b, v):
    b.insert(0, v)
    return list(a)


def both(a, b, v):
    b.insert(0, v)
    x = list(a)
    y = list(b)
    a.insert(0, v)
    return (x, y, list(b))


def impl_ownSource(xs: tuple, v: Any):
    ys = list(xs)
    return both(TypedArray(ys, TypeCode.Any), ys, v)


def impl_ownSource__fromTypecode(xs: tuple, v: Any):
    ys = list(xs)
    return both(array_from_typecode(TypeCode.Any, ys), ys, v)


def impl_ownSource__array(xs: tuple, v: Any):
    ys = TypedArray(xs, TypeCode.Any)
    return both(TypedArray(ys, TypeCode.Any), ys, v)


def impl_ownSource__initializer(xs: tuple, v: Any):
    ys = list(xs)
    a, _ = array_from_initializer(ys)
    return both(a, ys, v)


def impl_ownSource__untyped(xs: tuple, v: Any):
    ys = list(xs)
    return both(TypedArray(ys), ys, v)


def impl_ownSource__bytearray(xs: tuple, v: Any):
    ys = bytearray(xs)
    return both(TypedArray(ys), ys, v)


def impl_ownSource__byteCode(xs: tuple, v: Any):
    ys = bytearray(xs)
    return both(TypedArray(ys, TypeCode.Byte), ys, v)


def impl_ownSource__int32(xs: tuple, v: Any):
    ys = pyarray.array("l", xs)
    return both(TypedArray(ys, TypeCode.Int32), ys, v)


def impl_ownSource__ofSeq(xs: tuple, v: Any):
    ys = list(xs)
    return both(array.of_seq(ys), ys, v)


def impl_ownSource__take(xs: tuple, v: Any):
    ys = arr(xs)
    return both(ys.take(len(xs)), ys, v)


def impl_ownSource__skip(xs: tuple, v: Any):
    ys = arr(xs)
    return both(ys.skip(0), ys, v)


def impl_ownSource__filter(xs: tuple, v: Any):
    ys = arr(xs)
    return both(ys.filter(lambda _: True), ys, v)


def impl_ownSource__map(xs: tuple, v: Any):
    ys = arr(xs)
    return both(ys.map(lambda x: x), ys, v)


def spec_ownSource(xs: tuple, v: Any):
    return (list(xs), [v, *xs], [v, *xs])


def impl_ownTail(xs: tuple, v: Any):
    ys = arr((v, *xs))
    return both(ys.tail(), ys, v)


def spec_ownTail(xs: tuple, v: Any):
    return (list(xs), [v, v, *xs], [v, v, *xs])


def impl_ownSort(xs: tuple, v: Any, r: bool):
    ys = arr(xs)
    return both(ys.sort(r), ys, v)


def spec_ownSort(xs: tuple, v: Any, r: bool):
    return (sorted(xs, reverse=r), [v, *xs], [v, *xs])


def impl_ownSortWith(f: Fn[Any], xs: tuple, v: Any, r: bool):
    ys = arr(xs)
    return both(ys.sort_with(f, r), ys, v)


def spec_ownSortWith(f: Fn[Any], xs: tuple, v: Any, r: bool):
    return (sorted(xs, key=f, reverse=r), [v, *xs], [v, *xs])


def impl_ownTakeLast(xs: tuple, n: int, v: Any):
    ys = arr(xs)
    return both(ys.take_last(n), ys, v)


def spec_ownTakeLast(xs: tuple, n: int, v: Any):
    return (list(xs[-n:]), [v, *xs], [v, *xs])


def impl_ownSkipLast(xs: tuple, n: int, v: Any):
    ys = arr(xs)
    return both(ys.skip_last(n), ys, v)


def spec_ownSkipLast(xs: tuple, n: int, v: Any):
    return (list(xs[:-n]), [v, *xs], [v, *xs])


def impl_ownSlice(xs: tuple, n: int, m: int, v: Any):
    ys = arr(xs)
    return both(ys[n:m], ys, v)


def spec_ownSlice(xs: tuple, n: int, m: int, v: Any):
    return (list(xs[n:m]), [v, *xs], [v, *xs])


def impl_ownEmpty(v: Any):
    a = TypedArray.empty()
    a.insert(0, v)
    b = array.empty()
    b.insert(0, v)
    c = TypedArray()
    return (list(TypedArray.empty()), list(array.empty()), list(c))


def spec_ownEmpty(v: Any):
    return ([], [], [])


# ---------------------------------------------------------------- storage kinds
def impl_kindOfTypecode(xs: tuple):
    return (
        array_from_typecode(TypeCode.Int8, xs),
        array_from_typecode(TypeCode.Uint8, xs),
        array_from_typecode(TypeCode.Int16, xs),
        array_from_typecode(TypeCode.Uint16, xs),
        array_from_typecode(TypeCode.Uint64, xs),
        array_from_typecode(TypeCode.Float, xs),
        array_from_typecode(TypeCode.Double, xs),
        array_from_typecode(TypeCode.Byte, xs),
        array_from_typecode(TypeCode.Any, xs),
    )


def spec_kindOfTypecode(xs: tuple):
    return (
        pyarray.array("b", xs),
        pyarray.array("B", xs),
        pyarray.array("h", xs),
        pyarray.array("H", xs),
        pyarray.array("Q", xs),
        pyarray.array("f", xs),
        pyarray.array("d", xs),
        bytearray(xs),
        list(xs),
    )


def impl_kindOf32(xs: tuple):
    return array_from_typecode(TypeCode.Int32, xs)


def spec_kindOf32(xs: tuple):
    return pyarray.array("l", xs)


def spec_kindOf32__i(xs: tuple):
    return pyarray.array("i", xs)


def spec_kindOf32__q(xs: tuple):
    return pyarray.array("q", xs)


def impl_kindOfU32(xs: tuple):
    return array_from_typecode(TypeCode.Uint32, xs)


def spec_kindOfU32(xs: tuple):
    return pyarray.array("L", xs)


def spec_kindOfU32__i(xs: tuple):
    return pyarray.array("I", xs)


def spec_kindOfU32__q(xs: tuple):
    return pyarray.array("Q", xs)


def impl_kindOf64(xs: tuple):
    return array_from_typecode(TypeCode.Int64, xs)


def spec_kindOf64(xs: tuple):
    return pyarray.array("q", xs)


def spec_kindOf64__l(xs: tuple):
    return pyarray.array("l", xs)


def impl_storageInt8(x: int8, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageInt8(x: int8, xs: tuple):
    return (pyarray.array("b", (x, *xs)), TypeCode.Int8)


def impl_storageUint8(x: uint8, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageUint8(x: uint8, xs: tuple):
    return (pyarray.array("B", (x, *xs)), TypeCode.Uint8)


def impl_storageInt16(x: int16, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageInt16(x: int16, xs: tuple):
    return (pyarray.array("h", (x, *xs)), TypeCode.Int16)


def impl_storageUint16(x: uint16, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageUint16(x: uint16, xs: tuple):
    return (pyarray.array("H", (x, *xs)), TypeCode.Uint16)


def impl_storageInt32(x: int32, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageInt32(x: int32, xs: tuple):
    return (pyarray.array("l", (x, *xs)), TypeCode.Int32)


def spec_storageInt32__i(x: int32, xs: tuple):
    return (pyarray.array("i", (x, *xs)), TypeCode.Int32)


def impl_storageUint32(x: uint32, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageUint32(x: uint32, xs: tuple):
    return (pyarray.array("L", (x, *xs)), TypeCode.Uint32)


def spec_storageUint32__i(x: uint32, xs: tuple):
    return (pyarray.array("I", (x, *xs)), TypeCode.Uint32)


def impl_storageInt64(x: int64, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageInt64(x: int64, xs: tuple):
    return (pyarray.array("l", (x, *xs)), TypeCode.Int64)


def spec_storageInt64__q(x: int64, xs: tuple):
    return (pyarray.array("q", (x, *xs)), TypeCode.Int64)


def impl_storageUint64(x: uint64, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageUint64(x: uint64, xs: tuple):
    return (pyarray.array("Q", (x, *xs)), TypeCode.Uint64)


def impl_storageFloat32(x: float32, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageFloat32(x: float32, xs: tuple):
    return (pyarray.array("f", (x, *xs)), TypeCode.Float)


def impl_storageFloat64(x: float64, xs: tuple):
    return array_from_initializer((x, *xs))


def spec_storageFloat64(x: float64, xs: tuple):
    return (pyarray.array("d", (x, *xs)), TypeCode.Double)


def impl_storageBytes(xs: tuple):
    return array_from_initializer(bytearray(xs))


def spec_storageBytes(xs: tuple):
    return (bytearray(xs), TypeCode.Byte)


def impl_storageInt(x: int, xs: tuple):
    return array_from_initializer((x, *xs))


def impl_storageInt__empty(x: int, xs: tuple):
    a, c = array_from_initializer(())
    return ([x, *xs] + a, c)


def impl_storageInt__none(x: int, xs: tuple):
    a, c = array_from_initializer(None)
    return ([x, *xs] + a, c)


def spec_storageInt(x: int, xs: tuple):
    return ([x, *xs], TypeCode.Any)


def impl_requestedKind(xs: tuple):
    a = TypedArray(xs, TypeCode.Int16)
    return (a.value, a.typecode)


def impl_requestedKind__filter(xs: tuple):
    a = TypedArray(xs, TypeCode.Int16).filter(lambda _: True)
    return (a.value, a.typecode)


def spec_requestedKind(xs: tuple):
    return (pyarray.array("h", xs), TypeCode.Int16)
