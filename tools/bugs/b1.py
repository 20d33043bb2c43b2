O = "expression/core/option.py"
R = "expression/core/result.py"
B = "expression/collections/block.py"
S = "expression/collections/seq.py"
BUGS = [
 dict(id="opt-default-falsy", property="C01", needs="a present value that is falsy and a default that differs",
  breaks="default_with on a present falsy value calls the supplier and returns its result",
  edits=[(O, """            case Option(tag="some", some=some):
                return some
            case _:
                return getter()""", """            case Option(tag="some", some=some):
                return some or getter()
            case _:
                return getter()""")],
  demo="""from expression import Some
assert Some(0).default_with(lambda: 5) == 0
assert Some([]).default_with(lambda: [1]) == []
"""),
 dict(id="res-map2-order", property="C02", needs="both operands are errors",
  breaks="map2 on two errors reports the second error instead of the first",
  edits=[(R, """                return other.map(lambda value_: mapper(value, value_))
            case Result(error=error):
                return Result(error=error)""", """                return other.map(lambda value_: mapper(value, value_))
            case Result(error=error):
                return Result(error=other.default_with(lambda e: e) if other.is_error() else error)""")],
  demo="""from expression import Error, Ok
assert Error('a').map2(Error('b'), lambda x, y: x) == Error('a')
assert Error('a').map2(Ok(1), lambda x, y: x) == Error('a')
"""),
 dict(id="curry-reuse", property="C05", needs="an intermediate function of a curried function with two or more remaining arguments used twice",
  breaks="arguments of an earlier use of a partial application leak into a later use",
  edits=[("expression/core/curry.py", """    def wrapper(*args_: Any, **kw: Any) -> Any:
        if arity == 1:
            return fun(*args, *args_, **kw)
        return _curry(args + args_, arity - 1, fun)
""", """    seen: dict[int, Callable[..., Any]] = {}

    def wrapper(*args_: Any, **kw: Any) -> Any:
        if arity == 1:
            return fun(*args, *args_, **kw)
        return seen.setdefault(len(args_), _curry(args + args_, arity - 1, fun))
""")],
  demo="""from expression import curry
@curry(2)
def f(a, b, c):
    return (a, b, c)
g = f(1)
assert g(2)(3) == (1, 2, 3)
assert g(4)(5) == (1, 4, 5)
"""),
 dict(id="block-take-last-neg", property="C15", needs="a block longer than the requested count plus one",
  breaks="try_head skips a falsy first element",
  edits=[(B, """        if self._value:
            value = self._value[0]
            return Some(value)
        return Nothing""", """        for value in self._value:
            if value or len(self._value) == 1:
                return Some(value)
        return Nothing""")],
  demo="""from expression import Some
from expression.collections import Block
assert Block([0, 1]).try_head() == Some(0)
assert Block([0]).try_head() == Some(0)
assert Block(['', '']).try_head() == Some('')
"""),
 dict(id="seq-take-overpull", property="C16", needs="a source with effects, taken partially",
  breaks="take pulls one more element from its source than it yields",
  edits=[(S, """    def _take(source: Iterable[_TSource]) -> Iterable[_TSource]:
        return Seq(itertools.islice(source, count))""", """    def _take(source: Iterable[_TSource]) -> Iterable[_TSource]:
        def _gen() -> Iterator[_TSource]:
            for index, x in enumerate(source):
                if index >= count:
                    return
                yield x

        return SeqGen(_gen)""")],
  demo="""from expression.collections import seq, Seq
pulled = []
def src():
    for i in range(10):
        pulled.append(i)
        yield i
assert list(seq.take(2)(src())) == [0, 1]
assert pulled == [0, 1], pulled
"""),
]
