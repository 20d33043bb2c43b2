B = "expression/collections/block.py"
S = "expression/collections/seq.py"
BUGS = [
 dict(id="curry-flip-kwdrop", property="C05", needs="a curried-and-flipped function given a keyword argument in the first call and more than one remaining argument",
  breaks="a keyword argument given in the first call is forgotten when the flipped function takes two or more curried arguments",
  edits=[("expression/core/curry.py", """                return fun(*curry_args, *args, **kwargs)
""", """                return fun(*curry_args, *args, **(kwargs if num_args < 2 else {}))
""")],
  demo="""from expression import curry_flip
@curry_flip(2)
def f(a, b, c=0, *, d=0):
    return (a, b, c, d)
assert f(3, d=4)(1)(2) == (1, 2, 3, 4)
@curry_flip(1)
def g(a, c=0, *, d=0):
    return (a, c, d)
assert g(3, d=4)(1) == (1, 3, 4)
"""),
 dict(id="block-head-falsy", property="C15", needs="a block of several elements whose first element is falsy",
  breaks="try_head skips a falsy first element",
  edits=[(B, """        if self._value:
            value = self._value[0]
            return Some(value)

        return Nothing""", """        for value in self._value:
            if value or len(self._value) == 1:
                return Some(value)

        return Nothing""")],
  demo="""from expression import Some
from expression.collections import Block
assert Block([0, 1]).try_head() == Some(0)
assert Block([0]).try_head() == Some(0)
assert Block(['', '']).try_head() == Some('')
"""),
 dict(id="seq-take-overpull", property="C16", needs="a source with effects, taken partially",
  breaks="take pulls one more element from its source than it yields",
  edits=[(S, """        for i, n in enumerate(source):
            yield n

            if i == count - 1:
                break
""", """        for i, n in enumerate(source):
            if i >= count:
                break

            yield n
""")],
  demo="""from expression.collections import seq, Seq
pulled = []
def src():
    for i in range(10):
        pulled.append(i)
        yield i
assert list(seq.take(2)(src())) == [0, 1]
assert pulled == [0, 1], pulled
"""),
]
