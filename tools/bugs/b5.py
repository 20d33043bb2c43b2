OPT, RES, PAR, ARR, TREE = "expression/core/option.py", "expression/core/result.py", "expression/extra/parser.py", "expression/collections/array.py", "expression/collections/maptree.py"
TRA, AOP = "expression/extra/result/traversable.py", "expression/effect/async_option.py"
BUGS = [
 dict(id="opt-seq-flat", property="C03", needs="an option whose payload is itself a tuple",
  breaks="converting Some(tuple) to a sequence spreads the tuple's elements",
  edits=[(OPT, "return Seq[_TSourceOut].of(value)", "return Seq[_TSourceOut](value if isinstance(value, tuple) else (value,))")],
  demo="""from expression import Some
assert list(Some(1).to_seq()) == [1]
assert list(Some((1, 2)).to_seq()) == [(1, 2)]
"""),
 dict(id="arr-skip-self", property="C18", needs="skipping nothing and then changing the source array",
  breaks="skip(0) returns the source array itself, so both share storage",
  edits=[(ARR, "        return TypedArray(self.value[count:])\n", "        return TypedArray(self.value[count:]) if count else self\n")],
  demo="""from expression.collections import TypedArray
a = TypedArray([1, 2, 3])
b = a.skip(0)
a[0] = 9
assert b[0] == 1, b
"""),
 dict(id="tree-add-inplace", property="C10", needs="replacing the value of a key held in a leaf and looking at the older map",
  breaks="adding an existing key changes every map that shares the leaf",
  edits=[(TREE, "            elif k == key:\n                return Some(MapTreeLeaf(k, v))\n            else:\n                return Some(MapTreeNode(k, v, m, empty, 2))", "            elif k == key:\n                m.some.value = v\n                return m\n            else:\n                return Some(MapTreeNode(k, v, m, empty, 2))")],
  demo="""from expression.collections import Map
a = Map.empty().add(1, 'a')
b = a.add(1, 'b')
assert a[1] == 'a' and b[1] == 'b', (a, b)
"""),
 dict(id="opt-dict-empty", property="C27", needs="an option holding an empty block",
  breaks="dict() leaves an empty collection payload unconverted",
  edits=[(OPT, "                if attr and callable(attr):\n                    value = cast(_TSourceOut, attr())", "                if value and callable(attr):\n                    value = cast(_TSourceOut, attr())")],
  demo="""from expression import Some
from expression.collections import Block
assert Some(Block.of(1)).dict() == [1]
assert Some(Block.empty()).dict() == []
"""),
 dict(id="traverse-last-error", property="C25", needs="two failing elements",
  breaks="the last failure is reported instead of the first",
  edits=[(TRA, "        h: _TResult = yield from fn(head)\n        t: Block[_TResult] = yield from tail\n", "        t: Block[_TResult] = yield from tail\n        h: _TResult = yield from fn(head)\n")],
  demo="""from expression import Ok, Error
from expression.collections import Block
from expression.extra.result import sequence
assert sequence(Block.of(Ok(1), Ok(2))) == Ok(Block.of(1, 2))
assert sequence(Block.of(Error('a'), Error('b'))) == Error('a')
"""),
 dict(id="async-combine-none", property="C08", needs="combining after a present None",
  breaks="a step that succeeded with None stops the asynchronous computation",
  edits=[(AOP, '            case Option(tag="some"):\n                return ys\n', '            case Option(tag="some", some=value) if value is not None:\n                return ys\n')],
  demo="""import asyncio
from expression import Some
from expression.effect.async_option import AsyncOptionBuilder
assert asyncio.run(AsyncOptionBuilder().combine(Some(1), Some(2))) == Some(2)
assert asyncio.run(AsyncOptionBuilder().combine(Some(None), Some(2))) == Some(2)
"""),
]
