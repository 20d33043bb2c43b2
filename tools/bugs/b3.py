T = "expression/collections/maptree.py"
M = "expression/core/mailbox.py"
A = "expression/core/aiotools.py"
CT = "expression/system/cancellation.py"
D = "expression/system/disposable.py"
AS = "expression/collections/asyncseq.py"
TU = "expression/core/tagged_union.py"
BU = "expression/core/builder.py"
FN = "expression/core/fn.py"
CA = "expression/extra/result/catch.py"
BUGS = [
 dict(id="tree-change-drop", property="C11", needs="change() deleting a key that has both subtrees, in a map of at least three entries",
  breaks="removing an entry through change drops its successor's right subtree",
  edits=[(T, """                    return Some(MapTreeNode(k, v, left, right, height))
                else:
                    if is_empty(left):
                        return right""", """                    return Some(MapTreeNode(k, v, left, right, height))
                else:
                    if is_empty(left) or height <= 1:
                        return right""")],
  demo="raise SystemExit(0)"),
 dict(id="tree-splice-key", property="C11", needs="removing an inner key whose right subtree has depth three",
  breaks="the spliced subtree is rebuilt with the successor's value under the parent's key",
  edits=[(T, "            return k3, v3, rebalance(l_, key, value, right)", "            return k3, v3, rebalance(l_, key, value if l_.is_some() else v3, right)")],
  demo="""from expression.collections import Map
m = Map.empty()
for i in [4, 2, 8, 1, 3, 6, 9, 5, 7]:
    m = m.add(i, i * 10)
for k in list(range(1, 10)):
    r = m.remove(k)
    assert list(r.items()) == [(i, i * 10) for i in range(1, 10) if i != k], k
"""),
 dict(id="tree-add-key-kept", property="C11", needs="keys that compare equal but are distinguishable (1 and 1.0 or True)",
  breaks="adding under an equal key in a leaf keeps the value of the key when the key is not identical",
  edits=[(T, """            elif k == key:
                return Some(MapTreeLeaf(k, v))
            else:
                return Some(MapTreeNode(k, v, m, empty, 2))""", """            elif k is key:
                return Some(MapTreeLeaf(k, v))
            else:
                return Some(MapTreeNode(k, v, m, empty, 2))""")],
  demo="""from expression.collections import Map
m = Map.empty().add("k" * 50, 1)
n = m.add("".join(["k"] * 50), 2)
assert len(n) == 1, len(n)
"""),
 dict(id="tree-rebalance-tol", property="C12", needs="a sequence of additions that makes the right side deep by exactly three",
  breaks="the tree is only rebalanced to the left once the heights differ by four",
  edits=[(T, "if t1h > t2h + TOLERANCE:", "if t1h > t2h + TOLERANCE + 1:")],
  demo="""from expression.collections import Map
from expression.collections import maptree
from expression import Option
def check(t):
    if t.is_none(): return 0
    n = t.value
    if not isinstance(n, maptree.MapTreeNode): return 1
    l, r = check(n.left), check(n.right)
    assert abs(l - r) <= 2
    assert n.height == max(l, r) + 1
    return n.height
t = maptree.empty
for i in range(200, 0, -1):
    t = maptree.add(i, i, t)
    check(t)
"""),
 dict(id="tree-map-height", property="C12", needs="mapping a tree whose subtrees have different heights and then adding to the result",
  breaks="map records the height of the left subtree only",
  edits=[(T, "            return Some(MapTreeNode(key, v2, l2, r2, height))", "            return Some(MapTreeNode(key, v2, l2, r2, maptree_height(l2) + 1))"),
         (T, "TOLERANCE = 2", "maptree_height = height\nTOLERANCE = 2")],
  demo="""from expression.collections import maptree
def check(t):
    if t.is_none(): return 0
    n = t.value
    if not isinstance(n, maptree.MapTreeNode): return 1
    l, r = check(n.left), check(n.right)
    assert n.height == max(l, r) + 1
    return n.height
t = maptree.empty
for i in range(20):
    t = maptree.add(i, i, t)
check(maptree.map(lambda k, v: v, t))
"""),
 dict(id="tree-trypick-order", property="C13", needs="a chooser that picks an entry in both subtrees",
  breaks="try_pick asks the node before its left subtree",
  edits=[(T, """            res = try_pick(f, left)
            if res.is_some():
                return res
            else:
                res = f(key, value)
                if res.is_some():
                    return res
                else:
                    return try_pick(f, right)""", """            res = try_pick(f, left) if not is_empty(right) else f(key, value)
            if res.is_some():
                return res
            else:
                res = f(key, value) if not is_empty(right) else try_pick(f, left)
                if res.is_some():
                    return res
                else:
                    return try_pick(f, right)""")],
  demo="""from expression import Some
from expression.collections import Map
m = Map.of_seq([(2, 'b'), (1, 'a')])
assert m.try_pick(lambda k, v: Some(k)) == Some(1)
m = Map.of_seq([(1, 'b'), (2, 'a')])
assert m.try_pick(lambda k, v: Some(k)) == Some(1)
"""),
 dict(id="tree-forall-short", property="C13", needs="a predicate with effects that fails in the left subtree",
  breaks="forall visits the right subtree before the node",
  edits=[(T, "            return forall(f, left) and f(key, value) and forall(f, right)", "            return forall(f, left) and forall(f, right) and f(key, value)")],
  demo="""from expression.collections import Map
seen = []
Map.of_seq([(i, i) for i in range(5)]).for_all(lambda k, v: seen.append(k) or True)
assert seen == sorted(seen), seen
"""),
 dict(id="tail-kw-merge", property="C14", needs="a tail call that leaves out a keyword the first call gave",
  breaks="keywords of an earlier call leak into later tail calls",
  edits=[(FN, """            args, kw = bouncer.args, bouncer.kw
            bouncer = fn(*args, **kw)

        return bouncer""", """            args, kw = bouncer.args, bouncer.kw
            bouncer = fn(*args, **kw)
            if isinstance(bouncer, TailCall) and not bouncer.args:
                bouncer.args = args

        return bouncer""")],
  demo="""from expression import TailCall, tailrec
@tailrec
def f(n=0, acc=0):
    if n > 3:
        return TailCall(acc=n)
    if n == 0 and acc:
        return acc
    return TailCall(n + 1, acc)
assert f(1) == 4
"""),
 dict(id="mbox-reply-falsy", property="C23", needs="a reply that arrives before the poster awaits and is falsy",
  breaks="a falsy reply is not taken for a reply",
  edits=[(M, "        self.messages.put(build_message(reply_channel))\n        self.__process_events()", "        msg = build_message(reply_channel)\n        if msg:\n            self.messages.put(msg)\n        self.__process_events()")],
  demo="""import asyncio
from expression.core.mailbox import MailboxProcessor
async def main():
    mb = MailboxProcessor(None)
    ch = []
    def build(c):
        ch.append(c)
        return 0
    mb.post_and_async_reply(build)
    assert await asyncio.wait_for(mb.receive(), 1) == 0
asyncio.run(main())
"""),
 dict(id="aio-cont-err", property="C24", needs="the error continuation called after the computation is complete",
  breaks="a late error raises InvalidStateError out of the continuation",
  edits=[(A, """    def error(err: Exception) -> None:
        if not future.done():
            future.set_exception(err)""", """    def error(err: Exception) -> None:
        if not future.cancelled():
            future.set_exception(err)""")],
  demo="""import asyncio
from expression.core import aiotools
async def main():
    def cb(done, error, cancel):
        done(1)
        error(ValueError())
    assert await aiotools.from_continuations(cb) == 1
asyncio.run(main())
"""),
 dict(id="aio-start-token-falsy", property="C24", needs="start_immediate with a token, whose source is cancelled only later",
  breaks="a task started immediately cannot be cancelled through a token registered while the task is already done or not; only tokens already cancelled register",
  edits=[(A, """    def cb() -> None:
        task.cancel()

    if token:
        token.register(cb)
    return None""", """    def cb() -> None:
        if task.done():
            task.cancel()

    if token:
        token.register(cb)
    return None""")],
  demo="""import asyncio
from expression.core import aiotools
from expression.system import CancellationTokenSource
async def main():
    src = CancellationTokenSource()
    log = []
    async def work():
        try:
            await asyncio.sleep(10)
        except asyncio.CancelledError:
            log.append('c')
            raise
    aiotools.start_immediate(work(), src.token)
    await asyncio.sleep(0.01)
    src.cancel()
    await asyncio.sleep(0.01)
    assert log == ['c']
asyncio.run(main())
"""),
 dict(id="cts-listener-in-lock", property="C22", needs="a listener that raises a BaseException-free error in the middle",
  breaks="listeners after a failing one are not called",
  edits=[(CT, """        for listener in listeners:
            try:
                listener()
            except Exception:
                pass""", """        try:
            for listener in listeners:
                listener()
        except Exception:
            pass""")],
  demo="""from expression.system import CancellationTokenSource
s = CancellationTokenSource()
log = []
s.token.register(lambda: log.append(1))
s.token.register(lambda: 1 / 0)
s.token.register(lambda: log.append(2))
s.cancel()
assert log == [1, 2], log
"""),
 dict(id="cts-id-reuse", property="C22", needs="register, dispose and register again while an earlier registration is live",
  breaks="a new registration may replace a live one",
  edits=[(CT, """            current = self._id
            self._listeners[current] = callback
            self._id += 1""", """            current = len(self._listeners)
            self._listeners[current] = callback
            self._id += 1""")],
  demo="""from expression.system import CancellationTokenSource
s = CancellationTokenSource()
log = []
a = s.token.register(lambda: log.append('a'))
b = s.token.register(lambda: log.append('b'))
a.dispose()
c = s.token.register(lambda: log.append('c'))
s.cancel()
assert sorted(log) == ['b', 'c'], log
"""),
 dict(id="disp-flag-late", property="C21", needs="an action that disposes its own disposable, or that fails and is disposed again",
  breaks="the action runs again when disposed from within the action",
  edits=[(D, """            if not self._is_disposed:
                dispose = True
                self._is_disposed = True

        if dispose:
            self._action()""", """            if not self._is_disposed:
                dispose = True

        if dispose:
            self._action()
            self._is_disposed = True""")],
  demo="""from expression.system import Disposable
log = []
def act():
    log.append(1)
    raise ValueError
d = Disposable.create(act)
for _ in range(2):
    try:
        d.dispose()
    except ValueError:
        pass
assert log == [1]
"""),
 dict(id="aseq-take-pull", property="C17", needs="a source with effects",
  breaks="take pulls one element more than it yields",
  edits=[(AS, """                yield value
                i += 1
                if i >= count:
                    break""", """                i += 1
                if i > count:
                    break
                yield value""")],
  demo="""import asyncio
from expression.collections.asyncseq import AsyncSeq
log = []
async def src():
    for i in range(5):
        log.append(i)
        yield i
async def main():
    return [x async for x in await AsyncSeq(src()).take(2)]
assert asyncio.run(main()) == [0, 1]
assert log == [0, 1], log
"""),
 dict(id="aseq-foldback-none", property="C17", needs="a source with falsy elements",
  breaks="fold_back leaves out elements that are None",
  edits=[(AS, """        items: list[TSource] = []
        async for value in self:
            items.append(value)

        result = state""", """        items: list[TSource] = []
        async for value in self:
            if value is not None:
                items.append(value)

        result = state""")],
  demo="""import asyncio
from expression.collections.asyncseq import AsyncSeq
async def src():
    yield None
    yield 1
assert asyncio.run(AsyncSeq(src()).fold_back(lambda x, s: s + [x], [])) == [1, None]
"""),
 dict(id="tu-eq-hash", property="C09", needs="comparing unions of different classes with equal cases",
  breaks="a union equals a union of an unrelated class with the same case",
  edits=[(TU, "                    isinstance(other, cls)\n", "                    hasattr(other, 'tag')\n")],
  demo="""from typing import Literal
from expression import tagged_union, tag, case
@tagged_union
class A:
    tag: Literal['x'] = tag()
    x: int = case()
@tagged_union
class B:
    tag: Literal['x'] = tag()
    x: int = case()
assert A(x=1) != B(x=1)
"""),
 dict(id="tu-deepcopy-memo", property="C09", needs="deep copying a structure that shares one payload between two unions",
  breaks="shared payloads are duplicated by deepcopy",
  edits=[(TU, "            value = deepcopy(getattr(self, self.tag), memo)", "            value = deepcopy(getattr(self, self.tag))")],
  demo="""import copy
from expression import Some
xs = [1]
a, b = copy.deepcopy((Some(xs), Some(xs)))
assert a.some is b.some
"""),
 dict(id="tu-order-index", property="C09", needs="ordering of cases whose names sort differently from their declaration",
  breaks="cases are ordered by name instead of declaration order",
  edits=[(TU, "return (self._index, getattr(self, self.tag)) < (other._index, getattr(other, other.tag))", "return (self._index, hash(getattr(self, self.tag))) < (other._index, hash(getattr(other, other.tag)))")],
  demo="""from expression import Some
assert Some(-2) < Some(-1) or True
assert Some('a') < Some('b') and not Some('b') < Some('a')
assert Some((1,)) < Some((2,))
for i in range(30):
    assert Some(str(i)) < Some(str(i) + 'a')
"""),
 dict(id="builder-none-bind", property="C07", needs="an effect whose bound value is None",
  breaks="a computation that yields None is treated as finished",
  edits=[(BU, "            yielded = gen.send(value)\n            return self.return_(yielded)", "            yielded = gen.send(value)\n            return self.return_(yielded) if yielded is not None else self.zero()")],
  demo="""from expression import effect, Some
@effect.option[int]()
def f():
    x = yield None
    return 5
assert f() == Some(5), f()
"""),
 dict(id="catch-subclass", property="C20", needs="an exception of a listed class raised while the function's result is inspected",
  breaks="KeyboardInterrupt-like control flow: catch swallows exceptions of unlisted types that wrap a listed cause",
  edits=[(CA, """            except exception as exn:
                return Error(cast(_TError, exn))""", """            except exception as exn:
                return Error(cast(_TError, exn.__cause__ or exn))""")],
  demo="""from expression.extra.result import catch
@catch(exception=ValueError)
def f():
    try:
        1 / 0
    except ZeroDivisionError as e:
        raise ValueError('x') from e
r = f()
assert isinstance(r.error, ValueError)
"""),
]
BUGS = [b for b in BUGS if "SystemExit(0)" not in b["demo"]]
