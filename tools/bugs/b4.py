OPT, RES, TYP = "expression/core/option.py", "expression/core/result.py", "expression/core/typing.py"
MB, SEQ, BLK, MAP, AIO = "expression/core/mailbox.py", "expression/collections/seq.py", "expression/collections/block.py", "expression/collections/map.py", "expression/core/aiotools.py"
BUGS = [
 dict(id="cast-falsy", property="C28", needs="a falsy value of the very class it is cast to",
  breaks="try_downcast gives None for an empty container, zero or the empty string although it is an instance",
  edits=[(TYP, "if origin is not None and isinstance(expr, origin):", "if origin is not None and (expr or None) is not None and isinstance(expr, origin):")],
  demo="""from expression.core import try_downcast
from expression.collections import Block
assert try_downcast(int, 3) == 3 and try_downcast(str, 3) is None
assert try_downcast(Block, Block.empty()) == Block.empty()
assert try_downcast(int, 0) == 0
"""),
 dict(id="seq-text-cut", property="C28", needs="a sequence of exactly one hundred elements",
  breaks="the text of a hundred-element sequence drops its last element",
  edits=[(SEQ, "            elif count == 100:\n", "            elif count == 99:\n")],
  demo="""from expression.collections import Seq
assert str(Seq.of_iterable(range(100))) == '[' + '; '.join(str(i) for i in range(100)) + ']'
assert str(Seq.of_iterable([1, 2])) == '[1; 2]'
"""),
 dict(id="post-call-soon", property="C23", needs="a message posted from a thread other than the event loop's while the loop sleeps",
  breaks="a message posted from another thread does not wake the mailbox's event loop",
  edits=[(MB, "        self.loop.call_soon_threadsafe(self.__process_events)", "        self.loop.call_soon(self.__process_events)")],
  demo="""import asyncio, threading, time
from expression.core.mailbox import MailboxProcessor
async def main():
    got = asyncio.Event()
    async def body(inbox):
        await inbox.receive()
        got.set()
    m = MailboxProcessor.start(body)
    await asyncio.sleep(0.05)
    def other():
        time.sleep(0.2)
        m.post(1)
    threading.Thread(target=other).start()
    t = time.monotonic()
    await asyncio.wait_for(got.wait(), 5)
    assert time.monotonic() - t < 3
asyncio.run(main())
"""),
 dict(id="map-text-value", property="C28", needs="a Map with an absent-looking value",
  breaks="the text of a map shows a key instead of a falsy value",
  edits=[(MAP, 'return f"({key}, {value})"', 'return f"({key}, {value or key})"')],
  demo="""from expression.collections import Map
assert str(Map.of_seq([(1, 'a')])) == 'map [(1, a)]'
assert str(Map.of_seq([(1, 0)])) == 'map [(1, 0)]', str(Map.of_seq([(1, 0)]))
"""),
]
