From aba85381577aef235016db3484dd5eb959ea091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:15 +0000
Subject: [PATCH 01/30] fix: Map equality must not ignore extra entries in the
 other map

---
 expression/collections/map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6dd0b32..9fb1332 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -237,7 +237,8 @@ class Map(Mapping[_Key, _Value], PipeMixin):
             else:
                 if kv != kv_other:
                     return False
-        return True
+        # Not equal if the other map still has entries left
+        return next(iterator, None) is None
 
     def __bool__(self) -> bool:
         return not maptree.is_empty(self._tree)
-- 
2.43.0


From c6e516d3fdfb202b9821ea2e512b96b312b80a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:15 +0000
Subject: [PATCH 02/30] fix: map.pick raises KeyError when no entry is picked

---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 9fb1332..22287a4 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -365,7 +365,7 @@ def try_pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[
 
 @curry_flip(1)
 def pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[_Result]]) -> _Result:
-    for res in table.try_pick(chooser):
+    for res in table.try_pick(chooser).to_list():
         return res
     else:
         raise KeyError()
-- 
2.43.0


From 83f143e7fe306900708f1f7c562b30df25915b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:15 +0000
Subject: [PATCH 03/30] fix: Map.change on a missing key with an updater
 returning Nothing

---
 expression/collections/maptree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 7f8a54c..710866f 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -325,7 +325,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                     return m
 
         case _:
-            for v in u(Nothing):
+            for v in u(Nothing).to_list():
                 return Some(MapTreeLeaf(k, v))
             else:
                 return m
-- 
2.43.0


From df2ccb00de1793cb53d8f9728a222d5fdc645a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:15 +0000
Subject: [PATCH 04/30] fix: building a Map from a long sequence must not
 exhaust the stack

---
 expression/collections/maptree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 710866f..a658ca5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -454,12 +454,9 @@ def of_list(xs: Block[tuple[Key, Value]]) -> MapTree[Key, Value]:
 
 
 def mk_from_iterator(acc: MapTree[Key, Value], e: Iterator[tuple[Key, Value]]) -> MapTree[Key, Value]:
-    try:
-        (x, y) = next(e)
-    except StopIteration:
-        return acc
-    else:
-        return mk_from_iterator(add(x, y, acc), e)
+    for x, y in e:
+        acc = add(x, y, acc)
+    return acc
 
 
 def of_seq(xs: Iterable[tuple[Key, Value]]) -> MapTree[Key, Value]:
-- 
2.43.0


From b3165ebc1bd2928c1a3c17a8e086ccee222e49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 05/30] fix: indexed must honour its start argument

---
 expression/collections/array.py | 4 ++--
 expression/collections/block.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 3b54c9b..03937e3 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -305,7 +305,7 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
@@ -545,7 +545,7 @@ def indexed(
     source: TypedArray[_TSource],
     start: int = 0,
 ) -> TypedArray[tuple[int, _TSource]]:
-    return source.indexed()
+    return source.indexed(start)
 
 
 def is_empty(source: TypedArray[Any]) -> bool:
diff --git a/expression/collections/block.py b/expression/collections/block.py
index 76e305f..351d7d9 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -219,7 +219,7 @@ class Block(
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
-- 
2.43.0


From 51a71e7019d70fee8bd667beeeb73977617c9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 06/30] fix: comparing a TypedArray with a non-sequence must
 not raise

---
 expression/collections/array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 03937e3..7621bbb 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -12,7 +12,7 @@ from __future__ import annotations
 import array
 import builtins
 import functools
-from collections.abc import Callable, Iterable, Iterator, MutableSequence
+from collections.abc import Callable, Iterable, Iterator, MutableSequence, Sequence
 from enum import Enum
 from typing import Any, TypeVar, cast
 
@@ -442,6 +442,8 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         return pipe(state, unfold(generator))
 
     def __eq__(self, o: Any) -> bool:
+        if not isinstance(o, Sequence):
+            return NotImplemented
         if len(self) != len(o):
             return False
 
-- 
2.43.0


From 4a3df98ce3c9ffa59c367978f53f1322efd90523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 07/30] fix: TypedArray must not share storage with the
 bytearray it is built from

---
 expression/collections/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 7621bbb..67cae95 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -124,7 +124,7 @@ def array_from_initializer(
     type_code = TypeCode.Any
 
     if isinstance(initializer, bytearray):
-        arr = initializer
+        arr = bytearray(initializer)
         type_code = TypeCode.Byte
     elif isinstance(initializer, bytes):
         arr = bytearray(initializer)
-- 
2.43.0


From 752b04b4e47a4c1a6095678b0854f4a8b7c66d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 08/30] fix: Seq filter, scan and zip results can be iterated
 more than once

---
 expression/collections/seq.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 76be2b3..4b690e0 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -279,7 +279,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The resulting sequence of computed states.
         """
-        return Seq(itertools.accumulate(self._value, scanner, initial=state))
+        return Seq(pipe(self, scan(scanner, state)))
 
     def skip(self, count: int) -> Seq[_TSource]:
         """Skip elements from sequence.
@@ -380,7 +380,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The result sequence.
         """
-        return builtins.zip(self, other)
+        return zip(self)(other)
 
     def __iter__(self) -> Iterator[_TSource]:
         """Return iterator for sequence."""
@@ -542,7 +542,7 @@ def filter(source: Iterable[_TSource], predicate: Callable[[_TSource], bool]) ->
     Returns:
         A partially applied filter function.
     """
-    return builtins.filter(predicate, source)
+    return SeqGen(lambda: builtins.filter(predicate, source))
 
 
 @curry_flip(1)
@@ -861,7 +861,7 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return itertools.accumulate(source, scanner, initial=state)
+    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
@@ -1063,7 +1063,7 @@ def zip(
         Returns:
             The result sequence.
         """
-        return builtins.zip(source1, source2)
+        return SeqGen(lambda: builtins.zip(source1, source2))
 
     return _zip
 
-- 
2.43.0


From dfa8a3c2a58851fadf7385ef44b0cf0fdaaeeb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 09/30] fix: seq.unfold results can be iterated more than once

---
 expression/collections/seq.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 4b690e0..06b3a87 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -1023,13 +1023,18 @@ def unfold(state: _TState, generator: Callable[[_TState], Option[tuple[_TSource,
         A partially applied unfold function that takes the state and
         returns the result list.
     """
-    while True:
-        result = generator(state)
-        if result.is_none():
-            break
 
-        item, state = result.value
-        yield item
+    def gen() -> Iterator[_TSource]:
+        current = state
+        while True:
+            result = generator(current)
+            if result.is_none():
+                break
+
+            item, current = result.value
+            yield item
+
+    return SeqGen(gen)
 
 
 def zip(
-- 
2.43.0


From 28351d966a683a4b7e9779cf820d1cb93c07c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 10/30] fix: parsing many occurrences must not exhaust the
 stack

---
 expression/extra/parser.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 1ac1192..c1a2c89 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -278,19 +278,17 @@ def pstring(string_input: str) -> Parser[str]:
 
 
 def parse_zero_or_more(parser: Parser[_A], input: Remaining) -> tuple[Block[_A], Remaining]:
-    # run parser with the input
-    first_result = parser.run(input)
-
-    # test the result for Failure/Success
-    match first_result:
-        case Result(tag="ok", ok=(first_value, input_after_first_parse)):
-            # if parse succeeds, call recursively
-            # to get the subsequent values
-            subsequent_values, remaining_input = parse_zero_or_more(parser, input_after_first_parse)
-            values = subsequent_values.cons(first_value)
-            return values, remaining_input
-        case _:
-            return (block.empty, input)
+    values: list[_A] = []
+    while True:
+        # run parser with the input and test the result for Failure/Success
+        match parser.run(input):
+            case Result(tag="ok", ok=(value, remaining)) if remaining != input:
+                # if parse succeeds, continue with the remaining input
+                values.append(value)
+                input = remaining
+            case _:
+                # failed, or would succeed forever without consuming input
+                return Block(values), input
 
 
 def many(parser: Parser[_A]) -> Parser[Block[_A]]:
-- 
2.43.0


From 9874de614c848c4aa045e16634725c4dd5515964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 11/30] fix: a mailbox reply of None completes the waiting
 poster

---
 expression/core/mailbox.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 17e05ac..c64f83c 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -78,17 +78,18 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             The reply from mailbox processor.
         """
-        result: _Reply | None = None
+        # The reply, boxed so that any value (also `None`) counts as a reply.
+        result: tuple[_Reply] | None = None
         # This is the continuation for the `done` callback of the awaiting poster.
         continuation: Continuation[_Reply] | None = None
 
         def check_completion() -> None:
             if result is not None and continuation is not None:
-                continuation(result)
+                continuation(result[0])
 
         def reply_callback(res: _Reply):
             nonlocal result
-            result = res
+            result = (res,)
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From b21fe92918b162a6012a03c22d246c71026803c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 12/30] fix: release started tasks also when they fail or are
 cancelled

---
 expression/core/aiotools.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 2c157b1..8f470ee 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -79,9 +79,10 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     """
 
     async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
+        try:
+            return await computation
+        finally:
+            __running_tasks.discard(task)
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
@@ -102,9 +103,10 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     """
 
     async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
+        try:
+            return await computation
+        finally:
+            __running_tasks.discard(task)
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
-- 
2.43.0


From ce92a2d38263676defa0c4e1f98109897b36a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 13/30] fix: registering a cancellation callback must not race
 with cancel

---
 expression/system/cancellation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 0044e34..456fac3 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -86,10 +86,9 @@ class CancellationTokenSource(Disposable):
                 pass
 
     def register_internal(self, callback: Callable[[], None]) -> Disposable:
-        if self._is_disposed:
-            raise ObjectDisposedException()
-
         with self._lock:
+            if self._is_disposed:
+                raise ObjectDisposedException()
             current = self._id
             self._listeners[current] = callback
             self._id += 1
-- 
2.43.0


From fcc3c72e3616f6e0199b90925eab332701dc1570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 14/30] fix: Seq.dict dumps pydantic models like the other
 collections

---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 06b3a87..bc1fc3b 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -336,7 +336,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         """Returns a json serializable representation of the list."""
 
         def to_obj(value: Any) -> Any:
-            attr = getattr(value, "dict", None) or getattr(value, "dict", None)
+            attr = getattr(value, "model_dump", None) or getattr(value, "dict", None)
             if attr and callable(attr):
                 value = attr()
             return value
-- 
2.43.0


From 9b9d0f51ec85803c329b2b2751c5dd21e1a1be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 15/30] fix: AsyncSeq.take must not pull an element it does not
 return

---
 expression/collections/asyncseq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 7576da8..9daec6c 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -168,11 +168,13 @@ class AsyncSeq(AsyncIterable[TSource]):
 
         async def _take(source: AsyncIterable[TSource]) -> AsyncIterable[TSource]:
             i = 0
+            if count <= 0:
+                return
             async for value in source:
-                if i >= count:
-                    break
                 yield value
                 i += 1
+                if i >= count:
+                    break
 
         return pipe(self, _take)
 
-- 
2.43.0


From 9518d8ad64abb50ee1c5f1a86c16741b5b4d0799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:04 +0000
Subject: [PATCH 16/30] fix: seq.scan must not ignore an initial state of None

---
 expression/collections/seq.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index bc1fc3b..cc2443e 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -861,7 +861,16 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
+
+    # Note: `itertools.accumulate` ignores an initial state that is `None`
+    def gen() -> Iterator[_TState]:
+        acc = state
+        yield acc
+        for x in source:
+            acc = scanner(acc, x)
+            yield acc
+
+    return SeqGen(gen)
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0


From f456191e528ffdb3c9683b1f62f25a1230fcb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:12 +0000
Subject: [PATCH 17/30] fix: seq computation blocks must not nest one generator
 per yield

---
 expression/effect/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/effect/seq.py b/expression/effect/seq.py
index 7bf3105..92ace82 100644
--- a/expression/effect/seq.py
+++ b/expression/effect/seq.py
@@ -58,7 +58,7 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The concatenated sequences
         """
-        return seq.concat(xs, ys)
+        return seq.of_list([*xs, *ys])
 
     def zero(self) -> Iterable[_TSource]:
         """Return the zero value for sequences.
-- 
2.43.0


From ef1b65d16e3e8793419dcd553e26e64294f10a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:50 +0000
Subject: [PATCH 18/30] fix: a failed await in an async block without yield
 must short circuit

---
 expression/core/async_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression/core/async_builder.py b/expression/core/async_builder.py
index 5354d20..b05186b 100644
--- a/expression/core/async_builder.py
+++ b/expression/core/async_builder.py
@@ -116,7 +116,11 @@ class AsyncBuilder(Generic[_T, _M], ABC):  # Corrected Generic definition
                 # to zero().
                 result_value: _T | None
                 if inspect.iscoroutine(body):
-                    result_value = await cast("Awaitable[_T]", body)
+                    try:
+                        result_value = await cast("Awaitable[_T]", body)
+                    except EffectError as error:
+                        # Effect errors (Nothing, Error, etc) short circuits
+                        return await self.run(await self.return_from(cast("_M", error.args[0])))
                 else:
                     result_value = cast("_T | None", body)
                 if result_value is None:
-- 
2.43.0


From c176789dba72856a0f4cedc9e2df79c4fa3c18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:58 +0000
Subject: [PATCH 19/30] fix: option and result pipelines of many stages must
 not exhaust the stack

---
 expression/extra/option/pipeline.py | 10 +++++-----
 expression/extra/result/pipeline.py | 12 +++++-------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/expression/extra/option/pipeline.py b/expression/extra/option/pipeline.py
index a1bd135..82d4b8c 100644
--- a/expression/extra/option/pipeline.py
+++ b/expression/extra/option/pipeline.py
@@ -82,13 +82,13 @@ def pipeline(*fns: Callable[[Any], Option[Any]]) -> Callable[[Any], Option[Any]]
         The composed functions.
     """
 
-    def reducer(acc: Callable[[Any], Option[Any]], fn: Callable[[Any], Option[Any]]) -> Callable[[Any], Option[Any]]:
-        def gn(x: Any) -> Option[Any]:
-            return acc(x).bind(fn)
+    def run(x: Any) -> Option[Any]:
+        def reducer(acc: Option[Any], fn: Callable[[Any], Option[Any]]) -> Option[Any]:
+            return acc.bind(fn)
 
-        return gn
+        return reduce(reducer, fns, Some(x))
 
-    return reduce(reducer, fns, Some)
+    return run
 
 
 __all__ = ["pipeline"]
diff --git a/expression/extra/result/pipeline.py b/expression/extra/result/pipeline.py
index fb7e9d5..7c881ed 100644
--- a/expression/extra/result/pipeline.py
+++ b/expression/extra/result/pipeline.py
@@ -85,15 +85,13 @@ def pipeline(*fns: Callable[[Any], Result[Any, Any]]) -> Callable[[Any], Result[
         The composed functions.
     """
 
-    def reducer(
-        acc: Callable[[Any], Result[Any, Any]], fn: Callable[[Any], Result[Any, Any]]
-    ) -> Callable[[Any], Result[Any, Any]]:
-        def gn(x: Any) -> Result[Any, Any]:
-            return acc(x).bind(fn)
+    def run(x: Any) -> Result[Any, Any]:
+        def reducer(acc: Result[Any, Any], fn: Callable[[Any], Result[Any, Any]]) -> Result[Any, Any]:
+            return acc.bind(fn)
 
-        return gn
+        return reduce(reducer, fns, Ok(x))
 
-    return reduce(reducer, fns, Ok)
+    return run
 
 
 __all__ = ["pipeline"]
-- 
2.43.0


From 6a34eafb99eb076241be111b11823b73eea5d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:17 +0000
Subject: [PATCH 20/30] fix: choices and sequences of many parsers must not
 exhaust the stack

---
 expression/extra/parser.py | 41 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index c1a2c89..6068f89 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -157,7 +157,17 @@ def or_else(p1: Parser[_A], p2: Parser[_A]) -> Parser[_A]:
 
 
 def choice(list_of_parsers: Block[Parser[_A]]) -> Parser[_A]:
-    return list_of_parsers.reduce(lambda a, b: or_else(a)(b))
+    first, rest = list_of_parsers.head(), list_of_parsers.tail()
+
+    def run(input: Remaining) -> ParseResult[_A]:
+        result = first.run(input)
+        for parser in rest:
+            if result.is_ok():
+                break
+            result = parser.run(input)
+        return result
+
+    return Parser(run, f"choice({list_of_parsers})")
 
 
 def any_of(list_of_chars: str) -> Parser[str]:
@@ -248,23 +258,18 @@ def lift2(fn: Callable[[_A], Callable[[_B], _C]], xP: Parser[_A], yP: Parser[_B]
 
 
 def sequence(parser_list: Block[Parser[_A]]) -> Parser[Block[_A]]:
-    # define the "cons" function, which is a two parameter function
-    @curry(1)
-    def cons(head: _A, tail: Block[_A]) -> Block[_A]:
-        return tail.cons(head)
-
-    # lift it to Parser World
-    cons_p = lift2(cons)
-
-    # process the list of parsers recursively
-    match parser_list:
-        case block.empty:
-            return preturn(block.empty)
-        case Block([head, *tail]):
-            tail_ = sequence(Block(tail))
-            return cons_p(head)(tail_)
-        case _:
-            raise ValueError("invalid parser list")
+    def run(input: Remaining) -> ParseResult[Block[_A]]:
+        values: list[_A] = []
+        for parser in parser_list:
+            match parser.run(input):
+                case Result(tag="ok", ok=[value, remaining]):
+                    values.append(value)
+                    input = remaining
+                case Result(error=error):
+                    return Error(error)
+        return Ok((Block(values), input))
+
+    return Parser(run, f"sequence({parser_list})")
 
 
 def pstring(string_input: str) -> Parser[str]:
-- 
2.43.0


From 2458f400527a2999d7887a7dca7a294dd0ae227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:01 +0000
Subject: [PATCH 21/30] fix: removing from a map must keep its tree balanced

---
 expression/collections/maptree.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index a658ca5..5520ded 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -106,8 +106,8 @@ def rebalance(t1: MapTree[Key, Value], k: Key, v: Value, t2: MapTree[Key, Value]
     if t2h > t1h + TOLERANCE:  # right is heavier than left
         if isinstance(t2.value, MapTreeNode):
             t2_ = t2.value
-            # One of the nodes must have height > height t1 + 1
-            if height(t2_.left) > t1h + 1:  # balance left: combination
+            # A double rotation is needed when the inner subtree is the higher one
+            if height(t2_.left) > height(t2_.right):  # balance left: combination
                 if isinstance(t2_.left.value, MapTreeNode):
                     t2l = t2_.left.value
                     return mk(
@@ -126,8 +126,8 @@ def rebalance(t1: MapTree[Key, Value], k: Key, v: Value, t2: MapTree[Key, Value]
         if t1h > t2h + TOLERANCE:  # left is heavier than right
             if isinstance(t1.value, MapTreeNode):
                 t1_ = t1.value
-                # One of the nodes must have height > height t2 + 1
-                if height(t1_.right) > t2h + 1:  # balance right: combination
+                # A double rotation is needed when the inner subtree is the higher one
+                if height(t1_.right) > height(t1_.left):  # balance right: combination
                     if isinstance(t1_.right.value, MapTreeNode):
                         t1r = t1_.right.value
                         return mk(
@@ -258,7 +258,7 @@ def splice_out_successor(m: MapTree[Key, Value]) -> tuple[Key, Value, Option[Map
                 return key, value, right
             else:
                 k3, v3, l_ = splice_out_successor(left)
-                return k3, v3, mk(l_, key, value, right)
+                return k3, v3, rebalance(l_, key, value, right)
         case Option(tag="some", some=MapTreeLeaf(key=key, value=value)):
             return key, value, empty
         case _:
@@ -277,7 +277,7 @@ def remove(k: Key, m: MapTree[Key, Value]) -> Option[MapTreeLeaf[Key, Value]]:
                     return left
                 else:
                     sk, sv, r_ = splice_out_successor(right)
-                    return mk(left, sk, sv, r_)
+                    return rebalance(left, sk, sv, r_)
             else:
                 return rebalance(left, key, value, remove(k, right))
         case Option(tag="some", some=MapTreeLeaf(key=key, value=value)):
@@ -304,7 +304,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                         return left
                     else:
                         sk, sv, r_ = splice_out_successor(right)
-                        return mk(left, sk, sv, r_)
+                        return rebalance(left, sk, sv, r_)
             else:
                 return rebalance(left, key, value, change(k, u, right))
         case Option(tag="some", some=MapTreeLeaf(key=key, value=value)):
-- 
2.43.0


From 5ec7b884151ccba14a9bbc9cdd7404ece7521e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:43 +0000
Subject: [PATCH 22/30] fix: the sequence of a map's entries must be
 re-iterable

---
 expression/collections/maptree.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 5520ded..37448a5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -27,7 +27,7 @@ from collections.abc import Callable, Iterable, Iterator
 from dataclasses import dataclass
 from typing import Any, Generic, TypeVar
 
-from expression.core import Nothing, Option, Some, failwith, pipe
+from expression.core import Nothing, Option, Some, failwith
 from expression.core.typing import SupportsLessThanAndHash
 
 from . import block, seq
@@ -516,14 +516,5 @@ def mk_iterator(m: MapTree[Key, Value]) -> Iterator[tuple[Key, Value]]:
 
 
 def to_seq(s: MapTree[Key, Value]) -> Iterable[tuple[Key, Value]]:
-    it = mk_iterator(s)
-
-    def folder(it: Iterator[tuple[Key, Value]]):
-        try:
-            current = next(it)
-        except StopIteration:
-            return Nothing
-        else:
-            return Some((current, it))
-
-    return pipe(it, seq.unfold(folder))
+    # Every iteration needs an iterator of its own
+    return seq.delay(lambda: mk_iterator(s))
-- 
2.43.0


From 892241a72943f674e18b2902ec959ca7ccfae434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:22 +0000
Subject: [PATCH 23/30] fix: release started tasks which are cancelled before
 their first step

---
 expression/core/aiotools.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 8f470ee..840c81b 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -79,13 +79,11 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     """
 
     async def runner() -> Any:
-        try:
-            return await computation
-        finally:
-            __running_tasks.discard(task)
+        return await computation
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
+    task.add_done_callback(__running_tasks.discard)
 
     def cb():
         task.cancel()
@@ -103,13 +101,11 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     """
 
     async def runner() -> Any:
-        try:
-            return await computation
-        finally:
-            __running_tasks.discard(task)
+        return await computation
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
+    task.add_done_callback(__running_tasks.discard)
 
     def cb() -> None:
         task.cancel()
-- 
2.43.0


From 805b1faea964ea5cb74325f1d12d989668f96775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:00 +0000
Subject: [PATCH 24/30] fix: keep a mailbox message when another thread took
 the waiting receiver

---
 expression/core/mailbox.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index c64f83c..ed0e297 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -141,11 +141,8 @@ class MailboxProcessor(Generic[_Msg]):
                 cancel(OperationCanceledError("Mailbox was cancelled"))
             return
 
-        if self.continuation is None:
-            return
-
         with self.lock:
-            if self.messages.empty():
+            if self.continuation is None or self.messages.empty():
                 return
             msg = self.messages.get()
             self.continuation, cont = None, self.continuation
-- 
2.43.0


From 8fbcc0af1c7502e6b2c1177923d0b9dd91deb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:30 +0000
Subject: [PATCH 25/30] fix: an abandoned mailbox receive no longer swallows
 the next message

---
 expression/core/mailbox.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index ed0e297..617f298 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -116,21 +116,29 @@ class MailboxProcessor(Generic[_Msg]):
             waiting for further messages. Raises a TimeoutException if
             the timeout is exceeded.
         """
+        waiting: Continuation[_Msg] | None = None
 
         def callback(
             done: Continuation[_Msg],
             error: Continuation[Exception],
             cancel: Continuation[OperationCanceledError],
         ):
+            nonlocal waiting
             if self.continuation:
                 raise Exception("Receive can only be called once!")
 
-            self.continuation = done
+            self.continuation = waiting = done
             self.cancel = cancel
 
             self.__process_events()
 
-        return await from_continuations(callback)
+        try:
+            return await from_continuations(callback)
+        except asyncio.CancelledError:
+            # Nobody is waiting any longer, leave the next message in the queue.
+            if self.continuation is waiting:
+                self.continuation = None
+            raise
 
     def __process_events(self):
         # Cancellation of async workflows is more tricky in Python than
-- 
2.43.0


From 50404af62f2c8d56dcf6ea3a251e8870227b8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:18 +0000
Subject: [PATCH 26/30] fix: option payloads in json must be validated as their
 own type

---
 expression/core/option.py | 46 +++++++++++++++------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 76d627d..fe2bfdb 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -342,37 +342,27 @@ class Option(
             _ = handler(v)
             return Nothing
 
-        python_schema = core_schema.union_schema(
-            [
-                core_schema.is_instance_schema(Option),
-                core_schema.chain_schema(
-                    [
-                        core_schema.none_schema(),
-                        core_schema.no_info_wrap_validator_function(validate_none, none_schema),
-                    ]
-                ),
-                core_schema.chain_schema(
-                    [
-                        # item_tp's schema should ensure the value is an instance of _T
-                        # is_instance_schema doesn't work for Annotated[_T, ...]
-                        # Use the value_schema to validate `values`
-                        core_schema.no_info_wrap_validator_function(validate_some, value_schema),
-                    ]
-                ),
-            ]
-        )
-
-        return core_schema.json_or_python_schema(
-            json_schema=core_schema.chain_schema(
+        data_schemas: list[CoreSchema] = [
+            core_schema.chain_schema(
+                [
+                    core_schema.none_schema(),
+                    core_schema.no_info_wrap_validator_function(validate_none, none_schema),
+                ]
+            ),
+            core_schema.chain_schema(
                 [
-                    core_schema.any_schema(),
-                    # after validating the json data convert it to python
-                    core_schema.no_info_before_validator_function(
-                        lambda data: cls(some=data) if data is not None else cls(none=data),
-                        python_schema,
-                    ),
+                    # item_tp's schema should ensure the value is an instance of _T
+                    # is_instance_schema doesn't work for Annotated[_T, ...]
+                    # Use the value_schema to validate `values`
+                    core_schema.no_info_wrap_validator_function(validate_some, value_schema),
                 ]
             ),
+        ]
+        python_schema = core_schema.union_schema([core_schema.is_instance_schema(Option), *data_schemas])
+
+        return core_schema.json_or_python_schema(
+            # json data never is an option, so it has to be validated as its payload
+            json_schema=core_schema.union_schema(data_schemas),
             python_schema=python_schema,
             serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
         )
-- 
2.43.0


From 4a7b52648c2ad0ab700cc436108009db809672b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:06 +0000
Subject: [PATCH 27/30] fix: results can be validated from json

---
 expression/core/result.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index 384df1a..3f030f6 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -327,28 +327,26 @@ class Result(
                 core_schema.no_info_wrap_validator_function(validate_ok, ok_schema),
             ]
         )
-        json_schema = core_schema.chain_schema(
+        json_schema = core_schema.union_schema(
             [
-                core_schema.union_schema(
-                    [
-                        core_schema.typed_dict_schema(
-                            {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
-                                "ok": core_schema.typed_dict_field(ok_schema),
-                            }
-                        ),
-                        core_schema.typed_dict_schema(
-                            {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
-                                "error": core_schema.typed_dict_field(error_schema),
-                            }
-                        ),
-                    ]
-                ),
                 # after validating the json data convert it to python
-                core_schema.no_info_before_validator_function(
-                    lambda data: cls(data),
-                    python_schema,
+                core_schema.no_info_after_validator_function(
+                    lambda data: cls(ok=data["ok"]),
+                    core_schema.typed_dict_schema(
+                        {
+                            "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                            "ok": core_schema.typed_dict_field(ok_schema),
+                        }
+                    ),
+                ),
+                core_schema.no_info_after_validator_function(
+                    lambda data: cls(error=data["error"]),
+                    core_schema.typed_dict_schema(
+                        {
+                            "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                            "error": core_schema.typed_dict_field(error_schema),
+                        }
+                    ),
                 ),
             ]
         )
-- 
2.43.0


From f72596a4e2d5df7b664278668da23835497d30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:03 +0000
Subject: [PATCH 28/30] fix: seq.mapi is lazy like the other sequence
 operations

---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index cc2443e..25a0817 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -756,7 +756,7 @@ def mapi(source: Iterable[_TSource], mapping: Callable[[int, _TSource], _TResult
     Returns:
         The list of transformed elements.
     """
-    return (*itertools.starmap(mapping, builtins.enumerate(source)),)
+    return SeqGen(lambda: itertools.starmap(mapping, builtins.enumerate(source)))
 
 
 def max(source: Iterable[_TSupportsGreaterThan]) -> _TSupportsGreaterThan:
-- 
2.43.0


From 1afd66ea14f25cf6661ef837931eb2a7baceaeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:35 +0000
Subject: [PATCH 29/30] fix: Seq.concat and Seq.collect evaluate nothing before
 iteration

---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 25a0817..e50e4ce 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -117,7 +117,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Combines the given variable number of enumerations and/or
         enumeration-of-enumerations as a single concatenated enumeration.
         """
-        return Seq(concat(*self))
+        return Seq(collect(identity)(self))
 
     def collect(self, mapping: Callable[[_TSource], Seq[_TResult]]) -> Seq[_TResult]:
         """Collect items from the sequence.
-- 
2.43.0


From 38e6a04b7b4be4f94bdc2897836f1a0841ccec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:40 +0000
Subject: [PATCH 30/30] fix: a token that cannot be cancelled accepts
 registrations

CancellationToken.none() forwarded registrations to an already cancelled
source, so registering a callback (and with it start, start_immediate and
MailboxProcessor.start given that token) raised ObjectDisposedException.
---
 expression/system/cancellation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 456fac3..0c7b973 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -46,6 +46,9 @@ class CancellationToken:
             raise ObjectDisposedException()
 
     def register(self, callback: Callable[[], None]) -> Disposable:
+        if not self.can_be_canceled:
+            # There is nothing that could ever notify the callback.
+            return Disposable.create(lambda: None)
         return self._source.register_internal(callback)
 
     @staticmethod
-- 
2.43.0

