"""Asynchronous helpers: first signal wins, tasks are kept until they end and then released."""
import asyncio
from typing import Any

from expression.core import aiotools
from expression.system import CancellationToken, CancellationTokenSource

GLOBALS = True

from .lib import AFn, Fn, retained, run_loop, tasks_retained


# ---------------------------------------------------------------- from_continuations
async def impl_done(x: Any):
    return await aiotools.from_continuations(lambda done, error, cancel: done(x))


async def spec_done(x: Any):
    return x


async def impl_error(x: Any):
    e = ValueError(x)
    return await aiotools.from_continuations(lambda done, error, cancel: error(e))


async def spec_error(x: Any):
    raise ValueError(x)


async def impl_cancel(x: Any):
    return await aiotools.from_continuations(lambda done, error, cancel: cancel(x))


async def spec_cancel(x: Any):
    raise asyncio.CancelledError()


# two signals before the awaiter runs: the first one decides, the second is ignored
async def impl_done_then_error(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        done(x)
        error(ValueError(y))
    return await aiotools.from_continuations(cb)


async def spec_done_then_error(x: Any, y: Any):
    return x


async def impl_done_then_cancel(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        done(x)
        cancel(y)
    return await aiotools.from_continuations(cb)


async def spec_done_then_cancel(x: Any, y: Any):
    return x


async def impl_done_then_done(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        done(x)
        done(y)
    return await aiotools.from_continuations(cb)


async def spec_done_then_done(x: Any, y: Any):
    return x


async def impl_error_then_done(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        error(ValueError(x))
        done(y)
    return await aiotools.from_continuations(cb)


async def spec_error_then_done(x: Any, y: Any):
    raise ValueError(x)


async def impl_error_then_error(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        error(ValueError(x))
        error(ValueError(y))
    return await aiotools.from_continuations(cb)


async def spec_error_then_error(x: Any, y: Any):
    raise ValueError(x)


async def impl_error_then_cancel(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        error(ValueError(x))
        cancel(y)
    return await aiotools.from_continuations(cb)


async def spec_error_then_cancel(x: Any, y: Any):
    raise ValueError(x)


async def impl_cancel_then_done(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        cancel(x)
        done(y)
    return await aiotools.from_continuations(cb)


async def spec_cancel_then_done(x: Any, y: Any):
    raise asyncio.CancelledError()


async def impl_cancel_then_error(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        cancel(x)
        error(ValueError(y))
    return await aiotools.from_continuations(cb)


async def spec_cancel_then_error(x: Any, y: Any):
    raise asyncio.CancelledError()


async def impl_cancel_then_cancel(x: Any, y: Any):
    def cb(done: Any, error: Any, cancel: Any):
        cancel(x)
        cancel(y)
    return await aiotools.from_continuations(cb)


async def spec_cancel_then_cancel(x: Any, y: Any):
    raise asyncio.CancelledError()


# the callback itself raises: the caller of from_continuations sees it
def impl_callback_raises(f: Fn[Any]):
    return aiotools.from_continuations(lambda done, error, cancel: f(1)).done()


def spec_callback_raises(f: Fn[Any]):
    f(1)
    return False


# the callbacks are called once, with three continuations, before anything is awaited
async def impl_called_once(f: Fn[Any], x: Any):
    def cb(done: Any, error: Any, cancel: Any):
        f(x)
        done(x)
    fut = aiotools.from_continuations(cb)
    f(2)
    return await fut


async def spec_called_once(f: Fn[Any], x: Any):
    f(x)
    f(2)
    return x


# signals which arrive while the awaiter is suspended
class Box:
    pass


async def impl_late(x: Any, y: Any):
    b = Box()

    def cb(done: Any, error: Any, cancel: Any):
        b.done = done
        b.error = error
        b.cancel = cancel

    async def waiter():
        b.got = await aiotools.from_continuations(cb)
    t = asyncio.create_task(waiter())
    run_loop()
    before = t.done()
    b.done(x)
    b.error(ValueError(y))
    b.cancel(y)
    b.done(y)
    run_loop()
    b.error(ValueError(y))
    return before, t.done(), t.cancelled(), b.got


async def spec_late(x: Any, y: Any):
    return False, True, False, x


async def impl_late_error(x: Any, y: Any):
    b = Box()

    def cb(done: Any, error: Any, cancel: Any):
        b.done = done
        b.error = error
        b.cancel = cancel

    async def waiter():
        b.got = await aiotools.from_continuations(cb)
    t = asyncio.create_task(waiter())
    run_loop()
    b.error(ValueError(x))
    b.done(y)
    b.cancel(y)
    b.error(ValueError(y))
    run_loop()
    return t.result()


async def spec_late_error(x: Any, y: Any):
    raise ValueError(x)


async def impl_late_cancel(x: Any, y: Any):
    b = Box()

    def cb(done: Any, error: Any, cancel: Any):
        b.done = done
        b.error = error
        b.cancel = cancel

    async def waiter():
        b.got = await aiotools.from_continuations(cb)
    t = asyncio.create_task(waiter())
    run_loop()
    b.cancel(x)
    b.done(y)
    b.error(ValueError(y))
    b.cancel(y)
    run_loop()
    return t.cancelled()


async def spec_late_cancel(x: Any, y: Any):
    return True


# the awaiter itself is cancelled; signals which arrive afterwards are ignored
async def impl_awaiter_cancelled(x: Any, y: Any):
    b = Box()

    def cb(done: Any, error: Any, cancel: Any):
        b.done = done
        b.error = error
        b.cancel = cancel

    async def waiter():
        b.got = await aiotools.from_continuations(cb)
    t = asyncio.create_task(waiter())
    run_loop()
    t.cancel()
    b.done(x)
    b.error(ValueError(y))
    b.cancel(y)
    run_loop()
    return t.cancelled()


async def spec_awaiter_cancelled(x: Any, y: Any):
    return True


# ---------------------------------------------------------------- start, start_immediate
# the computation runs once; it is kept while it is pending and released when it ends
async def impl_start_runs(f: AFn[Any], x: Any):
    aiotools.start(f(x))
    run_loop()
    return None


async def impl_start_runs__immediate(f: AFn[Any], x: Any):
    aiotools.start_immediate(f(x))
    run_loop()
    return None


async def spec_start_runs(f: AFn[Any], x: Any):
    c = f(x)
    try:
        await c
    except BaseException:
        pass
    return None


def starter(start: Any, token: Any):
    """start a computation which waits for a future; the handle on it"""
    b = Box()
    b.fut = asyncio.Future()
    b.steps = []

    async def comp():
        b.me = asyncio.current_task()
        b.steps.append(1)
        r = await b.fut
        b.steps.append(2)
        return r
    if token is None:
        start(comp())
    else:
        start(comp(), token)
    return b


async def impl_start_kept(x: Any):
    b = starter(aiotools.start, None)
    run_loop()
    kept = retained(b.me)
    b.fut.set_result(x)
    run_loop()
    return kept, retained(b.me), b.me.result(), b.steps


async def impl_start_kept__immediate(x: Any):
    b = starter(aiotools.start_immediate, None)
    run_loop()
    kept = retained(b.me)
    b.fut.set_result(x)
    run_loop()
    return kept, retained(b.me), b.me.result(), b.steps


async def spec_start_kept(x: Any):
    return True, False, x, [1, 2]


async def impl_start_failed(x: Any):
    b = starter(aiotools.start, None)
    run_loop()
    kept = retained(b.me)
    b.fut.set_exception(ValueError(x))
    run_loop()
    return kept, retained(b.me), b.me.done(), b.steps


async def impl_start_failed__immediate(x: Any):
    b = starter(aiotools.start_immediate, None)
    run_loop()
    kept = retained(b.me)
    b.fut.set_exception(ValueError(x))
    run_loop()
    return kept, retained(b.me), b.me.done(), b.steps


async def spec_start_failed(x: Any):
    return True, False, True, [1]


async def impl_start_cancelled():
    s = CancellationTokenSource()
    b = starter(aiotools.start, s.token)
    run_loop()
    kept = retained(b.me)
    s.cancel()
    run_loop()
    return kept, retained(b.me), b.me.cancelled(), b.fut.cancelled(), b.steps


async def impl_start_cancelled__immediate():
    s = CancellationTokenSource()
    b = starter(aiotools.start_immediate, s.token)
    run_loop()
    kept = retained(b.me)
    s.cancel()
    run_loop()
    return kept, retained(b.me), b.me.cancelled(), b.fut.cancelled(), b.steps


async def spec_start_cancelled():
    return True, False, True, True, [1]


# kept from the start, before the loop has run at all; cancelled before the first step: never runs, and is released
async def impl_start_cancelled_early():
    s = CancellationTokenSource()
    b = starter(aiotools.start, s.token)
    kept = tasks_retained()
    s.cancel()
    run_loop()
    return kept, tasks_retained(), b.steps


async def impl_start_cancelled_early__immediate():
    s = CancellationTokenSource()
    b = starter(aiotools.start_immediate, s.token)
    kept = tasks_retained()
    s.cancel()
    run_loop()
    return kept, tasks_retained(), b.steps


async def spec_start_cancelled_early():
    return 1, 0, []


# the token cancels its own computation and no other
async def impl_start_own_token(x: Any):
    s = CancellationTokenSource()
    t = CancellationTokenSource()
    b = starter(aiotools.start, s.token)
    c = starter(aiotools.start, t.token)
    d = starter(aiotools.start, None)
    run_loop()
    n = tasks_retained()
    s.cancel()
    run_loop()
    m = tasks_retained()
    c.fut.set_result(x)
    d.fut.set_result(x)
    run_loop()
    return n, m, tasks_retained(), b.me.cancelled(), c.me.result(), d.me.result(), b.steps, c.steps, d.steps


async def impl_start_own_token__immediate(x: Any):
    s = CancellationTokenSource()
    t = CancellationTokenSource()
    b = starter(aiotools.start_immediate, s.token)
    c = starter(aiotools.start_immediate, t.token)
    d = starter(aiotools.start_immediate, None)
    run_loop()
    n = tasks_retained()
    s.cancel()
    run_loop()
    m = tasks_retained()
    c.fut.set_result(x)
    d.fut.set_result(x)
    run_loop()
    return n, m, tasks_retained(), b.me.cancelled(), c.me.result(), d.me.result(), b.steps, c.steps, d.steps


async def spec_start_own_token(x: Any):
    return 3, 2, 0, True, x, x, [1], [1, 2], [1, 2]


# one token for two computations cancels both
async def impl_start_shared_token(x: Any):
    s = CancellationTokenSource()
    b = starter(aiotools.start, s.token)
    c = starter(aiotools.start_immediate, s.token)
    run_loop()
    s.cancel()
    run_loop()
    return tasks_retained(), b.me.cancelled(), c.me.cancelled(), b.steps, c.steps


async def spec_start_shared_token(x: Any):
    return 0, True, True, [1], [1]


# cancelling after the end changes nothing
async def impl_start_cancel_late(x: Any):
    s = CancellationTokenSource()
    b = starter(aiotools.start, s.token)
    run_loop()
    b.fut.set_result(x)
    run_loop()
    s.cancel()
    run_loop()
    return tasks_retained(), b.me.result(), b.steps


async def impl_start_cancel_late__immediate(x: Any):
    s = CancellationTokenSource()
    b = starter(aiotools.start_immediate, s.token)
    run_loop()
    b.fut.set_result(x)
    run_loop()
    s.cancel()
    run_loop()
    return tasks_retained(), b.me.result(), b.steps


async def spec_start_cancel_late(x: Any):
    return 0, x, [1, 2]


# start does not wait, and returns nothing
async def impl_start_returns(f: AFn[Any], x: Any):
    return aiotools.start(f(x))


async def impl_start_returns__immediate(f: AFn[Any], x: Any):
    return aiotools.start_immediate(f(x))


async def spec_start_returns(f: AFn[Any], x: Any):
    f(x)
    return None


# ---------------------------------------------------------------- the others
def impl_run_synchronously(f: AFn[Any], x: Any):
    return aiotools.run_synchronously(f(x))


async def spec_run_synchronously(f: AFn[Any], x: Any):
    c = f(x)
    try:
        return await c
    except asyncio.CancelledError:
        raise asyncio.CancelledError()


async def impl_singleton(x: Any):
    return await aiotools.singleton(x)


async def impl_singleton__from_result(x: Any):
    return await aiotools.from_result(x)


async def spec_singleton(x: Any):
    return x


async def impl_empty():
    return await aiotools.empty()


async def spec_empty():
    return None


async def impl_sleep(n: int):
    return await aiotools.sleep(n)


async def spec_sleep(n: int):
    await asyncio.sleep(n / 1000.0)
    return None


# a token which cannot be cancelled is as good as none
async def impl_start_none_token(x: Any):
    b = starter(aiotools.start, CancellationToken.none())
    c = starter(aiotools.start_immediate, CancellationToken.none())
    run_loop()
    b.fut.set_result(x)
    c.fut.set_result(x)
    run_loop()
    return tasks_retained(), b.me.result(), c.me.result()


async def spec_start_none_token(x: Any):
    return 0, x, x
