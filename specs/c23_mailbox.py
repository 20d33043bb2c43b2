"""Mailboxes: every message is handed over exactly once and in order of arrival; replies complete their poster."""
import asyncio
from typing import Any

from expression.core.mailbox import AsyncReplyChannel, MailboxProcessor
from expression.system import CancellationTokenSource

from .lib import AFn, Fn, assume, concurrently, elsewhere, run_loop

GLOBALS = True
LIVE = True


def collector():
    """a body which receives three messages"""
    got = []

    async def body(inbox: Any):
        got.append(await inbox.receive())
        got.append(await inbox.receive())
        got.append(await inbox.receive())
    return got, body


# ---------------------------------------------------------------- order of arrival
async def impl_posted_before(x: Any, y: Any, z: Any):
    got, body = collector()
    m = MailboxProcessor.start(body)
    m.post(x)
    m.post(y)
    m.post(z)
    run_loop()
    return got


async def impl_posted_before__waiting(x: Any, y: Any, z: Any):
    got, body = collector()
    m = MailboxProcessor.start(body)
    run_loop()
    m.post(x)
    m.post(y)
    m.post(z)
    run_loop()
    return got


async def impl_posted_before__apart(x: Any, y: Any, z: Any):
    got, body = collector()
    m = MailboxProcessor.start(body)
    run_loop()
    m.post(x)
    run_loop()
    m.post(y)
    run_loop()
    m.post(z)
    run_loop()
    return got


async def impl_posted_before__mixed(x: Any, y: Any, z: Any):
    got, body = collector()
    m = MailboxProcessor.start(body)
    m.post(x)
    m.post(y)
    run_loop()
    m.post(z)
    run_loop()
    return got


async def spec_posted_before(x: Any, y: Any, z: Any):
    return [x, y, z]


# the body posts to itself while it handles a message; nothing is handed over twice
async def impl_posted_by_body(x: Any, y: Any, z: Any):
    got = []

    async def body(inbox: Any):
        got.append(await inbox.receive())
        inbox.post(y)
        inbox.post(z)
        got.append(await inbox.receive())
        got.append(await inbox.receive())
        got.append(await inbox.receive())
    m = MailboxProcessor.start(body)
    m.post(x)
    run_loop()
    return got


async def spec_posted_by_body(x: Any, y: Any, z: Any):
    return [x, y, z]


# messages which arrive while the body is busy elsewhere wait for it
async def impl_busy(x: Any, y: Any, z: Any):
    got = []
    gate = asyncio.Future()

    async def body(inbox: Any):
        got.append(await inbox.receive())
        await gate
        got.append(await inbox.receive())
        got.append(await inbox.receive())
    m = MailboxProcessor.start(body)
    m.post(x)
    run_loop()
    m.post(y)
    run_loop()
    m.post(z)
    run_loop()
    before = list(got)
    gate.set_result(None)
    run_loop()
    return before, got


async def spec_busy(x: Any, y: Any, z: Any):
    return [x], [x, y, z]


# an arbitrary backlog is received from the front
async def impl_backlog(x: Any, y: Any, *zs: Any):
    m = MailboxProcessor(None)
    m.post(x)
    m.post(y)
    for z in zs:
        m.post(z)
    assume(len(zs) > 0)
    a = await m.receive()
    b = await m.receive()
    c = await m.receive()
    return a, b, c


async def spec_backlog(x: Any, y: Any, *zs: Any):
    assume(len(zs) > 0)
    return x, y, zs[0]


# ---------------------------------------------------------------- concurrency
# another thread posts at any moment: its message arrives exactly once, the others in their order
async def impl_posted_elsewhere():
    got, body = collector()
    m = MailboxProcessor.start(body)

    def main():
        m.post(1)
        m.post(2)
    concurrently(main, lambda: m.post(3))
    run_loop()
    return len(got), [g for g in got if g != 3]


async def spec_posted_elsewhere():
    return 3, [1, 2]


async def impl_posted_elsewhere_waiting():
    got, body = collector()
    m = MailboxProcessor.start(body)
    run_loop()

    def main():
        m.post(1)
        run_loop()
        m.post(2)
        run_loop()
    concurrently(main, lambda: m.post(3))
    run_loop()
    return len(got), [g for g in got if g != 3]


async def spec_posted_elsewhere_waiting():
    return 3, [1, 2]


async def impl_requested_elsewhere():
    got, body = collector()
    m = MailboxProcessor.start(body)
    run_loop()

    def main():
        m.post(1)
        run_loop()
        m.post(2)
        run_loop()
    concurrently(main, lambda: m.post_and_async_reply(lambda ch: 3))
    run_loop()
    return len(got), [g for g in got if g != 3]


async def spec_requested_elsewhere():
    return 3, [1, 2]


# ---------------------------------------------------------------- receiving twice at once
async def impl_receive_twice(x: Any):
    m = MailboxProcessor(None)
    a = asyncio.create_task(m.receive())
    b = asyncio.create_task(m.receive())
    run_loop()
    e = b.exception()
    m.post(x)
    run_loop()
    return e is not None, a.result()


async def spec_receive_twice(x: Any):
    return True, x


# ---------------------------------------------------------------- replies
async def impl_reply_now(x: Any, r: Any):
    got = []

    async def body(inbox: Any):
        msg, ch = await inbox.receive()
        got.append(msg)
        ch.reply(r)
    m = MailboxProcessor.start(body)
    a = await m.post_and_async_reply(lambda ch: (x, ch))
    return got, a


async def impl_reply_now__waiting(x: Any, r: Any):
    got = []

    async def body(inbox: Any):
        msg, ch = await inbox.receive()
        got.append(msg)
        ch.reply(r)
    m = MailboxProcessor.start(body)
    run_loop()
    a = await m.post_and_async_reply(lambda ch: (x, ch))
    return got, a


async def impl_reply_now__before_await(x: Any, r: Any):
    got = []

    async def body(inbox: Any):
        msg, ch = await inbox.receive()
        got.append(msg)
        ch.reply(r)
    m = MailboxProcessor.start(body)
    run_loop()
    w = m.post_and_async_reply(lambda ch: (x, ch))
    run_loop()
    a = await w
    return got, a


async def spec_reply_now(x: Any, r: Any):
    return [x], r


# the channel replies while the message is being built
async def impl_reply_at_once(r: Any):
    m = MailboxProcessor(None)

    def build(ch: Any):
        ch.reply(r)
        return ch
    return await m.post_and_async_reply(build)


async def spec_reply_at_once(r: Any):
    return r


# the first reply counts
async def impl_reply_twice(r: Any, s: Any):
    async def body(inbox: Any):
        ch = await inbox.receive()
        ch.reply(r)
        ch.reply(s)
    m = MailboxProcessor.start(body)
    return await m.post_and_async_reply(lambda ch: ch)


async def spec_reply_twice(r: Any, s: Any):
    return r


# each reply goes to its own poster, whatever the order of the replies
async def impl_replies(r: Any, s: Any):
    async def body(inbox: Any):
        a = await inbox.receive()
        b = await inbox.receive()
        b.reply(s)
        a.reply(r)
    m = MailboxProcessor.start(body)
    u = m.post_and_async_reply(lambda ch: ch)
    v = m.post_and_async_reply(lambda ch: ch)
    run_loop()
    return await u, await v


async def impl_replies__waiting(r: Any, s: Any):
    async def body(inbox: Any):
        a = await inbox.receive()
        b = await inbox.receive()
        b.reply(s)
        a.reply(r)
    m = MailboxProcessor.start(body)
    run_loop()
    u = m.post_and_async_reply(lambda ch: ch)
    run_loop()
    v = m.post_and_async_reply(lambda ch: ch)
    return await u, await v


async def spec_replies(r: Any, s: Any):
    return r, s


# posts and requests share one order of arrival
async def impl_request_order(x: Any, z: Any, r: Any):
    got = []

    async def body(inbox: Any):
        got.append(await inbox.receive())
        a, ch = await inbox.receive()
        got.append(a)
        got.append(await inbox.receive())
        ch.reply(r)
    m = MailboxProcessor.start(body)
    m.post(x)
    w = m.post_and_async_reply(lambda ch: (2, ch))
    m.post(z)
    return await w, got


async def impl_request_order__waiting(x: Any, z: Any, r: Any):
    got = []

    async def body(inbox: Any):
        got.append(await inbox.receive())
        a, ch = await inbox.receive()
        got.append(a)
        got.append(await inbox.receive())
        ch.reply(r)
    m = MailboxProcessor.start(body)
    run_loop()
    m.post(x)
    w = m.post_and_async_reply(lambda ch: (2, ch))
    m.post(z)
    return await w, got


async def spec_request_order(x: Any, z: Any, r: Any):
    return r, [x, 2, z]


# the message is built once, with a channel; an exception of the builder reaches the caller
async def impl_build_raises(f: Fn[Any]):
    m = MailboxProcessor(None)
    m.post_and_async_reply(lambda ch: f(1))
    return await m.receive()


async def spec_build_raises(f: Fn[Any]):
    return f(1)


# ---------------------------------------------------------------- cancellation
async def impl_cancelled(x: Any, y: Any):
    got, body = collector()
    s = CancellationTokenSource()
    m = MailboxProcessor.start(body, s.token)
    m.post(x)
    run_loop()
    s.cancel()
    run_loop()
    m.post(y)
    run_loop()
    return got


async def spec_cancelled(x: Any, y: Any):
    return [x]


# an abandoned wait takes no message
async def impl_abandoned(x: Any):
    m = MailboxProcessor(None)
    a = asyncio.create_task(m.receive())
    run_loop()
    a.cancel()
    run_loop()
    m.post(x)
    run_loop()
    return a.cancelled(), await m.receive()


async def spec_abandoned(x: Any):
    return True, x


# once the token is cancelled nothing more is handed over and a pending receive is cancelled
async def impl_token_cancelled(x: Any, y: Any):
    s = CancellationTokenSource()
    m = MailboxProcessor(s.token)
    m.post(x)
    first = await m.receive()
    a = asyncio.create_task(m.receive())
    run_loop()
    s.cancel()
    m.post(y)
    run_loop()
    return first, a.cancelled()


async def spec_token_cancelled(x: Any, y: Any):
    return x, True


async def impl_token_cancelled_before(x: Any):
    s = CancellationTokenSource()
    m = MailboxProcessor(s.token)
    m.post(x)
    s.cancel()
    a = asyncio.create_task(m.receive())
    run_loop()
    return a.cancelled()


async def spec_token_cancelled_before(x: Any):
    return True


async def impl_token_cancels_body(x: Any):
    gate = asyncio.Future()
    got = []
    s = CancellationTokenSource()

    async def body(inbox: Any):
        got.append(await inbox.receive())
        await gate
        got.append(2)
    m = MailboxProcessor.start(body, s.token)
    m.post(x)
    run_loop()
    s.cancel()
    run_loop()
    return got, gate.cancelled()


async def spec_token_cancels_body(x: Any):
    return [x], True


# an abandoned wait does not disturb one which began later
async def impl_abandoned_late(x: Any, y: Any):
    m = MailboxProcessor(None)
    a = asyncio.create_task(m.receive())
    run_loop()
    m.post(x)
    b = asyncio.create_task(m.receive())
    run_loop()
    a.cancel()
    run_loop()
    m.post(y)
    run_loop()
    return a.result(), b.result()


async def spec_abandoned_late(x: Any, y: Any):
    return x, y


# an abandoned wait does not disturb a later one, even when it is abandoned in the middle of a delivery
async def impl_abandoned_in_between(x: Any, y: Any):
    m = MailboxProcessor(None)
    a = asyncio.create_task(m.receive())
    run_loop()
    m.post(x)
    b = asyncio.create_task(m.receive())
    asyncio.get_running_loop().call_soon(lambda: a.cancel())
    run_loop()
    m.post(y)
    run_loop()
    return b.done(), b.result()


async def spec_abandoned_in_between(x: Any, y: Any):
    return True, y


# the event loop may run at any moment while another thread posts
async def impl_loop_while_posting(x: Any):
    got, body = collector()
    m = MailboxProcessor.start(body)
    run_loop()
    concurrently(lambda: m.post(x), run_loop)
    run_loop()
    return got


async def spec_loop_while_posting(x: Any):
    return [x]


async def impl_loop_while_requesting(x: Any):
    got, body = collector()
    m = MailboxProcessor.start(body)
    run_loop()
    concurrently(lambda: m.post_and_async_reply(lambda ch: x), run_loop)
    run_loop()
    return got


async def spec_loop_while_requesting(x: Any):
    return [x]


# a message from another thread wakes the event loop which waits for it
async def impl_wakes_the_loop(x: Any, y: Any, z: Any):
    got, body = collector()
    m = MailboxProcessor.start(body)
    run_loop()
    elsewhere(lambda: m.post(x))
    run_loop()
    elsewhere(lambda: m.post(y))
    run_loop()
    elsewhere(lambda: m.post(z))
    run_loop()
    return got


async def spec_wakes_the_loop(x: Any, y: Any, z: Any):
    return [x, y, z]


async def impl_wakes_the_loop_once(x: Any, y: Any):
    got, body = collector()
    m = MailboxProcessor.start(body)
    run_loop()

    def both():
        m.post(x)
        m.post(y)
    elsewhere(both)
    run_loop()
    return got


async def spec_wakes_the_loop_once(x: Any, y: Any):
    return [x, y]


# a mailbox whose token is cancelled lets nobody wait, also with nothing in the queue
async def impl_token_cancelled_empty():
    s = CancellationTokenSource()
    m = MailboxProcessor(s.token)
    s.cancel()
    a = asyncio.create_task(m.receive())
    run_loop()
    return a.cancelled()


async def spec_token_cancelled_empty():
    return True


# a body which survives the cancellation gets nothing more
async def impl_token_cancelled_again(x: Any):
    s = CancellationTokenSource()
    got = []

    async def body(inbox: Any):
        try:
            await inbox.receive()
        except asyncio.CancelledError:
            got.append(1)
        got.append(await inbox.receive())
    m = MailboxProcessor.start(body, s.token)
    run_loop()
    s.cancel()
    run_loop()
    m.post(x)
    run_loop()
    return got


async def spec_token_cancelled_again(x: Any):
    return [1]
