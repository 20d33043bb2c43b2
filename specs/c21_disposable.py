"""Disposables: the action runs once, for the first disposal, whatever happens around it."""
from typing import Any

from expression.system import AsyncDisposable, Disposable
from expression.system.disposable import AnonymousDisposable, AsyncAnonymousDisposable, AsyncCompositeDisposable
from expression.system.error import ObjectDisposedException

from .lib import AFn, Fn, concurrently, interleaved, lock_held


# ---------------------------------------------------------------- synchronous
def impl_disposeOnce(f: Fn[None]):
    d = Disposable.create(f)
    d.dispose()
    d.dispose()
    d.dispose()


def spec_disposeOnce(f: Fn[None]):
    f()


def impl_disposeNever(f: Fn[None], g: Fn[Any]):
    Disposable.create(f)
    return g()


def spec_disposeNever(f: Fn[None], g: Fn[Any]):
    return g()


def impl_disposeRaising(f: Fn[None], g: Fn[Any]):
    d = Disposable.create(f)
    try:
        d.dispose()
    except ValueError as e:
        d.dispose()
        return g(e)
    d.dispose()


def spec_disposeRaising(f: Fn[None], g: Fn[Any]):
    try:
        f()
    except ValueError as e:
        return g(e)


def impl_disposeReentrant(f: Fn[None]):
    box = []

    def action():
        f()
        box[0].dispose()

    d = Disposable.create(action)
    box.append(d)
    d.dispose()


def spec_disposeReentrant(f: Fn[None]):
    f()


def impl_withBlock(f: Fn[None], g: Fn[Any]):
    with Disposable.create(f):
        r = g()
    return r


def spec_withBlock(f: Fn[None], g: Fn[Any]):
    try:
        r = g()
    finally:
        f()
    return r


def impl_withReturn(f: Fn[None], g: Fn[Any]):
    with Disposable.create(f):
        return g()


def spec_withReturn(f: Fn[None], g: Fn[Any]):
    try:
        return g()
    finally:
        f()


def impl_withRaises(f: Fn[None], x: Any):
    with Disposable.create(f):
        raise KeyError(x)


def spec_withRaises(f: Fn[None], x: Any):
    f()
    raise KeyError(x)


def impl_withThenDispose(f: Fn[None], g: Fn[Any]):
    d = Disposable.create(f)
    with d as e:
        g(e is d)
    d.dispose()
    d.dispose()


def spec_withThenDispose(f: Fn[None], g: Fn[Any]):
    try:
        g(True)
    finally:
        f()


def impl_disposeInsideWith(f: Fn[None], g: Fn[Any]):
    with Disposable.create(f) as d:
        d.dispose()
        g()


def spec_disposeInsideWith(f: Fn[None], g: Fn[Any]):
    f()
    g()


def impl_withNested(f: Fn[None], h: Fn[None], g: Fn[Any]):
    with Disposable.create(f), Disposable.create(h):
        g()


def spec_withNested(f: Fn[None], h: Fn[None], g: Fn[Any]):
    try:
        try:
            g()
        finally:
            h()
    finally:
        f()


def impl_enterDisposed(f: Fn[None], g: Fn[Any]):
    d = Disposable.create(f)
    d.dispose()
    with d:
        g()


def spec_enterDisposed(f: Fn[None], g: Fn[Any]):
    f()
    raise ObjectDisposedException()


def impl_enterAfterFailure(f: Fn[None], g: Fn[Any]):
    d = Disposable.create(f)
    try:
        d.dispose()
    except ValueError:
        with d:
            g()


def spec_enterAfterFailure(f: Fn[None], g: Fn[Any]):
    try:
        f()
    except ValueError:
        raise ObjectDisposedException()


def impl_independent(f: Fn[None], g: Fn[None]):
    a = Disposable.create(f)
    b = Disposable.create(g)
    a.dispose()
    b.dispose()
    a.dispose()


def spec_independent(f: Fn[None], g: Fn[None]):
    f()
    g()


def impl_sameAction(f: Fn[None]):
    a = Disposable.create(f)
    b = AnonymousDisposable(f)
    a.dispose()
    b.dispose()
    b.dispose()


def spec_sameAction(f: Fn[None]):
    f()
    f()


# a subclass that only provides dispose
class Counting(Disposable):
    def __init__(self, f):
        self.f = f

    def dispose(self):
        self.f()


def impl_subclassWith(f: Fn[None], g: Fn[Any]):
    d = Counting(f)
    with d as e:
        g(e is d)


def spec_subclassWith(f: Fn[None], g: Fn[Any]):
    try:
        g(True)
    finally:
        f()


# ---------------------------------------------------------------- other threads
def impl_disposeRace(f: Fn[None]):
    d = Disposable.create(f)
    concurrently(lambda: d.dispose(), lambda: d.dispose())


def spec_disposeRace(f: Fn[None]):
    f()


def impl_disposeRaceThenAgain(f: Fn[None]):
    d = Disposable.create(f)
    concurrently(lambda: d.dispose(), lambda: d.dispose())
    d.dispose()


def spec_disposeRaceThenAgain(f: Fn[None]):
    f()


# ---------------------------------------------------------------- asynchronous
async def impl_asyncOnce(f: AFn[None]):
    d = AsyncDisposable.create(f)
    await d.dispose_async()
    await d.dispose_async()


async def spec_asyncOnce(f: AFn[None]):
    await f()


async def impl_asyncRaising(f: AFn[None], g: Fn[Any]):
    d = AsyncDisposable.create(f)
    try:
        await d.dispose_async()
    except ValueError as e:
        await d.dispose_async()
        return g(e)
    await d.dispose_async()


async def spec_asyncRaising(f: AFn[None], g: Fn[Any]):
    try:
        await f()
    except ValueError as e:
        return g(e)


async def impl_asyncWith(f: AFn[None], g: AFn[Any]):
    async with AsyncDisposable.create(f):
        r = await g()
    return r


async def spec_asyncWith(f: AFn[None], g: AFn[Any]):
    try:
        r = await g()
    finally:
        await f()
    return r


async def impl_asyncWithRaises(f: AFn[None], x: Any):
    async with AsyncDisposable.create(f):
        raise KeyError(x)


async def spec_asyncWithRaises(f: AFn[None], x: Any):
    await f()
    raise KeyError(x)


async def impl_asyncWithThenDispose(f: AFn[None], g: AFn[Any]):
    d = AsyncDisposable.create(f)
    async with d as e:
        await g(e is d)
    await d.dispose_async()


async def spec_asyncWithThenDispose(f: AFn[None], g: AFn[Any]):
    try:
        await g(True)
    finally:
        await f()


async def impl_asyncEnterDisposed(f: AFn[None], g: AFn[Any]):
    d = AsyncDisposable.create(f)
    await d.dispose_async()
    async with d:
        await g()


async def spec_asyncEnterDisposed(f: AFn[None], g: AFn[Any]):
    await f()
    raise ObjectDisposedException()


async def impl_asyncRace(f: AFn[None]):
    d = AsyncDisposable.create(f)
    interleaved(lambda: d.dispose_async(), lambda: d.dispose_async())


async def spec_asyncRace(f: AFn[None]):
    await f()


async def impl_asyncComposite(f: AFn[None], g: AFn[None], h: AFn[None]):
    c = AsyncDisposable.composite(AsyncDisposable.create(f), AsyncDisposable.create(g), AsyncDisposable.create(h))
    await c.dispose_async()
    await c.dispose_async()


async def impl_asyncComposite__class(f: AFn[None], g: AFn[None], h: AFn[None]):
    c = AsyncCompositeDisposable(AsyncAnonymousDisposable(f), AsyncAnonymousDisposable(g), AsyncAnonymousDisposable(h))
    await c.dispose_async()


async def spec_asyncComposite(f: AFn[None], g: AFn[None], h: AFn[None]):
    await f()
    await g()
    await h()


async def impl_asyncCompositeShared(f: AFn[None], g: AFn[None]):
    a = AsyncDisposable.create(f)
    await a.dispose_async()
    await AsyncDisposable.composite(a, AsyncDisposable.create(g), a).dispose_async()


async def spec_asyncCompositeShared(f: AFn[None], g: AFn[None]):
    await f()
    await g()


async def impl_asyncCompositeMany(ds: tuple[AsyncDisposable, ...]):
    await AsyncDisposable.composite(*ds).dispose_async()


async def spec_asyncCompositeMany(ds: tuple[AsyncDisposable, ...]):
    for d in ds:
        await d.dispose_async()


async def impl_asyncCompositeEmpty():
    await AsyncDisposable.composite().dispose_async()


async def spec_asyncCompositeEmpty():
    return None


async def impl_asyncCompositeWith(f: AFn[None], g: AFn[None], h: AFn[Any]):
    c = AsyncDisposable.composite(AsyncDisposable.create(f), AsyncDisposable.create(g))
    async with c as e:
        await h(e is c)


async def spec_asyncCompositeWith(f: AFn[None], g: AFn[None], h: AFn[Any]):
    try:
        await h(True)
    finally:
        await f()
        await g()


async def impl_asyncEmpty():
    d = AsyncDisposable.empty()
    await d.dispose_async()
    await d.dispose_async()


async def spec_asyncEmpty():
    return None


# a composite which failed half way disposes the others when it is disposed again
async def impl_asyncCompositeRetry(f: AFn[None], g: AFn[None], h: AFn[None]):
    c = AsyncDisposable.composite(AsyncDisposable.create(f), AsyncDisposable.create(g), AsyncDisposable.create(h))
    try:
        await c.dispose_async()
    except ValueError:
        await c.dispose_async()


async def spec_asyncCompositeRetry(f: AFn[None], g: AFn[None], h: AFn[None]):
    n = 0
    try:
        await f()
        n = 1
        await g()
        n = 2
        await h()
    except ValueError:
        if n == 0:
            await g()
        if n < 2:
            await h()


# the action may wait for other threads which use the disposable
def impl_disposeOutsideLock(f: Fn[None]):
    Disposable.create(lambda: f(lock_held())).dispose()


def spec_disposeOutsideLock(f: Fn[None]):
    f(False)


async def impl_asyncEmptyAgain(g: AFn[Any]):
    await AsyncDisposable.empty().dispose_async()
    async with AsyncDisposable.empty():
        return await g()


async def spec_asyncEmptyAgain(g: AFn[Any]):
    return await g()
