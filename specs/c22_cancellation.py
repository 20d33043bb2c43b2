"""Cancellation: every registered listener is told once; nothing is lost or told twice."""
from typing import Any

from expression.system import CancellationToken, CancellationTokenSource
from expression.system.error import ObjectDisposedException

from .lib import Fn, concurrently, lock_held

LIVE = True


def quiet(f):
    try:
        f()
    except Exception:
        pass


# ---------------------------------------------------------------- notification
def impl_cancel(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    t = s.token
    t.register(f)
    t.register(g)
    t.register(h)
    s.cancel()
    s.cancel()
    s.dispose()


def impl_cancel__dispose(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    s.token.register(f)
    s.token.register(g)
    s.token.register(h)
    s.dispose()
    s.cancel()


def impl_cancel__with(f: Fn[None], g: Fn[None], h: Fn[None]):
    with CancellationTokenSource() as s:
        s.token.register(f)
        s.token.register(g)
        s.token.register(h)


def spec_cancel(f: Fn[None], g: Fn[None], h: Fn[None]):
    quiet(f)
    quiet(g)
    quiet(h)


def spec_cancel__backwards(f: Fn[None], g: Fn[None], h: Fn[None]):
    quiet(h)
    quiet(g)
    quiet(f)


def impl_sameListenerTwice(f: Fn[None]):
    s = CancellationTokenSource()
    s.token.register(f)
    s.token.register(f)
    s.cancel()


def spec_sameListenerTwice(f: Fn[None]):
    quiet(f)
    quiet(f)


def impl_nothingRegistered(g: Fn[Any]):
    s = CancellationTokenSource()
    s.cancel()
    return g(s.is_cancellation_requested)


def spec_nothingRegistered(g: Fn[Any]):
    return g(True)


def impl_withRaises(f: Fn[None], x: Any):
    with CancellationTokenSource() as s:
        s.token.register(f)
        raise KeyError(x)


def spec_withRaises(f: Fn[None], x: Any):
    quiet(f)
    raise KeyError(x)


def impl_enterCancelled(g: Fn[Any]):
    s = CancellationTokenSource()
    s.cancel()
    with s:
        g()


def spec_enterCancelled(g: Fn[Any]):
    raise ObjectDisposedException()


# ---------------------------------------------------------------- what a token says
def impl_state(f: Fn[Any]):
    s = CancellationTokenSource()
    t = s.token
    f(s.is_cancellation_requested, t.is_cancellation_requested, t.can_be_canceled)
    s.cancel()
    f(s.is_cancellation_requested, t.is_cancellation_requested, s.token.is_cancellation_requested)
    f(t.can_be_canceled)


def spec_state(f: Fn[Any]):
    f(False, False, True)
    f(True, True, True)
    f(True)


def impl_stateWhileNotified(f: Fn[Any]):
    s = CancellationTokenSource()
    t = s.token
    t.register(lambda: f(s.is_cancellation_requested, t.is_cancellation_requested))
    s.cancel()


def spec_stateWhileNotified(f: Fn[Any]):
    quiet(lambda: f(True, True))


def impl_registrationIsNoCancellation(f: Fn[Any], g: Fn[None]):
    s = CancellationTokenSource()
    r = s.token.register(g)
    f(s.token.is_cancellation_requested)
    r.dispose()
    return f(s.token.is_cancellation_requested)


def spec_registrationIsNoCancellation(f: Fn[Any], g: Fn[None]):
    f(False)
    return f(False)


def impl_throw(f: Fn[Any]):
    s = CancellationTokenSource()
    s.token.throw_if_cancellation_requested()
    f()
    s.cancel()
    s.token.throw_if_cancellation_requested()
    f()


def spec_throw(f: Fn[Any]):
    f()
    raise ObjectDisposedException()


def impl_none():
    t = CancellationToken.none()
    t.throw_if_cancellation_requested()
    return t.is_cancellation_requested, t.can_be_canceled


def spec_none():
    return False, False


def impl_independent(f: Fn[None], g: Fn[None], h: Fn[Any]):
    a = CancellationTokenSource()
    b = CancellationTokenSource()
    a.token.register(f)
    b.token.register(g)
    a.cancel()
    return h(a.token.is_cancellation_requested, b.token.is_cancellation_requested)


def spec_independent(f: Fn[None], g: Fn[None], h: Fn[Any]):
    quiet(f)
    return h(True, False)


def impl_cancelledSource(h: Fn[Any]):
    a = CancellationTokenSource.cancelled_source()
    b = CancellationTokenSource()
    return h(a.is_cancellation_requested, a.token.is_cancellation_requested, b.is_cancellation_requested)


def spec_cancelledSource(h: Fn[Any]):
    return h(True, True, False)


# ---------------------------------------------------------------- registering and unregistering
def impl_unregisterFirst(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    a = s.token.register(f)
    s.token.register(g)
    s.token.register(h)
    a.dispose()
    a.dispose()
    s.cancel()


def impl_unregisterFirst__middle(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    s.token.register(g)
    a = s.token.register(f)
    s.token.register(h)
    a.dispose()
    s.cancel()


def impl_unregisterFirst__last(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    s.token.register(g)
    s.token.register(h)
    a = s.token.register(f)
    a.dispose()
    s.cancel()


def impl_unregisterFirst__between(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    a = s.token.register(f)
    s.token.register(g)
    a.dispose()
    s.token.register(h)
    a.dispose()
    s.cancel()


def impl_unregisterFirst__with(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    with s.token.register(f):
        s.token.register(g)
    s.token.register(h)
    s.cancel()


def spec_unregisterFirst(f: Fn[None], g: Fn[None], h: Fn[None]):
    quiet(g)
    quiet(h)


def spec_unregisterFirst__backwards(f: Fn[None], g: Fn[None], h: Fn[None]):
    quiet(h)
    quiet(g)


def impl_unregisterTwo(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    a = s.token.register(f)
    b = s.token.register(g)
    a.dispose()
    c = s.token.register(h)
    b.dispose()
    s.cancel()


def spec_unregisterTwo(f: Fn[None], g: Fn[None], h: Fn[None]):
    quiet(h)


def impl_unregisterNewest(f: Fn[None], g: Fn[None], h: Fn[None]):
    s = CancellationTokenSource()
    a = s.token.register(f)
    b = s.token.register(g)
    a.dispose()
    c = s.token.register(h)
    c.dispose()
    s.cancel()


def spec_unregisterNewest(f: Fn[None], g: Fn[None], h: Fn[None]):
    quiet(g)


def impl_unregisterOneOfSame(f: Fn[None]):
    s = CancellationTokenSource()
    a = s.token.register(f)
    s.token.register(f)
    a.dispose()
    s.cancel()


def spec_unregisterOneOfSame(f: Fn[None]):
    quiet(f)


def impl_unregisterAll(f: Fn[None], g: Fn[None], h: Fn[Any]):
    s = CancellationTokenSource()
    a = s.token.register(f)
    b = s.token.register(g)
    b.dispose()
    a.dispose()
    s.cancel()
    return h(s.is_cancellation_requested)


def spec_unregisterAll(f: Fn[None], g: Fn[None], h: Fn[Any]):
    return h(True)


def impl_unregisterAfterCancel(f: Fn[None], h: Fn[Any]):
    s = CancellationTokenSource()
    a = s.token.register(f)
    s.cancel()
    a.dispose()
    a.dispose()
    s.cancel()
    return h(s.is_cancellation_requested)


def spec_unregisterAfterCancel(f: Fn[None], h: Fn[Any]):
    quiet(f)
    return h(True)


def impl_registerRefused(f: Fn[None]):
    s = CancellationTokenSource()
    s.cancel()
    s.token.register(f)


def impl_registerRefused__old(f: Fn[None]):
    s = CancellationTokenSource()
    t = s.token
    s.dispose()
    t.register(f)


def impl_registerRefused__source(f: Fn[None]):
    CancellationTokenSource.cancelled_source().token.register(f)


def spec_registerRefused(f: Fn[None]):
    raise ObjectDisposedException()


# ---------------------------------------------------------------- listeners that use the source
def impl_outsideLock(f: Fn[Any]):
    s = CancellationTokenSource()
    s.token.register(lambda: f(lock_held()))
    s.cancel()


def spec_outsideLock(f: Fn[Any]):
    quiet(lambda: f(False))


def impl_cancelFromListener(f: Fn[None], g: Fn[None]):
    s = CancellationTokenSource()

    def again():
        s.cancel()
        f()

    s.token.register(again)
    s.token.register(g)
    s.cancel()


def spec_cancelFromListener(f: Fn[None], g: Fn[None]):
    quiet(f)
    quiet(g)


def spec_cancelFromListener__backwards(f: Fn[None], g: Fn[None]):
    quiet(g)
    quiet(f)


def impl_registerFromListener(f: Fn[None], g: Fn[None], h: Fn[Any]):
    s = CancellationTokenSource()

    def more():
        try:
            s.token.register(f)
        except ObjectDisposedException:
            h("refused")

    s.token.register(more)
    s.token.register(g)
    s.cancel()


def spec_registerFromListener(f: Fn[None], g: Fn[None], h: Fn[Any]):
    quiet(lambda: h("refused"))
    quiet(g)


def spec_registerFromListener__backwards(f: Fn[None], g: Fn[None], h: Fn[Any]):
    quiet(g)
    quiet(lambda: h("refused"))


def impl_unregisterSelf(f: Fn[None], g: Fn[None], h: Fn[Any]):
    s = CancellationTokenSource()
    box = []

    def once():
        box[0].dispose()
        f()

    box.append(s.token.register(once))
    s.token.register(g)
    s.cancel()
    h()


def spec_unregisterSelf(f: Fn[None], g: Fn[None], h: Fn[Any]):
    quiet(f)
    quiet(g)
    h()


def spec_unregisterSelf__backwards(f: Fn[None], g: Fn[None], h: Fn[Any]):
    quiet(g)
    quiet(f)
    h()


# ---------------------------------------------------------------- other threads
def impl_raceCancelCancel(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    s.token.register(lambda: calls.append(1))
    concurrently(lambda: s.cancel(), lambda: s.cancel())
    return f(len(calls))


def spec_raceCancelCancel(f: Fn[Any]):
    return f(1)


def impl_raceRegisterCancel(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []

    def join():
        try:
            s.token.register(lambda: calls.append(1))
        except ObjectDisposedException:
            calls.append(1)

    concurrently(join, lambda: s.cancel())
    return f(len(calls))


def impl_raceRegisterCancel__swapped(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []

    def join():
        try:
            s.token.register(lambda: calls.append(1))
        except ObjectDisposedException:
            calls.append(1)

    concurrently(lambda: s.cancel(), join)
    return f(len(calls))


def spec_raceRegisterCancel(f: Fn[Any]):
    return f(1)


def impl_raceOthersNotified(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    s.token.register(lambda: calls.append(1))

    def join():
        try:
            s.token.register(lambda: None)
        except ObjectDisposedException:
            pass

    concurrently(join, lambda: s.cancel())
    return f(len(calls))


def impl_raceOthersNotified__swapped(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    s.token.register(lambda: calls.append(1))

    def join():
        try:
            s.token.register(lambda: None)
        except ObjectDisposedException:
            pass

    concurrently(lambda: s.cancel(), join)
    return f(len(calls))


def impl_raceOthersNotified__unregister(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    a = s.token.register(lambda: None)
    s.token.register(lambda: calls.append(1))
    concurrently(lambda: s.cancel(), lambda: a.dispose())
    return f(len(calls))


def impl_raceOthersNotified__unregisterSwapped(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    a = s.token.register(lambda: None)
    s.token.register(lambda: calls.append(1))
    concurrently(lambda: a.dispose(), lambda: s.cancel())
    return f(len(calls))


def spec_raceOthersNotified(f: Fn[Any]):
    return f(1)


def impl_raceRegisterRegister(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    concurrently(lambda: s.token.register(lambda: calls.append(1)), lambda: s.token.register(lambda: calls.append(1)))
    s.cancel()
    return f(len(calls))


def spec_raceRegisterRegister(f: Fn[Any]):
    return f(2)


def impl_raceUnregisterRegister(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    a = s.token.register(lambda: None)
    concurrently(lambda: s.token.register(lambda: calls.append(1)), lambda: a.dispose())
    s.cancel()
    return f(len(calls))


def impl_raceUnregisterRegister__swapped(f: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    a = s.token.register(lambda: None)
    concurrently(lambda: a.dispose(), lambda: s.token.register(lambda: calls.append(1)))
    s.cancel()
    return f(len(calls))


def spec_raceUnregisterRegister(f: Fn[Any]):
    return f(1)


def impl_raceUnregisterUnregister(f: Fn[None], g: Fn[Any]):
    s = CancellationTokenSource()
    calls = []
    a = s.token.register(f)
    s.token.register(lambda: calls.append(1))
    concurrently(lambda: a.dispose(), lambda: a.dispose())
    s.cancel()
    return g(len(calls))


def spec_raceUnregisterUnregister(f: Fn[None], g: Fn[Any]):
    return g(1)


def impl_raceStatus(f: Fn[Any]):
    s = CancellationTokenSource()
    seen = []
    s.token.register(lambda: seen.append(s.is_cancellation_requested))
    concurrently(lambda: s.cancel(), lambda: s.token.is_cancellation_requested)
    return f(seen[0], s.is_cancellation_requested)


def spec_raceStatus(f: Fn[Any]):
    return f(True, True)


# a token which cannot be cancelled takes listeners and never runs them
def impl_noneRegister(f: Fn[None], g: Fn[Any]):
    t = CancellationToken.none()
    r = t.register(f)
    g(t.is_cancellation_requested)
    r.dispose()
    return g(t.is_cancellation_requested, t.can_be_canceled)


def impl_noneRegister__with(f: Fn[None], g: Fn[Any]):
    t = CancellationToken.none()
    with t.register(f):
        g(t.is_cancellation_requested)
    return g(t.is_cancellation_requested, t.can_be_canceled)


def spec_noneRegister(f: Fn[None], g: Fn[Any]):
    g(False)
    return g(False, False)
