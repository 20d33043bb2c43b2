"""Vocabulary of the specification fragments (parsed, never executed by the checks)."""
from typing import Any, Awaitable, Callable, Generic, Iterable, AsyncIterable, TypeVar

R = TypeVar("R")


class Fn(Generic[R]):
    pass


class AFn(Generic[R]):
    pass


class Iter(Generic[R]):
    pass


class AIter(Generic[R]):
    pass


class Aw(Generic[R]):
    pass


class Unreachable(Exception):
    pass


def sealed(x):
    return x


def assume(condition):
    """only paths on which the condition is true"""


def opaque(name, type_, *args):
    """an uninterpreted function of the arguments"""


def define(name, value, *args):
    """the value of opaque(name, _, *args)"""


def defined(name, *args):
    """has opaque(name, _, *args) been given a value?"""


def shape_known(t, cls=None):
    """is the shape of t determined by the path?"""


def known_nonempty(xs):
    """is the tuple written with a first element?"""


def is_opaque(x):
    """is the value an arbitrary one (the result of a contract)?"""


def known_empty(xs):
    """does the path determine that the tuple has no elements?"""


def require(condition):
    """the obligation applies only to code of this form (otherwise it is undecided)"""


def known_zero(n):
    """does the path determine that the number is zero (given that it is not negative)?"""


def concurrently(body, other):
    """run body() while other() runs as another thread or task at an arbitrary moment; the result of body()"""


def interleaved(body, other):
    """as concurrently, for tasks of one event loop: other() runs at a suspension point"""


def elsewhere(body):
    """run body() to its end in another thread, while the event loop has nothing to do; the result of body()"""


def lock_held():
    """does the current thread hold a lock?"""


def retained(x):
    """is the object reachable from the library's module level?"""


def run_loop():
    """let the event loop run until nothing is ready"""


def tasks_retained():
    """the number of tasks reachable from the library's module level"""
