"""Reference models of standard library functions (analysed, never executed)."""
import asyncio
import queue


def builtins__map(f, xs, *rest):
    if rest:
        return sa_map_many(f, xs, *rest)
    return sa_map(f, xs)


def sa_map(f, xs):
    for x in xs:
        yield f(x)


def sa_map_many(f, *iters):
    for t in zip(*iters):
        yield f(*t)


def builtins__filter(f, xs):
    for x in xs:
        if f is None:
            if x:
                yield x
        elif f(x):
            yield x


def builtins__all(xs):
    for x in xs:
        if not x:
            return False
    return True


def builtins__any(xs):
    for x in xs:
        if x:
            return True
    return False


def builtins__sum(xs, start=0):
    acc = start
    for x in xs:
        acc = acc + x
    return acc


def builtins__enumerate(xs, start=0):
    n = start
    for x in xs:
        yield n, x
        n = n + 1


def functools__cache(f):
    known = []

    def cached(*args, **kw):
        for a, k, r in known:
            if a == args and k == kw:
                return r
        r = f(*args, **kw)
        known.append((args, kw, r))
        return r
    return cached


def functools__lru_cache(maxsize=128, typed=False):
    return functools__cache(maxsize) if callable(maxsize) else functools__cache


def functools__reduce(f, xs, *init):
    if init:
        acc = init[0]
        for x in xs:
            acc = f(acc, x)
        return acc
    it = iter(xs)
    try:
        acc = next(it)
    except StopIteration:
        raise TypeError("reduce() of empty iterable with no initial value")
    for x in it:
        acc = f(acc, x)
    return acc


def itertools__starmap(f, xs):
    for x in xs:
        yield f(*x)


def itertools__chain(*iters):
    for xs in iters:
        for x in xs:
            yield x


def itertools__chain__from_iterable(iters):
    for it in iters:
        for x in it:
            yield x


def itertools__islice(xs, *args):
    if len(args) == 1:
        if args[0] is not None and args[0] < 0:
            raise ValueError
        return sa_islice_to(xs, args[0])
    if len(args) == 2 and args[1] is None:
        if args[0] is not None and args[0] < 0:
            raise ValueError
        return sa_islice_from(xs, args[0])
    return sa_unknown("itertools.islice")


def sa_islice_to(xs, stop):
    if stop is None:
        for x in xs:
            yield x
    elif stop > 0:
        for i, x in enumerate(xs):
            yield x
            if i >= stop - 1:
                break


def sa_islice_from(xs, start):
    for i, x in enumerate(xs):
        if start is None or i >= start:
            yield x


def itertools__accumulate(xs, func=None, *, initial=None):
    if initial is not None:
        acc = initial
        yield acc
        for x in xs:
            acc = func(acc, x)
            yield acc
    else:
        first = True
        acc = None
        for x in xs:
            if first:
                first = False
                acc = x
            else:
                acc = func(acc, x)
            yield acc


def itertools__takewhile(p, xs):
    for x in xs:
        if not p(x):
            return
        yield x


def itertools__dropwhile(p, xs):
    dropping = True
    for x in xs:
        if dropping:
            if p(x):
                continue
            dropping = False
        yield x


def itertools__repeat(x, times=None):
    if times is None:
        while True:
            yield x
    else:
        for _ in range(times):
            yield x


def itertools__count(start=0, step=1):
    n = start
    while True:
        yield n
        n = n + step


def Mixin__items(self):
    return [(k, self[k]) for k in self]


def Mixin__keys(self):
    return [k for k in self]


def Mixin__values(self):
    return [self[k] for k in self]


def dataclasses__dataclass(_cls=None, **options):
    if _cls is None:
        return lambda c: c
    return _cls


def sa_acquired():
    pass


def sa_released():
    pass


def sa_point():
    pass


class contextlib__suppress:
    def __init__(self, *exceptions):
        self.exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, exctype, excinst, exctb):
        return excinst is not None and isinstance(excinst, self.exceptions)


class threading__RLock:
    def acquire(self, blocking=True, timeout=-1):
        sa_acquired()
        return True

    def release(self):
        sa_released()

    def __enter__(self):
        sa_acquired()
        return True

    def __exit__(self, t, v, tb):
        sa_released()


class threading__Lock:
    def acquire(self, blocking=True, timeout=-1):
        sa_acquired()
        return True

    def release(self):
        sa_released()

    def locked(self):
        return False

    def __enter__(self):
        sa_acquired()
        return True

    def __exit__(self, t, v, tb):
        sa_released()


class queue__SimpleQueue:
    def __init__(self):
        self.items = []

    def put(self, x, block=True, timeout=None):
        self.items.append(x)

    def put_nowait(self, x):
        self.items.append(x)

    def empty(self):
        return len(self.items) == 0

    def qsize(self):
        return len(self.items)

    def get_nowait(self):
        if len(self.items) == 0:
            raise queue.Empty()
        return self.items.pop(0)

    def get(self, block=True, timeout=None):
        if len(self.items) == 0:
            raise RuntimeError("get on an empty queue blocks for ever")
        return self.items.pop(0)


class queue__Queue(queue__SimpleQueue):
    def __init__(self, maxsize=0):
        self.items = []

    def task_done(self):
        pass


class queue__LifoQueue(queue__Queue):
    def get_nowait(self):
        if len(self.items) == 0:
            raise queue.Empty()
        return self.items.pop()

    def get(self, block=True, timeout=None):
        if len(self.items) == 0:
            raise RuntimeError("get on an empty queue blocks for ever")
        return self.items.pop()


# ------------------------------------------------------------------ event loop
def sa_loop():
    pass


def sa_wake(threadsafe):
    pass


def sa_spawn(task, coro):
    pass


def sa_step(task, throw):
    pass


class sa_Loop:
    def __init__(self):
        self.ready = []

    def call_soon(self, cb, *args, context=None):
        self.ready.append((cb, args))
        sa_wake(False)

    def call_soon_threadsafe(self, cb, *args, context=None):
        self.ready.append((cb, args))
        sa_wake(True)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio__Task(coro)

    def create_future(self):
        return asyncio__Future()

    def is_running(self):
        return True


def sa_current():
    pass


def asyncio__current_task(loop=None):
    return sa_current()


def asyncio__get_event_loop():
    return sa_loop()


def asyncio__get_running_loop():
    return sa_loop()


def asyncio__create_task(coro, *, name=None, context=None):
    return asyncio__Task(coro)


def asyncio__ensure_future(coro, *, loop=None):
    if isinstance(coro, asyncio__Future):
        return coro
    return asyncio__Task(coro)


def asyncio__run(coro, *, debug=None):
    task = asyncio__Task(coro)
    sa_drain()
    return task.result()


def sa_drain():
    pass


class asyncio__Future:
    def __init__(self, *, loop=None):
        self.state = "pending"
        self.value = None
        self.callbacks = []

    def get_loop(self):
        return sa_loop()

    def done(self):
        return self.state != "pending"

    def cancelled(self):
        return self.state == "cancelled"

    def sa_finish(self, state, value):
        self.state = state
        self.value = value
        callbacks = self.callbacks
        self.callbacks = []
        for cb in callbacks:
            sa_loop().call_soon(cb, self)

    def set_result(self, value):
        if self.state != "pending":
            raise asyncio.InvalidStateError()
        self.sa_finish("done", value)

    def set_exception(self, exn):
        if self.state != "pending":
            raise asyncio.InvalidStateError()
        self.sa_finish("failed", exn)

    def cancel(self, msg=None):
        if self.state != "pending":
            return False
        self.sa_finish("cancelled", None)
        return True

    def add_done_callback(self, cb, *, context=None):
        if self.state == "pending":
            self.callbacks.append(cb)
        else:
            sa_loop().call_soon(cb, self)

    def remove_done_callback(self, cb):
        keep = [c for c in self.callbacks if c is not cb]
        n = len(self.callbacks) - len(keep)
        self.callbacks = keep
        return n

    def result(self):
        if self.state == "cancelled":
            raise asyncio.CancelledError()
        if self.state == "pending":
            raise asyncio.InvalidStateError()
        if self.state == "failed":
            raise self.value
        return self.value

    def exception(self):
        if self.state == "cancelled":
            raise asyncio.CancelledError()
        if self.state == "pending":
            raise asyncio.InvalidStateError()
        if self.state == "failed":
            return self.value
        return None


class asyncio__Task(asyncio__Future):
    def __init__(self, coro):
        self.state = "pending"
        self.value = None
        self.callbacks = []
        self.waiting = None
        self.must_cancel = False
        sa_spawn(self, coro)
        sa_loop().call_soon(self.sa_run)

    def cancel(self, msg=None):
        if self.state != "pending":
            return False
        if self.waiting is not None:
            if self.waiting.cancel():
                return True
        self.must_cancel = True
        return True

    def sa_run(self, fut=None):
        if self.state != "pending":
            return
        throw = self.must_cancel
        self.must_cancel = False
        self.waiting = None
        how, v = sa_step(self, throw)
        if how == "wait":
            v.add_done_callback(self.sa_run)
            self.waiting = v
            if self.must_cancel:
                if v.cancel():
                    self.must_cancel = False
        elif how == "done":
            if self.must_cancel:
                self.sa_finish("cancelled", None)
            else:
                self.sa_finish("done", v)
        else:
            if isinstance(v, asyncio.CancelledError):
                self.sa_finish("cancelled", None)
            else:
                self.sa_finish("failed", v)


# ---------------------------------------------------------------- pydantic
# Schemas as pydantic-core validates data with them; ValueError and AssertionError mean "does not fit".
class sa_Alias:
    """a parametrised type such as Option[int]"""

    def __init__(self, origin, args):
        self.origin = origin
        self.args = args


def typing__get_origin(tp):
    if isinstance(tp, sa_Alias):
        return tp.origin
    return None


def typing__get_args(tp):
    if isinstance(tp, sa_Alias):
        return tp.args
    return ()


def typing_extensions__get_origin(tp):
    return typing__get_origin(tp)


def typing_extensions__get_args(tp):
    return typing__get_args(tp)


class pydantic_core__core_schema__any_schema:
    def __init__(self, **kw):
        pass

    def sa_validate(self, v, json):
        return v


class pydantic_core__core_schema__none_schema:
    def __init__(self, **kw):
        pass

    def sa_validate(self, v, json):
        if v is None:
            return None
        raise ValueError


class pydantic_core__core_schema__str_schema:
    def __init__(self, **kw):
        pass

    def sa_validate(self, v, json):
        if isinstance(v, str):
            return v
        raise ValueError


class pydantic_core__core_schema__is_instance_schema:
    def __init__(self, cls, **kw):
        self.cls = cls

    def sa_validate(self, v, json):
        if isinstance(v, self.cls):
            return v
        raise ValueError


class pydantic_core__core_schema__union_schema:
    def __init__(self, choices, **kw):
        self.choices = choices

    def sa_validate(self, v, json):
        for s in self.choices:
            try:
                return s.sa_validate(v, json)
            except (ValueError, AssertionError):
                pass
        raise ValueError


class pydantic_core__core_schema__chain_schema:
    def __init__(self, steps, **kw):
        self.steps = steps

    def sa_validate(self, v, json):
        for s in self.steps:
            v = s.sa_validate(v, json)
        return v


class pydantic_core__core_schema__no_info_wrap_validator_function:
    def __init__(self, function, schema, **kw):
        self.function = function
        self.schema = schema

    def sa_validate(self, v, json):
        return self.function(v, lambda x: self.schema.sa_validate(x, json))


class pydantic_core__core_schema__no_info_before_validator_function:
    def __init__(self, function, schema, **kw):
        self.function = function
        self.schema = schema

    def sa_validate(self, v, json):
        return self.schema.sa_validate(self.function(v), json)


class pydantic_core__core_schema__no_info_after_validator_function:
    def __init__(self, function, schema, **kw):
        self.function = function
        self.schema = schema

    def sa_validate(self, v, json):
        return self.function(self.schema.sa_validate(v, json))


class pydantic_core__core_schema__no_info_plain_validator_function:
    def __init__(self, function, **kw):
        self.function = function

    def sa_validate(self, v, json):
        return self.function(v)


class pydantic_core__core_schema__typed_dict_field:
    def __init__(self, schema, **kw):
        self.schema = schema


class pydantic_core__core_schema__typed_dict_schema:
    def __init__(self, fields, **kw):
        self.fields = fields

    def sa_validate(self, v, json):
        if not isinstance(v, dict):
            raise ValueError
        out = {}
        for name, field in self.fields.items():
            if name not in v:
                raise ValueError
            out[name] = field.schema.sa_validate(v[name], json)
        return out


class pydantic_core__core_schema__plain_serializer_function_ser_schema:
    def __init__(self, function, **kw):
        self.function = function


class pydantic_core__core_schema__json_or_python_schema:
    def __init__(self, json_schema, python_schema, serialization=None, **kw):
        self.json_schema = json_schema
        self.python_schema = python_schema
        self.serialization = serialization

    def sa_validate(self, v, json):
        if json:
            return self.json_schema.sa_validate(v, json)
        return self.python_schema.sa_validate(v, json)


class pydantic_core__core_schema__nullable_schema:
    def __init__(self, schema, **kw):
        self.schema = schema

    def sa_validate(self, v, json):
        if v is None:
            return None
        return self.schema.sa_validate(v, json)


class pydantic_core__core_schema__literal_schema:
    def __init__(self, expected, **kw):
        self.expected = expected

    def sa_validate(self, v, json):
        if v in self.expected:
            return v
        raise ValueError


class sa_RunsForEver(BaseException):
    """a loop that comes back to the state it was in"""
