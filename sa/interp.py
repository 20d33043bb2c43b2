"""Abstract interpreter (relational value-flow analysis with trace partitioning).

The analysed source is never executed.  Statements are transfer functions over an
abstract state (heap of provenance terms, partition facts, ordered effect trace).
Branches partition the trace on a finite set of facts (union tags, emptiness and
sign intervals of integer/ordering forms, predicate outcomes, exception classes).
Loops over unknown sources are not unrolled: a generic iteration is analysed from
a havocked loop-carried state until the set of carried locations is stable, and
the loop is kept as a summary (initial state, transfer cases, final state).
Anything outside the modelled language raises Imprecise, which makes the
obligation UNDECIDED - never a verdict.
"""
from __future__ import annotations

import ast
import threading
import builtins as _b
import collections.abc as _abc
import string as _string
from array import array as _array

from .terms import (LEN, lone, range_items, FALSE, FULL, K, NONE, S, TRUE, TY, elemtype, fn_ret, is_int, is_k, iv_inter, iv_not, length,
                    lin, lin_add, lin_mul, mk_lin, mk_tup, op, settype, show, typeof, walk)

NOTIMPL = ("bi", "builtins.NotImplemented")
OPTION = "expression.core.option.Option"
RESULT = "expression.core.result.Result"


SPEC_BUILTINS = {"specs.lib." + n for n in ("assume", "opaque", "shape_known", "define", "defined", "known_nonempty", "known_empty", "known_zero", "is_opaque", "require",
                                           "concurrently", "interleaved", "elsewhere", "lock_held", "retained", "tasks_retained")} | {"specs.lib.run_loop"} | {"models.stdlib.sa_spawn", "models.stdlib.sa_step", "models.stdlib.sa_loop", "models.stdlib.sa_current", "models.stdlib.sa_drain", "models.stdlib.sa_wake"} | {"models.stdlib.sa_acquired", "models.stdlib.sa_released", "models.stdlib.sa_point"}


BUILTIN_VALUES = {"dict", "set", "frozenset", "sorted", "sliceobj", "keys", "values", "items", "ItemsView", "range", "len", "bin", "str", "repr", "fstr", "hash", "id",
                  "index", "join", "neg", "invert", "zip", "pairwise", "enum", "int", "float", "reversed"}


class Imprecise(Exception):
    pass


class RecDetected(Exception):
    def __init__(self, fkey):
        self.fkey = fkey


class Sig(Exception):
    pass


class BreakSig(Sig):
    def __init__(self, tok):
        self.tok = tok


class ContSig(Sig):
    def __init__(self, tok):
        self.tok = tok


class RetSig(Sig):
    def __init__(self, act, v):
        self.act, self.v = act, v


class RaiseSig(Sig):
    def __init__(self, exn):
        self.exn = exn


class PullStop(Sig):
    """First element of a lazily evaluated producer was obtained."""

    def __init__(self, tok, v):
        self.tok, self.v = tok, v


class DivergeSig(Sig):
    """A loop without exit: nothing after it happens."""


class CutSig(Sig):
    """A size partition ends here: the behaviour beyond the bound is left to the fixpoint."""
    def __init__(self, n):
        self.n = n


class NoDrive(Exception):
    """the loop is not a pass over one iterator"""


class Infeasible(Sig):
    pass


class Rec:
    """A heap record."""
    __slots__ = ("kind", "f", "meta", "pre")

    def __init__(self, kind, f, meta=None, pre=False):
        self.kind, self.f, self.meta, self.pre = kind, f, meta, pre

    def copy(self):
        return Rec(self.kind, dict(self.f), self.meta, self.pre)


class State:
    __slots__ = ("heap", "facts", "refine", "events", "occ", "globals", "next", "over", "loops", "lastpos", "defs", "ghost")

    def __init__(self):
        self.heap, self.facts, self.refine = {}, {}, {}
        self.events, self.occ, self.globals = [], {}, {}
        self.next = 0
        self.over = {}
        self.defs = {}
        self.loops = {}
        self.lastpos = None
        self.ghost = {}

    def copy(self):
        s = State()
        s.heap = {k: r.copy() for k, r in self.heap.items()}
        s.facts = dict(self.facts)
        s.refine = dict(self.refine)
        s.events = list(self.events)
        s.occ = dict(self.occ)
        s.globals = dict(self.globals)
        s.next = self.next
        s.over = dict(self.over)
        s.defs = dict(self.defs)
        s.loops = dict(self.loops)
        s.lastpos = self.lastpos
        s.ghost = dict(self.ghost)
        return s


class Act:
    __slots__ = ("frame", "fi", "cls", "loops", "on_yield", "mod", "selfv", "exn")

    def __init__(self, frame, fi, cls, mod, on_yield=None, selfv=None):
        self.frame, self.fi, self.cls, self.mod = frame, fi, cls, mod
        self.loops = []
        self.on_yield = on_yield
        self.selfv = selfv
        self.exn = []


class Outcome:
    __slots__ = ("kind", "val", "st", "act", "sig")

    def __init__(self, kind, val, st, sig=None):
        self.kind, self.val, self.st, self.sig = kind, val, st, sig


def parse_str(s):
    return ast.parse(s, mode="eval").body


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.env = {}

    def annot(self, mod, n, depth=0):
        if n is None or depth > 12:
            return "any"
        if isinstance(n, ast.Constant):
            if isinstance(n.value, str):
                try:
                    return self.annot(mod, parse_str(n.value), depth + 1)
                except SyntaxError:
                    return "any"
            return "none" if n.value is None else "any"
        if isinstance(n, ast.BinOp):
            a, b = self.annot(mod, n.left, depth + 1), self.annot(mod, n.right, depth + 1)
            return a if a == b else "any"
        args = []
        base = n
        if isinstance(n, ast.Subscript):
            base = n.value
            args = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
        nm = base.id if isinstance(base, ast.Name) else (base.attr if isinstance(base, ast.Attribute) else "")
        sub = lambda i: self.annot(mod, args[i], depth + 1) if len(args) > i else "any"  # noqa: E731
        if nm in ("Fn",):
            return ("fn", sub(0))
        if nm in ("AFn",):
            return ("fn", ("aw", sub(0)))
        if nm in ("Iter", "Iterable", "Iterator", "Generator", "Collection", "Sequence", "MutableSequence"):
            return ("iter", sub(0))
        if nm in ("AIter", "AsyncIterable", "AsyncIterator", "AsyncGenerator"):
            return ("aiter", sub(0))
        if nm in ("Awaitable", "Aw"):
            return ("aw", sub(0))
        if nm in ("Any",):
            return "any"
        if nm == "Callable":
            return ("fn", self.annot(mod, args[1], depth + 1) if len(args) > 1 else "any")
        r = self.prog.resolve(mod, nm) if isinstance(base, ast.Name) else self.prog.resolve_expr(mod, base)
        if r is None or (r[0] == "ext" and r[1].startswith("builtins.")):
            if nm in ("int", "str", "bool", "float"):
                return nm
            if nm == "list":
                return ("list", sub(0))
            if nm in ("tuple", "Tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("seq", sub(0))
                if args and not any(isinstance(a, ast.Starred) for a in args) and "Unpack" not in ast.dump(n):
                    return ("tupN", tuple(self.annot(mod, a, depth + 1) for a in args))
                return "tuple"
            return "any"
        if r[0] == "class":
            u = self.prog.union_cases(r[1])
            if u:
                return ("u", r[1], sub(0), sub(1) if len(args) > 1 else ("any"))
            ps = tuple(sub(i) for i in range(len(args)))
            return ("cls", r[1], ps) if any(x != "any" for x in ps) else ("cls", r[1])
        if r[0] == "expr":
            if isinstance(base, ast.Name) and self.env and base.id in self.env:
                return self.env[base.id]
            return self.annot(r[1], r[2], depth + 1)
        return "any"

    def attr_type(self, ty, ci, name):
        """type of an annotated attribute of an instance of the class type ty"""
        self.env = {}
        if len(ty) > 2 and ci.qual == ty[1]:
            for b in ci.node.bases:
                if isinstance(b, ast.Subscript):
                    xs = b.slice.elts if isinstance(b.slice, ast.Tuple) else [b.slice]
                    names = [x.id for x in xs if isinstance(x, ast.Name)]
                    if len(names) == len(ty[2]):
                        self.env = dict(zip(names, ty[2]))
                        if isinstance(b.value, ast.Name) and b.value.id == "Generic":
                            break
        try:
            return self.annot(ci.mod, ci.annots[name])
        finally:
            self.env = {}


def tjoin(a, b):
    """join of types; None is the empty type"""
    if a is None or b is None:
        return b if a is None else a
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == "cls" and a[1] == b[1]:
            return a[:2]
        if a[0] == "u" and a[1] == b[1]:
            return a[:2] + tuple(tjoin(x, y) for x, y in zip(a[2:], b[2:]))
        if a[0] == "tupN" and len(a[1]) == len(b[1]):
            return ("tupN", tuple(tjoin(x, y) for x, y in zip(a[1], b[1])))
    return "any"


def tclose(t):
    if t is None:
        return "any"
    if isinstance(t, tuple) and t[0] == "u":
        return t[:2] + tuple(tclose(x) for x in t[2:])
    return t


EXN_BASE = {}


def builtin_exn(name):
    c = getattr(_b, name, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


class _Kill(BaseException):
    pass


WRITES = {"store", "setitem", "mutate", "delattr", "delitem"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "appendleft",
            "popleft", "discard", "__setitem__", "__delitem__", "__setattr__", "__delattr__", "__iadd__"}


class Coroutine:
    def __init__(self, I, coro):
        self.I, self.coro = I, coro
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.stack, self.try_depth = [], 1
        self.started = self.finished = self.dead = False
        self.throw = False
        self.out = None

    def main(self):
        self.go.acquire()
        try:
            if not self.dead:
                self.out = ("done", self.I.await_(self.coro))
        except RaiseSig as s:
            self.out = ("raised", s.exn)
        except _Kill:
            pass
        except BaseException as e:  # noqa: BLE001 - handed to the interpreting thread
            self.out = ("error", e)
        self.finished = True
        self.back.release()

    def resume(self, throw):
        self.throw = throw
        if not self.started:
            self.started = True
            old = threading.stack_size(256 * 1024 * 1024)
            self.thread = threading.Thread(target=self.main, daemon=True)
            self.thread.start()
            threading.stack_size(old)
        self.go.release()
        self.back.acquire()
        return self.out

    def suspend(self, fut):
        """(on the coroutine's thread) hand over until resumed; True when cancelled meanwhile"""
        self.stack, self.try_depth = self.I.stack, self.I.try_depth
        self.out = ("wait", fut)
        self.back.release()
        self.go.acquire()
        if self.dead:
            raise _Kill
        return self.throw

    def kill(self):
        if self.started and not self.finished:
            self.dead = True
            self.go.release()
            self.back.acquire()
            self.thread.join()


class Stepped(Coroutine):
    """a generator's activation that can be continued where it yielded"""

    def main(self):
        self.go.acquire()
        try:
            if not self.dead:
                self.out = ("done", self.I.run_stepped(self))
        except RaiseSig as s:
            self.out = ("raised", s.exn)
        except _Kill:
            pass
        except BaseException as e:  # noqa: BLE001 - handed to the interpreting thread
            self.out = ("error", e)
        self.finished = True
        self.back.release()


class Interp:
    def __init__(self, prog, side, opaque_rec=frozenset(), budget=400000):
        self.prog, self.side = prog, side
        self.types = Types(prog)
        self.st = State()
        self.path, self.widths, self.pos = [], [], 0
        self.opaque_rec = set(opaque_rec)
        self.stack = []
        self.try_depth = 0
        self.scope = None
        self.budget = budget
        self.visited = {}          # qualname -> number of abstract activations
        self.sites = set()
        self.fid = {}
        self.lazies = []           # snapshots of closures / lazy iterables
        self.contracts = {}         # functions replaced, in recursive and (unless entry) other calls, by a contract
        self.entry = True
        self.turns = 0              # turns of while-loops that are followed one by one
        self.deep = 3               # nested calls of one function before its recursion is summarised
        self.watch = None           # called when the shape of an arbitrary union value becomes known
        self.zone = False           # prune partitions by difference bounds while exploring
        self.effects = None         # collected writes to values of the caller
        self.rotated = {}
        self.globals_ok = False     # writes to the module-level state are part of the operation
        self.abstract = {}          # module globals replaced by an arbitrary value of their type
        self.force_set = set()      # recursive functions still to be unfolded once
        self.max_paths = 4000
        self.cases_analysed = 0
        self.loops_summarised = 0
        self.in_global = 0
        self.nesting = 0
        self.tasks = {}            # heap index of a task -> its coroutine activation
        self.task = None
        self.gens = {}             # heap index of a generator continued step by step -> its activation
        self.gen = None
        self.gen_steps = 0
        self.nexts = []            # iterators in the order in which they were asked for an element
        self.peel = None           # number of elements per source in size partitions (None: general)
        self.demand = False        # record pulls from input iterables (size partitions only)
        for nid, fi in prog.funcs.items():
            self.fid[self.key_of(fi)] = fi
        self._keys = {nid: self.key_of(fi) for nid, fi in prog.funcs.items()}

    @staticmethod
    def key_of(fi):
        return f"{fi.qual}:{fi.node.lineno}:{fi.node.col_offset}"

    # ------------------------------------------------------------ exploring
    def choose(self, n):
        if self.pos < len(self.path):
            c = self.path[self.pos]
        else:
            c = 0
            self.path.append(0)
        if self.pos < len(self.widths):
            self.widths[self.pos] = n
        else:
            self.widths.append(n)
        self.pos += 1
        return c

    def explore(self, thunk, st0):
        saved = (self.st, self.path, self.widths, self.pos, list(self.stack), self.try_depth, self.scope)
        force0 = set(self.force_set)
        results = []
        path = []
        self.nesting += 1
        try:
            while True:
                if self.nesting == 1:
                    self.end_tasks()
                self.st = st0.copy()
                self.path, self.widths, self.pos = path, [], 0
                self.stack, self.try_depth, self.scope = list(saved[4]), saved[5], saved[6]
                self.force_set = set(force0)
                try:
                    v = thunk()
                    results.append(Outcome("val", v, self.st))
                except Infeasible:
                    pass
                except RaiseSig as s:
                    results.append(Outcome("raise", s.exn, self.st, s))
                except Sig as s:
                    results.append(Outcome("sig", getattr(s, "v", None), self.st, s))
                if len(results) > self.max_paths:
                    raise Imprecise("too many partitions")
                path, widths = self.path[: self.pos], self.widths[: self.pos]
                while path and path[-1] + 1 >= widths[len(path) - 1]:
                    path.pop()
                if not path:
                    break
                path[-1] += 1
        finally:
            self.nesting -= 1
            if self.nesting == 0:
                self.end_tasks()
            (self.st, self.path, self.widths, self.pos, self.stack, self.try_depth, self.scope) = saved
        self.cases_analysed += len(results)
        return results

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Imprecise("analysis budget exhausted")

    # ------------------------------------------------------------ heap
    def new(self, kind, f, meta=None):
        i = self.st.next
        self.st.next += 1
        self.st.heap[i] = Rec(kind, f, meta, pre=self.in_global > 0)
        return ("ref", i)

    def rec(self, ref):
        return self.st.heap[ref[1]]

    def kind(self, v):
        return self.rec(v).kind if v[0] == "ref" else None

    def ty(self, t):
        r = self.st.refine.get(t)
        return r if r is not None else typeof(t)

    # ------------------------------------------------------------ facts
    def fork_atom(self, atom):
        """Boolean partition on an atom."""
        f = self.st.facts
        if atom in f:
            return f[atom]
        v = self.choose(2) == 0
        f[atom] = v
        return v

    def form(self, a, b):
        d = lin_add(lone(a), lone(b), -1)
        c, co = lin(d)
        if not co:
            return c, None, 1
        items = tuple(sorted(co.items(), key=repr))
        sgn = 1
        if items[0][1] < 0:
            sgn = -1
            items = tuple((x, -k) for x, k in items)
        return c, items, sgn

    @staticmethod
    def unscale(items, tset):
        """k*x in tset  as  x in tset'  (integers)"""
        if len(items) == 1 and items[0][1] > 1:
            k = items[0][1]
            new = tuple((None if lo is None else -(-lo // k), None if hi is None else hi // k) for lo, hi in tset)
            return ((items[0][0], 1),), tuple((lo, hi) for lo, hi in new if lo is None or hi is None or lo <= hi)
        return items, tset

    def implicit(self, items):
        if all(k > 0 and a[0] == "op" and a[1] == "len" for a, k in items):
            return ((0, None),)
        return FULL

    def test_lin(self, a, b, rel):
        """Truth of  a rel b  (rel in '<','<=','==') over integers / a total order."""
        c, items, sgn = self.form(a, b)
        if items is None:
            return {"<": c < 0, "<=": c <= 0, "==": c == 0}[rel]
        # sgn*x + c rel 0
        if rel == "==":
            tset = ((-c * sgn, -c * sgn),)
        else:
            hi = -c - 1 if rel == "<" else -c         # sgn*x <= hi
            tset = ((None, hi),) if sgn == 1 else ((-hi, None),)
        items, tset = self.unscale(items, tset)
        key = ("lin", items)
        cur = iv_inter(self.st.facts.get(key, FULL), self.implicit(items))
        t, f = iv_inter(cur, tset), iv_inter(cur, iv_not(tset))
        if not t:
            return False
        if not f:
            return True
        if self.zone:
            if not self.possible(key, t):
                self.st.facts[key] = f
                return False
            if not self.possible(key, f):
                self.st.facts[key] = t
                return True
        if self.choose(2) == 0:
            self.st.facts[key] = t
            return True
        self.st.facts[key] = f
        return False

    def sure(self, a, b, rel):
        """Does a rel b follow from what is known (no case distinction)?"""
        from .compare import Skip, consistent
        tests = [(a, b, "<", False)] if rel == ">=" else [(a, b, "<", False), (b, a, "<", False)]
        for x, y, r, want in tests:
            saved = self.st.facts
            self.st.facts = dict(saved)
            try:
                self.assume_lin(x, y, r, not want)
                consistent({k: v for k, v in self.st.facts.items() if k[0] == "lin"})
                return False
            except (Infeasible, Skip):
                pass
            finally:
                self.st.facts = saved
        return True

    def possible(self, key, iv):
        """Could the linear form have a value in iv, by the difference bounds of the path?"""
        from .compare import Skip, consistent
        d = {k: v for k, v in self.st.facts.items() if k[0] == "lin"}
        d[key] = iv
        try:
            consistent(d)
        except Skip:
            return False
        return True

    def assume_lin(self, a, b, rel, want=True):
        """Add the fact; raise Infeasible if contradictory."""
        c, items, sgn = self.form(a, b)
        if items is None:
            r = {"<": c < 0, "<=": c <= 0, "==": c == 0}[rel]
            if r != want:
                raise Infeasible
            return
        if rel == "==":
            tset = ((-c * sgn, -c * sgn),)
        else:
            hi = -c - 1 if rel == "<" else -c
            tset = ((None, hi),) if sgn == 1 else ((-hi, None),)
        items, tset = self.unscale(items, tset)
        if not want:
            tset = iv_not(tset)
        key = ("lin", items)
        cur = iv_inter(iv_inter(self.st.facts.get(key, FULL), self.implicit(items)), tset)
        if not cur:
            raise Infeasible
        self.st.facts[key] = cur

    def truthy(self, v):
        self.tick()
        k = v[0]
        if k == "k":
            return bool(v[2])
        if k == "tup":
            if not v[1]:
                return False
            if any(i[0] != "spl" for i in v[1]):
                return True
            return not self.test_lin(length(v), K(0), "==")
        if k in ("clo", "bound", "cls", "mod", "bi", "partial", "exn", "exsym"):
            return True
        if k == "un":
            for nm in ("__bool__", "__len__"):
                m = self.prog.find_method(v[1], nm)
                if m:
                    return self.truthy(self.call(self.getattr(v, nm), [], {}))
            return True
        if k == "ref":
            r = self.rec(v)
            if r.kind == "list":
                return self.truthy(("tup", r.f["items"]))
            if r.kind == "dict":
                return self.truthy(("tup", tuple(("spl", x[1]) if x[0] == "dspl" else x[1] for x in r.f["d"])))
            if r.kind == "obj":
                for nm in ("__bool__", "__len__"):
                    if self.prog.find_method(r.meta, nm):
                        return self.truthy(self.call(self.getattr(v, nm), [], {}))
                return True
            return True
        ty = self.ty(v)
        if self.demand and self.peel is not None and isinstance(ty, tuple) and ty[0] == "iter":
            raise Imprecise("emptiness of a source")
        if ty == "int" or ty == "bool":
            return not self.test_lin(v, K(0), "==") if ty == "int" else self.fork_atom(("truthy", v))
        if v[0] == "op" and v[1] == "fstr" and any(is_k(x) and x[2] for x in v[2:] if isinstance(x, tuple) and x):
            return True
        if ty in ("str", "tuple", "list") or (isinstance(ty, tuple) and ty[0] in ("list", "seq")):
            return not self.test_lin(length(v), K(0), "==")
        if isinstance(ty, tuple) and ty[0] == "tupN":
            return len(ty[1]) > 0
        if isinstance(ty, tuple) and ty[0] in ("u", "cls"):
            for nm in ("__bool__", "__len__"):
                if self.prog.find_method(ty[1], nm):
                    return self.truthy(self.call(self.getattr(v, nm), [], {}))
            return True
        if isinstance(ty, tuple) and ty[0] == "fn":
            return True
        if isinstance(ty, tuple) and ty[0] == "iter":
            r = self.fork_atom(("truthy", v))
            if not r:                       # a falsy iterable has no elements
                self.assume_lin(length(v), K(0), "==")
            return r
        if v[0] == "op" and v[1] == "notv":
            return not self.truthy(v[2])
        if v[0] == "op" and v[1] == "enum" and v[2] in self.prog.classes and all(
                q in self.prog.classes or q.split(".")[-1] in ("Enum", "object") for q in self.prog.mro(v[2])) and not any(
                self.prog.find_method(v[2], m) for m in ("__bool__", "__len__")):
            return True
        if v[0] == "op" and v[1] in ("cmpv",):
            return self.compare_op(v[2], v[3], v[4])
        if v[0] == "op" and v[1] == "isinst":
            return self.fork_atom(("isinst", v[2], v[3]))
        isn = self.st.facts.get(("isnone", v))
        if isn is True:
            return False
        return self.fork_atom(("truthy", v))

    def is_none(self, v):
        if v[0] == "k":
            return v[2] is None
        if v[0] == "op" and v[1] == "enum":
            return False
        if v[0] in ("s", "app", "op", "elem", "st", "fin"):
            ty = self.ty(v)
            if ty in ("int", "str", "bool", "tuple", "list") or isinstance(ty, tuple):
                return False
            if ty == "none":
                return True
            if self.st.facts.get(("truthy", v)) is True:
                return False
            r = self.fork_atom(("isnone", v))
            return r
        return False

    # ------------------------------------------------------------ unions
    def union_info(self, v):
        """(class qual, cases) when v is of a tagged union type."""
        if v[0] == "un":
            return v[1], None
        if v[0] in ("s", "app", "op", "elem", "st", "fin"):
            ty = self.ty(v)
            if isinstance(ty, tuple) and ty[0] == "u":
                return ty[1], self.prog.union_cases(ty[1])[1]
        return None

    def tag_of(self, v):
        if v[0] == "un":
            return v[2]
        q, cases = self.union_info(v)
        key = ("tag", v)
        cur = self.st.facts.get(key)
        if cur is not None:
            return cur
        order = list(cases)
        if order == ["none", "some"]:
            order = ["some", "none"]
        c = order[self.choose(len(order))]
        self.st.facts[key] = c
        if self.watch is not None:
            self.watch(v)
        return c

    def payload(self, v, case):
        if v[0] == "un":
            return v[3]
        if case == "none" and self.union_info(v)[0] == OPTION:
            return NONE
        return op("pay", v, case)

    # ------------------------------------------------------------ attributes
    def mangle(self, name, act):
        if act is not None and act.cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_" + act.cls.name.lstrip("_") + name
        return name

    def class_member(self, q, name, selfv):
        for qq in self.prog.mro(q):
            if ("dyn", qq, name) in self.st.globals:
                v = self.st.globals[("dyn", qq, name)]
                return ("bound", v, selfv) if selfv is not None and v[0] == "clo" else v
            if ("attr", qq, name) in self.st.globals and not self.prog.find_attr(q, name):
                v = self.st.globals[("attr", qq, name)]
                if v[0] == "clo":
                    raise Imprecise("function stored in a class")
                return v
        m = self.prog.find_method(q, name)
        if m:
            ci, node, kind = m
            clo = self.closure(node, None, ci)
            if kind == "static":
                return clo
            if kind == "class":
                return ("bound", clo, ("cls", q))
            if kind == "property":
                if selfv is None:
                    raise Imprecise("property on class")
                return self.call(clo, [selfv], {})
            return ("bound", clo, selfv) if selfv is not None else clo
        a = self.prog.find_attr(q, name)
        if a:
            ci, e = a
            if self.prog.is_enum(q):
                return op("enum", q, name)
            gk = ("attr", ci.qual, name)
            if gk in self.st.globals:
                return self.st.globals[gk]
            self.in_global += 1
            try:
                v = self.eval(e, Act(None, None, ci, ci.mod))
            finally:
                self.in_global -= 1
            self.st.globals[gk] = v
            return v
        # name-mangled private method
        if name.startswith("_") and "__" in name[1:]:
            for qq in self.prog.mro(q):
                ci = self.prog.classes.get(qq)
                if ci and name.startswith("_" + ci.name.lstrip("_") + "__"):
                    raw = name[len("_" + ci.name.lstrip("_")):]
                    if raw in ci.methods:
                        return self.class_member(q, raw, selfv)
        return None

    def has_attr(self, v, name):
        """True/False/None(unknown)"""
        if v[0] == "cls" and v[1] in self.prog.classes:
            if any((k, qq, name) in self.st.globals for qq in self.prog.mro(v[1]) for k in ("dyn", "attr")):
                return True
            if self.prog.find_method(v[1], name) or self.prog.find_attr(v[1], name):
                return True
            for qq in self.prog.mro(v[1]):
                if qq not in self.prog.classes and not (qq.startswith("collections.abc.") and hasattr(_abc, qq[16:]) and
                                                        not hasattr(getattr(_abc, qq[16:]), name)):
                    return None
            return None if hasattr(object, name) else False
        if v[0] == "un":
            cases = self.prog.union_cases(v[1])[1]
            if name == "tag" or name == v[2]:
                return True
            if name in cases:
                return False
            return self.prog.find_method(v[1], name) is not None
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind == "obj":
                if name in r.f:
                    return True
                return self.prog.find_method(r.meta, name) is not None or self.prog.find_attr(r.meta, name) is not None
            return None
        ui = self.union_info(v)
        if ui:
            cases = ui[1]
            if name == "tag":
                return True
            if name in cases:
                return self.tag_of(v) == name
            return self.prog.find_method(ui[0], name) is not None
        ty = self.ty(v)
        if isinstance(ty, tuple) and ty[0] == "cls":
            q = ty[1]
            if self.prog.find_method(q, name) or self.prog.find_attr(q, name):
                return True
            for qq in self.prog.mro(q):
                ci = self.prog.classes.get(qq)
                if ci and name in ci.annots:
                    return True
            return None
        if v[0] == "k":
            return hasattr(v[2], name)
        if v[0] == "tup":
            return hasattr((), name)
        if v[0] == "ref" and self.kind(v) in ("list", "dict", "set"):
            return hasattr({"list": [], "dict": {}, "set": set()}[self.kind(v)], name)
        if ty in ("int", "str", "bool", "float", "tuple", "list", "dict", "none"):
            return hasattr({"int": 0, "str": "", "bool": True, "float": 0.0, "tuple": (), "list": [], "dict": {}, "none": None}[ty], name)
        return None

    def getattr(self, v, name, act=None):
        self.tick()
        name = self.mangle(name, act)
        k = v[0]
        if k == "mod":
            r = self.prog.resolve(v[1], name)
            if r is None and v[1] + "." + name in self.prog.modules:
                return ("mod", v[1] + "." + name)
            if r is None:
                raise Imprecise(f"module {v[1]} has no {name}")
            return self.global_value(v[1], name)
        if k == "bi":
            if v[1] == "string" and isinstance(getattr(_string, name, None), str):
                return K(getattr(_string, name))
            return ("bi", v[1] + "." + name)
        if k == "cls":
            if name == "__name__":
                return K(v[1].split(".")[-1])
            r = self.class_member(v[1], name, None)
            if r is None and name == "__dataclass_fields__":
                q = v[1]
                names = []
                for qq in reversed(self.prog.mro(q)):
                    if qq in self.prog.classes:
                        names += [n for n in self.prog.classes[qq].order if n not in names]
                gk = ("dyn", q, name)
                self.st.globals[gk] = self.new("dict", {"d": tuple((K(n), self.new("obj", {"name": K(n)}, "dataclasses.Field")) for n in names)})
                return self.st.globals[gk]
            if r is None:
                if name in ("__init__", "__class__", "__new__", "__setattr__", "__delattr__"):
                    return ("bi", "object." + name)
                raise Imprecise(f"class attribute {v[1]}.{name}")
            return r
        if k == "ref":
            r = self.rec(v)
            if r.kind == "obj":
                if name in r.f:
                    if self.st.ghost and r.meta.startswith("expression."):
                        self.sched_point()
                        r = self.rec(v)
                        if name not in r.f:
                            self.raise_("AttributeError")
                    return r.f[name]
                m = self.class_member(r.meta, name, v)
                if m is not None:
                    return m
                if name == "__class__":
                    return ("cls", r.meta)
                if name == "__dict__":
                    if r.pre or self.st.ghost:
                        raise Imprecise("__dict__")
                    return self.new("dict", {"d": tuple((K(n), x) for n, x in r.f.items())}, ("vars", v))
                if any(q not in self.prog.classes for q in self.prog.mro(r.meta)):
                    return ("bound", ("bi", "inherited." + name), v)
                self.raise_("AttributeError")
            if r.kind in ("gen",):
                return ("bound", ("bi", "gen." + name), v)
            return ("bound", ("bi", r.kind + "." + name), v)
        if k == "un":
            if name == "tag":
                return K(v[2])
            if name == v[2]:
                return v[3]
            m = self.class_member(v[1], name, v) if name not in self.prog.union_cases(v[1])[1] else None
            if m is not None:
                return m
            if name == "__class__":
                return ("cls", v[1])
            if name == "_index":
                q, cases = self.prog.union_cases(v[1])
                return op("index", v[1], v[2])
            self.raise_("AttributeError")
        if k == "tup":
            return ("bound", ("bi", "tuple." + name), v)
        if k == "k":
            if v[1] == "str":
                return ("bound", ("bi", "str." + name), v)
            if v[2] is None:
                self.raise_("AttributeError")
            raise Imprecise(f"attribute {name} of constant")
        if k in ("exn",):
            if name == "args":
                return ("tup", tuple(v[2]))
            if name == "value":
                return v[2][0] if v[2] else NONE
            return op("attr", v, name)
        if k in ("clo", "bound", "partial"):
            return op("fattr", K(name), NONE)
        if k == "super":
            q, after, selfv = v[1], v[2], v[3]
            m = self.prog.find_method(q, name, after=after)
            if m:
                ci, node, kind = m
                return ("bound", self.closure(node, None, ci), selfv)
            return ("bound", ("bi", "super." + name), selfv)
        if k == "op" and v[1] == "enum" and name in ("value", "name", "_value_", "_name_") and not self.prog.find_method(v[2], name):
            a = self.prog.find_attr(v[2], v[3])
            if name.strip("_") == "name":
                return K(v[3])
            if a and isinstance(a[1], ast.Constant):
                return K(a[1].value)
        ui = self.union_info(v)
        if ui:
            if name == "tag":
                return K(self.tag_of(v))
            if name in ui[1]:
                if self.tag_of(v) == name:
                    return self.payload(v, name)
                self.raise_("AttributeError")
            m = self.class_member(ui[0], name, v)
            if m is not None:
                return m
            return op("attr", v, name)
        ty = self.ty(v)
        if (v, name) in self.st.over:
            return self.st.over[(v, name)]
        if isinstance(ty, tuple) and ty[0] == "cls" and ty[1] in self.prog.classes:
            m = self.class_member(ty[1], name, v)
            if m is not None:
                return m
            t = op("attr", v, name)
            for qq in self.prog.mro(ty[1]):
                ci = self.prog.classes.get(qq)
                if ci and name in ci.annots:
                    settype(t, self.types.attr_type(ty, ci, name))
                    break
            return self.expand(t)
        if ty == "str":
            return ("bound", ("bi", "str." + name), v)
        if isinstance(ty, tuple) and ty[0] in ("seq", "tupN") or ty == "tuple":
            return ("bound", ("bi", "tuple." + name), v)
        if isinstance(ty, tuple) and ty[0] in ("aiter", "iter") and name in ("__aiter__", "__iter__"):
            return ("bound", ("bi", "iter." + name), v)
        return op("attr", v, name)

    def delattr_(self, v, name, raw=False):
        if v[0] != "ref" or self.rec(v).kind != "obj":
            raise Imprecise("attribute deletion")
        r = self.rec(v)
        if not raw:
            m = self.class_member(r.meta, "__delattr__", v)
            if m is not None:
                self.call(m, [K(name)], {})
                return
        if name not in r.f:
            self.raise_("AttributeError")
        del r.f[name]

    def setattr_(self, v, name, val, act, raw=False):
        name = self.mangle(name, act)
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind == "obj":
                m = None if raw else self.class_member(r.meta, "__setattr__", v)
                if m is not None:
                    self.call(m, [K(name), val], {})
                    return
                if r.pre and not self.in_global:
                    self.event(("store", self.freeze(v), name, self.freeze(val)))
                if self.st.ghost and r.meta.startswith("expression."):
                    self.sched_point()
                    r = self.rec(v)
                r.f[name] = val
                return
            raise Imprecise(f"attribute store on {r.kind}")
        if v[0] in ("s", "app", "op", "elem", "st", "fin", "un"):
            self.event(("store", self.freeze(v), name, self.freeze(val)))
            if v[0] == "un":
                return
            self.st.over[(v, name)] = val
            return
        if v[0] == "cls" and v[1].startswith("specs."):
            self.st.globals[("dyn", v[1], name)] = val
            return
        if v[0] == "cls":
            if not name.startswith("_"):
                raise Imprecise("public class attribute stored")
            self.st.globals[("attr", v[1], name)] = val
            return
        if v[0] in ("clo", "bound"):
            return
        raise Imprecise("attribute store")

    # ------------------------------------------------------------ events
    def event(self, ev):
        if self.in_global and ev[0] in WRITES:
            return                      # a module building its own values while it is imported
        if self.effects is not None and ev[0] in WRITES:
            self.note_write(ev)
        self.st.events.append(ev)

    def note_write(self, ev):
        """a write of the library to something that existed before the operation"""
        pos = self.st.lastpos
        if not pos or not pos[2].startswith("expression"):
            return
        t = ev[1]
        if isinstance(t, tuple):
            q = t[1] if t[0] == "obj" else (self.ty(t)[1] if t[0] != "frame" and isinstance(self.ty(t), tuple) and self.ty(t)[0] == "cls" else None)
            if q in self.prog.classes and self.prog.find_method(q, "__next__"):
                return                  # an iterator advances
        self.effects.append((ev, pos))

    def raise_(self, name, *args):
        raise RaiseSig(("exn", ("bi", "builtins." + name), tuple(args)))

    # ------------------------------------------------------------ freeze
    def freeze(self, v, depth=0):
        if depth > 12:
            return ("deep",)
        k = v[0]
        if k in ("k", "s", "elem", "st", "fin", "cls", "mod", "bi", "fnv", "lazy", "obj", "list", "rec", "ext"):
            return v
        if k == "ref":
            r = self.rec(v)
            if r.kind == "list":
                t = ("list", tuple(self.freeze(x, depth + 1) for x in r.f["items"]))
                return op("buffer", K(r.meta), t) if r.meta else t
            if r.kind == "dict":
                return ("dict", tuple((a, self.freeze(b, depth + 1)) if a == "dspl" else
                                      (self.freeze(a, depth + 1), self.freeze(b, depth + 1)) for a, b in r.f["d"]))
            if r.kind == "obj":
                return ("obj", r.meta, tuple(sorted((n, self.freeze(x, depth + 1)) for n, x in r.f.items())))
            if r.kind == "ext":
                return ("ext", r.meta) + tuple(self.freeze(x, depth + 1) for x in r.f["args"]) + ((r.f["n"],) if r.f.get("n") is not None else ())
            if r.kind == "set":
                return ("set", tuple(self.freeze(x, depth + 1) for x in r.f["items"]))
            if r.kind == "frame":
                return ("frame",)
            self.lazies.append((v, self.st.copy()))
            return ("lazy", self.side, len(self.lazies) - 1)
        if k in ("clo", "bound", "partial"):
            if k == "bound" and v[1][0] == "bi":
                return op("attr", self.freeze(v[2], depth + 1), v[1][1].split(".")[-1])
            self.lazies.append((v, self.st.copy()))
            return ("fnv", self.side, len(self.lazies) - 1)
        if k == "un":
            return ("un", v[1], v[2], self.freeze(v[3], depth + 1))
        if k == "tup":
            return mk_tup(tuple(self.freeze(x, depth + 1) for x in v[1]))
        if k == "spl":
            return ("spl", self.freeze(v[1], depth + 1))
        if k == "exn":
            return ("exn", v[1], tuple(self.freeze(x, depth + 1) for x in v[2]))
        if k == "op":
            if v[1] == "lin":
                return v
            new = tuple(self.freeze(x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[2:])
            t = v[:2] + new
            if t != v and v in TY:
                settype(t, TY[v])
            return t
        return v

    # ------------------------------------------------------------ globals
    def global_value(self, mod, name):
        gk = (mod, name)
        if f"{mod}.{name}" in self.abstract:
            return self.abstract[f"{mod}.{name}"]
        if gk in self.st.globals:
            v = self.st.globals[gk]
            if v is None:
                raise Imprecise(f"cyclic global {mod}.{name}")
            return v
        r = self.prog.resolve(mod, name)
        if r is None:
            if hasattr(_b, name):
                return ("bi", "builtins." + name)
            if mod.startswith("expression") and not self.prog.mentions(mod, name):
                self.raise_("NameError")
            raise Imprecise(f"unresolved name {mod}.{name}")
        return self.resolved(r, gk)

    def resolved(self, r, gk=None):
        if r is None:
            raise Imprecise("unresolved import")
        if r[0] == "mod":
            return ("mod", r[1])
        if r[0] == "ext":
            b, _, n = r[1].rpartition(".")
            if b == "string" and isinstance(getattr(_string, n, None), str):
                return K(getattr(_string, n))
            return ("bi", r[1])
        if r[0] == "class":
            return ("cls", r[1])
        if r[0] == "def":
            _, m, node = r
            ck = (m, node.name)
            if ck in self.st.globals and self.st.globals[ck] is not None:
                return self.st.globals[ck]
            self.in_global += 1
            sv, sc, sp = self.try_depth, self.scope, self.stack
            self.try_depth, self.scope, self.stack = 0, None, []
            try:
                act = Act(None, None, None, m)
                v = self.closure(node, act, None)
                v = self.decorate(v, node, act)
            finally:
                self.in_global -= 1
                self.try_depth, self.scope, self.stack = sv, sc, sp
            self.st.globals[ck] = v
            return v
        if r[0] == "expr":
            _, m, e, nm = r
            ck = (m, nm)
            if ck in self.st.globals and self.st.globals[ck] is not None:
                return self.st.globals[ck]
            self.st.globals[ck] = None
            self.in_global += 1
            sv, sc, sp = self.try_depth, self.scope, self.stack
            self.try_depth, self.scope, self.stack = 0, None, []
            try:
                v = self.eval(e, Act(None, None, None, m))
            finally:
                self.in_global -= 1
                self.try_depth, self.scope, self.stack = sv, sc, sp
                if self.st.globals.get(ck) is None:
                    self.st.globals.pop(ck, None)
            self.st.globals[ck] = v
            return v
        raise Imprecise("unresolved global")

    def decorate(self, v, node, act):
        for d in reversed(node.decorator_list):
            nm = d.func if isinstance(d, ast.Call) else d
            last = nm.attr if isinstance(nm, ast.Attribute) else getattr(nm, "id", "")
            if last in ("overload", "staticmethod", "classmethod", "property", "abstractmethod", "final", "override"):
                continue
            m = self.effect_model(d, act)
            if m is not None:
                v = ("bound", ("bi", "model.effect." + m), v)
                continue
            v = self.call(self.eval(d, act), [v], {})
        return v

    def effect_model(self, d, act):
        """``@effect.result[..]()`` / ``@effect.option[..]()``: computation
        expressions are taken by contract (the builder property decides it)."""
        if not isinstance(d, ast.Call):
            return None
        f = d.func.value if isinstance(d.func, ast.Subscript) else d.func
        r = self.prog.resolve_expr(act.mod, f)
        if r and r[0] == "class":
            q = r[1].split(".")[-1]
            if q in ("ResultBuilder", "TryBuilder"):
                return "result"
            if q == "OptionBuilder":
                return "option"
        return None

    def closure(self, node, act, ci):
        fi = self.prog.funcs[id(node)]
        a = node.args
        dact = act if act is not None else Act(None, None, ci, fi.mod)
        d = tuple(self.eval(x, dact) for x in a.defaults)
        kd = tuple(self.eval(x, dact) if x is not None else None for x in a.kw_defaults)
        env = ("ref", act.frame) if act is not None and act.frame is not None else None
        return ("clo", self._keys[id(node)], env, d, kd)

    # ------------------------------------------------------------ names
    def lookup(self, name, act):
        fr = act.frame
        while fr is not None:
            r = self.st.heap[fr]
            if name in r.f:
                v = r.f[name]
                if v is None:
                    raise Imprecise(f"value of {name} after loop")
                return v
            if name in r.meta["locals"]:
                if self.scope is None or self.peel is not None:
                    self.raise_("UnboundLocalError")
                raise Imprecise(f"unbound local {name}")
            fr = r.meta["parent"]
        return self.global_value(act.mod, name)

    def store(self, name, v, act):
        fr = act.frame
        if fr is None:
            raise Imprecise("module level store")
        r = self.st.heap[fr]
        if act.fi is not None and name in act.fi.globals_:
            self.event(("store", ("mod", act.mod), name, self.freeze(v)))
            self.st.globals[(act.mod, name)] = v
            return
        if name not in r.meta["locals"]:
            p = r.meta["parent"]
            while p is not None:
                pr = self.st.heap[p]
                if name in pr.meta["locals"]:
                    if pr.pre:
                        self.event(("store", ("frame", pr.meta["qual"]), name, self.freeze(v)))
                    pr.f[name] = v
                    return
                p = pr.meta["parent"]
        r.f[name] = v

    def assign(self, target, v, act):
        if isinstance(target, ast.Name):
            self.store(target.id, v, act)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v, act)
        elif isinstance(target, ast.Attribute):
            self.setattr_(self.eval(target.value, act), target.attr, v, act)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.eval(target.value, act), self.eval_index(target.slice, act), v)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, act)
        else:
            raise Imprecise("assignment target")

    def seq_view(self, v):
        """Materialised tuple view of a sequence value."""
        if v[0] == "tup":
            return v
        if v[0] == "ref" and self.kind(v) == "list":
            return ("tup", self.rec(v).f["items"])
        if v[0] == "k" and v[1] == "str":
            return ("tup", tuple(K(c) for c in v[2]))
        ty = self.ty(v)
        if isinstance(ty, tuple) and ty[0] == "tupN":
            return ("tup", tuple(op("item", v, K(i)) for i in range(len(ty[1]))))
        return self.materialise(v)

    def unpack(self, elts, v, act):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        # unknown value with fixed arity: positional projections
        if not star and v[0] in ("s", "app", "op", "elem", "st", "fin") and not (
                isinstance(self.ty(v), tuple) and self.ty(v)[0] in ("cls", "u", "tupN")):
            ty = self.ty(v)
            if ty == "any" or ty in ("tuple",):
                for i, e in enumerate(elts):
                    self.assign(e, op("item", v, K(i)), act)
                return
        t = self.seq_view(v)
        items = list(t[1])
        n = len(elts)
        if not star:
            if any(i[0] == "spl" for i in items):
                ln = length(t)
                if not self.test_lin(ln, K(n), "=="):
                    self.raise_("ValueError")
                vals = [self.item(t, K(i)) for i in range(n)]
            else:
                if len(items) != n:
                    self.raise_("ValueError")
                vals = items
            for e, x in zip(elts, vals):
                self.assign(e, x, act)
            return
        s = star[0]
        after = n - s - 1
        if not self.at_least(t, n - 1):
            self.raise_("ValueError")
        for i in range(s):
            self.assign(elts[i], self.item(t, K(i)), act)
        mid = self.slice(t, K(s), K(-after) if after else NONE, NONE)
        mid = self.seq_view(mid)
        self.assign(elts[s].value, self.new("list", {"items": mid[1]}), act)
        for j in range(after):
            self.assign(elts[s + 1 + j], self.item(t, K(j - after)), act)

    def at_least(self, t, n):
        return not self.test_lin(length(t), K(n), "<")

    # ------------------------------------------------------------ indexing
    def item(self, v, i):
        self.tick()
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind == "list":
                return self.item(("tup", r.f["items"]), i)
            if r.kind == "dict":
                fk = self.freeze(i)
                for a, b in r.f["d"]:
                    if a == "dspl":
                        raise Imprecise("dict splat lookup")
                    if self.eq_decide(a, i):
                        return b
                self.raise_("KeyError")
            if r.kind == "obj":
                return self.call(self.getattr(v, "__getitem__"), [i], {})
            raise Imprecise(f"index {r.kind}")
        if v[0] == "cls":
            return v
        if v[0] == "bi":
            return v
        if v[0] == "un" or self.union_info(v):
            raise Imprecise("index union")
        if v[0] == "k" and v[1] == "str" and is_k(i) and isinstance(i[2], int):
            if -len(v[2]) <= i[2] < len(v[2]):
                return K(v[2][i[2]])
            self.raise_("IndexError")
        if v[0] == "tup":
            if is_k(i) and isinstance(i[2], int):
                items = v[1]
                n = i[2]
                seq = items if n >= 0 else items[::-1]
                m = n if n >= 0 else -n - 1
                for idx, it in enumerate(seq):
                    if it[0] == "spl":
                        if len([x for x in seq[idx:] if x[0] == "spl"]) == 1 and idx == len(seq) - 1:
                            ln = length(it[1])
                            if self.test_lin(ln, K(m - idx), "<=") if not self.known_len(ln, m - idx) else False:
                                self.raise_("IndexError")
                            return self.item_opaque(it[1], K(m - idx) if n >= 0 else K(-(m - idx) - 1))
                        return op("item", v, i)
                    if idx == m:
                        return it
                self.raise_("IndexError")
            if len(v[1]) == 1 and v[1][0][0] == "spl":
                return self.item_opaque(v[1][0][1], i)
            if self.peel is not None and not any(x[0] == "spl" for x in v[1]) and typeof(i) == "int":
                n = len(v[1])
                for c in range(-n, n):
                    if self.test_lin(i, K(c), "=="):
                        return v[1][c]
                self.raise_("IndexError")
            return op("item", v, i)
        ty = self.ty(v)
        if isinstance(ty, tuple) and ty[0] == "cls" and self.prog.find_method(ty[1], "__getitem__"):
            return self.call(self.getattr(v, "__getitem__"), [i], {})
        return self.item_opaque(v, i)

    def known_len(self, ln, m):
        """Length is already known to exceed m."""
        c, items, sgn = self.form(ln, K(m))
        if items is None:
            return c > 0
        cur = iv_inter(self.st.facts.get(("lin", items), FULL), self.implicit(items))
        return all(lo is not None and sgn * lo + c > 0 for lo, hi in cur) if sgn == 1 else False

    def item_opaque(self, v, i):
        if v[0] == "op" and v[1] == "slice" and v[5] == NONE:
            lo = v[3]
            if is_k(i) and isinstance(i[2], int) and i[2] >= 0 and is_k(lo) and isinstance(lo[2], int) and lo[2] >= 0 and v[4] == NONE:
                return self.item_opaque(v[2], K(i[2] + lo[2]))
        al = self.st.over.get(("item", v, i))
        if al is not None:
            return al
        t = op("item", v, i)
        et = elemtype(v)
        if et != "any":
            settype(t, et)
        return t

    def slice(self, v, lo, hi, step):
        self.tick()
        if lo == K(0) and step in (NONE, K(1)):
            lo = NONE
        if step == K(1):
            step = NONE
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind == "list":
                t = self.slice(("tup", r.f["items"]), lo, hi, step)
                return self.new("list", {"items": self.as_items(t)}, r.meta)
            if r.kind == "obj":
                return self.call(self.getattr(v, "__getitem__"), [op("sliceobj", lo, hi, step)], {})
            raise Imprecise("slice ref")
        if lo == NONE and hi == NONE and step == NONE:
            return v
        if v[0] == "k" and v[1] == "str" and all(is_k(x) for x in (lo, hi, step)):
            return K(v[2][slice(lo[2], hi[2], step[2])])
        if v[0] != "k" and self.ty(v) == "str" and step == NONE and lo != NONE and hi != NONE and self.sure(lo, K(0), ">=") and \
                self.sure(hi, lin_add(lo, K(1)), "=="):
            return self.item(v, lo) if self.test_lin(lo, length(v), "<") else K("")
        if v[0] == "tup":
            items = v[1]
            nospl = not any(i[0] == "spl" for i in items)
            if self.peel is not None and nospl and is_k(step):
                back = step[2] is not None and step[2] < 0
                if not back:
                    lo, hi = self.pin(lo, len(items)), self.pin(hi, len(items))
            if nospl and all(is_k(x) for x in (lo, hi, step)):
                return ("tup", items[slice(lo[2], hi[2], step[2])])
            if step == NONE and all(is_k(x) for x in (lo, hi)):
                its = list(items)
                l, h = lo[2] or 0, hi[2]
                if l >= 0 and (h is None or h < 0):
                    while l > 0 and its and its[0][0] != "spl":
                        its.pop(0)
                        l -= 1
                    while h is not None and h < 0 and its and its[-1][0] != "spl":
                        its.pop()
                        h += 1
                    if not its:
                        return ("tup", ())
                    if l == 0 and not h:
                        return ("tup", tuple(its))
                    if len(its) == 1:
                        return ("tup", (("spl", self.mk_slice(its[0][1], K(l), K(h) if h else NONE, NONE)),))
                    return ("tup", (("spl", self.mk_slice(("tup", tuple(its)), K(l), K(h) if h else NONE, NONE)),))
            if not items:
                return v
            if len(items) == 1 and items[0][0] == "spl":
                return ("tup", (("spl", self.mk_slice(items[0][1], lo, hi, step)),))
            return ("tup", (("spl", self.mk_slice(v, lo, hi, step)),))
        ty = self.ty(v)
        if isinstance(ty, tuple) and ty[0] == "cls" and self.prog.find_method(ty[1], "__getitem__"):
            return self.call(self.getattr(v, "__getitem__"), [op("sliceobj", lo, hi, step)], {})
        return self.mk_slice(v, lo, hi, step)

    def mk_slice(self, v, lo, hi, step):
        if hi != NONE and hi == length(v) and (step == NONE or is_k(step) and step[2] > 0):
            hi = NONE
        if v == ("tup", ()):
            return v
        if lo == K(0) and step == NONE:
            lo = NONE
        if lo == NONE and hi == NONE and step == NONE:
            return v
        if hi == K(0) and step == NONE and self.ty(v) in ("tuple", "list"):
            return ("tup", ())
        if lo == NONE and hi == NONE and step == K(-1):
            return self.mk_reversed(v)
        if step == NONE and hi == NONE and v[0] == "op" and v[1] == "slice" and v[4] == NONE and v[5] == NONE \
                and is_k(lo) and is_k(v[3]) and (lo[2] or 0) >= 0 and (v[3][2] or 0) >= 0:
            return self.mk_slice(v[2], K((lo[2] or 0) + (v[3][2] or 0)), NONE, NONE)
        t = op("slice", v, lo, hi, step)
        ty = self.ty(v)
        settype(t, ty if ty != "any" else "tuple")
        return t

    def mk_reversed(self, v):
        if v[0] == "tup":
            if not any(i[0] == "spl" for i in v[1]):
                return ("tup", v[1][::-1])
            return ("tup", tuple(("spl", self.mk_reversed(i[1])) if i[0] == "spl" else i for i in v[1][::-1]))
        if v[0] == "op" and v[1] == "reversed":
            return v[2]
        t = op("reversed", v)
        return t

    def setitem(self, v, i, val):
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind == "dict":
                if r.pre and not self.in_global:
                    self.event(("store", self.freeze(v), self.freeze(i), self.freeze(val)))
                if isinstance(r.meta, tuple) and r.meta[:1] == ("vars",):
                    if not is_k(i):
                        raise Imprecise("__dict__")
                    self.setattr_(r.meta[1], i[2], val, None, raw=True)
                    r = self.rec(v)
                d = [(a, b) for a, b in r.f["d"]]
                for n, (a, b) in enumerate(d):
                    if a == "dspl":
                        raise Imprecise("dict splat store")
                    if a == i or self.eq_decide(a, i):
                        d[n] = (a, val)
                        break
                else:
                    d.append((i, val))
                r.f["d"] = tuple(d)
                return
            if r.kind == "obj":
                self.call(self.getattr(v, "__setitem__"), [i, val], {})
                return
            if r.kind == "list":
                if is_k(i) and not any(x[0] == "spl" for x in r.f["items"]) and -len(r.f["items"]) <= i[2] < len(r.f["items"]):
                    if r.pre and not self.in_global:
                        self.event(("store", self.freeze(v), i, self.freeze(val)))
                    its = list(r.f["items"])
                    its[i[2]] = val
                    r.f["items"] = tuple(its)
                    return
                if r.pre and not self.in_global:
                    raise Imprecise("item store")
                if i[0] == "op" and i[1] == "sliceobj" and not r.meta and all(is_k(x) for x in i[2:]):
                    new = self.materialise(val)[1]
                    r = self.rec(v)
                    if all(x == NONE for x in i[2:]):
                        r.f["items"] = tuple(new)
                        return
                    its = list(r.f["items"])
                    if not any(x[0] == "spl" for x in (*its, *new)):
                        try:
                            its[slice(*[x[2] for x in i[2:]])] = list(new)
                        except ValueError:
                            self.raise_("ValueError")
                        r.f["items"] = tuple(its)
                        return
                t = ("tup", tuple(self.freeze(x) for x in r.f["items"]))
                if not (i[0] == "op" and i[1] == "sliceobj"):
                    self.bounds(t, i)
                else:
                    new = self.materialise(val)[1]
                    if i[2] == i[3] and i[4] == NONE:
                        if len(new) == 1 and new[0][0] != "spl":
                            self.call(self.getattr(v, "insert"), [i[2], new[0]], {})
                            return
                        raise Imprecise("several elements inserted into a list")
                    val = ("tup", new)
                r.f["items"] = (("spl", op("setitem", t, self.freeze(i), self.freeze(val))),)
                return
            raise Imprecise("item store")
        if v[0] in ("s", "app", "op", "elem", "st", "fin"):
            self.event(("setitem", self.freeze(v), self.freeze(i), self.freeze(val)))
            return
        raise Imprecise("item store")

    def bounds(self, t, i):
        """An index into a list that is read or written must be inside it."""
        n = length(t)
        if not self.test_lin(i, n, "<"):
            self.raise_("IndexError")
        if self.test_lin(i, lin_mul(n, -1), "<"):
            self.raise_("IndexError")

    # ------------------------------------------------------------ comparison
    def plain_identity(self, q):
        """a class of which the instances are equal only to themselves"""
        p = self.prog
        return q in p.classes and all(b in p.classes and not p.classes[b].node.decorator_list or b.split("[")[0] in
                                      ("abc.ABC", "typing.Generic", "typing.Protocol", "builtins.object", "object") for b in p.mro(q))

    def eq_decide(self, a, b):
        """Truth of a == b (may partition)."""
        self.tick()
        if a == b and a[0] != "ref":
            return True
        if is_k(a) and is_k(b):
            return a[2] == b[2]
        if a[0] == "op" and b[0] == "op" and a[1] == b[1] == "enum":
            return a == b
        if {a[0], b[0]} in ({"cls"}, {"cls", "bi"}):
            return False                # a == b has been answered above
        ta, tb = [self.ty(x) if x[0] in ("s", "app", "op", "elem", "st", "fin") else None for x in (a, b)]
        if isinstance(ta, tuple) and ta[0] == "tupN" and (ta == tb or b[0] == "tup" and len(b[1]) == len(ta[1]) and not any(x[0] == "spl" for x in b[1])) or \
                isinstance(tb, tuple) and tb[0] == "tupN" and a[0] == "tup" and len(a[1]) == len(tb[1]) and not any(x[0] == "spl" for x in a[1]):
            return all(self.eq_decide(self.item(a, K(i)), self.item(b, K(i))) for i in range(len((ta or tb)[1])))
        for x, y in ((a, b), (b, a)):
            if x[0] == "ref" and self.kind(x) == "obj":
                m = self.prog.find_method(self.rec(x).meta, "__eq__")
                if m:
                    r = self.call(self.getattr(x, "__eq__"), [y], {})
                    if r == NOTIMPL:
                        continue
                    return self.truthy(r)
            elif x[0] not in ("ref", "un", "k", "tup"):
                ty = self.ty(x)
                if isinstance(ty, tuple) and ty[0] == "cls" and ty[1] in self.prog.classes and self.prog.find_method(ty[1], "__eq__"):
                    r = self.call(self.getattr(x, "__eq__"), [y], {})
                    if r != NOTIMPL:
                        return self.truthy(r)
        if a[0] == "ref" and b[0] == "ref" and a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] == "ref" and self.kind(x) == "ext" and self.rec(x).meta == "object":
                ty = self.ty(y) if y[0] not in ("ref", "un", "k", "tup") else "tuple"
                if y[0] == "tup" or y[0] == "k" or ty in ("tuple", "str", "int", "bool", "list") or isinstance(ty, tuple) and ty[0] in ("tupN", "seq", "tuple"):
                    return False            # a sentinel of the library's own
        if a[0] == b[0] == "ref" and all(self.kind(x) == "obj" and self.rec(x).meta.startswith("models.stdlib.") for x in (a, b)):
            return False
        if any(x[0] == "ref" and self.kind(x) == "obj" and self.prog.find_method(self.rec(x).meta, "__eq__") for x in (a, b)):
            return False                # both operands declined: identity
        if a[0] == b[0] == "ref" and all(self.kind(x) == "obj" and self.plain_identity(self.rec(x).meta) for x in (a, b)):
            return False                # neither defines equality: identity
        for x in (a, b):
            if x[0] == "ref" and self.kind(x) == "list":
                if x is a:
                    return self.eq_decide(("tup", self.rec(a).f["items"]), b)
                return self.eq_decide(a, ("tup", self.rec(b).f["items"]))
        ua, ub = self.union_info(a), self.union_info(b)
        if ua and ub:
            m = self.prog.find_method(ua[0], "__eq__")
            if m:
                return self.truthy(self.call(self.getattr(a, "__eq__"), [b], {}))
            ta, tb = self.tag_of(a), self.tag_of(b)
            return ta == tb and self.eq_decide(self.payload(a, ta), self.payload(b, tb))
        if (ua and is_k(b)) or (ub and is_k(a)):
            return False
        if a[0] == "tup" and b[0] == "tup" and not any(i[0] == "spl" for i in a[1] + b[1]):
            if len(a[1]) != len(b[1]):
                return False
            return all(self.eq_decide(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == "tup" and b[0] == "tup":
            xs, ys = list(mk_tup(a[1])[1]), list(mk_tup(b[1])[1])
            n0 = len(xs) + len(ys)
            for i in (0, -1):
                while xs and ys and (xs[i] == ys[i] or xs[i][0] != "spl" and ys[i][0] != "spl" and self.eq_decide(xs[i], ys[i])):
                    xs.pop(i)
                    ys.pop(i)
                if xs and ys and xs[i][0] != "spl" and ys[i][0] != "spl":
                    return False
            if not xs and not ys:
                return True
            if len(xs) + len(ys) < n0:
                return self.eq_decide(("tup", tuple(xs)), ("tup", tuple(ys)))
        for x, y in ((a, b), (b, a)):
            if is_k(x) and x[2] is None and y[0] in ("s", "app", "op", "elem", "st", "fin"):
                return self.is_none(y)
            if is_k(x) and x[2] is None:
                return False
            if x[0] in ("clo", "cls", "bi", "bound") and is_k(y):
                return False
            if x[0] == "tup" and not x[1] and self.sized(y):
                return self.test_lin(length(y), K(0), "==")
        return self.test_lin(self.freeze(a), self.freeze(b), "==")

    def sized(self, y):
        ty = self.ty(y)
        return y[0] == "tup" or ty in ("tuple", "list") or (isinstance(ty, tuple) and ty[0] in ("seq", "list"))

    def compare_op(self, o, a, b):
        """Python comparison -> bool, partitioning as needed."""
        if o == "is":
            if is_k(a) and is_k(b):
                return a[2] is b[2] or a == b
            for x, y in ((a, b), (b, a)):
                if is_k(x) and x[2] is None:
                    return self.is_none(y)
                if is_k(x) and isinstance(x[2], bool):
                    if self.ty(y) == "bool":
                        return self.truthy(y) == x[2]
                    return self.fork_atom(("is", self.freeze(y), x))
            if a == b:
                if a[0] == "un":
                    return self.fork_atom(("is", a, b))
                return True
            if a[0] == "ref" and b[0] == "ref":
                return False
            for x in (a, b):
                if x[0] == "ref" and self.kind(x) == "ext" and self.rec(x).meta == "object":
                    return False        # a sentinel of the library's own
            if a[0] in ("cls", "bi", "clo") and b[0] in ("cls", "bi", "clo"):
                return False
            ua, ub = self.union_info(a), self.union_info(b)
            if ua and ub:
                ta, tb = self.tag_of(a), self.tag_of(b)
                if ta != tb:
                    return False
            fa, fb = sorted([self.freeze(a), self.freeze(b)], key=repr)
            return self.fork_atom(("is", fa, fb))
        if o == "is not":
            return not self.compare_op("is", a, b)
        if o in ("==", "!="):
            if a == b and a[0] in ("s", "app", "elem") and self.ty(a) in (None, "any") and self.st.facts.get(("isnone", a)) is not True:
                return self.fork_atom(("unequal to itself", a)) == (o == "!=")       # a float may be nan
            return self.eq_decide(a, b) == (o == "==")
        if o == "in":
            return self.contains(a, b)
        if o == "not in":
            return not self.contains(a, b)
        if is_k(a) and is_k(b) and type(a[2]) in (int, str, float, bool) and type(b[2]) in (int, str, float, bool):
            try:
                return {"<": a[2] < b[2], "<=": a[2] <= b[2], ">": a[2] > b[2], ">=": a[2] >= b[2]}[o]
            except TypeError:
                pass
        if a[0] == b[0] == "tup" and o in ("<", "<=", ">", ">=") and not any(x[0] == "spl" for x in a[1] + b[1]):
            for x, y in zip(a[1], b[1]):
                if not self.eq_decide(x, y):
                    return self.compare_op(o, x, y)
            return self.compare_op(o, K(len(a[1])), K(len(b[1])))
        ua, ub = self.union_info(a), self.union_info(b)
        if (ua or ub) and o in ("<", ">"):
            if not (ua and ub) or not self.prog.union_flag(ua[0], "order"):
                self.raise_("TypeError")
            if o == ">":
                a, b, ua, ub = b, a, ub, ua
            ta, tb = self.tag_of(a), self.tag_of(b)
            if ta != tb:
                cs = self.prog.union_cases(ua[0])[1]
                return cs.index(ta) < cs.index(tb)
            x, y = self.payload(a, ta), self.payload(b, tb)
            return not self.eq_decide(x, y) and self.compare_op("<", x, y)
        fa, fb = self.freeze(a), self.freeze(b)
        if o == "<":
            return self.test_lin(fa, fb, "<")
        if o == "<=":
            return self.test_lin(fa, fb, "<=")
        if o == ">":
            return self.test_lin(fb, fa, "<")
        if o == ">=":
            return self.test_lin(fb, fa, "<=")
        raise Imprecise("comparison " + o)

    def same_or_equal(self, x, a):
        def plain(t):
            return is_k(t) or t[0] == "tup" or t[0] not in ("ref", "un") and self.ty(t) in ("str", "int", "bool")
        return not plain(x) and not plain(a) and self.compare_op("is", x, a) or self.eq_decide(x, a)

    def contains(self, a, b):
        if b[0] == "ref":
            r = self.rec(b)
            if r.kind in ("list", "set"):
                b = ("tup", r.f["items"])
            elif r.kind == "dict":
                if any(x == "dspl" for x, _ in r.f["d"]):
                    return self.fork_atom(("in", self.freeze(a), self.freeze(b)))
                b = ("tup", tuple(x for x, _ in r.f["d"]))
            elif r.kind == "obj" and self.prog.find_method(r.meta, "__contains__"):
                return self.truthy(self.call(self.getattr(b, "__contains__"), [a], {}))
        if b[0] == "tup" and not any(i[0] == "spl" for i in b[1]):
            return any(self.same_or_equal(x, a) for x in b[1])
        if is_k(a) and is_k(b) and isinstance(b[2], str):
            return a[2] in b[2]
        if is_k(b) and isinstance(b[2], str) and a[:2] == ("op", "item") and self.ty(a) == "str" and len(b[2]) <= 60:
            return any(self.eq_decide(a, K(c)) for c in dict.fromkeys(b[2]))
        if b[0] == "ref":
            return self.fork_atom(("in", self.freeze(a), self.freeze(b)))
        ty = self.ty(b)
        if ty == "tuple" or isinstance(ty, tuple) and ty[0] == "seq" or b[0] == "tup":
            tok = object()

            def turn(x):
                if self.same_or_equal(x, a):
                    raise BreakSig(tok)
            try:
                self.iterate(b, turn)
            except BreakSig as g:
                if g.tok is not tok:
                    raise
                return True
            return False
        if isinstance(ty, tuple) and ty[0] == "cls" and self.prog.find_method(ty[1], "__contains__"):
            return self.truthy(self.call(self.getattr(b, "__contains__"), [a], {}))
        return self.fork_atom(("in", self.freeze(a), self.freeze(b)))

    # ------------------------------------------------------------ isinstance
    def exn_mro(self, c):
        """Class names (most specific first) of an exception class term."""
        if c[0] == "cls":
            out = []
            for q in self.prog.mro(c[1]):
                if q in self.prog.classes:
                    out.append(q)
                else:
                    n = q.split(".")[-1]
                    e = builtin_exn(n)
                    if e:
                        out.extend(x.__name__ for x in e.__mro__ if issubclass(x, BaseException))
            return out
        n = c[1].split(".")[-1]
        e = builtin_exn(n)
        if e:
            return [x.__name__ for x in e.__mro__ if issubclass(x, BaseException)]
        if n == "CancelledError":
            return ["CancelledError", "BaseException"]
        if n in ("InvalidStateError", "QueueEmpty", "QueueFull", "Empty"):
            return [n, "Exception", "BaseException"]
        return [c[1]]

    def exn_name(self, c):
        return self.exn_mro(c)[0]

    def isinstance_(self, v, c):
        if c[0] == "tup":
            return any(self.isinstance_(v, x) for x in c[1])
        if c[0] == "op" and c[1] == "bitor":
            return self.isinstance_(v, c[2]) or self.isinstance_(v, c[3])
        if v[0] in ("exn", "exsym"):
            if c[0] not in ("cls", "bi"):
                raise Imprecise("exception class")
            return self.exn_is(v, c)
        if c[0] == "cls":
            q = c[1]
            if v[0] == "un":
                return self.prog.is_subclass(v[1], q)
            if v[0] == "ref":
                r = self.rec(v)
                return r.kind == "obj" and self.prog.is_subclass(r.meta, q)
            if v[0] in ("k", "tup", "clo", "bound", "cls", "mod", "bi", "partial"):
                return False
            ty = self.ty(v)
            if isinstance(ty, tuple) and ty[0] in ("u", "cls"):
                if self.prog.is_subclass(ty[1], q):
                    return True
                if not self.prog.is_subclass(q, ty[1]):
                    return False
                if ty[0] == "u":
                    return self.fork_atom(("isinst", v, q))
            elif ty != "any":
                return False
            new = ("isinst", v, q) not in self.st.facts
            r = self.fork_atom(("isinst", v, q))
            if r:
                u = self.prog.union_cases(q)
                self.st.refine[v] = ("u", q, "any", "any") if u else ("cls", q)
            if new and self.watch is not None and v[0] == "op" and v[1] == "pay":
                self.watch(v[2])
            return r
        if c[0] == "bi":
            n = c[1].split(".")[-1]
            r = self.abc_instance(v, n)
            if r is not None:
                return r
            if v[0] == "op" and v[1] == "sliceobj":
                return n == "slice"
            if v[0] == "k":
                pt = getattr(_b, n, None)
                if isinstance(pt, type):
                    return isinstance(v[2], pt)
            if v[0] == "tup":
                if n in ("tuple", "Iterable", "Sequence", "Collection", "Sized"):
                    return True
                if getattr(_b, n, None):
                    return False
            if v[0] == "un":
                if n in ("Iterable", "Awaitable"):
                    return True
                return False
            if v[0] == "ref":
                r = self.rec(v)
                if r.kind == "list" and r.meta:
                    return n == r.meta.split(":")[0] or n in ("object", "Sequence", "Iterable", "MutableSequence", "Collection", "Sized")
                if r.kind in ("list", "dict", "set"):
                    if n in (r.kind,):
                        return True
                    if getattr(_b, n, None):
                        return False
                if r.kind == "obj" and getattr(_b, n, None):
                    return False
                if r.kind in ("gen", "genexp", "iter", "coro") and isinstance(getattr(_b, n, None), type):
                    return n == "object"
            ty = self.ty(v)
            if ty in ("int", "str", "bool", "tuple", "list") and isinstance(getattr(_b, n, None), type):
                return issubclass(getattr(_b, ty), getattr(_b, n))
            if isinstance(ty, tuple) and isinstance(getattr(_b, n, None), type):
                if ty[0] in ("seq", "tupN"):
                    return n == "tuple"
                if ty[0] == "list":
                    return n == "list"
                if ty[0] in ("u", "cls", "fn"):
                    return n == "object"
            return self.fork_atom(("isinst", self.freeze(v), n))
        fv, fc = self.freeze(v), self.freeze(c)
        return self.fork_atom(("isinst", fv, fc))

    def abc_instance(self, v, n):
        """isinstance(v, collections.abc.n) where the class of v is known; None if undecided"""
        abc = getattr(_abc, n, None)
        if abc is None or n in dir(_b):
            return None
        if v[0] == "k":
            return isinstance(v[2], abc)
        if v[0] == "tup":
            return issubclass(tuple, abc)
        if v[0] in ("clo", "bound", "partial"):
            return n in ("Callable", "Hashable")
        q = v[1] if v[0] == "un" else None
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind in ("list", "dict", "set"):
                real = {"bytearray": bytearray, "array": _array}.get((r.meta or "").split(":")[0]) if r.kind == "list" and r.meta else getattr(_b, r.kind)
                return issubclass(real, abc)
            if r.kind != "obj":
                return None
            q = r.meta
        if q is None or q not in self.prog.classes:
            return None
        for x in self.prog.mro(q):
            if x in self.prog.classes:
                continue
            base = getattr(_abc, x.split(".")[-1], None)
            if base is not None:
                if issubclass(base, abc):
                    return True
            elif x.split(".")[0] not in ("typing", "abc", "builtins", "typing_extensions", "object", "Generic", "ABC"):
                return None
        need = {"Iterable": ("__iter__",), "Awaitable": ("__await__",), "Sized": ("__len__",), "Container": ("__contains__",), "Callable": ("__call__",),
                "Iterator": ("__iter__", "__next__"), "AsyncIterable": ("__aiter__",), "AsyncIterator": ("__aiter__", "__anext__"),
                "Collection": ("__len__", "__iter__", "__contains__"), "Reversible": ("__iter__", "__reversed__"),
                "Generator": ("send", "throw", "close", "__iter__", "__next__"), "Coroutine": ("send", "throw", "close", "__await__")}.get(n)
        if need:
            return all(self.prog.find_method(q, m) for m in need)
        if n == "Hashable":
            return None
        return False

    def exn_is(self, v, c):
        cm = self.exn_name(c)
        if v[0] == "exn":
            return cm in self.exn_mro(v[1])
        # symbolic exception: partition, using the class hierarchy
        f = self.st.facts
        cmro = set(self.exn_mro(c))
        for (a, val) in list(f.items()):
            if a[0] == "isexn" and a[1] == v:
                if val and cm in a[3]:
                    return True
                if val and not (a[2] in cmro):
                    return False          # unrelated classes are disjoint
                if not val and a[2] in cmro:
                    return False
        if cm == "BaseException":
            return True
        if cm in ("StopIteration", "StopAsyncIteration") and v[0] == "exsym" and v[1][0] == "app" and v[1][1][0] == "s" and v[1][1][1].startswith("next element of "):
            return False              # that is the end of the source, not a failure of it
        return self.fork_atom(("isexn", v, cm, tuple(self.exn_mro(c))))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.tick()
        k = f[0]
        if k == "clo":
            return self.call_closure(f, args, kwargs)
        if k == "bound":
            if f[1][0] == "bi":
                return self.call_method(f[1][1], f[2], args, kwargs)
            return self.call(f[1], [f[2]] + list(args), kwargs)
        if k == "partial":
            kw = dict(f[3])
            kw.update(kwargs)
            return self.call(f[1], list(f[2]) + list(args), kw)
        if k == "cls":
            return self.instantiate(f, args, kwargs)
        if k == "bi":
            return self.call_builtin(f[1], args, kwargs)
        if k == "ref":
            r = self.rec(f)
            if r.kind == "obj" and self.prog.find_method(r.meta, "__call__"):
                return self.call(self.getattr(f, "__call__"), args, kwargs)
            if r.kind in ("gen", "genexp", "iter", "list", "dict", "set", "coro") or r.kind == "obj" and r.meta in self.prog.classes and not any(
                    q not in self.prog.classes for q in self.prog.mro(r.meta)):
                self.raise_("TypeError")
            raise Imprecise(f"call of {r.kind}")
        if k in ("k", "tup", "un", "mod"):
            if k == "un" and self.prog.find_method(f[1], "__call__"):
                raise Imprecise("call of union")
            self.raise_("TypeError")
        ty = self.ty(f)
        if isinstance(ty, tuple) and ty[0] == "cls" and self.prog.find_method(ty[1], "__call__"):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        return self.opaque_call(f, args, kwargs)

    def finished(self, g):
        """Has the generator g raised (StopIteration or anything else) on this path?  Closing it then does nothing."""
        for a, v in self.st.facts.items():
            if v is True and a[0] == "raises" and a[1][0] == "app":
                t = a[1]
                if t[1] == ("bi", "await") and t[2]:
                    t = t[2][0]
                if t[0] == "app" and t[1][0] == "op" and t[1][1] == "attr" and t[1][2] == g and t[1][3] in ("send", "throw", "__next__", "asend", "athrow", "__anext__"):
                    return True
        return False

    def opaque_call(self, f, args, kwargs, ret=None, event=True):
        if self.st.ghost:
            self.sched_point()
        ff = self.freeze(f)
        if ff[0] == "op" and ff[1] == "attr" and ff[3] in ("close", "aclose") and not args and self.finished(ff[2]):
            return NONE if ff[3] == "close" else op("done")
        if ff[0] == "op" and ff[1] == "attr" and ff[2][0] == "op" and ff[2][1] in BUILTIN_VALUES:
            raise Imprecise("method of a built-in value of unknown contents")
        if self.effects is not None and ff[0] == "op" and ff[1] == "attr" and ff[3] in MUTATORS:
            self.note_write(("mutate", ff[2], ff[3]))
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple(sorted((n, self.freeze(v)) for n, v in kwargs.items() if n != "**"))
        if kwargs.get("**"):
            fk = fk + tuple(("**", self.freeze(x)) for x in kwargs["**"])
        base = (ff, fa, fk, self.scope)
        n = self.st.occ.get(base, 0)
        self.st.occ[base] = n + 1
        t = ("app", ff, fa, fk, (self.scope, n))
        settype(t, ret if ret is not None else fn_ret(self.ty(f)))
        if event:
            self.event(("call", t))
        if self.try_depth:
            if self.fork_atom(("raises", t)):
                raise RaiseSig(("exsym", t))
        return t

    def bind_args(self, fi, f, args, kwargs):
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        # leading splats over fixed parameters
        i = 0
        while args and i < len(pos):
            if args[0][0] == "spl":
                src = args[0][1]
                ty = self.ty(src)
                if isinstance(ty, tuple) and ty[0] == "tupN":
                    args[0:1] = [op("item", src, K(j)) for j in range(len(ty[1]))]
                    continue
                ndef = len(pos) - i - len(f[3])
                need = len(pos) - i
                if a.vararg is None and len(args) == 1 and need >= 1:
                    # arity of the splat is fixed by the callee
                    args[0:1] = [op("item", src, K(j)) for j in range(need if not f[3] else max(ndef, 1))]
                    continue
                raise Imprecise("splat over fixed parameters")
            out[pos[i]] = args.pop(0)
            i += 1
        if args:
            if a.vararg:
                out[a.vararg.arg] = mk_tup(args)
            else:
                if len(args) == 1 and args[0][0] == "spl":
                    pass
                else:
                    self.raise_("TypeError")
        elif a.vararg:
            out[a.vararg.arg] = ("tup", ())
        kw = dict(kwargs)
        dspl = kw.pop("**", [])
        extra = []
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        posonly = {p.arg for p in a.posonlyargs}
        for n, v in kw.items():
            if n in names and n not in posonly:
                if n in out:
                    self.raise_("TypeError")
                out[n] = v
            elif a.kwarg:
                extra.append((K(n), v))
            else:
                self.raise_("TypeError")
        if dspl and not a.kwarg:
            raise Imprecise("** into fixed parameters")
        if a.kwarg:
            out[a.kwarg.arg] = self.new("dict", {"d": tuple(extra) + tuple(("dspl", x) for x in dspl)})
        nd = len(f[3])
        for j, n in enumerate(pos):
            if n not in out:
                di = j - (len(pos) - nd)
                if di >= 0:
                    out[n] = f[3][di]
                else:
                    self.raise_("TypeError")
        for j, p in enumerate(a.kwonlyargs):
            if p.arg not in out:
                if f[4][j] is None:
                    self.raise_("TypeError")
                out[p.arg] = f[4][j]
        return out

    def new_frame(self, fi, f, bound, parent):
        ref = self.new("frame", dict(bound), {"locals": fi.locals, "parent": parent, "qual": fi.qual})
        self.st.heap[ref[1]].pre = False
        return ref[1]

    def call_closure(self, f, args, kwargs):
        fi = self.fid[f[1]]
        fkey = (f[1], f[2])
        if fi.qual in SPEC_BUILTINS:
            return self.call_builtin(fi.qual, args, kwargs)
        ct = self.contracts.get(fi.qual)
        if ct is not None and (not self.entry or any(self.fid[k[0]].qual in self.contracts for k, _, _ in self.stack)):
            bound = self.bind_args(fi, f, args, kwargs)
            a = fi.node.args
            vals = [bound[p.arg] for p in a.posonlyargs + a.args + a.kwonlyargs]
            self.visited[fi.qual] = self.visited.get(fi.qual, 0) + 1
            return self.contract_call(ct, fi, vals)
        if f[1] in self.opaque_rec and f[1] not in self.force_set:
            ret = self.types.annot(fi.mod, getattr(fi.node, "returns", None))
            bound = self.bind_args(fi, f, args, kwargs)
            a = fi.node.args
            order = [p.arg for p in a.posonlyargs + a.args]
            if a.vararg or a.kwarg:
                raise Imprecise("recursive variadic function")
            vals = [bound[n] for n in order] + [bound[p.arg] for p in a.kwonlyargs]
            self.lazies.append((f, self.st.copy()))
            rt = ("rec", f[1], self.side, len(self.lazies) - 1)
            return self.opaque_rec_call(rt, f, vals, ret)
        if f[1] in self.opaque_rec:
            self.force_set.discard(f[1])
        bound = self.bind_args(fi, f, args, kwargs)
        same = [b for (k, b, _) in self.stack if k == fkey]
        if len(same) >= self.deep and not (fi.mod.startswith("specs.") and not getattr(fi.node, "name", "spec_").startswith("spec_") and len(same) < 30):
            born = next(m for (k, b, m) in self.stack if k == fkey)      # objects that already existed then
            sig = lambda b: tuple(sorted((n, v) for n, v in b.items() if is_k(v) and isinstance(v[2], int)  # noqa: E731
                                         or v[0] == "ref" and v[1] < born))
            if len(same) > 12 or not all(sig(b) != sig(bound) for b in same):
                raise RecDetected(f[1])
        if len(self.stack) > 120:
            raise RecDetected(f[1]) if same else Imprecise("call depth")
        q = fi.qual
        self.visited[q] = self.visited.get(q, 0) + 1
        parent = f[2][1] if f[2] is not None else None
        frame = self.new_frame(fi, f, bound, parent)
        cls = fi.cls
        selfv = None
        pa = fi.node.args.posonlyargs + fi.node.args.args
        if cls is not None and pa:
            selfv = bound[pa[0].arg]
        act = Act(frame, fi, cls, fi.mod, selfv=selfv)
        if fi.is_gen:
            return self.new("gen", {"state": "new"}, {"act": act, "fi": fi, "async": fi.is_async})
        if fi.is_async:
            return self.new("coro", {"state": "new"}, {"act": act, "fi": fi, "fkey": fkey, "bound": bound})
        return self.run_body(fi, act, fkey, bound)

    def contract_call(self, ct, fi, vals):
        name, node = ct
        if name.startswith("spec_"):
            ret = self.types.annot(self.prog.funcs[id(node)].mod, node.returns) if node.returns else self.types.annot(fi.mod, getattr(fi.node, "returns", None))
            return self.opaque_call(op("contract", name), vals, {}, ret)
        return self.call(self.closure(node, None, None), vals, {})

    def opaque_rec_call(self, rt, f, vals, ret):
        fa = tuple(self.freeze(a) for a in vals)
        base = (("rec", rt[1]), fa, self.scope)
        n = self.st.occ.get(base, 0)
        self.st.occ[base] = n + 1
        t = ("app", rt, fa, (), (self.scope, n))
        settype(t, ret)
        self.event(("call", t))
        return t

    def run_body(self, fi, act, fkey, bound):
        self.stack.append((fkey, bound, self.st.next))
        depth = len(self.stack)
        try:
            if isinstance(fi.node, ast.Lambda):
                return self.eval(fi.node.body, act)
            self.block(fi.node.body, act)
            return NONE
        except RetSig as s:
            if s.act is act:
                return s.v
            raise
        finally:
            del self.stack[depth - 1:]

    def instantiate(self, c, args, kwargs):
        q = c[1]
        self.visited[q] = self.visited.get(q, 0) + 1
        if ("dyn", q, "__init__") in self.st.globals:
            obj = self.new("obj", {}, q)
            self.call(self.class_member(q, "__init__", obj), args, kwargs)
            return obj
        u = self.prog.union_cases(q)
        if u and not any(self.prog.classes[x].methods.get("__init__") for x in self.prog.mro(q) if x in self.prog.classes):
            kw = {n: v for n, v in kwargs.items()}
            if kw.get("**"):
                ds = kw.pop("**")
                if len(ds) == 1 and not kw and ds[0][0] == "op" and ds[0][1] == "dict1":
                    raise Imprecise("dynamic union construction")
                raise Imprecise("dynamic union construction")
            kw.pop("**", None)
            tag = kw.pop("tag", None)
            if args:
                self.raise_("TypeError")
            if len(kw) != 1:
                self.raise_("TypeError")
            (n, v), = kw.items()
            if n not in u[1]:
                self.raise_("TypeError")
            if tag is not None and not (is_k(tag) and tag[2] is None) and not self.eq_decide(tag, K(n)):
                self.raise_("TypeError")
            return ("un", q, n, v)
        mro = self.prog.mro(q)
        if any(builtin_exn(x.split(".")[-1]) for x in mro if x not in self.prog.classes):
            return ("exn", c, tuple(args))
        if self.prog.is_enum(q):
            return op("enumof", q, *[self.freeze(a) for a in args])
        obj = self.new("obj", {}, q)
        m = self.prog.find_method(q, "__init__")
        if m:
            self.call(("bound", self.closure(m[1], None, m[0]), obj), args, kwargs)
        elif self.prog.is_dataclass(q) or any(self.prog.is_dataclass(x) for x in mro if x in self.prog.classes):
            fields = self.prog.dataclass_fields(q)
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            for n in fields:
                if n not in vals:
                    d = self.prog.find_attr(q, n)
                    if not d:
                        self.raise_("TypeError")
                    vals[n] = self.eval(d[1], Act(None, None, None, d[0].mod))
            if len(args) > len(fields):
                self.raise_("TypeError")
            self.rec(obj).f.update({n: vals[n] for n in fields})
            pi = self.prog.find_method(q, "__post_init__")
            if pi:
                self.call(("bound", self.closure(pi[1], None, pi[0]), obj), [], {})
        elif args or kwargs:
            ext = [x for x in mro if x not in self.prog.classes and x.split(".")[0] not in ("typing", "abc", "collections", "typing_extensions")]
            if ext:
                self.rec(obj).f["__base__"] = ("tup", tuple(args))
            else:
                self.raise_("TypeError")
        return obj

    # ------------------------------------------------------------ iteration
    def materialise(self, v):
        """tuple(v): all elements in order."""
        if v[0] == "tup":
            return v
        ty = self.ty(v) if v[0] not in ("ref", "un") else None
        if v[0] == "ref" and self.kind(v) in ("list", "set"):
            return ("tup", self.rec(v).f["items"])
        if v[0] == "ref" and self.kind(v) == "view":
            from . import bmodel
            return bmodel.view_items(self.rec(self.rec(v).f["of"]).f["d"], self.rec(v).meta)
        out = self.new("list", {"items": ()})

        def add(x):
            r = self.rec(out)
            r.f["items"] = r.f["items"] + (x,)
        self.iterate(v, add)
        return ("tup", self.rec(out).f["items"])

    def as_items(self, v):
        return self.materialise(v)[1]

    def iterate(self, v, fn, asyn=False):
        self.tick()
        k = v[0]
        if k == "tup":
            for it in v[1]:
                if it[0] == "spl":
                    self.iterate(it[1], fn)
                else:
                    fn(it)
            return NONE
        if k == "k":
            if v[1] == "str":
                for ch in v[2]:
                    fn(K(ch))
                return NONE
            self.raise_("TypeError")
        if k == "un":
            return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}), fn)
        if k == "ref":
            r = self.rec(v)
            if self.live and r.kind in ("list", "dict", "view"):
                return self.iterate_live(v, fn)
            if r.kind in ("list", "set"):
                return self.iterate(("tup", r.f["items"]), fn)
            if r.kind == "dict":
                return self.iterate(self.dict_keys(v), fn)
            if r.kind == "gen":
                return self.run_gen(v, fn)
            if r.kind == "genexp":
                return self.run_genexp(v, fn)
            if r.kind == "iter":
                src, pos = r.f["src"], r.f["pos"]
                if pos == "end":
                    return NONE
                if pos == "lost":
                    raise Imprecise("an iterator left in the middle")
                if src[0] == "tup" and is_k(pos) and not any(x[0] == "spl" for x in src[1]):
                    for i in range(pos[2], len(src[1])):
                        self.rec(v).f["pos"] = K(i + 1)
                        fn(src[1][i])
                    self.rec(v).f["pos"] = "end"
                    return NONE
                if pos != K(0):
                    src = self.slice(src, pos, NONE, NONE)
                r.f["pos"] = "end"
                try:
                    return self.iterate(src, fn)
                except Sig:
                    if v[1] in self.st.heap:
                        self.rec(v).f["pos"] = "lost"
                    raise
            if r.kind == "obj":
                nm = "__aiter__" if asyn and self.prog.find_method(r.meta, "__aiter__") else "__iter__"
                if self.prog.find_method(r.meta, nm):
                    it = self.call(self.getattr(v, nm), [], {})
                    if it == v:
                        return self.iterate_next(v, fn)
                    return self.iterate(it, fn, asyn)
                if self.prog.find_method(r.meta, "__next__"):
                    return self.iterate_next(v, fn)
            raise Imprecise(f"iteration over {r.kind}")
        if k in ("s", "app", "op", "elem", "st", "fin"):
            ui = self.union_info(v)
            if ui:
                return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}), fn)
            ty = self.ty(v)
            if isinstance(ty, tuple) and ty[0] == "cls":
                for nm in ("__aiter__", "__iter__"):
                    if self.prog.find_method(ty[1], nm):
                        return self.iterate(self.call(self.getattr(v, nm), [], {}), fn, asyn)
            if isinstance(ty, tuple) and ty[0] == "tupN":
                return self.iterate(self.seq_view(v), fn)
            its = range_items(v)
            if its is not None and not is_k(v[2]):
                for i in its:
                    fn(i)
                return NONE
            if v[0] == "op" and v[1] == "range" and all(is_k(x) for x in v[2:]):
                rg = range(*[x[2] for x in v[2:]])
                if len(rg) <= (400 if self.in_global else 64):
                    for i in rg:
                        fn(K(i))
                    return NONE
            if v[0] == "op" and v[1] == "range":
                r = self.range_loop(v, fn)
                if r:
                    return NONE
            self.abstract_loop("for", v, fn)
            return NONE
        if k in ("clo", "bound", "partial", "mod"):
            self.raise_("TypeError")
        raise Imprecise(f"iteration over {k}")

    def range_loop(self, v, fn):
        """for i in range(len(xs)) is iteration over xs with a position counter."""
        lo, hi, step = v[2], v[3], v[4]
        if lo == K(0) and step == K(1) and hi[0] == "op" and hi[1] == "len":
            src = hi[2]
            cell = self.new("cell", {"i": K(0)})

            def once(e):
                i = self.rec(cell).f["i"]
                self.st.over[("item", src, i)] = e
                fn(i)
                self.rec(cell).f["i"] = lin_add(self.rec(cell).f["i"], K(1))
            self.abstract_loop("for", src, once)
            return True
        return False

    live = False

    def iterate_live(self, v, fn):
        """iteration of a mutable container that the body may change"""
        def now():
            r = self.rec(v)
            if r.kind == "list":
                xs = r.f["items"]
            else:
                how = "keys" if r.kind == "dict" else r.meta
                d = self.rec(r.f["of"] if r.kind == "view" else v).f["d"]
                if any(a == "dspl" for a, _ in d):
                    raise Imprecise("live iteration")
                xs = tuple(a if how == "keys" else b if how == "values" else ("tup", (a, b)) for a, b in d)
            if any(x[0] == "spl" for x in xs):
                raise Imprecise("live iteration")
            return xs
        is_list = self.kind(v) == "list"
        n, i = len(now()), 0
        while True:
            self.tick()
            xs = now()
            if not is_list and len(xs) != n:
                self.raise_("RuntimeError")
            if i >= len(xs):
                return NONE
            i += 1
            fn(xs[i - 1])

    def iterate_next(self, obj, fn):
        tok = object()

        def once(_):
            try:
                self.try_depth += 0
                x = self.call(self.getattr(obj, "__next__"), [], {})
            except RaiseSig as s:
                if s.exn[0] == "exn" and "StopIteration" in self.exn_mro(s.exn[1]):
                    raise BreakSig(tok)
                raise
            fn(x)
        try:
            if self.deep > 3:
                for _ in range(24):
                    once(None)
                raise Imprecise("long iteration")
            self.abstract_loop("while", None, once)
        except BreakSig as s:
            if s.tok is not tok:
                raise
        return NONE

    def run_gen(self, g, fn):
        r = self.rec(g)
        if r.f["state"] == "done":
            return NONE
        if r.f["state"] == "thread":
            while True:
                self.tick()
                try:
                    x = self.step_gen(g)
                except RaiseSig as s:
                    if s.exn[0] == "exn" and {"StopIteration", "StopAsyncIteration"} & set(self.exn_mro(s.exn[1])):
                        return s.exn[2][0] if s.exn[2] else NONE
                    raise
                fn(x)
        if r.f["state"] != "new":
            raise Imprecise("resuming a partially consumed generator")
        r.f["state"] = "done"
        src = r.meta["act"]
        act = Act(src.frame, src.fi, src.cls, src.mod, selfv=src.selfv)
        act.on_yield = fn
        fi = r.meta["fi"]
        saved_stack = self.stack
        return self.run_body(fi, act, (self._keys[id(fi.node)], ("ref", src.frame)), {})

    def run_genexp(self, g, fn):
        r = self.rec(g)
        if r.f["state"] == "done":
            return NONE
        if r.f["state"] != "new":
            raise Imprecise("resuming a partially consumed generator")
        r.f["state"] = "done"
        e, act = r.meta["node"], r.meta["act"]
        self.comp(e, act, lambda a: fn(self.eval(e.elt, a)), first=r.f["first"])
        return NONE

    def first(self, v):
        """First element of a lazy producer: (found, value)."""
        tok = object()

        def stop(x):
            raise PullStop(tok, x)
        try:
            self.iterate(v, stop)
        except PullStop as s:
            if s.tok is tok:
                return True, s.v
            raise
        return False, None

    def steps(self, r):
        """a generator without loops, used where it can be continued later"""
        if self.nesting != 1 or self.scope is not None or self.in_global:
            return False
        return not any(isinstance(x, (ast.For, ast.AsyncFor, ast.While)) for x in ast.walk(r.meta["fi"].node))

    def next_(self, it, default=None, has_default=False):
        def stop():
            if has_default:
                return default
            self.raise_("StopIteration")
        if it[0] == "ref":
            r = self.rec(it)
            self.nexts.append(it[1])
            if "feed" in r.f:
                x = r.f["feed"]
                if x is None:
                    raise NoDrive
                r.f["feed"] = None
                return x
            if r.kind == "iter":
                src, pos = r.f["src"], r.f["pos"]
                if pos == "end":
                    return stop()
                if pos == "lost":
                    raise Imprecise("an iterator left in the middle")
                ln = length(src)
                if self.peel is not None and is_k(pos):
                    self.pull(src, pos[2])
                if self.test_lin(ln, pos, "<="):
                    r.f["pos"] = "end" if is_k(pos) else pos
                    return stop()
                self.rec(it).f["pos"] = lin_add(pos, K(1))
                return self.item(src, pos)
            if r.kind == "obj":
                try:
                    return self.call(self.getattr(it, "__next__"), [], {})
                except RaiseSig as s:
                    if has_default and s.exn[0] == "exn" and "StopIteration" in self.exn_mro(s.exn[1]):
                        return default
                    raise
            if r.kind == "gen" and (r.f["state"] == "thread" or r.f["state"] == "new" and self.steps(r)):
                try:
                    return self.step_gen(it)
                except RaiseSig as s:
                    if has_default and s.exn[0] == "exn" and {"StopIteration", "StopAsyncIteration"} & set(self.exn_mro(s.exn[1])):
                        return default
                    raise
            if r.kind in ("gen", "genexp"):
                if r.f["state"] == "done":
                    return stop()
                g = r.meta["node"].generators if r.kind == "genexp" else ()
                if len(g) == 1 and not g[0].ifs and not g[0].is_async and r.f["state"] == "new":
                    # one element of the source for each element of the result
                    inner = self.iter_(r.f["first"])
                    if inner[0] == "ref" and self.kind(inner) in ("iter", "obj", "genexp"):
                        self.rec(it).f["first"] = inner
                        end = ("k", "end", "end")
                        x = self.next_(inner, end, True)
                        if x is end:
                            self.rec(it).f["state"] = "done"
                            return stop()
                        a = self.comp_act(r.meta["node"], r.meta["act"])
                        self.assign(g[0].target, x, a)
                        return self.eval(r.meta["node"].elt, a)
                ok, v = self.first(it)
                if not ok:
                    return stop()
                self.rec(it).f["state"] = "partial"
                return v
            raise Imprecise(f"next of {r.kind}")
        key = ("iterof", it)
        if key in self.st.over:
            return self.next_(self.st.over[key], default, has_default)
        ref = self.new("iter", {"src": it, "pos": K(0)})
        self.st.over[key] = ref
        return self.next_(ref, default, has_default)

    def iter_(self, v):
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind in ("iter", "gen", "genexp"):
                return v
            if r.kind in ("list", "set"):
                return self.new("iter", {"src": ("tup", r.f["items"]), "pos": K(0)})
            if r.kind == "dict":
                return self.new("iter", {"src": self.dict_keys(v), "pos": K(0)})
            if r.kind == "obj":
                if self.prog.find_method(r.meta, "__iter__"):
                    return self.call(self.getattr(v, "__iter__"), [], {})
                return v
        if v[0] == "un" or self.union_info(v):
            return self.call(self.getattr(v, "__iter__"), [], {})
        ty = self.ty(v)
        if isinstance(ty, tuple) and ty[0] == "cls" and self.prog.find_method(ty[1], "__iter__"):
            return self.call(self.getattr(v, "__iter__"), [], {})
        return self.new("iter", {"src": v, "pos": K(0)})

    def dict_keys(self, v):
        r = self.rec(v)
        return ("tup", tuple(("spl", op("keys", b)) if a == "dspl" else a for a, b in r.f["d"]))

    # ------------------------------------------------------------ loops
    def snapshot_locs(self, st):
        out = {}
        for i, r in st.heap.items():
            for n, v in r.f.items():
                out[(i, n)] = v
        for n, v in st.over.items():
            if n[0] not in ("item",):
                out[("over", n)] = v
        return out

    def get_loc(self, st, loc):
        if loc[0] == "over":
            return st.over.get(loc[1])
        return st.heap[loc[0]].f.get(loc[1])

    def set_loc(self, st, loc, v):
        if loc[0] == "over":
            st.over[loc[1]] = v
        else:
            if loc[1] == "d" and v and isinstance(v[0], str) and st.heap[loc[0]].kind == "dict":
                raise Imprecise("a dictionary changed in a loop")
            st.heap[loc[0]].f[loc[1]] = v

    def seqloc(self, loc, v):
        """list contents are carried as sequence valued states"""
        return loc[0] != "over" and loc[1] == "items" and isinstance(v, tuple) and (not v or isinstance(v[0], tuple))

    # ------------------------------------------------------------ size partitions
    def pull(self, src, j):
        if self.demand and src[0] in ("s", "app", "op", "elem") and isinstance(self.ty(src), tuple) and self.ty(src)[0] in ("iter", "aiter"):
            self.opaque_call(S("next element of " + src[1]) if src[0] == "s" else op("pull", src), [K(j)], {})

    def peel_loop(self, kind, src, once):
        """Trace partitioning by size: the sources have 0 .. peel elements; larger ones are left to the fixpoint."""
        def turn(e):
            try:
                once(e)
            except ContSig as c:
                if c.tok is not once:
                    raise
        if kind == "while":
            for _ in range(self.peel + 3):
                turn(None)
            raise CutSig(len(self.st.events))
        src = self.freeze(src)
        if src[0] == "op" and src[1] == "range":
            i, hi, st = src[2], src[3], src[4]
            up = self.test_lin(K(1), st, "<=")
            if not up and not self.test_lin(st, K(-1), "<="):
                self.raise_("ValueError")
            for _ in range(self.peel + 2):
                if not (self.test_lin(i, hi, "<") if up else self.test_lin(hi, i, "<")):
                    return
                turn(i)
                i = lin_add(i, st)
            raise CutSig(len(self.st.events))
        if src[0] == "op" and src[1] == "pairwise" and src[2][0] != "tup":
            p, prev = src[2], None
            for j in range(self.peel + 1):
                self.pull(p, j)
                if self.test_lin(length(p), K(j), "<="):
                    return
                e = self.peel_item(p, j)
                if prev is not None:
                    turn(("tup", (prev, e)))
                prev = e
            raise CutSig(len(self.st.events))
        if src[0] == "op" and src[1] in ("reversed", "pairwise"):
            t = self.materialise(src[2])
            if any(x[0] == "spl" for x in t[1]):
                raise Imprecise("source of unknown size")
            its = t[1][::-1] if src[1] == "reversed" else [("tup", p) for p in zip(t[1], t[1][1:])]
            for x in its:
                turn(x)
            return
        parts = src[2:] if src[0] == "op" and src[1] == "zip" else (src,)
        start = {}
        for p in parts:
            if p[0] == "op" and p[1] == "slice" and is_k(p[3]) and type(p[3][2]) is int and p[3][2] >= 0 and p[4] == p[5] == NONE:
                start[p] = p[3][2]
        for j in range(self.peel + 1):
            es = []
            for p in parts:
                if p in start:
                    b, i = p[2], start[p] + j
                    self.pull(b, i)
                    if self.test_lin(length(b), K(i), "<="):
                        return
                    es.append(self.peel_item(b, i))
                    continue
                if p[0] == "tup":
                    if j >= len(p[1]):
                        return
                    if any(x[0] == "spl" for x in p[1]):
                        raise Imprecise("source of unknown size")
                    es.append(p[1][j])
                    continue
                if p[0] == "op" and p[1] == "bin":
                    raise Imprecise("size of the result of an operator")
                self.pull(p, j)
                if self.test_lin(length(p), K(j), "<="):
                    return
                es.append(self.peel_item(p, j))
            turn(("tup", tuple(es)) if src[0] == "op" and src[1] == "zip" else es[0])
        raise CutSig(len(self.st.events))

    def peel_item(self, p, j):
        e = self.item_opaque(p, K(j))
        return self.expand(e)

    def expand(self, t):
        """A sequence of unknown length as the tuple of its elements, partitioned by length."""
        if self.peel is None or t[0] not in ("s", "app", "op"):
            return t
        ty = self.ty(t)
        if t[0] == "op" and t[1] == "bin":
            raise Imprecise("size of the result of an operator")
        if ty == "tuple" or isinstance(ty, tuple) and ty[0] == "seq":
            for j in range(self.peel + 1):
                if self.test_lin(length(t), K(j), "=="):
                    return ("tup", tuple(self.expand(self.item_opaque(t, K(i))) for i in range(j)))
            raise Infeasible
        return t

    def pin(self, b, n):
        """A slice bound of a sequence of n elements as a constant (partitioned)."""
        if is_k(b):
            return b
        if self.test_lin(K(n), b, "<="):
            return K(n)
        if self.test_lin(b, K(-n), "<="):
            return K(0) if True else b
        for c in range(-n + 1, n):
            if self.test_lin(b, K(c), "=="):
                return K(c)
        raise Infeasible

    # ------------------------------------------------------------ shapes of loop-carried values
    def shape_of(self, v, st, depth=0):
        """L leaf, S contents of a list record, un/obj/list: known constructor with carried parts"""
        if not isinstance(v, tuple) or not v or depth > 4:
            return "L"
        if v[0] == "un":
            return ("un", v[1], v[2], self.shape_of(v[3], st, depth + 1))
        if v[0] == "ref":
            r = st.heap[v[1]]
            if r.kind == "obj" and r.meta in self.prog.classes:
                return ("obj", r.meta, tuple((n, self.shape_of(x, st, depth + 1)) for n, x in sorted(r.f.items())))
            if r.kind == "list" and not r.meta:
                its = r.f["items"]
                if its and len(its) <= 3 and not any(x[0] == "spl" for x in its):
                    return ("list", tuple(self.shape_of(x, st, depth + 1) for x in its))
                return ("list", "S")
        return "L"

    def shape_join(self, a, b):
        if a == b:
            return a
        if a[0] == b[0] == "un" and a[1:3] == b[1:3]:
            return a[:3] + (self.shape_join(a[3], b[3]),)
        if a[0] == b[0] == "obj" and a[1] == b[1] and [n for n, _ in a[2]] == [n for n, _ in b[2]]:
            return a[:2] + (tuple((n, self.shape_join(x, y)) for (n, x), (_, y) in zip(a[2], b[2])),)
        if a[0] == b[0] == "list":
            if "S" in (a[1], b[1]) or len(a[1]) != len(b[1]):
                return ("list", "S")
            return ("list", tuple(self.shape_join(x, y) for x, y in zip(a[1], b[1])))
        return "L"

    def shape_leaves(self, sh, v, st):
        if sh in ("L", "S"):
            return [v]
        if sh[0] == "un":
            return self.shape_leaves(sh[3], v[3], st)
        r = st.heap[v[1]]
        if sh[0] == "list":
            if sh[1] == "S":
                return [r.f["items"]]
            return [y for x, v in zip(sh[1], r.f["items"]) for y in self.shape_leaves(x, v, st)]
        out = []
        for n, x in sh[2]:
            out += self.shape_leaves(x, r.f[n], st)
        return out

    @staticmethod
    def shape_slots(sh):
        if sh in ("L", "S"):
            return [sh]
        if sh[0] == "un":
            return Interp.shape_slots(sh[3])
        if sh[0] == "list":
            return ["S"] if sh[1] == "S" else [y for x in sh[1] for y in Interp.shape_slots(x)]
        return [y for _, x in sh[2] for y in Interp.shape_slots(x)]

    def shape_build(self, sh, leaves, st, made=None):
        """leaves is consumed"""
        if sh in ("L", "S"):
            return leaves.pop(0)
        if sh[0] == "un":
            return ("un", sh[1], sh[2], self.shape_build(sh[3], leaves, st, made))
        if sh[0] == "list":
            its = leaves.pop(0) if sh[1] == "S" else tuple(self.shape_build(x, leaves, st, made) for x in sh[1])
            f, meta, kd = {"items": its}, None, "list"
        else:
            f, meta, kd = {n: self.shape_build(x, leaves, st, made) for n, x in sh[2]}, sh[1], "obj"
        i = st.next
        st.next += 1
        st.heap[i] = Rec(kd, f, meta)
        if made is not None:
            made.append((i, dict(f)))
        return ("ref", i)

    def abstract_loop(self, kind, src, once, turns=0, assume=None):
        if self.peel is not None:
            return self.peel_loop(kind, src, once)
        fsrc = self.freeze(src) if src is not None else None
        if fsrc is not None and src in TY:
            settype(fsrc, TY[src])
        oc = ("loop", kind, fsrc, self.scope)
        n = self.st.occ.get(oc, 0)
        key = ("L", kind, fsrc, n, self.scope)
        # a known-empty source
        if fsrc is not None:
            c, items, sgn = self.form(length(fsrc), K(0))
            cur = self.st.facts.get(("lin", items)) if items else None
            if cur is not None and iv_inter(cur, self.implicit(items)) == ((0, 0),):
                return
        if src is not None:
            if fsrc[0] == "op" and fsrc[1] == "zip":
                elem = ("tup", tuple(settype(("elem", key, i), elemtype(x)) for i, x in enumerate(fsrc[2:])))
            elif fsrc[0] == "op" and fsrc[1] == "pairwise":
                elem = ("tup", tuple(settype(("elem", key, i), elemtype(fsrc[2])) for i in range(2)))
            else:
                elem = settype(("elem", key, 0), elemtype(fsrc))
        else:
            elem = None
        base = self.st
        carried = []           # list of locations
        shapes = {}            # location -> shape of the carried value
        tys = {}               # (location, slot) -> type
        outer_scope = self.scope
        rounds = 0
        while True:
            rounds += 1
            if rounds > 14:
                raise Imprecise("loop state does not stabilise")
            st0 = base.copy()
            st0.events = []
            if fsrc is not None and fsrc[0] not in ("op",) or (fsrc is not None and fsrc[1] not in ("zip", "range", "pairwise")):
                self_items = self.form(length(fsrc), K(0))[1]
                if self_items is not None:
                    kk = ("lin", self_items)
                    st0.facts[kk] = iv_inter(iv_inter(st0.facts.get(kk, FULL), self.implicit(self_items)), ((1, None),))
                    if not st0.facts[kk]:
                        return
            slots = []
            made = []
            for loc in carried:
                leaves = []
                for j, sl in enumerate(self.shape_slots(shapes[loc])):
                    sv = ("st", key, (self.side, len(slots)))
                    slots.append((loc, j, sl))
                    if sl == "S":
                        settype(sv, "tuple")
                        leaves.append((("spl", sv),))
                    else:
                        t = tys.get((loc, j), "any")
                        if t != "any":
                            TY[sv] = t
                        else:
                            TY.pop(sv, None)
                        leaves.append(sv)
                n0 = len(made)
                self.set_loc(st0, loc, self.shape_build(shapes[loc], leaves, st0, made))
                made[n0:] = [(loc,) + m for m in made[n0:]]
            start = self.snapshot_locs(st0)
            preids = set(base.heap)
            if assume:
                assume(st0)
            facts0 = dict(st0.facts)
            self.scope = key
            try:
                res = self.explore(lambda: once(elem), st0)
            finally:
                self.scope = outer_scope
            nxt, stop = [], []
            for o in res:
                if o.kind == "val":
                    nxt.append(o)
                elif o.kind == "sig" and isinstance(o.sig, ContSig) and o.sig.tok is once:
                    nxt.append(o)
                else:
                    stop.append(o)
            changed = False
            # a carried value that is modified in place is not rebuilt from its parts
            for loc, i, f in made:
                if shapes[loc] != "L" and any(o.st.heap[i].f != f for o in res):
                    shapes[loc] = "L"
                    changed = True
            if changed:
                continue
            new = []
            for o in nxt:
                end = self.snapshot_locs(o.st)
                for loc, v in end.items():
                    if loc[0] != "over" and loc[0] not in preids:
                        continue
                    if loc in start:
                        if start[loc] != v and loc not in carried and loc not in new:
                            new.append(loc)
            changed = bool(new)
            for loc in carried + new:
                init = self.get_loc(base, loc)
                if self.seqloc(loc, init):
                    if shapes.get(loc) != "S":
                        shapes[loc] = "S"
                        changed = True
                    continue
                sh = shapes[loc] if loc in carried else self.shape_of(init, base)
                sh0 = sh
                for o in nxt:
                    v = self.get_loc(o.st, loc)
                    if v is None:
                        sh = "L"
                    elif sh != "L" and v != start.get(loc):
                        sh = self.shape_join(sh, self.shape_of(v, o.st))
                if sh == "L" and loc in new and sh0[0] in ("obj", "list") and kind == "while" and turns < 1:
                    self.st = base
                    once(elem)
                    return self.abstract_loop(kind, src, once, turns + 1)
                if loc in new or sh != sh0:
                    shapes[loc] = sh
                    changed = True
                    for q in [q for q in tys if q[0] == loc]:
                        del tys[q]
                # types of carried states
                lv = self.shape_leaves(sh, init, base)
                for j, sl in enumerate(self.shape_slots(sh)):
                    if sl == "S":
                        continue
                    t = self.vtype(lv[j])
                    if loc in carried and sh == sh0:
                        for o in nxt:
                            v = self.get_loc(o.st, loc)
                            if v is None:
                                continue
                            v = self.shape_leaves(sh, v, o.st)[j]
                            if v[0] == "st" and v[1] == key:
                                continue
                            t = tjoin(t, self.vtype_in(v, o.st))
                    t = tclose(t)
                    if tys.get((loc, j)) != t:
                        if (loc, j) in tys and tys[(loc, j)] == "any":
                            continue
                        tys[(loc, j)] = t
                        changed = True
            carried.extend(new)
            if not changed:
                break
        if not nxt:
            # the loop never starts a second iteration: a single pull
            if fsrc is not None:
                self.st = base
                if self.test_lin(length(fsrc), K(0), "=="):
                    return
                if isinstance(elem, tuple) and elem[0] == "elem":
                    e0 = self.item_opaque(fsrc, K(0))
                    TYe = TY.get(elem)
                    if TYe:
                        settype(e0, TYe)
                    once(e0)
                else:
                    raise Imprecise("single pull of a compound source")
                return
            once(elem)
            return
        self.loops_summarised += 1
        # ---- summary
        inits = []
        for loc in carried:
            lv = self.shape_leaves(shapes[loc], self.get_loc(base, loc), base)
            inits += [("tup", x) if sl == "S" else x for x, sl in zip(lv, self.shape_slots(shapes[loc]))]
        cases = []
        for o in nxt:
            fd = {a: b for a, b in o.st.facts.items() if facts0.get(a) != b}
            nx = []
            for loc in carried:
                v = self.get_loc(o.st, loc)
                if v is None:
                    nx.append(None)
                    continue
                for x, sl in zip(self.shape_leaves(shapes[loc], v, o.st), self.shape_slots(shapes[loc])):
                    nx.append(self.freeze_in(mk_tup(x) if sl == "S" else x, o.st))
            cases.append({"facts": fd, "events": tuple(o.st.events), "next": nx, "ctl": "next", "loops": o.st.loops,
                          "refine": o.st.refine})
        for o in stop:
            fd = {a: b for a, b in o.st.facts.items() if facts0.get(a) != b}
            cases.append({"facts": fd, "events": tuple(o.st.events), "next": None, "ctl": "stop", "loops": o.st.loops,
                          "refine": o.st.refine})
        finits = [self.freeze_in(v, base) for v in inits]
        # states that never change are dropped; pure copies collapse
        pure = all(not c["events"] for c in cases)
        single = len(cases) == 1
        fins = []
        needed = False
        for i, (loc, j, sl) in enumerate(slots):
            nxs = [c["next"][i] for c in cases if c["ctl"] == "next"]
            sv = ("st", key, (self.side, i))
            if all(x == sv or x == ("tup", (("spl", sv),)) for x in nxs):
                fins.append(inits[i])
                continue
            if single and fsrc is not None and nxs[0] == ("tup", (("spl", sv), elem)) and elem[0] == "elem":
                fins.append(mk_tup(tuple(inits[i][1]) + (("spl", src),)))
                continue
            needed = True
            fv = ("fin", key, (self.side, i))
            if fsrc is not None and kind == "for":
                ks = set()
                for x in nxs:
                    its = x[1] if x[0] == "tup" else ()
                    spl = [y for y in its if y[0] == "spl"]
                    ks.add(len(its) - 1 if spl == [("spl", sv)] else None)
                if len(ks) == 1 and None not in ks:
                    LEN[fv] = lin_add(length(finits[i]), lin_mul(length(fsrc), ks.pop()))
            if sl == "S":
                settype(fv, "tuple")
                fins.append(("tup", (("spl", fv),)))
            else:
                settype(fv, tys.get((loc, j), "any"))
                fins.append(fv)
        record = {"key": key, "src": fsrc, "inits": finits, "cases": cases, "names": [self.locname(base, l) for l, _, _ in slots],
                  "tys": [("tuple" if sl == "S" else tys.get((l, j), "any")) for l, j, sl in slots],
                  "pure": pure and not stop}
        self.st = base
        if not pure or stop or needed:
            base.occ[oc] = n + 1
            base.loops[key] = record
            if not pure or stop:
                self.event(("loop", key))
        nexits = len(stop) + (1 if kind == "for" else 0)
        if nexits == 0:
            raise DivergeSig()
        c = self.choose(nexits) if nexits > 1 else 0
        if kind == "for":
            if c == 0:
                if stop:
                    base.facts[("exit", key)] = "done"
                for loc in carried:
                    lv = []
                    for (l, _, sl), fv in zip(slots, fins):
                        if l == loc:
                            lv.append((fv[1] if fv[0] == "tup" else (("spl", fv),)) if sl == "S" else fv)
                    self.set_loc(base, loc, self.shape_build(shapes[loc], lv, base))
                # names bound only inside the loop have no usable value afterwards
                for o in nxt:
                    for loc in self.snapshot_locs(o.st):
                        if loc[0] != "over" and loc[0] in preids and loc not in start and base.heap[loc[0]].kind == "frame":
                            base.heap[loc[0]].f.setdefault(loc[1], None)
                return
            c -= 1
        o = stop[c]
        st = o.st.copy()
        st.events = base.events + st.events
        st.loops.update(base.loops)
        st.occ[oc] = n + 1
        st.facts[("exit", key)] = "stop"
        self.st = st
        raise o.sig

    def locname(self, st, loc):
        return str(loc[1]) if loc[0] != "over" else "over"

    def vtype(self, v):
        if v is None or v == "end" or not isinstance(v, tuple) or (v and isinstance(v[0], tuple)) or v == ():
            return "any"
        if v[0] == "ref":
            r = self.rec(v)
            return ("cls", r.meta) if r.kind == "obj" and r.meta in self.prog.classes else "any"
        if v[0] == "clo":
            fi = self.fid[v[1]]
            if not fi.is_gen and not fi.is_async and not isinstance(fi.node, ast.Lambda):
                return ("fn", self.types.annot(fi.mod, fi.node.returns))
            return ("fn", "any")
        if v[0] == "un":
            p = self.vtype(v[3])
            return ("u", v[1]) + ((p, None) if v[2] in ("ok", "some") else (None, p))
        if v[0] == "tup" and len(v[1]) == 2 and not any(x[0] == "spl" for x in v[1]):
            return ("tupN", tuple(self.vtype(x) for x in v[1]))
        return self.ty(v)

    def vtype_in(self, v, st):
        sv, self.st = self.st, st
        try:
            return self.vtype(v)
        finally:
            self.st = sv

    def freeze_in(self, v, st):
        if v == "end" or not isinstance(v, tuple):
            return K(str(v))
        if v and isinstance(v[0], tuple) or v == ():
            v = ("tup", v)
        sv, self.st = self.st, st
        try:
            return self.freeze(v)
        finally:
            self.st = sv

    # ------------------------------------------------------------ statements
    def block(self, body, act):
        for s in body:
            self.stmt(s, act)

    def stmt(self, s, act):
        self.tick()
        if act.fi is not None:
            self.st.lastpos = (act.fi.qual, getattr(s, "lineno", 0), act.mod)
        getattr(self, "x_" + type(s).__name__, self.x_unknown)(s, act)

    def x_unknown(self, s, act):
        raise Imprecise(f"statement {type(s).__name__}")

    def x_Expr(self, s, act):
        self.eval(s.value, act)

    def x_Pass(self, s, act):
        pass

    def x_Return(self, s, act):
        v = self.eval(s.value, act) if s.value is not None else NONE
        self.st.lastpos = (act.fi.qual if act.fi else "", s.lineno, act.mod)
        raise RetSig(act, v)

    def x_Assign(self, s, act):
        v = self.eval(s.value, act)
        for t in s.targets:
            self.assign(t, v, act)

    def x_AnnAssign(self, s, act):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, act), act)

    def x_AugAssign(self, s, act):
        load = ast.copy_location(self.as_load(s.target), s.target)
        cur = self.eval(load, act)
        rhs = self.eval(s.value, act)
        if cur[0] == "ref" and self.kind(cur) == "list" and isinstance(s.op, ast.Add):
            self.call_method("list.extend", cur, [rhs], {})
            return
        self.assign(s.target, self.binop(s.op, cur, rhs), act)

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        raise Imprecise("augmented target")

    def x_If(self, s, act):
        if self.cond(s.test, act):
            self.block(s.body, act)
        else:
            self.block(s.orelse, act)

    def x_Assert(self, s, act):
        if not self.cond(s.test, act):
            self.raise_("AssertionError")

    def x_FunctionDef(self, s, act):
        v = self.closure(s, act, None)
        v = self.decorate(v, s, act)
        self.store(s.name, v, act)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, act):
        self.store(s.name, ("cls", self.prog.class_by_node[id(s)].qual), act)

    def x_Import(self, s, act):
        for al in s.names:
            top = al.name if al.asname else al.name.split(".")[0]
            self.store(al.asname or top, ("mod", top) if top in self.prog.modules else ("bi", top), act)

    def x_ImportFrom(self, s, act):
        for al in s.names:
            r = self.prog.import_from(act.mod, s.module, s.level, al.name)
            self.store(al.asname or al.name, self.resolved(r), act)

    def x_Global(self, s, act):
        pass

    x_Nonlocal = x_Global

    def x_Raise(self, s, act):
        if s.exc is None:
            if act.exn:
                raise RaiseSig(act.exn[-1])
            raise Imprecise("bare raise")
        v = self.eval(s.exc, act)
        if v[0] in ("cls", "bi"):
            v = self.call(v, [], {})
        if v[0] not in ("exn", "exsym"):
            if v[0] in ("s", "app", "op", "elem", "st", "fin"):
                v = ("exsym", v)
            elif v[0] == "ref":
                v = ("exn", ("cls", self.rec(v).meta), ())
            else:
                raise Imprecise("raise of non exception")
        raise RaiseSig(v)

    def x_Break(self, s, act):
        raise BreakSig(act.loops[-1])

    def x_Continue(self, s, act):
        raise ContSig(act.loops[-1])

    def x_For(self, s, act, asyn=False):
        it = self.eval(s.iter, act)
        tok = None

        def once(e):
            act.loops.append(once)
            try:
                self.assign(s.target, e, act)
                self.block(s.body, act)
            except ContSig as c:
                if c.tok is not once:
                    raise
            finally:
                act.loops.pop()
        try:
            self.iterate(it, once, asyn)
        except BreakSig as b:
            if b.tok is not once:
                raise
            return
        self.block(s.orelse, act)

    def x_AsyncFor(self, s, act):
        self.x_For(s, act, asyn=True)

    def x_While(self, s, act):
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) > 1 and isinstance(s.body[0], ast.If) and \
                not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break):
            # while True: if c: break; ...   is   while not c: ...
            w = self.rotated.get(id(s))
            if w is None:
                t = s.body[0].test
                t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
                w = ast.copy_location(ast.While(t, s.body[1:], []), s)
                self.rotated[id(s)] = (w, s)
            else:
                w = w[0]
            s = w
        if isinstance(s.test, ast.Constant) and not s.test.value:
            self.block(s.orelse, act)
            return
        tok = object()
        body_tok = object()

        def once(_):
            if not self.cond(s.test, act):
                raise BreakSig(tok)
            act.loops.append(body_tok)
            try:
                self.block(s.body, act)
            except ContSig as c:
                if c.tok is not body_tok:
                    raise
            finally:
                act.loops.pop()
            if not isinstance(s.test, ast.Constant):
                # the test of the next iteration, when this iteration already decides it
                n = len(self.st.events)
                r = self.explore(lambda: self.cond(s.test, act), self.st)
                if len(r) == 1 and r[0].kind == "val" and r[0].val is False and len(r[0].st.events) == n:
                    self.st = r[0].st
                    raise BreakSig(tok)
        try:
            for _ in range(400 if self.in_global else self.turns):
                once(None)
            if self.turns and not self.in_global:
                raise Imprecise("long loop")
            n = 0
            while self.gens and self.nesting == 1 and self.scope is None:
                n += 1
                if n > 40:
                    raise Imprecise("many turns of a loop over generators")
                before = self.snapshot(act)
                once(None)              # generators are followed step by step
                if self.repeats(before, self.snapshot(act)):
                    raise RaiseSig(("exn", ("cls", "models.stdlib.sa_RunsForEver"), ()))
            self.count_down(once, s, act)
            if not self.drive(once, s) and not self.drive_index(once, s):
                self.abstract_loop("while", None, once)
        except BreakSig as b:
            if b.tok is body_tok:
                return
            if b.tok is not tok:
                raise
            self.block(s.orelse, act)
            return
        raise Infeasible

    def snapshot(self, act):
        st = self.st
        return (dict(st.heap[act.frame].f), {i: (r.kind, dict(r.f)) for i, r in st.heap.items() if i != act.frame}, len(st.events), dict(st.facts),
                self.gen_steps, dict(st.globals), dict(st.ghost))

    def repeats(self, old, new):
        """a turn of a loop ended in the state it began with: the loop does not end"""
        if old[2:5] != new[2:5] or old[6] != new[6] or set(old[0]) != set(new[0]):
            return False
        if any(new[1].get(i) != r for i, r in old[1].items()) or any(new[5].get(k) != v for k, v in old[5].items()):
            return False
        return all(v == new[0][k] or v is not None and new[0][k] is not None and v[0] != "clo" and self.freeze(v) == self.freeze(new[0][k]) for k, v in old[0].items())

    def count_down(self, once, s, act):
        """A loop whose test is decided by constants is run turn by turn."""
        if isinstance(s.test, ast.Constant) or not isinstance(s.test, (ast.Compare, ast.BoolOp)):
            return
        saved = None
        for n in range(65):
            facts, ev = dict(self.st.facts), len(self.st.events)
            r = self.explore(lambda: self.cond(s.test, act), self.st.copy())
            if len(r) != 1 or r[0].kind != "val" or r[0].st.facts != facts or len(r[0].st.events) != ev:
                break
            if r[0].val is False:
                once(None)              # leaves the loop
            if n == 0:
                if not any(self.st.heap[act.frame].f.get(x.id, NONE)[0] == "k" for x in ast.walk(s.test) if isinstance(x, ast.Name)) if act.frame is not None else True:
                    return
                saved = self.st.copy()
            once(None)
        if saved is not None:
            self.st = saved

    def drive(self, once, s):
        """A while-loop each of whose turns takes one element from one iterator is a pass over that iterator.
        False when the loop has another form."""
        if not any(r.kind in ("iter", "gen", "genexp") for r in self.st.heap.values()) or not any(isinstance(x, ast.Call) for x in ast.walk(s)):
            return False
        base = self.st
        saved = base.copy()
        outer, self.nexts = self.nexts, []
        try:
            res = self.explore(lambda: once(None), base)
        except Imprecise:
            self.st = saved
            return False
        finally:
            order, self.nexts = self.nexts, outer
        nxt = [o for o in res if o.kind == "val"]
        its = []
        for i, r in base.heap.items():
            if r.kind == "iter" and r.f["pos"] not in ("end", "lost") and "feed" not in r.f:
                p = lin_add(r.f["pos"], K(1))
                if nxt and all(o.st.heap[i].f["pos"] == p for o in nxt):
                    its.append(i)
            elif r.kind in ("gen", "genexp") and r.f.get("state") == "new" and "feed" not in r.f:
                if nxt and all(o.st.heap[i].f.get("state") != "new" or r.kind == "genexp" and o.st.heap[i].f["first"] != r.f["first"] for o in nxt):
                    its.append(i)
        if len(its) > 1 and all(i in order for i in its):
            its = [min(its, key=order.index)]       # several iterators in step: the first one asked
        if len(its) != 1:
            self.st = saved
            return False
        it = ("ref", its[0])
        self.st = saved.copy()

        def turn(e):
            self.rec(it).f["feed"] = e
            try:
                once(None)
            except Sig as g:
                if not isinstance(g, (Infeasible, CutSig)) and self.rec(it).f.get("feed") is not None:
                    raise NoDrive
                raise
            if self.rec(it).f["feed"] is not None:
                raise NoDrive
        try:
            self.rec(it).f["feed"] = None
            try:
                self.iterate(it, turn)
            finally:
                if its[0] in self.st.heap:
                    self.rec(it).f.pop("feed", None)
            if self.rec(it).kind == "iter":
                self.rec(it).f["pos"] = "end"
            once(None)
            raise NoDrive
        except NoDrive:
            self.st = saved
            return False

    def drive_index(self, once, s):
        """A while-loop whose turns go through the positions of one sequence, up from the start or down from the end,
        is a pass over that sequence (with a position counter).  False when the loop has another form."""
        if self.peel is not None or not any(isinstance(x, (ast.Subscript, ast.Call)) for x in ast.walk(s)):
            return False
        base = self.st
        saved = base.copy()
        try:
            res = self.explore(lambda: once(None), base)
        except Imprecise:
            self.st = saved
            return False
        nxt = [o for o in res if o.kind == "val" or o.kind == "sig" and isinstance(o.sig, ContSig)]
        quiet = [o for o in res if o.kind == "sig" and isinstance(o.sig, BreakSig) and not o.st.events[len(saved.events):]]
        cands = []
        for loc, v in self.snapshot_locs(saved).items():
            if loc[0] == "over" or not isinstance(v, tuple) or not v or v[0] not in ("k", "op") or not (is_k(v) and type(v[2]) is int or typeof(v) == "int"):
                continue
            for d in (1, -1):
                if nxt and all(self.get_loc(o.st, loc) == lin_add(v, K(d)) for o in nxt):
                    cands.append((loc, v, d))
        srcs = []
        for o in nxt + quiet:
            for k, f in o.st.facts.items():
                if k[0] == "lin" and saved.facts.get(k) != f:
                    for a, _ in k[1]:
                        if a[0] == "op" and a[1] == "len" and a[2] not in srcs:
                            srcs.append(a[2])
        if quiet:
            for loc, v, d in cands:
                for src in srcs:
                    if d == 1 and is_k(v) and v[2] >= 0 or d == -1 and v == lin_add(length(src), K(-1)):
                        self.st = saved.copy()
                        if self.index_pass(once, loc, v, d, src, saved):
                            return True
        self.st = saved
        return False

    def index_pass(self, once, loc, v, d, src, saved):
        if d == 1:
            over = self.slice(src, v, NONE, NONE) if v != K(0) else src
        else:
            over = op("reversed", src)
            settype(over, self.ty(src))
        if over[0] == "tup":
            return False

        def assume(st):
            i = self.get_loc(st, loc)
            keep, self.st = self.st, st
            try:
                if d == 1:
                    self.assume_lin(i, length(src), "<")
                else:
                    self.assume_lin(K(0), i, "<=")
            finally:
                self.st = keep

        def turn(e):
            i = self.get_loc(self.st, loc)
            self.st.over[("item", src, i)] = e
            try:
                once(None)
            except BreakSig as g:
                raise
            except ContSig:
                raise NoDrive
            if self.get_loc(self.st, loc) != lin_add(i, K(d)):
                raise NoDrive
        try:
            self.abstract_loop("for", over, turn, assume=assume)
            self.set_loc(self.st, loc, (lin_add(length(src), K(0)) if d == 1 else K(-1)))
            n = len(self.st.events)
            once(None)
            raise NoDrive
        except NoDrive:
            self.st = saved
            return False

    def x_With(self, s, act):
        self.with_items(s, list(s.items), act, isinstance(s, ast.AsyncWith))

    x_AsyncWith = x_With

    def with_items(self, s, items, act, is_async):
        if not items:
            return self.block(s.body, act)
        item = items[0]
        m = self.eval(item.context_expr, act)
        fm = self.freeze(m)
        enter, leave = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")

        def run(name, args):
            r = self.call(self.getattr(m, name), args, {})
            return self.await_(r) if is_async else r
        known = m[0] == "ref" and self.kind(m) == "obj" and self.prog.find_method(self.rec(m).meta, enter)
        if known:
            v = run(enter, [])
        else:
            self.event(("enter", fm))
            v = op("entered", fm)
        self.try_depth += 1
        try:
            try:
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, act)
                self.with_items(s, items[1:], act, is_async)
            finally:
                self.try_depth -= 1
        except Infeasible:
            raise
        except RaiseSig as sig:
            if not known:
                self.event(("exit", fm))
                raise
            if self.truthy(run(leave, [op("typeof", sig.exn), sig.exn, op("traceback", sig.exn)])):
                return
            raise
        except Sig:
            if known:
                run(leave, [NONE, NONE, NONE])
            else:
                self.event(("exit", fm))
            raise
        if known:
            run(leave, [NONE, NONE, NONE])
        else:
            self.event(("exit", fm))

    # ------------------------------------------------------------ tasks
    # A task's coroutine is interpreted on a thread of its own with strict hand-over, so that it can be
    # suspended at an await and continued later.
    def spawn(self, ref, coro):
        self.tasks[ref[1]] = Coroutine(self, coro)
        self.tasks[ref[1]].ref = ref

    def end_tasks(self):
        for c in self.tasks.values():
            c.kill()
        for c in reversed(list(self.gens.values())):
            c.kill()
        self.tasks = {}
        self.gens = {}
        self.task = self.gen = None

    def run_stepped(self, c):
        r = self.rec(c.coro)
        src, fi = r.meta["act"], r.meta["fi"]
        act = Act(src.frame, src.fi, src.cls, src.mod, selfv=src.selfv)

        def on_yield(x):
            if self.gen is not c or self.nesting != 1 or self.scope is not None:
                raise Imprecise("a generator suspended inside a summarised loop")
            saved = (self.stack, self.try_depth, self.scope, self.task)
            c.suspend(x)
            self.stack, self.try_depth, self.scope, self.task = saved
            if c.throw is not None:
                raise RaiseSig(c.throw)
            return c.sent
        act.on_yield = on_yield
        return self.run_body(fi, act, (self._keys[id(fi.node)], ("ref", src.frame)), {})

    def step_gen(self, ref, sent=NONE, throw=None):
        """continue a generator up to its next yield: the value yielded, or StopIteration"""
        r = self.rec(ref)
        if r.kind != "gen" or self.nesting != 1 or self.scope is not None:
            raise Imprecise("generator stepped inside a summarised loop")
        asyn = bool(r.meta.get("async"))
        c = self.gens.get(ref[1])
        if c is None:
            if r.f["state"] == "partial":
                raise Imprecise("resuming a partially consumed generator")
            if r.f["state"] == "done" or throw is not None:
                r.f["state"] = "done"
                if throw is not None:
                    raise RaiseSig(throw)
                self.raise_("StopAsyncIteration" if asyn else "StopIteration")
            if sent != NONE:
                self.raise_("TypeError")
            if len(self.gens) > 40:
                raise Imprecise("many generators")
            c = self.gens[ref[1]] = Stepped(self, ref)
            c.stack, c.try_depth = list(self.stack), max(self.try_depth, 1)
            r.f["state"] = "thread"
        if c.finished:
            if throw is not None:
                raise RaiseSig(throw)
            self.raise_("StopAsyncIteration" if asyn else "StopIteration")
        if self.gen is c:
            self.raise_("ValueError")
        c.sent = sent
        self.gen_steps += 1
        saved = (self.stack, self.try_depth, self.scope, self.task, self.gen)
        self.stack, self.try_depth, self.gen = c.stack, c.try_depth, c
        try:
            out = c.resume(throw)
        finally:
            self.stack, self.try_depth, self.scope, self.task, self.gen = saved
        if out[0] == "error":
            raise out[1]
        if out[0] == "wait":
            return out[1]
        self.rec(ref).f["state"] = "done"
        if out[0] == "done":
            if asyn:
                self.raise_("StopAsyncIteration")
            raise RaiseSig(("exn", ("bi", "builtins.StopIteration"), () if out[1] == NONE else (out[1],)))
        n = "StopAsyncIteration" if asyn else "StopIteration"
        if out[1][0] == "exn" and n in self.exn_mro(out[1][1]):
            self.raise_("RuntimeError")
        if out[1][0] == "exsym":
            # what leaves a generator is not a StopIteration (it would have become a RuntimeError, a case left out)
            if self.exn_is(out[1], ("bi", "builtins." + n)):
                raise Infeasible
        raise RaiseSig(out[1])

    def step_task(self, ref, throw):
        """run until the next suspension: ('wait', future) | ('done', value) | ('raised', exception)"""
        c = self.tasks.get(ref[1])
        if c is None or self.nesting != 1 or self.task is not None and self.task is c:
            raise Imprecise("task stepped inside a summarised loop")
        if throw and not c.started:
            c.finished = True
            return "raised", ("exn", ("bi", "asyncio.CancelledError"), ())
        saved = (self.stack, self.try_depth, self.scope, self.task)
        self.stack, self.try_depth, self.scope, self.task = c.stack, c.try_depth, self.scope, c
        try:
            out = c.resume(throw)
        finally:
            self.stack, self.try_depth, self.scope, self.task = saved
        if out[0] == "error":
            raise out[1]
        return out

    def await_future(self, v):
        """await of a future or task of the model"""
        pending = lambda: self.rec(v).f["state"] == K("pending")
        if pending():
            if self.task is None:
                self.drain()
                if pending():
                    raise RaiseSig(("exn", ("bi", "builtins.RuntimeError"), (K("waits for ever"),)))
            else:
                if self.nesting != 1 or self.gen is not None:
                    raise Imprecise("suspension inside a summarised loop")
                c = self.task
                saved = (self.stack, self.try_depth)
                throw = c.suspend(v)
                self.stack, self.try_depth = saved
                if throw:
                    raise RaiseSig(("exn", ("bi", "asyncio.CancelledError"), ()))
        return self.call(self.getattr(v, "result"), [], {})

    def drain(self):
        """run the callbacks of the event loop until none is ready"""
        for _ in range(200):
            loop = self.st.ghost.get("loop")
            if loop is None or self.st.ghost.get("stuck"):
                return
            ready = self.rec(self.rec(loop).f["ready"])
            if not ready.f["items"]:
                return
            if ready.f["items"][0][0] != "tup":
                raise Imprecise("event loop with an unknown number of callbacks")
            cb, args = ready.f["items"][0][1]
            ready.f["items"] = ready.f["items"][1:]
            self.call(cb, list(args[1]), {})
        raise Imprecise("event loop does not come to rest")

    # ------------------------------------------------------------ concurrency
    def sched_point(self, task=False):
        """a moment at which another thread (anywhere outside a lock) or task (at an await) may run, at most once per path"""
        g = self.st.ghost
        if g.get("other") is None or g.get("busy") or (not task if g.get("tasks") else g.get("held")):
            return
        n = g["points"] = g.get("points", 0) + 1
        if n > 60:
            raise Imprecise("too many scheduling points")
        if self.fork_atom(("sched", n)):
            self.run_other()

    def run_other(self):
        g = self.st.ghost
        o, g["other"] = g.get("other"), None
        g["busy"] = True
        r = self.call(o, [], {})
        if r[0] == "ref" and self.kind(r) == "coro":
            self.await_(r)
        self.st.ghost["busy"] = False

    def x_Delete(self, s, act):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.heap[act.frame].f.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                v = self.eval(t.value, act)
                i = self.eval_index(t.slice, act)
                self.delitem(v, i)
            elif isinstance(t, ast.Attribute):
                v = self.eval(t.value, act)
                if v[0] == "ref" and self.rec(v).kind == "obj":
                    self.delattr_(v, self.mangle(t.attr, act))
                    continue
                self.event(("delattr", self.freeze(v), t.attr))
            else:
                raise Imprecise("del")

    def delitem(self, v, i):
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind == "dict":
                if r.pre and not self.in_global:
                    self.event(("delitem", self.freeze(v), self.freeze(i)))
                for n, (a, b) in enumerate(r.f["d"]):
                    if a == "dspl":
                        raise Imprecise("dict splat del")
                    if a == i or self.eq_decide(a, i):
                        d = list(r.f["d"])
                        del d[n]
                        r.f["d"] = tuple(d)
                        return
                self.raise_("KeyError")
            if r.kind == "obj":
                self.call(self.getattr(v, "__delitem__"), [i], {})
                return
            if r.kind == "list" and not (r.pre and not self.in_global):
                t = ("tup", tuple(self.freeze(x) for x in r.f["items"]))
                if not (i[0] == "op" and i[1] == "sliceobj"):
                    self.bounds(t, i)
                ks = isinstance(i, tuple) and i[:2] == ("op", "sliceobj") and all(is_k(x) for x in i[2:])
                if (is_k(i) or ks) and not any(x[0] == "spl" for x in t[1]):
                    its = list(r.f["items"])
                    del its[slice(*[x[2] for x in i[2:]]) if ks else i[2]]
                    r.f["items"] = tuple(its)
                    return
                r.f["items"] = (("spl", op("delitem", t, self.freeze(i))),)
                return
            raise Imprecise("del item")
        self.event(("delitem", self.freeze(v), self.freeze(i)))

    def x_Try(self, s, act):
        self.try_depth += 1
        td = self.try_depth
        try:
            try:
                self.block(s.body, act)
            except RaiseSig as r:
                self.try_depth = td - 1 if not s.finalbody else td
                exn = r.exn
                for h in s.handlers:
                    if h.type is None or self.isinstance_(exn, self.eval(h.type, act)):
                        if h.name:
                            self.store(h.name, exn, act)
                        act.exn.append(exn)
                        try:
                            self.block(h.body, act)
                        finally:
                            act.exn.pop()
                        break
                else:
                    raise
            else:
                self.try_depth = td - 1 if not s.finalbody else td
                self.block(s.orelse, act)
        except Infeasible:
            raise
        except Sig as sig:
            self.try_depth = td - 1
            self.block(s.finalbody, act)
            raise
        self.try_depth = td - 1
        self.block(s.finalbody, act)

    def x_Match(self, s, act):
        v = self.eval(s.subject, act)
        for c in s.cases:
            if self.match(c.pattern, v, act):
                if c.guard is None or self.cond(c.guard, act):
                    self.block(c.body, act)
                    return

    def match(self, p, v, act):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, act):
                return False
            if p.name:
                self.store(p.name, v, act)
            return True
        if isinstance(p, ast.MatchValue):
            return self.eq_decide(v, self.eval(p.value, act))
        if isinstance(p, ast.MatchSingleton):
            return self.compare_op("is", v, K(p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, act) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, act)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                if c[0] == "bi":
                    if len(p.patterns) == 1 and c[1].split(".")[-1] in ("int", "str", "bool", "float", "tuple", "list", "dict"):
                        return self.match(p.patterns[0], v, act)
                    raise Imprecise("positional class pattern")
                names = None
                if self.prog.union_cases(c[1]):
                    names = ["tag"] + self.prog.union_cases(c[1])[1]
                ma = self.prog.find_attr(c[1], "__match_args__")
                if ma:
                    names = [e.value for e in ma[1].elts]
                elif names is None and self.prog.is_dataclass(c[1]):
                    names = self.prog.dataclass_fields(c[1])
                if names is None:
                    raise Imprecise("positional class pattern")
                for n, sp in zip(names, p.patterns):
                    if not self.match_attr(v, n, sp, act):
                        return False
            for n, sp in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match_attr(v, n, sp, act):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if v[0] == "k":
                return False
            if v[0] == "ref" and self.kind(v) not in ("list",):
                if self.kind(v) == "obj":
                    q = self.rec(v).meta
                    seqlike = any(x.split(".")[-1] in ("Sequence", "MutableSequence") for x in self.prog.mro(q))
                    if not seqlike:
                        return False
                    raise Imprecise("sequence pattern on object")
                return False
            ty = self.ty(v)
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if v[0] not in ("tup", "ref") and not star and ty == "any":
                ok = self.fork_atom(("seqlen", v, len(p.patterns)))
                if not ok:
                    return False
                return all(self.match(x, op("item", v, K(i)), act) for i, x in enumerate(p.patterns))
            if ty == "str" or (isinstance(ty, tuple) and ty[0] in ("u", "cls", "fn")):
                return False
            t = self.seq_view(v)
            n = len(p.patterns)
            if not star:
                if any(i[0] == "spl" for i in t[1]):
                    if not self.test_lin(length(t), K(n), "=="):
                        return False
                elif len(t[1]) != n:
                    return False
                return all(self.match(x, self.item(t, K(i)), act) for i, x in enumerate(p.patterns))
            s = star[0]
            after = n - s - 1
            if not self.at_least(t, n - 1):
                return False
            for i in range(s):
                if not self.match(p.patterns[i], self.item(t, K(i)), act):
                    return False
            sp = p.patterns[s]
            if sp.name:
                mid = self.slice(t, K(s), K(-after) if after else NONE, NONE)
                self.store(sp.name, self.new("list", {"items": self.seq_view(mid)[1]}), act)
            for j in range(after):
                if not self.match(p.patterns[s + 1 + j], self.item(t, K(j - after)), act):
                    return False
            return True
        raise Imprecise(f"pattern {type(p).__name__}")

    def match_attr(self, v, n, sp, act):
        h = self.has_attr(v, n)
        if h is False:
            return False
        return self.match(sp, self.getattr(v, n), act)

    # ------------------------------------------------------------ expressions
    def cond(self, e, act):
        """Truth value of an expression (partitions)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, act)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                return all(self.cond(x, act) for x in e.values)
            return any(self.cond(x, act) for x in e.values)
        if isinstance(e, ast.Compare):
            left = self.eval(e.left, act)
            for o, r in zip(e.ops, e.comparators):
                right = self.eval(r, act)
                if not self.compare_op(OPS[type(o)], left, right):
                    return False
                left = right
            return True
        return self.truthy(self.eval(e, act))

    def eval(self, e, act):
        self.tick()
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e, act)

    def e_unknown(self, e, act):
        raise Imprecise(f"expression {type(e).__name__}")

    def e_Constant(self, e, act):
        return K(e.value)

    def e_Name(self, e, act):
        return self.lookup(e.id, act)

    def e_NamedExpr(self, e, act):
        v = self.eval(e.value, act)
        self.store(e.target.id, v, act)
        return v

    def e_Attribute(self, e, act):
        return self.getattr(self.eval(e.value, act), e.attr, act)

    def eval_index(self, e, act):
        if isinstance(e, ast.Slice):
            return op("sliceobj", *[self.eval(x, act) if x is not None else NONE for x in (e.lower, e.upper, e.step)])
        return self.eval(e, act)

    def e_Subscript(self, e, act):
        v = self.eval(e.value, act)
        if v[0] in ("cls", "bi"):
            if v[0] == "bi" and v[1].split(".")[-1] in ("Sequence", "list", "tuple", "Iterable", "Collection") and act is not None and any(
                    isinstance(x, ast.Name) and act.fi is not None and x.id in act.fi.locals for x in ast.walk(e.slice)):
                i = self.eval(e.slice, act)             # a type put together at run time
                if i[0] == "ref":
                    return self.call(("cls", "models.stdlib.sa_Alias"), [v, ("tup", (i,))], {})
            return v
        if isinstance(e.slice, ast.Slice):
            lo, hi, stp = [self.eval(x, act) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return self.slice(v, lo, hi, stp)
        i = self.eval(e.slice, act)
        if i[0] == "op" and i[1] == "sliceobj":
            return self.slice(v, i[2], i[3], i[4])
        return self.item(v, i)

    def e_Tuple(self, e, act):
        return mk_tup(self.items_of(e.elts, act))

    def items_of(self, elts, act):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.as_items(self.eval(x.value, act)))
            else:
                out.append(self.eval(x, act))
        return tuple(out)

    def e_List(self, e, act):
        return self.new("list", {"items": mk_tup(self.items_of(e.elts, act))[1]})

    def e_Set(self, e, act):
        return self.new("set", {"items": self.items_of(e.elts, act)})

    def e_Dict(self, e, act):
        d = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, act)
                if x[0] == "ref" and self.kind(x) == "dict":
                    d.extend(self.rec(x).f["d"])
                else:
                    d.append(("dspl", x))
            else:
                d.append((self.eval(k, act), self.eval(v, act)))
        return self.new("dict", {"d": tuple(d)})

    def e_Lambda(self, e, act):
        return self.closure(e, act, None)

    def e_IfExp(self, e, act):
        return self.eval(e.body if self.cond(e.test, act) else e.orelse, act)

    def e_BoolOp(self, e, act):
        last = None
        for i, x in enumerate(e.values):
            if i == len(e.values) - 1:
                return self.eval(x, act)
            last = self.eval(x, act)
            t = self.truthy(last)
            if isinstance(e.op, ast.And) and not t:
                return self.boolify(last, False)
            if isinstance(e.op, ast.Or) and t:
                return self.boolify(last, True)
        return last

    def boolify(self, v, b):
        """A boolean-typed term with a known outcome is that constant."""
        if v[0] in ("s", "app", "op", "elem", "st", "fin") and self.ty(v) == "bool":
            return K(b)
        return v

    def e_UnaryOp(self, e, act):
        if isinstance(e.op, ast.Not):
            return K(not self.cond(e.operand, act))
        v = self.eval(e.operand, act)
        if isinstance(e.op, ast.USub):
            if is_k(v) and isinstance(v[2], (int, float)):
                return K(-v[2])
            if is_int(v) or self.ty(v) == "int":
                return lin_mul(v, -1)
            return op("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return op("invert", v)

    def e_Compare(self, e, act):
        return K(self.cond(e, act))

    def e_BinOp(self, e, act):
        return self.binop(e.op, self.eval(e.left, act), self.eval(e.right, act))

    def binop(self, o, a, b):
        if is_k(a) and is_k(b):
            try:
                f = {"Add": lambda: a[2] + b[2], "Sub": lambda: a[2] - b[2], "Mult": lambda: a[2] * b[2],
                     "FloorDiv": lambda: a[2] // b[2], "Mod": lambda: a[2] % b[2], "Div": lambda: a[2] / b[2],
                     "LShift": lambda: a[2] << b[2]}.get(type(o).__name__)
                if f:
                    return K(f())
            except Exception:
                pass
        n = type(o).__name__
        inta = (is_k(a) and isinstance(a[2], int)) or self.ty(a) == "int" if a[0] != "ref" else False
        intb = (is_k(b) and isinstance(b[2], int)) or self.ty(b) == "int" if b[0] != "ref" else False
        if inta and intb:
            if n == "Add":
                return lin_add(a, b)
            if n == "Sub":
                return lin_add(a, b, -1)
            if n == "Mult" and is_k(b):
                return lin_mul(a, b[2])
            if n == "Mult" and is_k(a):
                return lin_mul(b, a[2])
            if n == "LShift" and is_k(b) and 0 <= b[2] <= 64:
                return lin_mul(a, 2 ** b[2])
        dunder = {"Add": "__add__", "Mult": "__mul__", "Sub": "__sub__", "BitOr": "__or__", "Mod": "__mod__"}.get(n)
        if dunder:
            for x, y, d in ((a, b, dunder), (b, a, dunder.replace("__", "__r", 1))):
                q = None
                if x[0] == "ref" and self.kind(x) == "obj":
                    q = self.rec(x).meta
                elif x[0] in ("s", "app", "op", "elem", "st", "fin"):
                    ty = self.ty(x)
                    if isinstance(ty, tuple) and ty[0] == "cls":
                        q = ty[1]
                if q and self.prog.find_method(q, d):
                    return self.call(self.getattr(x, d), [y], {})
        if n == "Add":
            al, bl = self.is_list(a), self.is_list(b)
            if al and bl:
                return self.new("list", {"items": self.as_items(a) + self.as_items(b)})
            if self.is_tuple(a) and self.is_tuple(b):
                return mk_tup((("spl", a), ("spl", b)))
            if (a[0] == "tup" and self.ty(b) in ("any", "tuple")) or (b[0] == "tup" and self.ty(a) in ("any", "tuple")):
                if b[0] != "ref" and a[0] != "ref":
                    return mk_tup((("spl", a), ("spl", b)))
            if self.ty(a) == "str" or self.ty(b) == "str" if a[0] != "ref" and b[0] != "ref" else False:
                return self.mk_fstr([a, b])
        if n == "BitOr" and a[0] in ("cls", "bi") and b[0] in ("cls", "bi"):
            return op("bitor", a, b)
        return op("bin", n, self.freeze(a), self.freeze(b))

    def is_list(self, v):
        return v[0] == "ref" and self.kind(v) == "list"

    def is_tuple(self, v):
        if v[0] == "tup":
            return True
        if v[0] in ("ref", "un", "k"):
            return False
        ty = self.ty(v)
        return ty == "tuple" or (isinstance(ty, tuple) and ty[0] in ("seq", "tupN"))

    def mk_fstr(self, parts):
        out = []
        for p in parts:
            if p[0] == "op" and p[1] == "fstr":
                out.extend(p[2:])
            else:
                out.append(p)
        parts, out = out, []
        for p in parts:
            if is_k(p) and isinstance(p[2], str) and out and is_k(out[-1]) and isinstance(out[-1][2], str):
                out[-1] = K(out[-1][2] + p[2])
            elif p != K(""):
                out.append(p)
        if not out:
            return K("")
        if len(out) == 1 and typeof(out[0]) == "str":
            return out[0]
        return op("fstr", *out)

    def e_JoinedStr(self, e, act):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
                continue
            x = self.eval(v.value, act)
            if v.format_spec is not None:
                parts.append(op("format", self.freeze(x), self.freeze(self.eval(v.format_spec, act)), K(v.conversion)))
            elif v.conversion == 97:
                parts.append(op("ascii", self.freeze(x)))
            else:
                parts.append(self.freeze(self.call(("bi", "builtins.repr" if v.conversion == 114 else "builtins.str"), [x], {})))
        return self.mk_fstr(parts)

    def e_Starred(self, e, act):
        raise Imprecise("starred")

    def e_Call(self, e, act):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            q = None
            sv = act.selfv
            if sv is not None:
                if sv[0] == "ref":
                    q = self.rec(sv).meta
                elif sv[0] == "un":
                    q = sv[1]
                elif sv[0] == "cls":
                    q = sv[1]
                else:
                    ty = self.ty(sv)
                    q = ty[1] if isinstance(ty, tuple) and ty[0] in ("cls", "u") else None
            if q is None or act.cls is None:
                raise Imprecise("super")
            return ("super", q, act.cls.qual, sv)
        f = self.eval(e.func, act)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, act)
                args.extend(self.splat(v))
            else:
                args.append(self.eval(a, act))
        for k in e.keywords:
            v = self.eval(k.value, act)
            if k.arg is None:
                if v[0] == "ref" and self.kind(v) == "dict":
                    for a, b in self.rec(v).f["d"]:
                        if a == "dspl":
                            kwargs.setdefault("**", []).append(b)
                        elif is_k(a) and isinstance(a[2], str):
                            kwargs[a[2]] = b
                        else:
                            raise Imprecise("dynamic keyword")
                else:
                    kwargs.setdefault("**", []).append(v)
            else:
                kwargs[k.arg] = v
        if f[0] == "bi" and f[1] in ("typing.cast", "typing_extensions.cast"):
            return args[1]
        self.sites.add((act.mod, e.lineno, e.col_offset))
        r = self.call(f, args, kwargs)
        if act.fi is not None:
            self.st.lastpos = (act.fi.qual, e.lineno, act.mod)
            if self.effects is not None and act.mod.startswith("specs."):
                from .bmodel import b_sealed
                b_sealed(self, [r], {})
        return r

    def splat(self, v):
        if v[0] == "tup":
            return list(v[1])
        if v[0] == "ref" and self.kind(v) == "list":
            return list(self.rec(v).f["items"])
        if v[0] in ("s", "app", "op", "elem", "st", "fin") and not self.union_info(v):
            ty = self.ty(v)
            if isinstance(ty, tuple) and ty[0] == "tupN":
                return [op("item", v, K(i)) for i in range(len(ty[1]))]
            if self.peel is not None and (ty == "tuple" or isinstance(ty, tuple) and ty[0] in ("iter", "seq", "list")):
                return list(self.as_items(v))
            if not (isinstance(ty, tuple) and ty[0] == "cls"):
                return [("spl", v)]
        return list(self.as_items(v))

    # comprehension
    def comp(self, e, act, emit, first=None):
        def level(i, a):
            if i == len(e.generators):
                emit(a)
                return
            g = e.generators[i]
            it = first if i == 0 and first is not None else self.eval(g.iter, act if i == 0 else a)

            def once(x):
                self.assign(g.target, x, a)
                for c in g.ifs:
                    if not self.cond(c, a):
                        return
                level(i + 1, a)
            self.iterate(it, once, bool(g.is_async))
        level(0, self.comp_act(e, act))

    def comp_act(self, e, act):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        ref = self.new("frame", {}, {"locals": names, "parent": act.frame, "qual": "<comp>"})
        self.st.heap[ref[1]].pre = False
        a = Act(ref[1], act.fi, act.cls, act.mod, act.on_yield, act.selfv)
        return a

    def e_ListComp(self, e, act):
        out = self.new("list", {"items": ()})

        def emit(a):
            x = self.eval(e.elt, a)
            r = self.rec(out)
            r.f["items"] = r.f["items"] + (x,)
        self.comp(e, act, emit)
        return out

    def e_SetComp(self, e, act):
        l = self.e_ListComp(e, act)
        return op("set", self.freeze(("tup", self.rec(l).f["items"])))

    def e_DictComp(self, e, act):
        out = self.new("list", {"items": ()})

        def emit(a):
            x = ("tup", (self.eval(e.key, a), self.eval(e.value, a)))
            r = self.rec(out)
            r.f["items"] = r.f["items"] + (x,)
        self.comp(e, act, emit)
        its = self.rec(out).f["items"]
        if not any(i[0] == "spl" for i in its):
            d = self.new("dict", {"d": ()})
            for i in its:
                self.setitem(d, i[1][0], i[1][1])
            return d
        return op("dict", self.freeze(("tup", its)))

    def e_GeneratorExp(self, e, act):
        # the outermost iterable is evaluated eagerly, the rest on demand
        first = self.eval(e.generators[0].iter, act)
        if first[0] == "ref" and self.kind(first) == "obj":
            first = self.iter_(first)
        return self.new("genexp", {"state": "new", "first": first}, {"node": e, "act": act})

    def e_Yield(self, e, act):
        v = self.eval(e.value, act) if e.value is not None else NONE
        if act.on_yield is None:
            raise Imprecise("yield outside a driven generator")
        r = act.on_yield(v)
        return r if isinstance(r, tuple) else NONE

    def e_YieldFrom(self, e, act):
        v = self.eval(e.value, act)
        if act.on_yield is None:
            raise Imprecise("yield from outside a driven generator")
        d = getattr(act.on_yield, "delegate", None)
        if d is not None:
            return d(v)
        r = self.iterate(v, act.on_yield)
        return r if isinstance(r, tuple) else NONE

    def e_Await(self, e, act):
        v = self.eval(e.value, act)
        return self.await_(v)

    def await_(self, v):
        if v == ("op", "done"):
            return NONE
        if v[0] == "ref":
            r = self.rec(v)
            if r.kind == "coro":
                if r.f["state"] != "new":
                    self.raise_("RuntimeError")
                r.f["state"] = "done"
                m = r.meta
                a0 = m["act"]
                act = Act(a0.frame, a0.fi, a0.cls, a0.mod, selfv=a0.selfv)
                return self.run_body(m["fi"], act, m["fkey"], m["bound"])
            if r.kind == "obj" and r.meta in ("models.stdlib.asyncio__Future", "models.stdlib.asyncio__Task"):
                return self.await_future(v)
            if r.kind == "obj" and self.prog.find_method(r.meta, "__await__"):
                return self.run_gen_value(self.call(self.getattr(v, "__await__"), [], {}))
            if r.kind == "obj" and "__result__" in r.f:
                return r.f["__result__"]
            if r.kind == "anext":
                if "asend" in r.f or "athrow" in r.f:
                    if self.st.ghost:
                        self.sched_point(True)
                    return self.step_gen(r.f["it"], r.f.get("asend", NONE), r.f.get("athrow"))
                try:
                    return self.next_(r.f["it"], *r.meta)
                except RaiseSig as s:
                    if s.exn[0] == "exn" and self.exn_mro(s.exn[1])[0] == "StopIteration":
                        self.raise_("StopAsyncIteration")
                    raise
        if v[0] == "un" or self.union_info(v):
            return self.run_gen_value(self.call(self.getattr(v, "__await__"), [], {}))
        ty = self.ty(v) if v[0] != "ref" else "any"
        ret = ty[1] if isinstance(ty, tuple) and ty[0] == "aw" else "any"
        if self.st.ghost:
            self.sched_point(True)
        return self.opaque_call(("bi", "await"), [v], {}, ret=ret)

    def run_gen_value(self, g):
        def no(_):
            raise Imprecise("suspension inside __await__")
        return self.iterate(g, no)

    # ------------------------------------------------------------ builtins (see builtins_model)
    def call_builtin(self, name, args, kwargs):
        from . import bmodel
        return bmodel.call_builtin(self, name, args, kwargs)

    def call_method(self, name, selfv, args, kwargs):
        from . import bmodel
        return bmodel.call_method(self, name, selfv, args, kwargs)


OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
