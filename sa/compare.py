"""Relational comparison of two abstract behaviours (law left/right hand side).

Both sides are sets of partitions (facts, ordered effect trace, result).  Every pair
of partitions with compatible facts must have equal traces and equal results.  Loops
are related by a greatest fixpoint over pairs of carried states (bisimulation);
nothing is unrolled and nothing is executed.

HOLDS     every compatible pair agrees
VIOLATION some pair differs at a rigid position (distinct inputs / constants / calls)
UNKNOWN   the difference is not decidable in the domain (never reported as a violation)
"""
from __future__ import annotations

from collections import Counter

import itertools

from .interp import CutSig, DivergeSig, Imprecise, OPTION, Infeasible, Interp, RecDetected, State
from .terms import (lone, FALSE, FULL, K, NONE, S, TRUE, TY, is_k, iv_inter, length, lin, lin_add, lin_mul, mk_lin, mk_tup, op,
                    settype, show, subst, typeof, walk, elemtype)


class Mismatch(Exception):
    def __init__(self, why, a=None, b=None):
        self.why, self.a, self.b = why, a, b

    def __str__(self):
        s = self.why
        if self.a is not None:
            s += f": got {show(self.a)} expected {show(self.b)}"
        return s


class Unknown(Exception):
    pass


class Skip(Exception):
    """Pair of partitions is not jointly feasible."""


class Path:
    __slots__ = ("kind", "val", "events", "facts", "loops", "refine", "pos")


def paths_of(I, outs):
    res = []
    for o in outs:
        p = Path()
        if o.kind == "sig" and isinstance(o.sig, DivergeSig):
            o.kind, o.val = "diverge", NONE
        if o.kind == "sig" and isinstance(o.sig, CutSig):
            o.kind, o.val = "cut", NONE
            o.st.events = o.st.events[: o.sig.n]
        if o.kind == "sig":
            raise Imprecise(f"escaping signal {type(o.sig).__name__}")
        p.kind = o.kind
        sv, I.st = I.st, o.st
        try:
            p.val = I.freeze(o.val)
        finally:
            I.st = sv
        p.events = [e for e in o.st.events if e[0] not in ("enter", "exit")]
        p.facts, p.loops, p.refine, p.pos = o.st.facts, o.st.loops, o.st.refine, o.st.lastpos
        res.append(p)
    return res


# ------------------------------------------------------------------ facts
def implicit(items):
    if all(k > 0 and a[0] == "op" and a[1] == "len" for a, k in items):
        return ((0, None),)
    return FULL


def norm_form(items, c=0):
    """re-normalise a linear form given as {atom: coef} -> (items, sign, const)"""
    key = (tuple(items), c)
    r = _NORM.get(key)
    if r is None:
        if len(_NORM) > 200000:
            _NORM.clear()
        r = _NORM[key] = _norm_form(items, c)
    return r


_NORM = {}


def _norm_form(items, c):
    t = K(c)
    for a, k in items:
        t = lin_add(t, lin_mul(a, k))
    c2, co = lin(t)
    its = tuple(sorted(co.items(), key=repr))
    sgn = 1
    if its and its[0][1] < 0:
        sgn = -1
        its = tuple((x, -k) for x, k in its)
    return its, sgn, c2


def put_lin(out, items, iv):
    items, iv = Interp.unscale(items, iv)
    cur = iv_inter(iv_inter(out.get(("lin", items), FULL), implicit(items)), iv)
    if not cur:
        raise Skip
    out[("lin", items)] = cur


def add_fact(out, a, v, f):
    """Add fact (a -> v) with terms rewritten by f."""
    if a[0] == "lin":
        items = [(lone(f(x)), k) for x, k in a[1]]
        its, sgn, c = norm_form(items)
        if not its:
            if not iv_inter(v, ((c, c),)):
                raise Skip
            return
        # sgn*x + c in v
        iv = tuple(((None if lo is None else lo - c), (None if hi is None else hi - c)) for lo, hi in v)
        if sgn < 0:
            iv = tuple(((None if hi is None else -hi), (None if lo is None else -lo)) for lo, hi in iv)
        put_lin(out, its, iv)
        return
    key = tuple(f(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and i > 0 and not (a[0] == "isexn" and i == 3) else x
                for i, x in enumerate(a))
    if key in out:
        if out[key] != v:
            raise Skip
        return
    if key[0] == "tag" and key[1][0] == "un":
        if key[1][2] != v:
            raise Skip
        return
    if key[0] == "truthy" and is_k(key[1]):
        if bool(key[1][2]) != v:
            raise Skip
        return
    if key[0] == "isnone" and key[1][0] not in ("s", "app", "op", "elem", "st", "fin"):
        if (key[1] == NONE) != v:
            raise Skip
        return
    if key[0] == "is":
        x, y = key[1], key[2]
        key = ("is",) + tuple(sorted((x, y), key=repr))
        if key in out and out[key] != v:
            raise Skip
    out[key] = v


def consistent(facts):
    """Cross checks between facts; raises Skip on contradiction."""
    ex = [(a, v) for a, v in facts.items() if a[0] == "isexn"]
    for (a, v), (b, w) in itertools.permutations(ex, 2):
        if a[1] != b[1]:
            continue
        if v and w and a[2] not in b[3] and b[2] not in a[3]:
            raise Skip
        if v and not w and b[2] in a[3]:
            raise Skip
    for a, v in facts.items():
        if a[0] == "isnone" and v and facts.get(("truthy", a[1])) is True:
            raise Skip
        if a[0] == "isnone" and v and ("tag", a[1]) in facts:
            raise Skip
        if a[0] == "seqlen" and v:
            its = norm_form([(length(a[1]), 1)])[0]
            iv = facts.get(("lin", its))
            if iv is not None and not iv_inter(iv, ((a[2], a[2]),)):
                raise Skip
            for b, w in facts.items():
                if b[0] == "seqlen" and w and b[1] == a[1] and b[2] != a[2]:
                    raise Skip
        if a[0] == "callable" and v is False:
            if isinstance(typeof(a[1]), tuple) and typeof(a[1])[0] == "fn":
                raise Skip
        if a[0] == "callable" and v and facts.get(("isnone", a[1])) is True:
            raise Skip
    # difference bounds (zones) over the linear forms
    D = {}
    Z = "0"

    def edge(u, v, w):        # u - v <= w
        if D.get((u, v), None) is None or D[(u, v)] > w:
            D[(u, v)] = w
    nodes = {Z}
    gaps = []
    for a, v in facts.items():
        if a[0] != "lin" or not v:
            continue
        its = a[1]
        lo = None if any(x[0] is None for x in v) else min(x[0] for x in v)
        hi = None if any(x[1] is None for x in v) else max(x[1] for x in v)
        if len(its) > 1:                         # atoms with a known value are constants
            keep, c = [], 0
            for x, k in its:
                pv = facts.get(("lin", ((x, 1),)))
                if pv and len(pv) == 1 and pv[0][0] is not None and pv[0][0] == pv[0][1]:
                    c += k * pv[0][0]
                else:
                    keep.append((x, k))
            if not keep:
                if not iv_inter(v, ((c, c),)):
                    raise Skip
                continue
            if c or len(keep) != len(its):
                lo, hi = None if lo is None else lo - c, None if hi is None else hi - c
                if len(keep) == 1 and keep[0][1] == -1:
                    keep, lo, hi = [(keep[0][0], 1)], None if hi is None else -hi, None if lo is None else -lo
                its = keep
        if len(its) == 1 and its[0][1] == 1:
            u, w = its[0][0], Z
        elif len(its) == 2 and sorted(k for _, k in its) == [-1, 1]:
            u = [x for x, k in its if k == 1][0]
            w = [x for x, k in its if k == -1][0]
        else:
            continue
        nodes |= {u, w}
        if len(v) > 1 and its is a[1]:
            gaps.append((u, w, v))
        if hi is not None:
            edge(u, w, hi)
        if lo is not None:
            edge(w, u, -lo)
        for x in (u, w):
            if x != Z and x[0] == "op" and x[1] == "len":
                edge(Z, x, 0)
    if len(nodes) > 2 and len(nodes) <= 40:
        ns = list(nodes)
        num = {x: i for i, x in enumerate(ns)}
        n = len(ns)
        M = [[None] * n for _ in range(n)]
        for (u, w), x in D.items():
            M[num[u]][num[w]] = x
        for k in range(n):
            mk = [(j, b) for j, b in enumerate(M[k]) if b is not None]
            for i in range(n):
                row = M[i]
                a = row[k]
                if a is None:
                    continue
                for j, b in mk:
                    if i == j:
                        if a + b < 0:
                            raise Skip
                    elif row[j] is None or row[j] > a + b:
                        row[j] = a + b
        for u, w, v in gaps:                     # u - w lies in one of several intervals
            lo, hi = M[num[w]][num[u]], M[num[u]][num[w]]
            if not iv_inter(v, ((None if lo is None else -lo, hi),)):
                raise Skip


def tree_terms(x):
    """Every term in nested lists, dicts and tuples."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from tree_terms(k)
            yield from tree_terms(v)
    elif isinstance(x, list):
        for v in x:
            yield from tree_terms(v)
    elif isinstance(x, tuple):
        yield x
        if not (x and x[0] == "k"):
            for v in x:
                yield from tree_terms(v)


def seqtyped(t):
    ty = typeof(t)
    return ty in ("tuple", "str") or isinstance(ty, tuple) and ty[0] in ("seq", "tupN")


# array.array type codes: what a code cannot hold of the numbers another one holds
def textual(t, leaves):
    if is_k(t):
        return type(t[2]) in (str, int, bool, type(None))
    if t[0] == "op" and t[1] == "fstr":
        return all(textual(x, leaves) for x in t[2:])
    if t[0] == "s" and typeof(t) in ("str", "int", "any"):
        leaves.add(t)
        return True
    return False


def text_of(t, env):
    if is_k(t):
        return str(t[2])
    if t in env:
        return str(env[t])
    return "".join(text_of(x, env) for x in t[2:])


def arithmetic(t, leaves):
    if is_k(t):
        return type(t[2]) in (int, float)
    if t[0] == "op" and t[1] == "bin":
        return t[2] in ("Add", "Sub", "Mult", "Div", "FloorDiv", "Mod") and all(arithmetic(x, leaves) for x in t[3:])
    if t[0] == "op" and t[1] == "lin":
        return all(arithmetic(m, leaves) for m, _ in t[3])
    if t[0] == "s":
        leaves.add(t)
        return True
    return False


def number(t, n, v):
    """the value of an arithmetic term"""
    if is_k(t):
        return t[2]
    if t == n:
        return v
    if t[1] == "lin":
        return sum(k * number(m, n, v) for m, k in t[3]) + t[2]
    x, y = number(t[3], n, v), number(t[4], n, v)
    if x is None or y is None or t[2] in ("Div", "FloorDiv", "Mod") and y == 0:
        return None
    return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y,
            "FloorDiv": lambda: x // y, "Mod": lambda: x % y}[t[2]]()


def allows(fact, val, n, v):
    """is the fact surely true when n is v?"""
    if not any(t == n for t in walk(fact)):
        return True
    if fact[0] == "lin" and all(m == n for m, _ in fact[1]):
        w = sum(k * v for _, k in fact[1])
        return any((lo is None or lo <= w) and (hi is None or w <= hi) for lo, hi in val)
    return False


def aliens(events):
    """names of the external things called, directly or by a method of one, of which there is no model"""
    out = set()
    for e in events:
        if e[0] != "call":
            continue
        f = e[1][1]
        while f[0] in ("app", "op") and len(f) > 2:
            if f[0] == "op" and f[1] != "attr":
                break
            f = f[1] if f[0] == "app" else f[2]
        if f[0] == "bi" and f[1] not in ("await", "builtins.print") or f[0] == "ext" and f[1] != "object":
            out.add(str(f[1]))
    return out


NARROWER = {"b": "hilqfd", "B": "HILQ", "h": "ilqfd", "H": "ILQ", "i": "q", "I": "Q", "q": "Q", "Q": "q", "f": "d"}
RIGID_OPS = ("pay", "attr", "item", "enum")


def plain_walk(t):
    """subterms that are not arguments of uninterpreted calls"""
    if isinstance(t, tuple):
        yield t
        if t and t[0] in ("k", "app"):
            return
        for x in t:
            yield from plain_walk(x)


def rigid(t):
    k = t[0]
    if k in ("k", "s", "elem", "cls", "exn", "exsym", "un", "obj"):
        return True
    if k == "app":
        return rigid(t[1]) or t[1] == ("bi", "await")
    if k == "op":
        if t[1] == "pay":
            return rigid(t[2])
        if t[1] == "attr":
            return t[2][0] in ("s", "elem") or (t[2][0] == "op" and rigid(t[2]))
        if t[1] == "item":
            return rigid(t[2]) and is_k(t[3])
        if t[1] == "enum":
            return True
        return False
    if k in ("tup", "list"):
        return all(rigid(x[1]) if x[0] == "spl" else rigid(x) for x in t[1])
    return False


def skeleton(t):
    """(uninterpreted functions, leaves) of a term over uninterpreted functions, as multisets; None for any other term"""
    heads, leaves = Counter(), Counter()

    def go(x):
        if x[0] == "op" and x[1] == "fn":
            heads[("fn", x[2])] += 1
            return all(go(y) for y in x[3:])
        if x[0] == "app" and x[1][:2] == ("op", "contract"):
            heads[("contract", x[1][2])] += 1
            return all(go(y) for y in x[2]) and not x[3]
        if x[0] == "op" and x[1] == "item" and is_k(x[3]):
            leaves[("item", x[3])] += 1
            return go(x[2])
        if x[0] == "tup":
            leaves[("tup", len(x[1]))] += 1
            return all(y[0] != "spl" and go(y) for y in x[1])
        if x[0] == "un" and x[2] == "none":
            leaves["none"] += 1
            return True
        if x[0] in ("k", "s", "elem") or x[0] == "op" and x[1] in ("pay", "attr") and rigid(x) or x[0] == "app" and x[1][0] == "s":
            leaves[x] += 1
            return True
        return False
    return (heads, leaves) if go(t) else None


class Ctx:
    def __init__(self, IA, IB, laws=None, depth=0):
        self.texts = {}
        self.IA, self.IB = IA, IB
        self.facts = {}
        self.loopsA, self.loopsB = {}, {}
        self.calls = {}            # app of B -> app of A
        self.loops = {}            # loop key B -> loop key A
        self.classes = {}          # (key, side-index) -> (class term, offset)
        self.removed = {}
        self.failed_loops = {}
        self.laws = laws if laws is not None else {"memo": {}, "subs": 0, "loops": 0, "pairs": 0}
        self.depth = depth
        self.fa, self.fb = {}, {}
        self._ncache = {}

    contract_names = frozenset()

    def child(self):
        c = Ctx(self.IA, self.IB, self.laws, self.depth + 1)
        c.facts = dict(self.facts)
        c.loopsA, c.loopsB = dict(self.loopsA), dict(self.loopsB)
        c.calls, c.loops, c.classes = dict(self.calls), dict(self.loops), dict(self.classes)
        c.removed, c.failed_loops, c.contract_names = self.removed, self.failed_loops, self.contract_names
        return c

    # -------------------------------------------------- canonical terms
    def canonA(self, t):
        return self.canon(t, True)

    def canonB(self, t):
        return self.canon(t, False)

    def canon(self, t, a_side):
        if not self.classes and (a_side or (not self.calls and not self.loops)):
            return t

        def f(x):
            if not x:
                return None
            if x[0] in ("st", "fin") and len(x) == 3 and isinstance(x[2], tuple):
                c = self.classes.get((x[1], x[2]))
                if c is not None:
                    cls, off, sgn = c
                    r = (x[0], cls[1], cls[2])
                    return r if off == K(0) and sgn == 1 else lin_add(off, r, sgn)
                if not a_side and x[1] in self.loops:
                    return (x[0], self.loops[x[1]], x[2])
                return None
            if not a_side:
                if x[0] == "app" and x in self.calls:
                    return self.calls[x]
                if x[0] == "elem" and x[1] in self.loops:
                    return ("elem", self.loops[x[1]], x[2])
            return None

        def go(x):
            if not isinstance(x, tuple) or not x or x[0] == "k":
                return x
            if x in memo:
                return memo[x]
            if not a_side and x[0] == "app" and x in self.calls:
                r = self.canon(self.calls[x], True)
            elif x[0] in ("elem", "st", "fin"):
                r = f(x)
                r = x if r is None else r
            elif not a_side and x[0] == "L" and x in self.loops:
                r = self.loops[x]
            else:
                new = tuple(go(y) if isinstance(y, tuple) else y for y in x)
                if new != x:
                    new = renorm(new)
                    if x in TY:
                        settype(new, TY[x])
                    if not a_side and new[0] == "app" and new in self.calls:
                        new = self.canon(self.calls[new], True)
                r = new
            if r != x and x in TY:
                settype(r, TY[x])
            memo[x] = r
            return r
        memo = {}
        return go(t)

    def set_facts(self):
        """(Re)compute merged facts from both sides under current alignments."""
        out = dict(self.facts0)
        for a, v in self.fa.items():
            add_fact(out, a, v, self.canonA)
        for a, v in self.fb.items():
            add_fact(out, a, v, self.canonB)
        for a, v in out.items():
            if a[0] == "lin" and len(a[1]) == 2 and not iv_inter(v, ((0, 0),)):
                x, y = a[1][0][0], a[1][1][0]
                if a[1][0][1] + a[1][1][1] == 0 and all(seqtyped(z) and out.get(("lin", ((length(z), 1),))) == ((0, 0),) or z == ("tup", ()) for z in (x, y)):
                    raise Skip
        for a, v in list(out.items()):
            if a[0] == "lin" and len(a[1]) == 2 and v == ((0, 0),) and a[1][0][1] + a[1][1][1] == 0 and all(seqtyped(z) for z, _ in a[1]):
                its, sgn, c = norm_form([(length(z), k) for z, k in a[1]])
                if its:
                    put_lin(out, its, ((-c * sgn, -c * sgn),))
                elif c:
                    raise Skip
        # a sum of lengths that is zero
        for a, v in list(out.items()):
            if a[0] == "lin" and v == ((0, 0),) and len(a[1]) > 1 and all(k > 0 and x[0] == "op" and x[1] == "len" for x, k in a[1]):
                for x, _ in a[1]:
                    put_lin(out, ((x, 1),), ((0, 0),))
        consistent(out)
        self.facts = out
        self.texts = {}
        for a, v in out.items():                 # characters and texts known to be equal to a constant or an input
            if a[0] == "lin" and v == ((0, 0),) and len(a[1]) == 2 and a[1][0][1] + a[1][1][1] == 0:
                for (x, _), (y, _) in (a[1], a[1][::-1]):
                    if y[0] == "op" and y[1] == "item" and typeof(y) == "str" and (x[0] == "k" or x[0] == "s" and typeof(x) == "str"):
                        if self.texts.get(y, x)[0] != "k" or x[0] == "k":
                            self.texts[y] = x
        self._ncache = {}

    # -------------------------------------------------- normalisation under facts
    def norm(self, t):
        if t in self._ncache:
            return self._ncache[t]
        r = self._norm(t)
        self._ncache[t] = r
        return r

    def tag_fact(self, s):
        return self.facts.get(("tag", s))

    def pinned(self, t):
        iv = self.facts.get(("lin", ((t, 1),)))
        if iv is not None and len(iv) == 1 and iv[0][0] is not None and iv[0][0] == iv[0][1]:
            return iv[0][0]
        return None

    def _norm(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k in ("k", "cls", "bi", "fnv", "lazy", "mod", "L", "rec"):
            return t
        if k in ("elem", "st", "fin"):
            return self.leaf(t)
        if k == "op" and t[1] == "pay":
            base = t[2]
            b2 = self.norm_keep(base)
            if b2[0] == "un":
                return b2[3] if b2[2] == t[3] else t
            n = ("op", "pay", b2, t[3])
            if n != t and t in TY:
                settype(n, TY[t])
            return self.leaf(n)
        if k == "op" and self.IA.peel is not None and t[1] in ("item", "len"):
            n = (k, t[1], self.norm_keep(t[2])) + t[3:]
            if n != t and t in TY:
                settype(n, TY[t])
            return self.leaf(n)
        new = tuple(self.norm(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                    (tuple(self.norm(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else
                           (tuple(self.norm(z) if isinstance(z, tuple) else z for z in y) if isinstance(y, tuple) else y) for y in x) if isinstance(x, tuple) and k != "app" or (k == "app" and x is t[2]) else x)
                    for x in t)
        if new != t:
            new = renorm(new)
            if t in TY:
                settype(new, TY[t])
        return self.leaf(new)

    def norm_keep(self, t):
        """Normalise but keep a tagged symbol as itself (used under projections)."""
        if t[0] in ("s", "elem", "st", "fin"):
            return t
        if t[0] == "app":
            return t
        if t[0] == "op":
            new = tuple(self.norm_keep(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)
            return new
        return self.norm(t)

    def empty(self, t):
        if t[0] == "op" and t[1] == "range" and len(t) == 5 and t[4] == K(1):
            d = lin_add(self.norm(t[3]), self.norm(t[2]), -1)
            if is_k(d):
                return d[2] <= 0
        ln = length(t)
        if is_k(ln):
            return ln == K(0)
        c, d = lin(ln)
        return c == 0 and all(self.pinned(a) == 0 for a in d)

    def empty_loop(self, key, a_side):
        rec = (self.loopsA if a_side else self.loopsB).get(key)
        if rec is None or rec["src"] is None:
            return None
        src = self.norm(self.canon(rec["src"], a_side))
        return rec if self.empty(src) else None

    def leaf(self, t):
        if t in self.texts:
            return self.texts[t]
        return self.leaf0(t)

    def leaf0(self, t):
        k = t[0]
        if k in ("tup", "list"):
            its = []
            for x in t[1]:
                if x[0] == "spl" and self.empty(x[1]):
                    continue
                its.append(x)
            t2 = mk_tup(its)
            return self.collapse(t2) if k == "tup" else ("list", t2[1])
        if k == "op" and t[1] == "slice" and typeof(t) != "str" and self.empty(t[2]):
            return ("tup", ())
        if k == "fin" and t[2][0] in (self.IA.side, self.IB.side):
            rec = self.empty_loop(t[1], t[2][0] == self.IA.side)
            if rec is not None:
                return self.norm(self.canon(rec["inits"][t[2][1]], t[2][0] == self.IA.side))
        if k in ("s", "app", "op", "elem", "st", "fin"):
            tg = self.tag_fact(t)
            if tg is not None:
                ty = typeof(t)
                q = ty[1] if isinstance(ty, tuple) and ty[0] == "u" else self.refined.get(t)
                if q:
                    if tg == "none" and q == OPTION:
                        return ("un", q, "none", NONE)
                    return ("un", q, tg, self.norm(op("pay", t, tg)))
            c = self.pinned(t)
            if c is not None and typeof(t) == "int":
                return K(c)
            ty = typeof(t)
            if self.IA.peel is not None and (ty == "tuple" or isinstance(ty, tuple) and ty[0] == "seq"):
                n = self.pinned(length(t))
                if n is not None and 0 <= n <= 8:
                    et = elemtype(t)
                    return ("tup", tuple(self.norm(settype(op("item", t, K(i)), et)) for i in range(n)))
            if (ty == "tuple" or isinstance(ty, tuple) and ty[0] == "seq") and self.pinned(length(t)) == 0:
                return ("tup", ())
            if ty == "bool":
                v = self.facts.get(("truthy", t))
                if v is not None:
                    return K(v)
            if self.facts.get(("isnone", t)) is True:
                return NONE
            if k == "op" and t[1] == "lin":
                r = K(t[2])
                ch = False
                for a, co in t[3]:
                    c = self.pinned(a)
                    if c is not None:
                        r = lin_add(r, K(c * co))
                        ch = True
                    else:
                        r = lin_add(r, lin_mul(a, co))
                if ch:
                    return r
        if k == "un" and t[2] == "none" and t[1] == OPTION:
            return ("un", OPTION, "none", NONE)
        return t

    def collapse(self, t):
        its = t[1]
        if its and all(x[0] == "op" and x[1] == "item" and x[3] == K(i) for i, x in enumerate(its)):
            base = its[0][2]
            ty = typeof(base)
            if all(x[2] == base for x in its) and isinstance(ty, tuple) and ty[0] == "tupN" and len(ty[1]) == len(its):
                return base
        return t

    refined = {}

    # -------------------------------------------------- equality
    def eq(self, a, b):
        a = self.norm(self.canonA(a))
        b = self.norm(self.canonB(b))
        self.eq_(a, b)

    def eq_(self, a, b):
        if a == b:
            return
        try:
            self.eq0(a, b)
        except Unknown:
            if self.IA.contracts:
                self.refute_opaque(a, b)
            self.refute_number(a, b)
            self.refute_text(a, b)
            raise

    def refute_text(self, a, b):
        """Two texts made of constants and the texts of free inputs, which differ when those inputs have telling texts."""
        if not any(t[0] == "op" and t[1] == "fstr" for t in (a, b)):
            return
        leaves = set()
        if not all(textual(t, leaves) for t in (a, b)):
            return
        order = sorted(leaves, key=repr)
        for ranks in (range(1, len(order) + 1), range(len(order), 0, -1)):
            env = {n: (r * 7 if typeof(n) == "int" else f"<{r}>") for n, r in zip(order, ranks)}
            ok = True
            for facts in (self.fa, self.fb):
                for fact, val in facts.items():
                    if any(t in leaves for t in walk(fact)):
                        if fact[0] != "lin" or not all(m in env and typeof(m) == "int" for m, _ in fact[1]):
                            return
                        w = sum(k * env[m] for m, k in fact[1])
                        ok = ok and any((lo is None or lo <= w) and (hi is None or w <= hi) for lo, hi in val)
            if ok and text_of(a, env) != text_of(b, env):
                raise Mismatch("different text", a, b)

    def refute_number(self, a, b):
        """Two arithmetic terms over one integer input with different values at one that the path allows."""
        if not any(t[0] == "op" and t[1] == "bin" for t in (a, b)):
            return
        leaves = set()
        for t in (a, b):
            if not arithmetic(t, leaves):
                return
        if len(leaves) != 1:
            return
        n, = leaves
        if n[0] != "s" or typeof(n) != "int":
            return
        for v in (1, 1500, 7, 1000, 0, 2, -1, 12345):
            if all(allows(fact, val, n, v) for facts in (self.fa, self.fb) for fact, val in facts.items()):
                x, y = number(a, n, v), number(b, n, v)
                if x is not None and y is not None and abs(x - y) > 1e-6 * max(1, abs(x), abs(y)):
                    raise Mismatch(f"different number for {show(n)} = {v}", a, b)

    def refute_opaque(self, a, b):
        """Two terms over the same uninterpreted functions that are not built from the same parts."""
        sa, sb = skeleton(a), skeleton(b)
        if sa is None or sb is None or not sa[0] or not sb[0]:
            return
        if not set(sa[0]) <= set(sb[0]) | {("contract", n) for n in self.contract_names}:
            return
        if sa != sb:
            raise Mismatch("different value", a, b)
        if len(sb[1]) == sum(sb[1].values()) and sum(sb[0].values()) == 1:
            raise Mismatch("different value", a, b)

    def unrelated(self, a, b):
        """a is an input nothing has been assumed about and b a copy of other inputs: they differ for some value of a."""
        if a[0] != "s" or typeof(a) not in (None, "any") or self.depth > 1 or not (b[0] == "op" and b[1] in ("deepcopy", "copy", "id", "str", "repr", "hash", "fstr", "len", "typeof")):
            return False

        def other(t):
            return t != a and (t[0] in ("k", "s") or t[0] == "op" and all(other(x) for x in t[2:] if isinstance(x, tuple) and x and isinstance(x[0], str))
                               or t[0] == "dict" and all(other(x) for kv in t[1] for x in kv if isinstance(x, tuple)))

        def within(t):
            return t == a or isinstance(t, tuple) and any(within(x) for x in t)
        return other(b) and not any(within(f) for f in self.facts)

    def eq0(self, a, b):
        ka, kb = a[0], b[0]
        if ka == kb == "k":
            if a[2] == b[2] and {a[1], b[1]} <= {"int", "bool"}:
                pass
            raise Mismatch("different constant", a, b)
        if ka == kb == "un":
            if a[2] != b[2]:
                raise Mismatch("different case", a, b)
            self.eq_(a[3], b[3])
            return
        if ka in ("fnv",) or kb in ("fnv",):
            if self.fnlike(a) and self.fnlike(b):
                return self.eq_fn(a, b)
            if rigid(a) or rigid(b):
                if a[0] in ("k", "un", "tup", "list") or b[0] in ("k", "un", "tup", "list"):
                    raise Mismatch("different value", a, b)
            raise Unknown(f"function vs {show(a)} / {show(b)}")
        if ka == "lazy" or kb == "lazy":
            return self.eq_lazy(a, b)
        if self.intlike(a) and self.intlike(b) and not (ka == kb and ka in ("app", "s")):
            return self.eq_lin(a, b)
        if ka == kb == "op" and a[1] == b[1] == "bin" and a[2] == b[2] in ("Add", "Sub") and (a[3] == b[3] or a[4] == b[4]):
            x, y = (a[4], b[4]) if a[3] == b[3] else (a[3], b[3])
            if x[0] == y[0] == "k" and x[1] == y[1] == "int":
                raise Mismatch("different constant", x, y)
        if ka in ("tup",) or kb in ("tup",):
            if self.seqlike(a) and self.seqlike(b):
                return self.eq_seq(a, b)
            if ka == kb:
                return self.eq_seq(a, b)
            if (rigid(a) and rigid(b)) or NONE in (a, b):
                raise Mismatch("different value", a, b)
            raise Unknown(f"{show(a)} vs {show(b)}")
        for x, y in ((a, b), (b, a)):
            if y[0] == "op" and y[1] == "fstr" and x in y[2:] and any(is_k(z) and z[2] for z in y[2:]):
                raise Mismatch("different text", a, b)
            if x[0] == "s" and y[0] == "op" and str(y[1]) in ("str.strip", "str.rstrip", "str.lstrip", "str.lower", "str.upper", "str.casefold", "str.title") and y[2] == x \
                    and not any(x in plain_walk(f) for f in self.facts):
                raise Mismatch("different text", a, b)
            if x[:2] == ("op", "sorted") and not any(n == "key" for n, _ in x[3]) and y[0] == "s" and x[2] in (y, ("tup", (("spl", y),))):
                raise Mismatch("sorted and unsorted", a, b)
        if ka != kb:
            if ka == "exn" or kb == "exn":
                raise Mismatch("different value", a, b)
            if "fin" in (ka, kb):
                self.refute_fin(a, b)
                raise Unknown(f"{show(a)} vs {show(b)}")
            if rigid(a) and rigid(b):
                raise Mismatch("different value", a, b)
            for x, y in ((a, b), (b, a)):
                if y[0] == "exsym" and x[:2] == ("op", "attr") and x[2] == y and x[3] in ("__cause__", "__context__"):
                    raise Mismatch("different exception", a, b)
            if self.unrelated(a, b) or self.unrelated(b, a):
                raise Mismatch("different value", a, b)
            raise Unknown(f"{show(a)} vs {show(b)}")
        if ka == "s":
            raise Mismatch("different input", a, b)
        if ka == "app":
            if a in self.calls.values() and b in self.calls:
                raise Mismatch("result of a different call", a, b)
            self.eq_(a[1], b[1])
            if len(a[2]) != len(b[2]):
                raise Mismatch("different arguments", a, b)
            self.eq_seq(("tup", a[2]), ("tup", b[2]))
            self.eq_kw(a[3], b[3])
            if a[4] != b[4]:
                if a[1][0] == "rec":
                    return
                raise Unknown("occurrence of call")
            return
        if ka == "rec":
            return self.eq_rec(a, b)
        if ka == "op":
            return self.eq_op(a, b)
        if ka == "list":
            return self.eq_seq(("tup", a[1]), ("tup", b[1]))
        if ka == "dict":
            if len(a[1]) != len(b[1]):
                raise Mismatch("different dict", a, b)
            for (x, y), (z, w) in zip(a[1], b[1]):
                if x == "dspl" or z == "dspl":
                    if x != z:
                        raise Unknown("dict")
                else:
                    self.eq_(x, z)
                self.eq_(y, w)
            return
        if ka == "set":
            return self.eq_seq(("tup", a[1]), ("tup", b[1]))
        if ka == "obj":
            if a[1] != b[1]:
                raise Mismatch("different class", ("cls", a[1]), ("cls", b[1]))
            fa, fb = dict(a[2]), dict(b[2])
            if set(fa) != set(fb):
                raise Unknown("object fields")
            for n in fa:
                if n == "_name":
                    continue
                self.eq_(fa[n], fb[n])
            return
        if ka == "exn":
            self.eq_exn(a, b)
            return
        if ka == "exsym":
            self.eq_(a[1], b[1])
            return
        if ka == "elem":
            if a[1] == b[1] and a[2] != b[2]:
                raise Mismatch("different element", a, b)
            try:
                self.eq_(a[1][2], b[1][2])
            except Mismatch:
                raise Mismatch("element of a different source", a, b)
            if a[2] != b[2]:
                raise Mismatch("different element", a, b)
            raise Unknown("element of unrelated loops")
        if ka == "fin":
            return self.eq_fin(a, b)
        if ka == "st":
            if a[1] == b[1] and a[2][0] == "R" and b[2][0] == "R":
                raise Mismatch("different loop state", a, b)
            raise Unknown(f"loop state {show(a)} vs {show(b)}")
        if ka == "spl":
            return self.eq_(a[1], b[1])
        if ka in ("cls", "bi", "mod"):
            raise Mismatch("different value", a, b)
        if ka == "ext":
            if a[1] != b[1]:
                raise Mismatch("different object", a, b)
            for x, y in zip(a[2:], b[2:]):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    self.eq_(x, y)
            return
        raise Unknown(f"{ka} terms")

    def eq_kw(self, a, b):
        if [n for n, _ in a] != [n for n, _ in b]:
            raise Mismatch("different keyword arguments")
        for (_, x), (_, y) in zip(a, b):
            self.eq_(x, y)

    def intlike(self, t):
        return (t[0] == "k" and t[1] == "int") or typeof(t) == "int" or (t[0] == "op" and t[1] == "lin")

    def eq_lin(self, a, b):
        ca, da = lin(a)
        cb, db = lin(b)
        left = list(db.items())
        unk = None
        for x, k in da.items():
            hit = None
            for n, (y, k2) in enumerate(left):
                if k != k2:
                    continue
                try:
                    if x != y:
                        self.eq_atom(x, y)
                    hit = n
                    break
                except Mismatch:
                    continue
                except Unknown as e:
                    unk = e
            if hit is None:
                if unk is not None or not rigid(x):
                    self.refute_fin(a, b)
                    raise Unknown(f"integers {show(a)} vs {show(b)}")
                if all(rigid(y) for y, _ in left):
                    raise Mismatch("different integer", a, b)
                raise Unknown(f"integers {show(a)} vs {show(b)}")
            left.pop(hit)
        if left:
            if all(rigid(y) for y, _ in left):
                raise Mismatch("different integer", a, b)
            self.refute_fin(a, b)
            raise Unknown(f"integers {show(a)} vs {show(b)}")
        if ca != cb:
            raise Mismatch("different integer", a, b)

    def eq_atom(self, x, y):
        if x[0] == y[0]:
            if x[0] in ("app", "s", "k"):
                self.eq_(x, y) if x[0] != "app" else self._eq_app(x, y)
                return
            if x[0] == "op" and x[1] == y[1] != "lin":
                return self.eq_op(x, y)
            if x[0] == "fin":
                return self.eq_fin(x, y)
            if x[0] == "st":
                raise Unknown("state")
        if rigid(x) and rigid(y):
            raise Mismatch("different integer", x, y)
        raise Unknown("integer atoms")

    def _eq_app(self, a, b):
        self.eq_(a, b)

    def seqlike(self, t):
        if t[0] == "tup":
            return True
        ty = typeof(t)
        return ty == "tuple" or (isinstance(ty, tuple) and ty[0] in ("seq", "tupN"))

    def eq_seq(self, a, b):
        def items(t):
            if t[0] == "tup":
                return list(t[1])
            ty = typeof(t)
            if isinstance(ty, tuple) and ty[0] == "tupN":
                return [op("item", t, K(i)) for i in range(len(ty[1]))]
            return [("spl", t)]
        xs, ys = items(a), items(b)
        a0, b0 = ("tup", tuple(xs)), ("tup", tuple(ys))
        err = None

        def same(x, y):
            nonlocal err
            if x == y:
                return True
            if (x[0] == "spl") != (y[0] == "spl"):
                return False
            try:
                self.eq_(x[1] if x[0] == "spl" else x, y[1] if y[0] == "spl" else y)
                return True
            except Unknown as e:
                err = e
                return False
            except Mismatch as e:
                if err is None or isinstance(err, Mismatch) and False:
                    err = e
                return False
        while xs and ys and same(xs[0], ys[0]):
            xs.pop(0)
            ys.pop(0)
        if not xs and not ys:
            return
        e1 = err
        while xs and ys and same(xs[-1], ys[-1]):
            xs.pop()
            ys.pop()
        if not xs and not ys:
            return
        if any(x[0] == "spl" for x in xs + ys):
            def empty(x):
                return x[0] == "spl" and self.form_interval([(length(x[1]), 1)]) == ((0, 0),)
            xs1, ys1 = [x for x in xs if not empty(x)], [y for y in ys if not empty(y)]
            if len(xs1) + len(ys1) < len(xs) + len(ys):
                return self.eq_seq(("tup", tuple(xs1)), ("tup", tuple(ys1)))
        if isinstance(e1, Unknown):
            if len(xs) == len(ys) and not any(x[0] == "spl" for x in xs + ys):
                for x, y in zip(xs[1:], ys[1:]):            # another position may differ for certain
                    try:
                        self.eq_(x, y)
                    except Unknown:
                        pass
            raise e1
        rest = xs + ys
        if not xs or not ys:
            if any(x[0] != "spl" for x in rest) or all(rigid(x[1]) for x in rest):
                raise Mismatch("different sequence", a0, b0)
            raise Unknown(f"sequences {show(a0)} vs {show(b0)}")
        if xs[0][0] != "spl" and ys[0][0] != "spl" and isinstance(e1, Mismatch):
            raise e1
        if all(rigid(x[1]) if x[0] == "spl" else rigid(x) for x in rest):
            raise Mismatch("different sequence", a0, b0)
        if len(xs) == len(ys) == 1 and xs[0][0] == ys[0][0] == "spl" and e1 is not None:
            raise e1
        if isinstance(err, Unknown):
            raise err
        self.refute_fin(a0, b0)
        raise Unknown(f"sequences {show(a0)} vs {show(b0)}")

    INJ = {"pay", "attr", "item", "slice", "zip", "reversed", "range", "sorted", "len", "enum", "measure", "getattr", "sliceobj",
           "max", "min", "keys", "items", "values", "hash", "entered", "typeof", "index", "int", "pairwise"}

    def eq_op(self, a, b):
        if a[1] != b[1]:
            if rigid(a) and rigid(b):
                raise Mismatch("different value", a, b)
            raise Unknown(f"{show(a)} vs {show(b)}")
        if a[1] == "lin":
            return self.eq_lin(a, b)
        if a[1] in ("fstr", "join", "repr", "str"):
            if len(a) != len(b):
                raise Unknown("text")
        if len(a) != len(b):
            raise Unknown(f"{show(a)} vs {show(b)}")
        inj = a[1] in self.INJ
        if a[1] == "buffer" and a[2] != b[2] and is_k(a[2]) and is_k(b[2]) and NARROWER.get(str(a[2][2])[6:], "") and \
                str(b[2][2])[6:] in NARROWER[str(a[2][2])[6:]]:
            raise Mismatch("an array which cannot hold the same numbers", a[2], b[2])
        try:
            for x, y in zip(a[2:], b[2:]):
                if isinstance(x, tuple) and x and isinstance(x[0], str) and isinstance(y, tuple):
                    self.eq_(x, y)
                elif isinstance(x, tuple) and isinstance(y, tuple):
                    if len(x) != len(y):
                        raise Mismatch("different operation", a, b)
                    for p, q in zip(x, y):
                        if isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], str) and isinstance(p[1], tuple):
                            if p[0] != q[0]:
                                raise Mismatch("different option", a, b)
                            self.eq_(p[1], q[1])
                        elif p != q:
                            raise Unknown("op args")
                elif x != y:
                    raise Mismatch("different operation", a, b) if rigid(a[2] if isinstance(a[2], tuple) else K(0)) else Unknown("operation")
        except Mismatch as e:
            if inj:
                raise
            raise Unknown(f"{show(a)} vs {show(b)}: {e}")

    def eq_exn(self, a, b):
        ma, mb = self.IA.exn_mro(a[1]), self.IB.exn_mro(b[1])
        if mb[0] not in ma:
            raise Mismatch("different exception", a[1], b[1])
        if "EffectError" in ma[0] or mb[0].endswith("EffectError"):
            if len(a[2]) != len(b[2]):
                raise Mismatch("different exception payload", a, b)
            for x, y in zip(a[2], b[2]):
                self.eq_(x, y)
        if mb[0] in ("StopIteration",) and (a[2] or b[2]):
            self.eq_seq(("tup", a[2]), ("tup", b[2]))

    # -------------------------------------------------- functions
    def fnlike(self, t):
        if t[0] in ("fnv", "cls", "bi"):
            return True
        if t[0] in ("s", "app", "op", "elem", "st", "fin"):
            return True
        return False

    def arity(self, t):
        if t[0] == "fnv":
            I = self.IA if t[1] == self.IA.side else self.IB
            v = I.lazies[t[2]][0]
            off = 0
            while v[0] in ("bound", "partial"):
                if v[0] == "bound":
                    off += 1
                    v = v[1]
                else:
                    off += len(v[2])
                    v = v[1]
            if v[0] == "clo":
                fi = I.fid[v[1]]
                a = fi.node.args
                req = len(a.posonlyargs + a.args) - len(a.defaults) - off
                pos = (a.posonlyargs + a.args)[off:]
                tys = [I.types.annot(fi.mod, p.annotation) for p in pos]
                return max(req, 0), a.vararg is not None, tys
        return None

    def eq_fn(self, a, b):
        if self.depth > 6:
            raise Unknown("function nesting")
        ra, rb = self.arity(a), self.arity(b)
        ns = [r for r in (ra, rb) if r is not None]
        fixed = [r for r in ns if not r[1]]
        n = (fixed or ns)[0][0]
        if not fixed and n == 0:
            n = 1
        if len(fixed) == 2 and fixed[0][0] != fixed[1][0]:
            raise Unknown("function arity")
        syms = []
        self.laws["subs"] += 1
        for i in range(n):
            ty = "any"
            for r in ns:
                if i < len(r[2]) and r[2][i] != "any" and ty == "any":
                    ty = r[2][i]
            syms.append(S(f"${self.laws['subs']}.{i}", ty))
        pa = self.run_fn(self.IA, a, syms)
        pb = self.run_fn(self.IB, b, syms)
        self.child_compare(pa, pb, "applied to " + ", ".join(show(s) for s in syms))

    def run_fn(self, I, t, syms):
        if t[0] == "fnv":
            v, st = I.lazies[t[2]]
            st = st.copy()
        else:
            v, st = t, State()
            st.next = 100000
        st.events = []
        for f, x in self.facts.items():
            st.facts.setdefault(f, x)
        try:
            return paths_of(I, I.explore(lambda: I.call(v, list(syms), {}), st))
        except RecDetected as r:
            raise
    
    def child_compare(self, pa, pb, what):
        c = self.child()
        try:
            c.compare_all(pa, pb)
        except Mismatch as e:
            raise Mismatch(f"{e} [{what}]")

    # -------------------------------------------------- lazies
    def eq_lazy(self, a, b):
        if self.depth > 6:
            raise Unknown("lazy nesting")

        def drain(I, t):
            if t[0] == "lazy":
                v, st = I.lazies[t[2]]
                st = st.copy()
            else:
                v, st = t, State()
                st.next = 100000
            st.events = []
            for f, x in self.facts.items():
                st.facts.setdefault(f, x)
            k = I.st

            def run():
                if v[0] == "ref" and I.rec(v).kind == "coro":
                    return I.await_(v)

                def emit(x):
                    I.event(("yield", I.freeze(x)))
                I.iterate(v, emit)
                return NONE
            return paths_of(I, I.explore(run, st))
        for t in (a, b):
            if t[0] in ("k", "un", "exn", "fnv"):
                raise Mismatch("different value", a, b)
        self.child_compare(drain(self.IA, a), drain(self.IB, b), "drained")

    # -------------------------------------------------- recursion
    def eq_rec(self, a, b):
        if a[1] == b[1]:
            return
        raise Unknown("different recursive functions")

    # -------------------------------------------------- loops
    def find_loop(self, key, a_side):
        return (self.loopsA if a_side else self.loopsB).get(key)

    def eq_fin(self, a, b):
        kA, kB = a[1], b[1]
        # after canonicalisation an aligned B-loop carries A's key
        if kA == kB and a[2][0] == "R" and b[2][0] == "R":
            raise Mismatch("different final value", a, b)
        keyB = None
        for k2, k1 in self.loops.items():
            if k1 == kB:
                keyB = k2
        if keyB is None:
            keyB = kB
        if kA in self.loopsA and keyB in self.loopsB and not (keyB in self.loops):
            self.align_loop(kA, keyB)
            a2, b2 = self.norm(self.canonA(a)), self.norm(self.canonB(("fin", keyB, b[2])))
            if a2 == b2:
                return
            ca, cb = lin(a2), lin(b2)
            if a2[0] == "fin" and b2[0] == "fin" and a2[2][0] == "R" and b2[2][0] == "R":
                raise Mismatch("different final value", a2, b2)
            if ca[1] == cb[1] and ca[0] != cb[0]:
                raise Mismatch("different final value", a2, b2)
            b = b2 if b2[0] == "fin" else b
            a = a2 if a2[0] == "fin" else a
        i, j = a[2], b[2]
        if i[0] != "R" and j[0] != "R":
            r = self.removed.get((kA, i, keyB, j))
            if r is not None:
                raise Unknown(f"final states {show(a)} vs {show(b)}: {r}")
        raise Unknown(f"final states {show(a)} vs {show(b)}")

    def refute_fin(self, a, b):
        return

    def lockstep(self, rec, src, a_side):
        """Does loop `rec` also take from `src` (a term of side A if a_side)?"""
        want = self.canon(src, a_side)
        for t in tree_terms([rec["cases"], rec["inits"]]):
            if t == src or t == want:
                return True
        return False

    def align_loop(self, kA, kB):
        if self.loops.get(kB) == kA:
            return
        memo = (kA, kB)
        RA, RB = self.loopsA.get(kA), self.loopsB.get(kB)
        if RA is None or RB is None:
            raise Unknown("loop record")
        if kA[1] != kB[1]:
            raise Unknown("loop kinds")
        if RA["src"] is not None:
            try:
                self.eq(RA["src"], RB["src"])
            except Mismatch:
                # several sequences taken in lockstep: either may be the one the loop is told over
                if RB["src"] is not None and (self.lockstep(RA, RB["src"], False) or self.lockstep(RB, RA["src"], True)):
                    raise Unknown("sequences taken in lockstep")
                raise
        self.laws["loops"] += 1
        nA, nB = len(RA["inits"]), len(RB["inits"])
        R = {}
        for i in range(nA):
            for j in range(nB):
                x, y = RA["inits"][i], RB["inits"][j]
                ty1, ty2 = RA["tys"][i], RB["tys"][j]
                try:
                    self.eq(x, y)
                    R[(i, j)] = (1, K(0))
                except Mismatch as e:
                    if ty1 == ty2 == "int":
                        d = lin_add(self.norm(self.canonA(x)), self.norm(self.canonB(y)), -1)
                        if all(a[0] == "s" for a in lin(d)[1]):
                            R[(i, j)] = (1, d)
                            continue
                    self.removed[(kA, (self.IA.side, i), kB, (self.IB.side, j))] = Mismatch("different initial state", x, y)
                except Unknown as e:
                    self.removed[(kA, (self.IA.side, i), kB, (self.IB.side, j))] = e
        self.loops[kB] = kA
        saved_classes = dict(self.classes)
        seen_bad = {}
        while True:
            self.classes = dict(saved_classes)
            self.mk_classes(kA, kB, R, nA, nB)
            bad = {}
            for cA in RA["cases"]:
                if cA["ctl"] != "next":
                    continue
                for cB in RB["cases"]:
                    if cB["ctl"] != "next":
                        continue
                    c = self.case_ctx(cA, cB)
                    if c is None:
                        continue
                    try:
                        c.align_events(list(cA["events"]), list(cB["events"]))
                        c.set_facts()
                    except Skip:
                        continue
                    except (Mismatch, Unknown):
                        if not c.feasible():
                            continue
                    for (i, j), (sgn, d) in R.items():
                        x, y = cA["next"][i], cB["next"][j]
                        if x is None or y is None:
                            if x is not y:
                                bad[(i, j)] = Unknown("undefined state")
                            continue
                        try:
                            if d != K(0) or sgn < 0:
                                c.eq_lin(c.norm(c.canonA(x)), lin_add(d, c.norm(c.canonB(y)), sgn))
                            else:
                                c.eq(x, y)
                        except (Mismatch, Unknown) as e:
                            if not c.feasible():
                                continue
                            if isinstance(e, Mismatch) or (i, j) not in bad:
                                bad.setdefault((i, j), e)
            if not bad:
                break
            # drop refuted pairs; prefer dropping cross pairs before same-role pairs
            drop = {p: e for p, e in bad.items()}
            for p, e in drop.items():
                sgn, d = R.pop(p)
                if sgn > 0 and RA["tys"][p[0]] == RB["tys"][p[1]] == "int":      # one counts up, the other down?
                    d = lin_add(self.norm(self.canonA(RA["inits"][p[0]])), self.norm(self.canonB(RB["inits"][p[1]])))
                    if all(a[0] == "s" for a in lin(d)[1]):
                        R[p] = (-1, d)
                        continue
                self.removed[(kA, (self.IA.side, p[0]), kB, (self.IB.side, p[1]))] = e
        inv = {}
        for a, v in itertools.chain(self.invariants(RA, kA, True).items(), self.invariants(RB, kB, False).items()):
            inv[a] = iv_inter(inv.get(a, FULL), v)
        # compare control and effects of all compatible iterations
        effects = any(c["events"] for c in RA["cases"] + RB["cases"])
        relA = {i for i, _ in R}
        relB = {j for _, j in R}
        weak = []
        for cA in RA["cases"]:
            hit = False
            for cB in RB["cases"]:
                c = self.case_ctx(cA, cB, inv)
                if c is None:
                    continue
                try:
                    c.align_events(list(cA["events"]), list(cB["events"]))
                    c.set_facts()
                    if cA["ctl"] != cB["ctl"]:
                        if not effects and not self.demand(RA):
                            raise Unknown("loop exit condition")
                        raise Mismatch(f"loop {'ends' if cA['ctl'] == 'stop' else 'continues'} where it should "
                                       f"{'end' if cB['ctl'] == 'stop' else 'continue'} (over {show(RA['src']) if RA['src'] else 'condition'})")
                    hit = True
                except Skip:
                    continue
                except (Mismatch, Unknown) as e:
                    if not c.feasible():
                        continue
                    un = self.unrelated_states(cA, cB, RA, RB, relA, relB, kA, kB)
                    if un and isinstance(e, Mismatch):      # perhaps only represented differently
                        raise Unknown(f"loop states not related ({e})")
                    if isinstance(e, Mismatch) and self.tested(cA, kA, self.IA.side) != self.tested(cB, kB, self.IB.side):
                        raise Unknown(f"a state only one of the loops looks at ({e})")      # perhaps never reached
                    raise

    def demand(self, R):
        src = R["src"]
        if src is None:
            return False
        ty = typeof(src)
        return isinstance(ty, tuple) and ty[0] in ("iter", "aiter")

    def tested(self, c, key, side):
        """Related states the case looks at, other than as numbers."""
        out = set()
        for a in c["facts"]:
            if a[0] == "lin":
                continue
            for t in walk(a):
                if len(t) == 3 and t[0] == "st" and t[1] == key and t[2][0] == side:
                    out.add(self.classes.get((key, t[2]), (t,))[0])
        return out

    def unrelated_states(self, cA, cB, RA, RB, relA, relB, kA, kB):
        """Reasons for unrelated states that occur in the facts/events of the two cases."""
        out = []
        def used(c, key, side, rel):
            s = set()
            for t in walk((tuple(c["events"]), tuple(c["facts"].items()))):
                if len(t) == 3 and t[0] == "st" and t[1] == key and t[2][0] == side:
                    if t[2][1] not in rel:
                        s.add(t[2][1])
            return s
        ua = used(cA, kA, self.IA.side, relA)
        ub = used(cB, kB, self.IB.side, relB)
        for i in ua:
            for j in ub or range(len(RB["inits"])):
                r = self.removed.get((kA, (self.IA.side, i), kB, (self.IB.side, j)))
                if r is not None:
                    out.append(r)
        if (ua or ub) and not out:
            out.append(Unknown("extra loop state"))
        return out

    def mk_classes(self, kA, kB, R, nA, nB):
        parent, off = {}, {}
        nodes = [("a", i) for i in range(nA)] + [("b", j) for j in range(nB)]
        adj = {n: [] for n in nodes}
        for (i, j), (sgn, d) in R.items():          # A_i = sgn * B_j + d
            adj[("a", i)].append((("b", j), sgn, lin_mul(d, -sgn)))
            adj[("b", j)].append((("a", i), sgn, d))
        seen = {}
        c = 0
        for n in nodes:
            if n in seen or not adj[n]:
                continue
            seen[n] = (c, K(0), 1)
            stack = [n]
            while stack:
                u = stack.pop()
                for w, sgn, d in adj[u]:
                    if w not in seen:
                        # value(w) = sgn * value(u) + d
                        seen[w] = (c, lin_add(d, seen[u][1], sgn), sgn * seen[u][2])
                        stack.append(w)
            c += 1
        for (s, i), (c, o, sgn) in seen.items():
            key = kA if s == "a" else kB
            side = self.IA.side if s == "a" else self.IB.side
            ty = None
            rec = (self.loopsA.get(kA) if s == "a" else self.loopsB.get(kB))
            ty = rec["tys"][i]
            t = ("st", kA, ("R", c))
            f = ("fin", kA, ("R", c))
            if ty != "any":
                settype(t, ty)
                settype(f, ty)
            self.classes[(key, (side, i))] = (t, o, sgn)

    def form_interval(self, its, c=0):
        """Interval of sum(k*x)+c under the current facts."""
        its, sgn, c2 = norm_form(its, c)
        if not its:
            return ((c2, c2),)
        iv = iv_inter(self.facts.get(("lin", its), FULL), implicit(its))
        if sgn < 0:
            iv = tuple(((None if hi is None else -hi), (None if lo is None else -lo)) for lo, hi in iv)
        return tuple(((None if lo is None else lo + c2), (None if hi is None else hi + c2)) for lo, hi in iv)

    def invariants(self, R, key, a_side):
        """Inductive bounds on integer loop states, from the bounds tested in the body."""
        side = self.IA.side if a_side else self.IB.side
        out = {}
        cand = set()
        for i, ty in enumerate(R["tys"]):
            if ty != "int":
                continue
            st = ("st", key, (side, i))
            step = set()
            for c in R["cases"]:
                if c["ctl"] == "next":
                    d = lin_add(c["next"][i], st, -1) if c["next"][i] is not None else None
                    step.add(d[2] if d is not None and is_k(d) else None)
            if len(step) != 1 or None in step:
                continue
            step = step.pop()
            forms = {((st, 1),): set()}
            for c in R["cases"]:
                for a, v in c["facts"].items():
                    if a[0] != "lin":
                        continue
                    me = [k for x, k in a[1] if x == st]
                    if not me or any(x != st and any(t[0] in ("st", "elem") and t[1] == key for t in walk(x) if len(t) == 3) for x, _ in a[1]):
                        continue
                    fs = forms.setdefault(a[1], set())
                    for lo, hi in v:
                        for e in (lo, hi):
                            if e is not None:
                                fs.update((e - 1, e, e + 1))
            for items, ends in forms.items():
                k = [k for x, k in items if x == st][0]
                iv0 = self.form_interval([(self.canon(R["inits"][i], a_side) if x == st else self.canon(x, a_side), q) for x, q in items])
                if not iv0:
                    continue
                ends = set(ends)
                for lo, hi in iv0:
                    ends.update(e for e in (lo, hi) if e is not None)
                d = step * k
                best = FULL
                for e in ends:
                    for b in (((None, e),), ((e, None),)):
                        if iv_inter(iv0, b) != tuple(iv0):
                            continue
                        ok = True
                        for c in R["cases"]:
                            if c["ctl"] != "next":
                                continue
                            cur = iv_inter(b, c["facts"].get(("lin", items), FULL))
                            nxt = tuple(((None if lo is None else lo + d), (None if hi is None else hi + d)) for lo, hi in cur)
                            if iv_inter(nxt, b) != nxt:
                                ok = False
                                break
                        if ok:
                            best = iv_inter(best, b)
                if best != FULL and best:
                    its, sgn, c0 = norm_form([(self.canon(x, a_side), q) for x, q in items])
                    if its:
                        iv = tuple(((None if lo is None else lo - c0), (None if hi is None else hi - c0)) for lo, hi in best)
                        if sgn < 0:
                            iv = tuple(((None if hi is None else -hi), (None if lo is None else -lo)) for lo, hi in iv)
                        out[("lin", its)] = iv_inter(out.get(("lin", its), FULL), iv)
        return out

    def case_ctx(self, cA, cB, inv=None):
        c = self.child()
        c.loopsA.update(cA["loops"])
        c.loopsB.update(cB["loops"])
        c.facts0 = dict(self.facts)
        try:
            for a, v in (inv or {}).items():
                put_lin(c.facts0, a[1], v)
        except Skip:
            return None
        c.fa, c.fb = cA["facts"], cB["facts"]
        try:
            c.set_facts()
        except Skip:
            return None
        return c

    def feasible(self):
        try:
            self.set_facts()
            return True
        except Skip:
            return False

    # -------------------------------------------------- events
    def align_events(self, ea, eb):
        ea = [e for e in ea if not self.silent(e, True)]
        eb = [e for e in eb if not self.silent(e, False)]
        n = 0
        for x, y in zip(ea, eb):
            self.align_event(x, y)
            n += 1
        if len(ea) > n:
            self.extra(ea[n], True)
        if len(eb) > n:
            self.extra(eb[n], False)

    def silent(self, e, a_side):
        if e[0] in ("enter", "exit"):
            return True
        if e[0] == "loop":
            return self.empty_loop(e[1], a_side) is not None
        if e[0] == "call" and e[1][1][0] == "rec":
            return not any(x[0] in ("fnv", "lazy") or (isinstance(typeof(x), tuple) and typeof(x)[0] in ("fn", "cls"))
                           for t in e[1][2] for x in walk(t) if isinstance(x, tuple) and x and isinstance(x[0], str))
        return False

    def extra(self, e, a_side):
        who = "unexpected" if a_side else "missing"
        if e[0] == "loop":
            rec = (self.loopsA if a_side else self.loopsB).get(e[1])
            if rec and not any(c["events"] for c in rec["cases"]):
                raise Unknown(f"{who} loop")
            if rec and (rec["src"] is None or rec["src"][0] == "op" and rec["src"][1] not in ("item", "pay", "attr")):
                raise Unknown(f"{who} loop over {show(rec['src']) if rec['src'] else 'a condition'}")
            raise Mismatch(f"{who} pass over {show(rec['src']) if rec and rec['src'] else 'a source'}")
        if e[0] == "call" and e[1][1][0] == "bi" and e[1][1][1] != "await":
            raise Unknown(f"{who} call of {show(e[1])}")
        raise Mismatch(f"{who} effect {self.show_event(e)}")

    def show_event(self, e):
        return f"{e[0]} " + ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in e[1:])

    def align_event(self, x, y):
        if x[0] != y[0]:
            if "loop" in (x[0], y[0]):
                raise Unknown(f"effect {self.show_event(x)} vs {self.show_event(y)}")
            raise Mismatch(f"effect {self.show_event(x)} where {self.show_event(y)} is expected")
        if x[0] == "call":
            a, b = x[1], y[1]
            if a == b and b not in self.calls:
                self.calls[b] = a
                return
            try:
                self.eq(a[1], b[1])
                aa = [self.norm(self.canonA(t)) for t in a[2]]
                bb = [self.norm(self.canonB(t)) for t in b[2]]
                self.eq_seq(("tup", tuple(aa)), ("tup", tuple(bb)))
                if [n for n, _ in a[3]] != [n for n, _ in b[3]]:
                    raise Mismatch("different keyword arguments", a, b)
                for (_, p), (_, q) in zip(a[3], b[3]):
                    self.eq(p, q)
            except Mismatch as e:
                raise Mismatch(f"call {show(a)} where {show(b)} is expected ({e})")
            self.calls[b] = a
            return
        if x[0] == "loop":
            self.align_loop(x[1], y[1])
            return
        if len(x) != len(y):
            raise Unknown("event")
        for p, q in zip(x[1:], y[1:]):
            if isinstance(p, tuple) and isinstance(q, tuple):
                self.eq(p, q)
            elif p != q:
                raise Mismatch(f"effect {self.show_event(x)} where {self.show_event(y)} is expected")

    # -------------------------------------------------- whole behaviours
    def compare_all(self, pas, pbs):
        if self.IA.contracts and not self.contract_names:
            self.contract_names = {x[1][1][2] for p in pbs for x in p.events if x[0] == "call" and x[1][1][:2] == ("op", "contract")}
        if not pas or not pbs:
            raise Unknown("no feasible behaviour")
        base = dict(self.facts)
        unk = None
        anymatch = False
        for pa in pas:
            matched = False
            for pb in pbs:
                c = self.child()
                c.facts0 = dict(base)
                c.refined = {**{t: r[1] for t, r in pa.refine.items() if isinstance(r, tuple) and r[0] == "u"},
                             **{t: r[1] for t, r in pb.refine.items() if isinstance(r, tuple) and r[0] == "u"}}
                c.loopsA.update(pa.loops)
                c.loopsB.update(pb.loops)
                try:
                    c.pair(pa, pb)
                    matched = True
                    self.laws["pairs"] += 1
                except Skip:
                    continue
                except Mismatch as e:
                    if not hasattr(e, "pos"):
                        e.pos = pa.pos
                    e.case = describe(c.facts)
                    raise
                except Unknown as e:
                    matched = True
                    unk = unk or e
            anymatch = anymatch or matched
            if not matched and unk is None:
                unk = Unknown("no matching expected behaviour")
        if not anymatch and self.depth > 0:
            raise Skip             # contradictory context
        if unk is not None:
            raise unk

    def pair(self, pa, pb):
        self.fa, self.fb = pa.facts, pb.facts
        ea, eb = list(pa.events), list(pb.events)
        ka, va, kb, vb = pa.kind, pa.val, pb.kind, pb.val
        if kb == "raise" and vb[0] == "exn" and vb[1][1].split(".")[-1] == "Unreachable":
            raise Skip
        # a call known to raise on one side ends the other side there
        fa, fb = self.fa, self.fb
        for f in (fa, fb):
            for k, v in f.items():
                if k[0] == "raises" and v is True:
                    o = fb if f is fa else fa
                    if k in o:
                        continue
                    ev = eb if f is fa else ea
                    for i, e in enumerate(ev):
                        if e == ("call", k[1]):
                            if f is fa:
                                eb = ev[: i + 1]
                                kb, vb = "raise", ("exsym", k[1])
                            else:
                                ea = ev[: i + 1]
                                ka, va = "raise", ("exsym", k[1])
                            break
        self.set_facts()
        cut = "cut" in (ka, kb)
        if cut:
            if ka == "cut":
                eb = eb[: len(ea)]
            if kb == "cut":
                ea = ea[: len(eb)]
        try:
            self.align_events(ea, eb)
            self.align_fact_loops()
            self.set_facts()
            if cut:
                return
            if ka != kb:
                if "diverge" in (ka, kb):
                    raise Unknown("termination")
                if ka == "raise":
                    raise Mismatch(f"raises {show(va)} where {show(vb)} is expected")
                raise Mismatch(f"returns {show(va)} where {show(vb)} must be raised")
            self.eq(va, vb)
        except (Mismatch, Unknown) as e:
            if not self.feasible():
                raise Skip
            if isinstance(e, Unknown) and self.IA.contracts and not pa.loops and not pb.loops:
                self.refute_order(ea, eb)
            if isinstance(e, Mismatch) and aliens(ea) - aliens(eb):
                raise Unknown(f"calls {', '.join(sorted(aliens(ea) - aliens(eb)))}, of which nothing is known ({e})")
            if isinstance(e, Mismatch) and ka == "raise" and kb != "raise" and any(
                    t[0] == "st" and (self.loopsA.get(t[1]) or {"src": 1})["src"] is None for f in pa.facts for t in walk(f) if t):
                raise Unknown(f"raises in a state of a while loop which may never be reached ({e})")
            if isinstance(e, Mismatch) and self.text_views():
                raise Unknown(f"the text is examined differently ({e})")
            if isinstance(e, Mismatch):
                ra, rb = [sorted(x[1][1][1] for x in ev if x[0] == "call" and x[1][1][0] == "rec") for ev in (ea, eb)]
                if ra != rb:
                    raise Unknown(f"recursion unfolded differently ({e})")
                if self.IA.contracts:
                    ca, cb = [{x[1][1][2] for x in ev if x[0] == "call" and x[1][1][:2] == ("op", "contract")} for ev in (ea, eb)]
                    if ca - self.contract_names and ca - cb or vb == TRUE and pa.loops and not pb.loops:
                        raise Unknown(f"another way of computing it ({e})")
                    if cb - ca and any(len(t) > 2 and t[0] == "op" and t[1] == "fn" for f in pa.facts for t in walk(f)):
                        raise Unknown(f"computed from the contents ({e})")
                a, b = self.free_loops()
                if a or b:
                    raise Unknown(f"conditions on unrelated loops ({e})")
            raise

    def text_views(self):
        """Do the two paths ask different kinds of questions about the same text (a slice of it, a character of it, ...)?"""
        def views(facts, canon):
            whole, parts = set(), set()
            for a in facts:
                for t in walk(a):
                    if len(t) > 2 and t[0] == "op" and isinstance(t[2], tuple) and t[2]:
                        if t[1] in ("slice", "item") or str(t[1]).startswith("str."):
                            root = t[2]
                            while root[0] == "op" and len(root) > 2 and (root[1] in ("slice", "item") or str(root[1]).startswith("str.")) and isinstance(root[2], tuple):
                                root = root[2]
                            if typeof(root) == "str" or str(t[1]).startswith("str."):
                                whole.add(root)
                                if t[1] != "item":
                                    parts.add((root, canon(t)))
                        elif t[1] == "len" and typeof(t[2]) == "str":
                            whole.add(t[2])
            return whole, parts
        wa, pa = views(self.fa, self.canonA)
        wb, pb = views(self.fb, self.canonB)
        return any(r in wb for r, _ in pa - pb) or any(r in wa for r, _ in pb - pa)

    def refute_order(self, ea, eb):
        """The same calls in another order, or only some of them although nothing is known of what the others work on."""
        ha, hb = [], []
        for ev, h, canon in ((ea, ha, self.canonA), (eb, hb, self.canonB)):
            for x in ev:
                if self.silent(x, h is ha):
                    continue
                if x[0] != "call":
                    return
                f = x[1][1]
                if f[:2] == ("op", "contract"):
                    h.append(("contract", f[2]))
                elif f[0] == "s":
                    h.append(f)
                else:
                    return
        if ha == hb or not {x[1] for x in ha if x[0] == "contract"} <= self.contract_names:
            return
        ca, cb = Counter(ha), Counter(hb)
        if ca == cb:
            raise Mismatch("the calls are made in a different order: " + self.heads(ha) + " instead of " + self.heads(hb))
        if ca - cb:
            return
        # calls are missing: what they work on must not be known any better than in the specification
        for x in eb:
            if x[0] == "call" and x[1][1][:2] == ("op", "contract"):
                for arg in x[1][2]:
                    t = self.canonB(arg)
                    if t[0] in ("k", "s"):
                        continue
                    for fact in self.fa:
                        if fact not in self.fb and any(t == y for y in walk(fact)):
                            return
        raise Mismatch("calls are missing: " + self.heads(ha) + " instead of " + self.heads(hb))

    @staticmethod
    def heads(h):
        return "[" + ", ".join(x[1].replace("spec_", "recursive ") if x[0] == "contract" else show(x) for x in h) + "]"

    def fact_loops(self, facts, loops):
        out = []
        for a in facts:
            for x in walk(a):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == "fin" and x[1] in loops and x[1] not in out:
                    out.append(x[1])
        return out

    def free_loops(self):
        done = set(self.loops.values())
        return ([k for k in self.fact_loops(self.fa, self.loopsA) if k not in done],
                [k for k in self.fact_loops(self.fb, self.loopsB) if k not in self.loops])

    def align_fact_loops(self):
        """Loops without events whose results this partition depends on."""
        ks, js = self.free_loops()
        for kA in ks:
            for kB in js:
                if kB in self.loops or not (self.loopsA[kA].get("pure") and self.loopsB[kB].get("pure")):
                    continue
                try:
                    self.align_loop(kA, kB)
                    self.set_facts()
                    break
                except (Mismatch, Unknown):
                    continue
    facts0 = {}


def renorm(t):
    if t and t[0] == "op" and len(t) > 1 and t[1] == "lin":
        r = K(t[2])
        for a, k in t[3]:
            r = lin_add(r, lin_mul(a, k))
        return r
    if t and t[0] == "tup" and len(t) == 2:
        return mk_tup(t[1])
    if t and t[0] == "op" and t[1] == "len":
        return length(t[2])
    if t and t[0] == "op" and t[1] == "pay" and t[2][0] == "un" and t[2][2] == t[3]:
        return t[2][3]
    if t and t[0] == "op" and t[1] == "fstr":
        return Interp.mk_fstr(None, t[2:])
    if t and t[0] == "op" and t[1] == "join" and len(t) == 4 and t[3][0] == "tup" and all(x[0] != "spl" and typeof(x) == "str" for x in t[3][1]):
        return Interp.mk_fstr(None, [y for n, x in enumerate(t[3][1]) for y in ((t[2], x) if n else (x,))])
    return t


def describe(facts):
    out = []
    for a, v in facts.items():
        try:
            if a[0] == "tag":
                out.append(f"{show(a[1])} is {v}")
            elif a[0] == "truthy":
                out.append(f"{show(a[1])} is {'true' if v else 'false'}")
            elif a[0] == "isnone":
                out.append(f"{show(a[1])} is {'' if v else 'not '}None")
            elif a[0] == "lin":
                form = " ".join(("+" if k > 0 else "-") + (str(abs(k)) if abs(k) != 1 else "") + show(x) for x, k in a[1])
                out.append(f"{form} in {v}")
            elif a[0] == "raises":
                out.append(f"{show(a[1])} {'raises' if v else 'returns'}")
            elif a[0] in ("isinst", "isexn"):
                out.append(f"{show(a[1])} {'is' if v else 'is not'} a {str(a[2]).split('.')[-1]}")
        except Exception:
            pass
    return "; ".join(out[:8])
