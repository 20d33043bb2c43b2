"""Laws: pairs of fragments (implementation use, specification) to be proved equal."""
from __future__ import annotations

import ast
import time

from .compare import Ctx, Mismatch, Unknown, paths_of
from .interp import Imprecise, Interp, RecDetected, State
from .terms import K, LEN, S, TY, op, show


class LawSet:
    def __init__(self, prog, mod):
        self.prog, self.mod = prog, mod
        m = prog.modules[mod]
        self.impl, self.spec, self.doc = {}, {}, {}
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for pre, tab in (("impl_", self.impl), ("spec_", self.spec)):
                    if n.name.startswith(pre):
                        base = n.name[len(pre):].split("__")[0]
                        tab.setdefault(base, []).append(n)

    def obligations(self):
        for base, impls in self.impl.items():
            if base not in self.spec:
                raise RuntimeError(f"{self.mod}: no specification for {base}")
            for n in impls:
                yield f"{self.mod.split('.')[-1]}.{n.name[5:]}", n, self.spec[base]


def symbols(I, mod, node):
    out = []
    for p in node.args.posonlyargs + node.args.args:
        out.append(S(p.arg, I.types.annot(mod, p.annotation)))
    if node.args.vararg:
        t = I.types.annot(mod, node.args.vararg.annotation)
        out.append(("spl", S(node.args.vararg.arg, ("seq", t))))
    return out


def run_side(prog, mod, node, side, args, opaque, force_ok, peel=None, effects=None):
    opaque = set(opaque)
    for _ in range(12):
        I = Interp(prog, side, opaque)
        I.effects = effects
        if peel is not None:
            I.peel, I.demand = peel
        I.abstract = {q: S(q.split(".")[-1], I.types.annot(mod, ast.parse(a, mode="eval").body)) for q, a in (getattr_const(prog, mod, "ABSTRACT") or {}).items()}
        setup_contracts(I, prog, mod)
        if force_ok and opaque:
            I.force_set = set(opaque)
        try:
            f = I.closure(node, None, None)

            nonneg, chars = getattr_const(prog, mod, "NONNEG") or (), getattr_const(prog, mod, "CHARS") or ()

            def thunk():
                av = []
                for a in args:
                    if a[0] == "s" and a[1] in nonneg:
                        I.assume_lin(K(0), a, "<=")
                    if a[0] == "s" and a[1] in chars:
                        I.assume_lin(op("len", a), K(1), "==")
                for a in args:
                    if peel is not None:
                        if a[0] == "spl":
                            av.extend(I.expand(a[1])[1])
                            continue
                        a = I.expand(a)
                    av.append(a)
                r = I.call(f, av, {})
                if isinstance(node, ast.AsyncFunctionDef) and not (r[0] == "ref" and I.kind(r) == "gen"):
                    r = I.await_(r)
                return r
            st = State()
            outs = I.explore(thunk, st)
            return I, paths_of(I, outs), opaque
        except RecDetected as r:
            if r.fkey in opaque:
                raise Imprecise(f"recursion through {r.fkey}")
            opaque.add(r.fkey)
    raise Imprecise("recursion")


def setup_contracts(I, prog, mod):
    """Modular reasoning: CONTRACTS replaces calls of recursive functions inside one another (everywhere
    when ENTRY is False) by a specification function (spec_*: an opaque call) or a contract fragment;
    ON_SHAPE names the fragment assumed whenever the shape of an arbitrary value becomes known."""
    I.spec_mod = mod
    defs = {n.name: n for n in prog.modules[mod].tree.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
    for n, b in prog.modules[mod].bindings.items():
        if b[0] == "import" and b[2] and str(b[1]).startswith("specs."):
            r = prog.resolve(mod, n)
            if r and r[0] == "def":
                defs[n] = r[2]
    for q, name in (getattr_const(prog, mod, "CONTRACTS") or {}).items():
        I.contracts[q] = (name, defs[name])
        if name.startswith("spec_"):
            for d in defs:
                if d.split("__")[0] == name:
                    I.contracts[f"{mod}.{d}"] = (name, defs[name])
    for n in prog.modules[mod].tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "ENTRY":
            I.entry = ast.literal_eval(n.value)
    I.live = bool(getattr_const(prog, mod, "LIVE"))
    I.globals_ok = bool(getattr_const(prog, mod, "GLOBALS"))
    I.zone = bool(getattr_const(prog, mod, "ZONE"))
    I.turns = getattr_const(prog, mod, "STEPS") or 0
    I.deep = getattr_const(prog, mod, "DEEP") or 3
    hook = getattr_const(prog, mod, "ON_SHAPE")
    if hook:
        def watch(t):
            saved, I.watch = I.watch, None
            try:
                I.call(I.closure(defs[hook], None, None), [t], {})
            finally:
                I.watch = saved
        I.watch = watch


def attempt(prog, mod, impl, specs, res, peel=None):
    """Compare the implementation fragment with each admissible specification."""
    TY.clear()
    LEN.clear()
    res.update(verdict="UNKNOWN", detail="")
    try:
        I0 = Interp(prog, "A")
        args = symbols(I0, mod, impl)
        IA, pa, rec = run_side(prog, mod, impl, "A", args, (), True, peel)
        res["visited"] = IA.visited
        res["paths"] = len(pa)
        res["sites"] = len(IA.sites)
        first = None
        unk = None
        for sp in specs:
            try:
                IB, pb, _ = run_side(prog, mod, sp, "B", args, rec, False, peel)
                c = Ctx(IA, IB)
                c.facts0 = {}
                c.compare_all(pa, pb)
                res["verdict"] = "HOLDS"
                for k in ("loops", "subs", "pairs"):
                    res[k] += c.laws[k]
                res["spec_paths"] = len(pb)
                break
            except Mismatch as e:
                if first is None:
                    first = e
            except (Unknown, Imprecise) as e:
                unk = unk or e
            except RecDetected as e:
                unk = unk or e
        else:
            if unk is not None:
                res["detail"] = f"{type(unk).__name__}: {unk}" if str(unk) else repr(unk)
            else:
                res["verdict"] = "VIOLATION"
                res["detail"] = str(first)
                res["pos"] = getattr(first, "pos", None)
                res["case"] = getattr(first, "case", "")
    except (Imprecise, Unknown) as e:
        res["detail"] = f"{type(e).__name__}: {e}"
    except RecDetected as e:
        res["detail"] = f"recursion: {e.fkey}"
    return res


def effects(prog, mod, impl, allowed=()):
    """does any path of the fragment write to a value that existed before the operation?"""
    t0 = time.time()
    res = {"verdict": "UNKNOWN", "detail": "", "visited": {}, "paths": 0, "loops": 0, "subs": 0, "pairs": 0}
    TY.clear()
    LEN.clear()
    found = []
    try:
        I0 = Interp(prog, "A")
        IA, pa, _ = run_side(prog, mod, impl, "A", symbols(I0, mod, impl), (), True, None, found)
        res.update(visited=IA.visited, paths=len(pa), verdict="HOLDS")
    except (Imprecise, Unknown, RecDetected) as e:
        res["detail"] = f"{type(e).__name__}: {e}"
    for ev, pos in found:
        if pos[0] in allowed:
            continue
        what = f"{ev[1]} of a value of the caller" if ev[0] == "mutate" and isinstance(ev[1], str) else \
            f"{ev[0]} {show(ev[1])}" + (f".{ev[2]}" if len(ev) > 2 and isinstance(ev[2], str) else "")
        res.update(verdict="VIOLATION", detail=f"changes a value that existed before the operation: {what}", pos=pos)
        break
    res["wall"] = time.time() - t0
    return res


SIZES = (1, 2, 3)


def check(prog, mod, impl, specs):
    """-> dict(verdict, detail, pos, case, stats)

    The fixpoint comparison decides the obligation for all sizes.  Where it can relate the two
    sides neither way, traces are partitioned by the size of the sources (up to 3 elements) and the
    partitions compared; that can only confirm a difference, never establish the obligation."""
    t0 = time.time()
    res = {"verdict": "UNKNOWN", "detail": "", "visited": {}, "paths": 0, "loops": 0, "subs": 0, "pairs": 0}
    attempt(prog, mod, impl, specs, res)
    demand = getattr_const(prog, mod, "DEMAND")
    if res["verdict"] == "HOLDS" and demand:
        # a loop that only moves elements leaves no trace in the comparison above; here every element taken from a source does
        r = {"visited": {}, "paths": 0, "loops": 0, "subs": 0, "pairs": 0}
        attempt(prog, mod, impl, specs, r, (2, True))
        res["sized"] = (2, r["verdict"], r["detail"])
        if r["verdict"] == "VIOLATION":
            res.update(verdict="VIOLATION", detail=r["detail"] + " (sources of at most 2 elements)", pos=r.get("pos"), case=r.get("case"))
    if res["verdict"] == "UNKNOWN":
        for n in SIZES:
            r = {"visited": {}, "paths": 0, "loops": 0, "subs": 0, "pairs": 0}
            attempt(prog, mod, impl, specs, r, (n, demand))
            if r["verdict"] == "UNKNOWN" and demand:
                attempt(prog, mod, impl, specs, r, (n, False))
            res["sized"] = (n, r["verdict"], r["detail"])
            if r["verdict"] == "VIOLATION":
                res.update(verdict="VIOLATION", detail=r["detail"] + f" (sources of at most {n} elements)", pos=r.get("pos"), case=r.get("case"))
                break
            if r["verdict"] == "UNKNOWN":
                res["detail"] += f"; sized: {r['detail']}"
                break
    res["wall"] = time.time() - t0
    return res


def getattr_const(prog, mod, name):
    for n in prog.modules[mod].tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            return ast.literal_eval(n.value)
    return False
