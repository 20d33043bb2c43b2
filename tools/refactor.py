"""Development aid: behaviour-preserving rewrites of the repository, on which every check has to stay quiet.

  python3 tools/refactor.py list                      names of the rewrites
  python3 tools/refactor.py tests [RW...]             run the repository's tests on a scratch copy with each rewrite applied everywhere
  python3 tools/refactor.py run [RW...] [-f FILE...]  run the checks on every (file, rewrite)
Not used by any registered check."""
import ast, copy, os, sys, json, time, shutil, subprocess, tempfile, collections, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(12000)
from sa.program import Program, REPO
from sa import laws, registry, check as chk

F = (ast.FunctionDef, ast.AsyncFunctionDef)
N = [0]


def fresh(p="tmp"):
    N[0] += 1
    return f"_{p}{N[0]}"


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def has(node, *kinds, deep=False):
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, kinds):
            return True
        for c in ast.iter_child_nodes(x):
            if deep or not isinstance(c, F + (ast.Lambda,)):
                st.append(c)
    return False


def is_overload(n):
    return any((getattr(d, "id", "") or getattr(d, "attr", "")) == "overload" for d in n.decorator_list)


def is_stub(n):
    b = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not b or is_overload(n)


def split_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


class Stmts(ast.NodeTransformer):
    """rewrites statement lists: override stmt(node) -> list or None"""
    depth = 0

    def lst(self, body, fn):
        out = []
        for s in body:
            r = self.stmt(s, fn)
            out.extend([s] if r is None else r)
        return out

    def walk(self, node, fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                inner = node if isinstance(node, F) else fn
                for s in b:
                    self.walk(s, inner)
                if inner is not None:
                    setattr(node, f, self.lst(b, inner))
        for h in getattr(node, "handlers", []) or []:
            self.walk(h, fn)
        for c in getattr(node, "cases", []) or []:
            self.walk(c, fn)

    def stmt(self, s, fn):
        return None

    def run(self, tree):
        self.walk(tree, None)
        return tree


class RetTemp(Stmts):
    """return E  ->  result = E; return result"""
    def stmt(self, s, fn):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and not is_stub(fn):
            n = fresh("result")
            return [ast.Assign([store(n)], s.value), ast.Return(name(n))]


class NoOp(Stmts):
    def stmt(self, s, fn):
        if isinstance(s, (ast.Return, ast.If, ast.For, ast.While, ast.Match, ast.Try)) and not is_stub(fn):
            return [ast.Assign([store("_unused")], ast.Constant(None)), ast.Pass(), s]


class InvertIf(Stmts):
    def stmt(self, s, fn):
        if isinstance(s, ast.If) and s.orelse:
            t = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else ast.UnaryOp(ast.Not(), s.test)
            return [ast.If(t, s.orelse, s.body)]


def ends(body):
    s = body[-1]
    return isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse)


class ElseAfterReturn(Stmts):
    """if c: ...return; rest  ->  if c: ...return else: rest"""
    def lst(self, body, fn):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(body):
                return body[:i] + [ast.If(s.test, s.body, self.lst(body[i + 1:], fn))]
        return body


class GuardClause(Stmts):
    """if c: ..return else: rest  ->  if c: ..return; rest"""
    def stmt(self, s, fn):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            return [ast.If(s.test, s.body, [])] + s.orelse


class IfExpToIf(Stmts):
    def stmt(self, s, fn):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]


class IfToIfExp(Stmts):
    """if c: return a  else: return b (or fall through to a return)"""
    def lst(self, body, fn):
        out, i = [], 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
                r = s.orelse if s.orelse else body[i + 1:i + 2]
                if len(r) == 1 and isinstance(r[0], ast.Return) and r[0].value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, r[0].value)))
                    i += 1 if s.orelse else 2
                    continue
            out.append(s)
            i += 1
        return out


class WhileTrue(Stmts):
    def stmt(self, s, fn):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant) and s.test.value):
            return [ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])]


class ForToWhile(Stmts):
    def stmt(self, s, fn):
        if isinstance(s, ast.For) and not s.orelse:
            it = fresh("it")
            return [ast.Assign([store(it)], ast.Call(name("iter") if not SHADOW.get("iter") else ast.Attribute(name("builtins"), "iter", ast.Load()), [s.iter], [])),
                    ast.While(ast.Constant(True), [ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(it)], []))],
                                                           [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])] + s.body, [])]


SHADOW = {}


class YieldFromLoop(Stmts):
    """yield from xs as a statement -> loop (only where no value is sent)"""
    def stmt(self, s, fn):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and not isinstance(fn, ast.AsyncFunctionDef):
            x = fresh("x")
            return [ast.For(store(x), s.value.value, [ast.Expr(ast.Yield(name(x)))], [])]


class LoopYieldFrom(Stmts):
    def stmt(self, s, fn):
        if isinstance(s, ast.For) and not s.orelse and not isinstance(fn, ast.AsyncFunctionDef) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and \
                isinstance(s.body[0].value, ast.Yield) and isinstance(s.target, ast.Name) and isinstance(s.body[0].value.value, ast.Name) and \
                s.body[0].value.value.id == s.target.id:
            return [ast.Expr(ast.YieldFrom(s.iter))]


class AugToAssign(Stmts):
    def stmt(self, s, fn):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            return [ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))]


class CompToLoop(Stmts):
    """x = [E for t in it if c] / return [...]  ->  loop"""
    def conv(self, v, end):
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async and not has(v.elt, ast.Await, ast.NamedExpr):
            g = v.generators[0]
            acc = fresh("acc")
            body = [ast.Expr(ast.Call(ast.Attribute(name(acc), "append", ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([store(acc)], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), end(name(acc))]

    def stmt(self, s, fn):
        if isinstance(s, ast.Return):
            return self.conv(s.value, lambda e: ast.Return(e))
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return self.conv(s.value, lambda e: ast.Assign(s.targets, e))


class HoistArgs(Stmts):
    """return f(g(x), h(y)) -> a = g(x); b = h(y); return f(a, b) where f is a plain name or module attribute"""
    def stmt(self, s, fn):
        v = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and not v.keywords and any(isinstance(a, ast.Call) for a in v.args) and not has(v, ast.NamedExpr, ast.Starred):
            pre, args = [], []
            for a in v.args:
                if isinstance(a, (ast.Constant, ast.Lambda)):
                    args.append(a)
                else:
                    n = fresh("arg")
                    pre.append(ast.Assign([store(n)], a))
                    args.append(name(n))
            v.args = args
            return pre + [s]


class TupleAssign(Stmts):
    """a, b = x, y -> t1 = x; t2 = y; a = t1; b = t2"""
    def stmt(self, s, fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                len(s.targets[0].elts) == len(s.value.elts) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts + s.value.elts):
            ts = [fresh("t") for _ in s.value.elts]
            return [ast.Assign([store(t)], e) for t, e in zip(ts, s.value.elts)] + [ast.Assign([t], name(n)) for t, n in zip(s.targets[0].elts, ts)]


class MatchToIf(Stmts):
    """match on classes / constants -> if chain"""
    def test(self, subj, p):
        """-> (conditions, bindings) or None"""
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return [], ([(p.name, subj)] if p.name else [])
            r = self.test(subj, p.pattern)
            return r and (r[0], r[1] + ([(p.name, subj)] if p.name else []))
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(subj, [ast.Eq()], [p.value])], []
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])], []
        if isinstance(p, ast.MatchClass) and not p.patterns:
            cs, bs = [ast.Call(name("isinstance"), [subj, p.cls], [])], []
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                r = self.test(ast.Attribute(subj, a, ast.Load()), q)
                if r is None:
                    return None
                # an attribute may be missing
                if isinstance(p.cls, ast.Name) and p.cls.id in ("Option", "Result") and a in ("some", "ok", "error") and "tag" not in p.kwd_attrs:
                    cs.append(ast.Compare(ast.Attribute(subj, "tag", ast.Load()), [ast.Eq()], [ast.Constant(a)]))
                cs += r[0]
                bs += r[1]
            return cs, bs
        return None

    def stmt(self, s, fn):
        if not isinstance(s, ast.Match):
            return None
        sub = fresh("m")
        out, cur = [ast.Assign([store(sub)], s.subject)], None
        chain = []
        for c in s.cases:
            r = self.test(name(sub), c.pattern)
            if r is None:
                return None
            cs, bs = r
            if c.guard is not None:
                if bs:
                    return None
                cs = cs + [c.guard]
            body = [ast.Assign([store(n)], e) for n, e in bs] + c.body
            chain.append((cs, body))
        node = []
        for cs, body in reversed(chain):
            node = body if not cs else [ast.If(cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs), body, node)]
        return out + node


class LambdaToDef(Stmts):
    def stmt(self, s, fn):
        v = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
        if isinstance(v, ast.Lambda) and not has(v, ast.Yield, ast.Await):
            n = fresh("fn")
            if isinstance(s, ast.Return):
                return [mkdef(n, v.args, [ast.Return(v.body)]), ast.Return(name(n))]
        if isinstance(v, ast.Call):
            pre = []
            for i, a in enumerate(v.args):
                if isinstance(a, ast.Lambda):
                    n = fresh("fn")
                    pre.append(mkdef(n, a.args, [ast.Return(a.body)]))
                    v.args[i] = name(n)
            if pre:
                return pre + [s]


def mkdef(n, args, body, isasync=False):
    c = ast.AsyncFunctionDef if isasync else ast.FunctionDef
    d = c(name=n, args=args, body=body, decorator_list=[], returns=None, type_comment=None)
    d.type_params = []
    return d


def strip_ann(args):
    a = copy.deepcopy(args)
    for x in ast.walk(a):
        if isinstance(x, ast.arg):
            x.annotation = None
    a.defaults, a.kw_defaults = [], [None] * len(a.kwonlyargs)
    return a


def call_with(args, fnname):
    pos = [name(p.arg) for p in args.posonlyargs + args.args]
    if args.vararg:
        pos.append(ast.Starred(name(args.vararg.arg), ast.Load()))
    kws = [ast.keyword(p.arg, name(p.arg)) for p in args.kwonlyargs]
    if args.kwarg:
        kws.append(ast.keyword(None, name(args.kwarg.arg)))
    return ast.Call(fnname, pos, kws)


class ExtractHelper:
    """every module-level function and method delegates to a new module-level helper with its body"""
    ann = False

    def run(self, tree):
        extra = []

        def do(fn, prefix, cls):
            if is_stub(fn) or has_super(fn) or fn.name.startswith("__") and fn.name not in ("__iter__", "__len__", "__getitem__", "__add__", "__str__", "__eq__", "__hash__", "__lt__", "__contains__"):
                return
            if any((getattr(d, "id", "") or getattr(d, "attr", "")) in ("contextmanager", "asynccontextmanager") for d in fn.decorator_list):
                return
            if cls is not None and any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(fn)):
                return
            if cls is not None and any(isinstance(x, ast.Name) and x.id in ("__class__",) for x in ast.walk(fn)):
                return
            doc, body = split_doc(fn.body)
            h = f"_{prefix}{fn.name}_impl"
            args = strip_ann(fn.args)
            if self.ann:
                args = copy.deepcopy(fn.args)
                args.defaults, args.kw_defaults = [], [None] * len(args.kwonlyargs)
                if cls is not None and args.args and args.args[0].arg == "self":
                    args.args[0].annotation = ast.Constant(cls)
            isasync = isinstance(fn, ast.AsyncFunctionDef)
            gen = has_own(fn, (ast.Yield, ast.YieldFrom))
            extra.append(mkdef(h, args, body, isasync))
            c = call_with(fn.args, name(h))
            if isasync and gen:
                fn.body = doc + [ast.AsyncFor(store("_x"), c, [ast.Expr(ast.Yield(name("_x")))], [], None)]
            elif isasync:
                fn.body = doc + [ast.Return(ast.Await(c))]
            elif gen:
                fn.body = doc + [ast.Return(ast.YieldFrom(c))]
            else:
                fn.body = doc + [ast.Return(c)]
        out = []
        for st in tree.body:
            if isinstance(st, F):
                do(st, "", None)
            elif isinstance(st, ast.ClassDef):
                for m in st.body:
                    if isinstance(m, F) and not any((getattr(d, "id", "") or getattr(d, "attr", "")) in ("classmethod", "setter") for d in m.decorator_list):
                        do(m, st.name.lower() + "_", st.name)
            if extra:
                out.extend(extra)
                extra.clear()
            out.append(st)
        tree.body = out
        return tree


class ExtractHelperTyped(ExtractHelper):
    ann = True


def has_super(fn):
    return any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn))


def has_own(fn, kinds):
    st = list(fn.body)
    while st:
        x = st.pop()
        if isinstance(x, kinds):
            return True
        if isinstance(x, F + (ast.Lambda,)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


class InnerClosure:
    """def f(a): BODY -> def f(a): def inner(): BODY; return inner()"""
    def run(self, tree):
        def visit(node):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, F) and not is_stub(ch):
                    self.do(ch)
                elif isinstance(ch, ast.ClassDef):
                    visit(ch)
        visit(tree)
        return tree

    def do(self, fn):
        if has_super(fn) or has_own(fn, (ast.Yield, ast.YieldFrom)) or has(fn, ast.Nonlocal) or fn.name.startswith("__"):
            return
        params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        st = list(fn.body)
        while st:                           # parameters that are rebound would become locals of the closure
            x = st.pop()
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in params or isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name in params or \
                    isinstance(x, F) and x.name in params:
                return
            if isinstance(x, F + (ast.Lambda,)):
                continue
            st.extend(ast.iter_child_nodes(x))
        doc, body = split_doc(fn.body)
        isasync = isinstance(fn, ast.AsyncFunctionDef)
        n = fresh("inner")
        c = ast.Call(name(n), [], [])
        fn.body = doc + [mkdef(n, ast.arguments([], [], None, [], [], None, []), body, isasync), ast.Return(ast.Await(c) if isasync else c)]


class RenameLocals:
    def run(self, tree):
        def visit(node, taken):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, F):
                    self.do(ch)
                elif isinstance(ch, ast.ClassDef):
                    visit(ch, taken)
        visit(tree, set())
        return tree

    def do(self, fn):
        # rename consistently over the whole top-level function: names stored anywhere in it, not parameters, not global
        params = {a.arg for x in ast.walk(fn) if isinstance(x, F + (ast.Lambda,)) for a in ast.walk(x.args) if isinstance(a, ast.arg)}
        names = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        names |= {x.name for x in ast.walk(fn) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
        meth = {x for c in ast.walk(fn) if isinstance(c, ast.ClassDef) for x in c.body}
        if meth:
            return
        names |= {x.name for x in ast.walk(fn) if isinstance(x, F) and x is not fn}
        names |= {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name}
        glob = {n for x in ast.walk(fn) if isinstance(x, ast.Global) for n in x.names}
        loaded_before = set()
        names -= params | glob
        m = {n: n + "_r" for n in names if n != "_"}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name in m:
                x.name = m[x.name]
            elif isinstance(x, F) and x is not fn and x.name in m:
                x.name = m[x.name]
            elif isinstance(x, ast.ExceptHandler) and x.name in m:
                x.name = m[x.name]
            elif isinstance(x, ast.Nonlocal):
                x.names = [m.get(n, n) for n in x.names]


class RenameParams:
    """parameters of nested functions and lambdas"""
    def run(self, tree):
        for fn in ast.walk(tree):
            if isinstance(fn, F):
                for x in ast.walk(fn):
                    if x is not fn and isinstance(x, F + (ast.Lambda,)) and not getattr(x, "_done", False):
                        x._done = True
                        self.do(x)
        return tree

    def do(self, f):
        ps = [a for a in f.args.posonlyargs + f.args.args if a.arg != "self"]
        body = f.body if isinstance(f.body, list) else [f.body]
        inner = {a.arg for b in body for x in ast.walk(b) if isinstance(x, F + (ast.Lambda,)) for a in ast.walk(x.args) if isinstance(a, ast.arg)}
        m = {a.arg: a.arg + "_p" for a in ps if a.arg not in inner}
        if any(isinstance(x, ast.Nonlocal) for b in body for x in ast.walk(b)):
            return
        for a in ps:
            a.arg = m.get(a.arg, a.arg)
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in m:
                    x.id = m[x.id]
                elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name in m:
                    x.name = m[x.name]


class DropCast(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "cast" and len(n.args) == 2:
            return n.args[1]
        return n

    def run(self, tree):
        return self.visit(tree)


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o = n.ops[0]
            if isinstance(o, ast.IsNot):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
            if isinstance(o, ast.NotIn):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        return n

    def run(self, tree):
        return self.visit(tree)


class NestIf(Stmts):
    """if a and b: X  ->  if a: if b: X"""
    def stmt(self, s, fn):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body


class MapToGen(ast.NodeTransformer):
    """list(map(f, xs)) etc: builtin map/filter objects -> generator expressions (builtins. spelled or not shadowed)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        nm = f.id if isinstance(f, ast.Name) and not SHADOW.get(f.id) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "builtins" else None
        if nm == "map" and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            x = fresh("x")
            return ast.GeneratorExp(ast.Call(n.args[0], [name(x)], []), [ast.comprehension(store(x), n.args[1], [], 0)])
        if nm == "filter" and len(n.args) == 2:
            x = fresh("x")
            return ast.GeneratorExp(name(x), [ast.comprehension(store(x), n.args[1], [ast.Call(n.args[0], [name(x)], [])], 0)])
        return n

    def run(self, tree):
        return self.visit(tree)


class ReduceToLoop(Stmts):
    """return functools.reduce(f, xs, init) -> loop"""
    def stmt(self, s, fn):
        v = s.value if isinstance(s, ast.Return) else None
        if isinstance(v, ast.Call) and len(v.args) == 3 and (isinstance(v.func, ast.Name) and v.func.id == "reduce" and not SHADOW.get("reduce") or
                                                             isinstance(v.func, ast.Attribute) and v.func.attr == "reduce" and getattr(v.func.value, "id", "") == "functools"):
            acc, x, f = fresh("acc"), fresh("x"), fresh("f")
            return [ast.Assign([store(f)], v.args[0]), ast.Assign([store(acc)], v.args[2]),
                    ast.For(store(x), v.args[1], [ast.Assign([store(acc)], ast.Call(name(f), [name(acc), name(x)], []))], []), ast.Return(name(acc))]


class InlineTemps(Stmts):
    """x = E; return x  ->  return E"""
    def lst(self, body, fn):
        out = []
        for s in body:
            if out and isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and isinstance(out[-1], (ast.Assign, ast.AnnAssign)) and out[-1].value is not None:
                a = out[-1]
                t = a.targets if isinstance(a, ast.Assign) else [a.target]
                if len(t) == 1 and isinstance(t[0], ast.Name) and t[0].id == s.value.id and \
                        sum(1 for x in ast.walk(fn) if isinstance(x, (ast.Nonlocal,)) and s.value.id in x.names) == 0:
                    out[-1] = ast.Return(a.value)
                    continue
            out.append(s)
        return out


class FlagLoop(Stmts):
    """for x in xs: if c: return V  ...  -> found flag and break (simple search loops followed by a return)"""
    def lst(self, body, fn):
        out, i = [], 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 and \
                    isinstance(s.body[0].body[0], ast.Return) and i + 1 < len(body) and isinstance(body[i + 1], (ast.Return, ast.Raise)):
                f, r = fresh("found"), fresh("r")
                out.append(ast.Assign([store(f)], ast.Constant(False)))
                out.append(ast.Assign([store(r)], ast.Constant(None)))
                out.append(ast.For(s.target, s.iter, [ast.If(s.body[0].test, [ast.Assign([store(f)], ast.Constant(True)),
                                                                                ast.Assign([store(r)], s.body[0].body[0].value or ast.Constant(None)), ast.Break()], [])], []))
                out.append(ast.If(name(f), [ast.Return(name(r))], []))
                i += 1
                continue
            out.append(s)
            i += 1
        return out


class KwArgs:
    """calls of functions of the same module with their arguments by keyword (evaluation order kept)"""
    def run(self, tree):
        defs = {}
        for st in tree.body:
            if isinstance(st, F) and not st.decorator_list and not st.args.posonlyargs and not st.args.vararg:
                defs[st.name] = st
        for c in ast.walk(tree):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in defs and c.args and not c.keywords and not any(isinstance(a, ast.Starred) for a in c.args):
                ps = [a.arg for a in defs[c.func.id].args.args]
                if len(ps) >= len(c.args) and c.func.id not in SHADOW_LOCAL:
                    c.keywords = [ast.keyword(p, a) for p, a in zip(ps, c.args)]
                    c.args = []
        return tree


SHADOW_LOCAL = set()


class DropAnnotations:
    """remove annotations of local variables"""
    def run(self, tree):
        class T(Stmts):
            def stmt(self, s, fn):
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    return [ast.Assign([s.target], s.value)] if s.value is not None else [ast.Pass()]
        return T().run(tree)


class TryElse(Stmts):
    """try: x = A; return B(x) ... : leave; `with` single item split: with a, b -> nested"""
    def stmt(self, s, fn):
        if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and all(ends(h.body) for h in s.handlers):
            return None
        return None


RW = {c.__name__: c for c in (RetTemp, NoOp, InvertIf, ElseAfterReturn, GuardClause, IfExpToIf, IfToIfExp, WhileTrue, ForToWhile, YieldFromLoop, LoopYieldFrom,
                              AugToAssign, CompToLoop, HoistArgs, TupleAssign, MatchToIf, LambdaToDef, ExtractHelper, ExtractHelperTyped, InnerClosure, RenameLocals,
                              RenameParams, DropCast, DeMorgan, NestIf, MapToGen, ReduceToLoop, InlineTemps, FlagLoop, KwArgs, DropAnnotations)}


def rewrite(src, rw):
    """rewritten source, or None when the rewrite does not apply"""
    global SHADOW, SHADOW_LOCAL
    N[0] = 0
    tree = ast.parse(src)
    SHADOW = {n.name: True for n in tree.body if isinstance(n, F)}
    SHADOW.update({(a.asname or a.name): True for n in tree.body if isinstance(n, ast.ImportFrom) for a in n.names if (n.module or "") not in ("functools",)})
    SHADOW_LOCAL = {a.arg for x in ast.walk(tree) if isinstance(x, ast.arg) for a in [x]}
    before = ast.unparse(tree)
    if rw == "ForToWhile" and SHADOW.get("iter"):
        tree.body.insert(next(i for i, s in enumerate(tree.body) if not (isinstance(s, ast.Expr) or isinstance(s, ast.ImportFrom) and s.module == "__future__")), ast.Import([ast.alias("builtins")]))
    out = RW[rw]().run(tree)
    ast.fix_missing_locations(out)
    text = ast.unparse(out)
    return None if text == before else text


def files():
    for dp, dn, fns in os.walk(os.path.join(REPO, "expression")):
        for f in sorted(fns):
            if f.endswith(".py") and f not in ("_version.py",):
                yield os.path.join(dp, f)


def tests(rws):
    ok = True
    for rw in rws:
        d = tempfile.mkdtemp(prefix="rw_")
        w = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", REPO, w], check=True)
        n = 0
        for p in files():
            t = rewrite(open(p).read(), rw)
            if t is not None:
                open(w + p[len(REPO):], "w").write(t)
                n += 1
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tests"], cwd=w, capture_output=True, text=True,
                           env={**os.environ, "PYTHONPATH": w})
        print(rw, n, "files", (r.stdout.strip().split("\n") or [""])[-1], flush=True)
        if r.returncode:
            ok = False
            print("\n".join(l for l in r.stdout.split("\n") if l.startswith(("E ", "FAILED", "ERROR")))[:1500])
        shutil.rmtree(d)
    return ok


FOOT = None


def footprint():
    """obligation -> set of repo files it visits"""
    cache = "/tmp/foot.json"
    dig = Program().digest() + str(max(os.path.getmtime(os.path.join(dp, f)) for d in ("specs", "sa") for dp, _, fs in os.walk(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d)) for f in fs if f.endswith(".py")))
    if os.path.exists(cache):
        j = json.load(open(cache))
        if j["digest"] == dig:
            return j["foot"]
    prog = Program()
    jobs = [(m, eff) for m, eff in law_modules()]
    chk._P = prog
    foot = {}
    with mp.get_context("fork").Pool(8) as pool:
        for r in pool.imap_unordered(_foot, [(m, e, oid) for m, e in jobs for oid, i, s in laws.LawSet(prog, "specs." + m).obligations()], chunksize=1):
            foot[r[0]] = r[1]
    json.dump({"digest": dig, "foot": foot}, open(cache, "w"))
    return foot


def law_modules():
    out = set()
    for p in registry.PROPERTIES.values():
        out.update((m, False) for m in p.get("laws", ()))
        out.update((m, True) for m in p.get("effects", ()))
    return sorted(out)


def _foot(j):
    m, eff, oid = j
    nm = ("writes." if eff else "") + oid
    k, n, r = chk._run(("law", nm, ("specs." + m, "effects" if eff else None, None), 300))
    mods = set()
    for q in r.get("visited", {}):
        mods.add(q)
    return nm, sorted(x for x in mods if x.startswith("expression")), r["verdict"]


def _job(j):
    path, rw, name_, payload, text = j
    prog = PROGS.get((path, rw))
    if prog is None:
        PROGS.clear()
        try:
            prog = PROGS[(path, rw)] = Program(overrides={path: text})
        except Exception as e:
            return path, rw, name_, {"verdict": "CRASH", "detail": repr(e)}
    chk._P = prog
    if payload is None:
        fs = []
        try:
            r = registry.rule(name_)(prog)
            fs = r["findings"]
        except Exception as e:
            return path, rw, name_, {"verdict": "CRASH", "detail": repr(e)}
        return path, rw, name_, {"verdict": "VIOLATION" if fs else "HOLDS", "detail": "; ".join(f["where"] + " " + f["what"] for f in fs)[:400]}
    k, n, r = chk._run(("law", name_, payload, 120))
    return path, rw, name_, {"verdict": r["verdict"], "detail": str(r.get("detail", ""))[:200], "pos": r.get("pos"), "case": str(r.get("case", ""))[:200], "wall": r.get("wall", 0)}


PROGS = {}


def run(rws, fl, obl=None):
    foot = footprint()
    eff = {}
    for m, e in law_modules():
        pre = ("writes." if e else "") + m + "."
        eff[pre] = ("specs." + m, "effects" if e else None, None)
    jobs = []
    rules = sorted({r for p in registry.PROPERTIES.values() for r in p.get("rules", ())})
    for p in files():
        if fl and not any(x in p for x in fl):
            continue
        modname = os.path.relpath(p, REPO)[:-3].replace("/", ".").replace(".__init__", "")
        for rw in rws:
            t = rewrite(open(p).read(), rw)
            if t is None:
                continue
            for n, qs in foot.items():
                if obl and obl not in n:
                    continue
                if any(q == modname or q.startswith(modname + ".") for q in qs):
                    pay = next(v for k, v in eff.items() if n.startswith(k))
                    jobs.append((p, rw, n, pay, t))
            if not obl:
                for r in rules:
                    jobs.append((p, rw, r, None, t))
    print(len(jobs), "jobs", flush=True)
    cnt = collections.Counter()
    unk = collections.Counter()
    slow = []
    with mp.get_context("fork").Pool(8) as pool:
        for p, rw, n, r in pool.imap_unordered(_job, jobs, chunksize=20):
            cnt[r["verdict"]] += 1
            if r["verdict"] in ("VIOLATION", "CRASH"):
                print("!!", rw, os.path.relpath(p, REPO), n, r["verdict"], r["detail"], r.get("pos"), r.get("case"), flush=True)
            elif r["verdict"] != "HOLDS":
                unk[(rw, os.path.relpath(p, REPO))] += 1
                if "-v" in sys.argv:
                    print("??", rw, os.path.relpath(p, REPO), n, r["detail"], flush=True)
            if r.get("wall", 0) > 60:
                slow.append((rw, p, n, r["wall"]))
    print(cnt)
    for k, v in unk.most_common():
        print("unknown", v, *k)
    for s in slow:
        print("slow", *s)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x != "-v"]
    fl, obl = [], None
    if "-o" in a:
        i = a.index("-o")
        obl = a[i + 1]
        del a[i:i + 2]
    if "-f" in a:
        i = a.index("-f")
        fl = a[i + 1:]
        a = a[:i]
    if a[0] == "list":
        print(*RW)
    elif a[0] == "show":
        print(rewrite(open(os.path.join(REPO, fl[0])).read(), a[1]))
    elif a[0] == "tests":
        sys.exit(0 if tests(a[1:] or list(RW)) else 1)
    else:
        run(a[1:] or list(RW), fl, obl)
