"""Stack rule: no library code needs stack space that grows with the number of elements, stages or repetitions.

Two ways to make the stack grow are looked for in the resolved program.

recursion     The call graph (calls and mentions of functions, methods and closures) is split into strongly connected
              components.  Every cycle must descend the height-balanced map tree: size-change graphs, whose only
              decreasing step is "a child of the node given", are composed until they repeat, and each idempotent
              self-composition must shrink a parameter.  The depth is then at most the height of the tree.
accumulation  A value that keeps the previous one inside a closure, a generator or another lazy wrapper, rebuilt in
              every turn of a loop or by the reducer of a fold (or in an attribute by every call of a method), is a
              chain as long as the input, and using it needs one frame per link."""
from __future__ import annotations

import ast

# recursion over the number of curried arguments, which is fixed in the decorated function's signature
ARITY = {"expression.core.curry"}
# a function mentioned in these calls runs later, on a stack of its own
SCHEDULE = {"call_soon", "call_soon_threadsafe", "call_later", "call_at", "add_done_callback", "create_task", "ensure_future", "start", "start_soon",
            "start_immediate", "run_in_executor", "run_coroutine_threadsafe", "submit", "Timer", "Thread", "TailCall", "register", "partial_later", "ref", "finalize"}
LOOKS = {"isinstance", "callable", "hasattr", "id", "cast", "TypeVar", "wraps", "update_wrapper", "type", "repr", "str", "hash", "iscoroutinefunction", "signature"}
LAZY_EXT = {"builtins.map", "builtins.filter", "builtins.zip", "builtins.enumerate", "builtins.iter", "builtins.reversed", "functools.partial", "builtins.aiter"}
LAZY_MODS = ("itertools.",)
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
FOLDS = {"fold": 0, "reduce": 0, "fold_back": 1, "scan": 0, "accumulate": 0}


def own(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    stack.reverse()
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, FUNCS + (ast.ClassDef,)):
            stack.extend(reversed(list(ast.iter_child_nodes(n))))


def params(node):
    a = node.args
    out = [p.arg for p in a.posonlyargs + a.args]
    return out, (a.vararg.arg if a.vararg else None), [p.arg for p in a.kwonlyargs], (a.kwarg.arg if a.kwarg else None)


def all_params(node):
    p, v, k, kw = params(node)
    return p + ([v] if v else []) + k + ([kw] if kw else [])


def tree_type(prog, mod, ann):
    """is the annotation the map tree (an option of a tree node), or the node classes themselves?"""
    if ann is None:
        return False
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return False
    if isinstance(ann, ast.BinOp):
        return tree_type(prog, mod, ann.left) or tree_type(prog, mod, ann.right)
    e = ann.value if isinstance(ann, ast.Subscript) else ann
    nm = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""
    if nm in ("MapTree", "MapTreeNode", "MapTreeLeaf"):
        return True
    if nm == "Option" and isinstance(ann, ast.Subscript):
        return tree_type(prog, mod, ann.slice)
    return False


def trees_in(prog, mod, ann):
    """a collection of trees"""
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return False
    e = ann.value if isinstance(ann, ast.Subscript) else ann
    if (e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "") in ("tuple", "Tuple", "Callable", "Iterator", "Iterable"):
        return False
    return isinstance(ann, ast.Subscript) and not tree_type(prog, mod, ann) and \
        any(tree_type(prog, mod, x) for x in ast.walk(ann.slice) if isinstance(x, (ast.Subscript, ast.Name)))


class Scope:
    """name resolution and a light type inference from annotations"""

    def __init__(self, prog):
        self.prog = prog
        self.subs = {}
        for q in prog.classes:
            for b in prog.mro(q)[1:]:
                self.subs.setdefault(b, []).append(q)
        self.defs_cache = {}
        self.est = {}

    def chain(self, fi):
        while fi is not None:
            yield fi
            fi = self.prog.funcs.get(id(fi.parent)) if fi.parent is not None else None

    def fi(self, node):
        return self.prog.funcs[id(node)]

    def owner(self, fi, name):
        for f in self.chain(fi):
            if name in f.locals:
                return f
        return None

    def defs(self, f, name):
        """[(kind, node)] bindings of a local name: 'value' expr, 'part' expr, 'def' function, 'param'"""
        key = (id(f.node), name)
        if key in self.defs_cache:
            return self.defs_cache[key]
        out = []
        if name in all_params(f.node):
            out.append(("param", name))
        for x in own(f.node):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == name:
                out.append(("def", x))
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    self.target(t, x.value, name, out)
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None:
                self.target(x.target, x.value, name, out)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                out.append(("aug", x))
            elif isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension)):
                if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
                    out.append(("elem", x.iter))
            elif isinstance(x, ast.Match):
                for c in x.cases:
                    for cap, low in captures(c.pattern):
                        if cap == name:
                            out.append(("cap<" if low else "cap", x.subject))
            elif isinstance(x, (ast.With, ast.AsyncWith)):
                for i in x.items:
                    if i.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(i.optional_vars)):
                        out.append(("other", i.context_expr))
            elif isinstance(x, ast.ExceptHandler) and x.name == name:
                out.append(("other", x))
        self.defs_cache[key] = out
        return out

    def target(self, t, v, name, out):
        if isinstance(t, ast.Name):
            if t.id == name:
                out.append(("value", v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts + v.elts):
                for a, b in zip(t.elts, v.elts):
                    self.target(a, b, name, out)
            else:
                for i, a in enumerate(t.elts):
                    if isinstance(a, ast.Name) and a.id == name:
                        out.append(("item", (v, i)))
                    elif any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(a)):
                        out.append(("part", v))

    def klass(self, mod, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.BinOp):
            return None
        r = self.prog.resolve_expr(mod, ann)
        return r[1] if r and r[0] == "class" else None

    def elem(self, fi, e):
        """class of the elements of a collection expression"""
        ann = self.annot(fi, e)
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            s = ann.slice.elts[0] if isinstance(ann.slice, ast.Tuple) and ann.slice.elts else ann.slice
            return self.klass(fi.mod, s)
        return None

    def annot(self, fi, e):
        if isinstance(e, ast.Name):
            f = self.owner(fi, e.id)
            if f is not None:
                a = f.node.args
                for p in a.posonlyargs + a.args + a.kwonlyargs:
                    if p.arg == e.id:
                        return p.annotation
                for x in own(f.node):
                    if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == e.id:
                        return x.annotation
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and fi.cls is not None:
            for q in self.prog.mro(fi.cls.qual):
                ci = self.prog.classes.get(q)
                if ci and e.attr in ci.annots:
                    return ci.annots[e.attr]
        return None

    def typ(self, fi, e, depth=0):
        """class of a value, by annotation"""
        if depth > 4:
            return None
        if isinstance(e, ast.Name):
            f = self.owner(fi, e.id)
            if f is None:
                return None
            if e.id == "self" and f.cls is not None:
                return f.cls.qual
            ann = self.annot(fi, e)
            if ann is not None:
                return self.klass(f.mod, ann)
            key = (id(f.node), e.id)
            if key in self.est:                     # defined in terms of itself
                return self.est[key]
            self.est[key] = None
            try:
                def types():
                    return {self.typ(f, d[1], depth + 1) if d[0] == "value" else None for d in self.defs(f, e.id)}
                ts = types()
                if len(ts) == 2 and None in ts:
                    self.est[key] = (ts - {None}).pop()
                    ts = types()
            finally:
                del self.est[key]
            return ts.pop() if len(ts) == 1 else None
        if isinstance(e, ast.Attribute):
            return self.klass(fi.mod, self.annot(fi, e))
        if isinstance(e, ast.Call):
            t = self.target_of(fi, e.func)
            if t is None:
                return None
            if t[0] == "class":
                return t[1]
            if t[0] == "func" and not t[1].is_gen and not isinstance(t[1].node, ast.Lambda):
                if curried(self.prog, t[1]):
                    return None
                return self.klass(t[1].mod, t[1].node.returns)
            if t[0] == "method" and not t[1].is_gen:
                return self.klass(t[1].mod, t[1].node.returns)
        if isinstance(e, ast.Await):
            return self.typ(fi, e.value, depth + 1)
        return None

    def target_of(self, fi, f):
        """what a call's function expression denotes: ('func', FuncInfo) ('method', FuncInfo, receiver) ('class', qual) ('ext', dotted) or None"""
        if isinstance(f, ast.Subscript):
            f = f.value
        if isinstance(f, ast.Lambda):
            return ("func", self.fi(f))
        if isinstance(f, ast.Name):
            o = self.owner(fi, f.id)
            if o is not None:
                ds = self.defs(o, f.id)
                if len(ds) == 1:
                    if ds[0][0] == "def":
                        return ("func", self.fi(ds[0][1]))
                    if ds[0][0] == "value" and isinstance(ds[0][1], (ast.Name, ast.Lambda, ast.Attribute)):
                        return self.target_of(o, ds[0][1])
                return None
            return self.glob(self.prog.resolve(fi.mod, f.id), f.id)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and fi.cls is not None:
                m = self.prog.find_method(fi.cls.qual, f.attr, after=fi.cls.qual)
                return ("method", self.fi(m[1]), f.value) if m else None
            r = self.prog.resolve_expr(fi.mod, f) if self.is_static(fi, f) else None
            if r is not None:
                return self.glob(r, f.attr)
            if self.is_static(fi, f.value):
                c = self.prog.resolve_expr(fi.mod, f.value)
                if c and c[0] == "class":
                    m = self.prog.find_method(c[1], f.attr)
                    if m:
                        return ("func", self.fi(m[1]))
                    return None
            t = self.typ(fi, f.value)
            if t is not None:
                m = self.prog.find_method(t, f.attr)
                if m:
                    return ("method" if m[2] == "method" else "func", self.fi(m[1]), f.value)
        return None

    def is_static(self, fi, e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return isinstance(e, ast.Name) and self.owner(fi, e.id) is None

    def glob(self, r, name):
        if r is None:
            return ("ext", "builtins." + name)
        if r[0] == "def":
            return ("func", self.fi(r[2]))
        if r[0] in ("class", "ext"):
            return (r[0], r[1])
        if r[0] == "expr":
            q = self.prog.resolve_expr(r[1], r[2]) if isinstance(r[2], (ast.Name, ast.Attribute)) else None
            if q and q[0] == "def":
                return ("func", self.fi(q[2]))
            if q and q[0] in ("class", "ext"):
                return (q[0], q[1])
        return None

    def overrides(self, t):
        """a method called on self may be any override"""
        out = [t[1]]
        fi = t[1]
        if t[0] == "method" and fi.cls is not None and isinstance(t[2], ast.Name) and t[2].id == "self":
            for q in self.subs.get(fi.cls.qual, ()):
                m = self.prog.classes[q].methods.get(fi.node.name) if not isinstance(fi.node, ast.Lambda) else None
                if m is not None and id(m) in self.prog.funcs:
                    out.append(self.fi(m))
        return out


def captures(pat, low=False):
    """names bound by a pattern; low: taken from a child field of a tree node"""
    if isinstance(pat, ast.MatchAs):
        if pat.name:
            yield pat.name, low
        if pat.pattern is not None:
            yield from captures(pat.pattern, low)
    elif isinstance(pat, ast.MatchStar):
        if pat.name:
            yield pat.name, low
    elif isinstance(pat, ast.MatchClass):
        c = pat.cls
        nm = c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else ""
        for a, p in zip(pat.kwd_attrs, pat.kwd_patterns):
            yield from captures(p, low or nm == "MapTreeNode" and a in ("left", "right"))
        for p in pat.patterns:
            yield from captures(p, low)
    elif isinstance(pat, ast.MatchSequence):
        for p in pat.patterns:
            yield from captures(p, low)
    elif isinstance(pat, ast.MatchOr):
        for p in pat.patterns:
            yield from captures(p, low)
    elif isinstance(pat, ast.MatchMapping):
        for p in pat.patterns:
            yield from captures(p, low)
        if pat.rest:
            yield pat.rest, low


def curried(prog, fi):
    """('flip', n) or ('curry', n) for decorated functions"""
    for d in getattr(fi.node, "decorator_list", ()):
        if isinstance(d, ast.Call) and d.args and isinstance(d.args[0], ast.Constant) and isinstance(d.args[0].value, int):
            r = prog.resolve_expr(fi.mod, d.func)
            if r and r[0] == "def" and r[2].name in ("curry", "curry_flip"):
                return ("flip" if r[2].name == "curry_flip" else "curry", d.args[0].value)
    return None


def plain(prog, fi):
    for d in getattr(fi.node, "decorator_list", ()):
        e = d.func if isinstance(d, ast.Call) else d
        nm = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""
        if nm not in ("curry", "curry_flip", "staticmethod", "classmethod", "property", "wraps", "abstractmethod", "override", "final"):
            return False
    return True


# ------------------------------------------------------------------ recursion
class Descent:
    """relation of a value to the parameters of the function: {param: '<' or '='}"""

    def __init__(self, sc):
        self.sc = sc
        self.ret = {}
        self.est = {}

    def rel(self, fi, e, depth=0):
        return self.rel0(fi, e, depth) or {}

    @staticmethod
    def join(a, b):
        """None: no constraint yet (a value defined in terms of itself)"""
        if a is None or b is None:
            return b if a is None else a
        return {p: ("<" if a[p] == "<" and b[p] == "<" else "=") for p in a if p in b}

    def rel0(self, fi, e, depth=0):
        if depth > 12:
            return {}
        if isinstance(e, ast.Name):
            f = self.sc.owner(fi, e.id)
            if f is None:
                return {}
            if f is not fi:
                # a variable of an enclosing function: in terms of that function's parameters
                r = self.rel0(f, e, depth + 1)
                return None if r is None else {q if isinstance(q, tuple) else ("^", id(f.node), q): w for q, w in r.items()}
            key = (id(f.node), e.id)
            if key in self.est:
                return self.est[key]
            self.est[key] = None
            try:
                for _ in range(4):
                    out = self.name(f, e, depth)
                    if out == self.est[key]:
                        break
                    self.est[key] = out
                else:
                    return {}
            finally:
                del self.est[key]
            return out
        if isinstance(e, ast.Attribute):
            r = self.rel0(fi, e.value, depth + 1)
            if e.attr in ("left", "right"):
                return None if r is None else {p: "<" for p in r}
            return r if e.attr in ("some", "value") else {}
        if isinstance(e, ast.IfExp):
            return self.join(self.rel0(fi, e.body, depth + 1), self.rel0(fi, e.orelse, depth + 1))
        if isinstance(e, (ast.Subscript, ast.Starred, ast.NamedExpr)):
            return self.rel0(fi, e.value, depth + 1)
        if isinstance(e, ast.Call):
            t = self.sc.target_of(fi, e.func)
            if t and t[0] == "ext" and t[1].endswith("cast") and len(e.args) == 2:
                return self.rel0(fi, e.args[1], depth + 1)
            if t and t[0] == "func" and t[1] is not fi:
                return self.call(fi, e, t[1], None, depth)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("to_list", "default_value", "default_with", "unwrap", "value") and not e.keywords:
                return self.rel0(fi, e.func.value, depth + 1)
        return {}

    def name(self, f, e, depth):
        out = None
        for kind, v in self.sc.defs(f, e.id):
            if kind == "param":
                r = {v: "="}
            elif kind == "value":
                r = self.rel0(f, v, depth + 1)
            elif kind == "item":
                r = self.item(f, v[0], v[1], depth + 1)
            elif kind in ("cap", "elem"):
                r = self.rel0(f, v, depth + 1)
            elif kind == "cap<":
                r = self.rel0(f, v, depth + 1)
                r = None if r is None else {p: "<" for p in r}
            else:
                r = {}
            out = self.join(out, r)
        return out

    def item(self, fi, e, i, depth):
        if isinstance(e, ast.Call):
            t = self.sc.target_of(fi, e.func)
            if t and t[0] == "func" and t[1] is not fi:
                return self.call(fi, e, t[1], i, depth)
        return self.rel0(fi, e, depth)

    def call(self, fi, e, g, i, depth):
        key = (id(g.node), i)
        if key not in self.ret:
            self.ret[key] = {}
            out = None
            if not g.is_gen and not curried(self.sc.prog, g):
                rets = [g.node.body] if isinstance(g.node, ast.Lambda) else [x.value for x in own(g.node) if isinstance(x, ast.Return) and x.value is not None]
                for v in rets:
                    if i is not None:
                        r = self.rel(g, v.elts[i]) if isinstance(v, ast.Tuple) and i < len(v.elts) else {}
                    else:
                        r = self.rel(g, v)
                    out = r if out is None else {p: ("<" if out[p] == "<" and r[p] == "<" else "=") for p in out if p in r}
            self.ret[key] = out or {}
        out = {}
        for p, w in self.ret[key].items():
            arg = bind_args(e, g).get(p)
            if arg is not None:
                for q, v in self.rel(fi, arg, depth + 1).items():
                    out[q] = "<" if "<" in (v, w) else "="
        return out


def bind_args(call, g, receiver=None):
    pos, var, kwo, kw = params(g.node)
    out = {}
    if g.cls is not None and g.parent is None and pos and pos[0] in ("self", "cls"):
        if receiver is not None:
            out[pos[0]] = receiver
        pos = pos[1:]
    for p, a in zip(pos, call.args):
        if isinstance(a, ast.Starred):
            break
        out[p] = a
    for k in call.keywords:
        if k.arg:
            out[k.arg] = k.value
    return out


def frames(sc, fi, g):
    """what a call of g from fi hands on of the enclosing functions' parameters"""
    out = {}
    mine = list(sc.chain(fi))
    for f in list(sc.chain(g))[1:]:
        if f in mine:
            for p in all_params(f.node):
                key = ("^", id(f.node), p)
                out[key] = {p if f is fi else key: "="}
    return out


def call_edges(sc, de, fi):
    """[(callee, size-change graph, node)] ; graph: {callee param: {caller param: '<' or '='}}"""
    skip, called = set(), {}
    for n in own(fi.node):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in SCHEDULE | LOOKS:
                for a in list(n.args) + [k.value for k in n.keywords]:
                    skip.update(id(x) for x in ast.walk(a) if isinstance(x, (ast.Name, ast.Attribute)))
            called[id(f)] = n
        elif isinstance(n, ast.Compare):
            skip.update(id(x) for x in [n.left] + n.comparators if isinstance(x, (ast.Name, ast.Attribute)))
        elif isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
    out = []
    for n in own(fi.node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            # a closure made here runs, at the latest, when its user runs it: the maker "calls" it
            out.append((sc.fi(n), frames(sc, fi, sc.fi(n)), n, "makes"))
            continue
        if id(n) in skip or not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(n.ctx, ast.Load):
            continue
        c = called.get(id(n))
        t = sc.target_of(fi, n)
        if t and t[0] in ("func", "method"):
            g = t[1]
            if isinstance(n, ast.Attribute) and t[0] == "method" and c is None and g.cls is not None and \
                    g.cls.kinds.get(getattr(g.node, "name", ""), "") != "property":
                continue                                # a bound method kept, not run
            graph = frames(sc, fi, g)
            if c is not None and not curried(sc.prog, g):
                for p, a in bind_args(c, g, t[2] if t[0] == "method" else None).items():
                    graph[p] = de.rel(fi, a)
            out.append((g, graph, n, "calls" if c is not None else "mentions"))
        elif isinstance(n, ast.Name):
            o = sc.owner(fi, n.id)
            if o is not None and o is not fi:
                # a variable of an enclosing function that holds something built from a closure
                for kind, v in sc.defs(o, n.id):
                    if kind == "value" and isinstance(v, ast.Call):
                        for y in ast.walk(v):
                            if isinstance(y, ast.Name):
                                for k2, d in (sc.defs(o, y.id) if y.id in o.locals else ()):
                                    if k2 == "def":
                                        out.append((sc.fi(d), frames(sc, fi, sc.fi(d)), n, "uses"))
    return out


def sccs(nodes, edges):
    index, low, onst, st, out = {}, {}, set(), [], []
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(edges.get(root, ())))]
        index[root] = low[root] = len(index)
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(edges.get(w, ()))))
                    break
                if w in onst:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def compose_graph(g1, g2):
    """g1: a->b, g2: b->c ; graphs as frozenset of (src, dst, rel)"""
    out = {}
    for s, m, r in g1:
        for m2, d, q in g2:
            if m == m2:
                w = "<" if "<" in (r, q) else "="
                if out.get((s, d)) != "<":
                    out[(s, d)] = w
    return frozenset((s, d, w) for (s, d), w in out.items())


def size_change(comp, edges):
    """None when every cycle in the component shrinks a tree; otherwise the offending (function, graph)"""
    comp = set(comp)
    graphs = {}
    for a in comp:
        for b, g, *_ in edges[a]:
            if b in comp:
                graphs.setdefault((a, b), set()).add(frozenset((q, p, w) for p, r in g.items() for q, w in r.items()))
    todo = [(k, g) for k, gs in graphs.items() for g in gs]
    steps = 0
    while todo:
        (a, b), g = todo.pop()
        steps += 1
        if steps > 20000:
            return None
        for (c, d), hs in list(graphs.items()):
            if c == b:
                for h in list(hs):
                    n = compose_graph(g, h)
                    if n not in graphs.setdefault((a, d), set()):
                        graphs[(a, d)].add(n)
                        todo.append(((a, d), n))
    for (a, b), gs in graphs.items():
        if a == b:
            for g in gs:
                if compose_graph(g, g) == g and not any(s == d and w == "<" for s, d, w in g):
                    return a
    return None


# --------------------------------------------------------------- accumulation
class Lazy:
    """does evaluating an expression give a value that keeps `name` for later use?  'raw' it is the value itself,
    'lazy' a wrapper that will use it, None otherwise"""

    def __init__(self, sc):
        self.sc = sc
        self.memo = {}
        self.busy = set()

    def mentions(self, fi, node, names):
        """a nested function or comprehension uses one of the names (of fi)"""
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names:
                if isinstance(node, FUNCS) and x.id in self.sc.fi(node).locals:
                    continue
                return True
            if isinstance(x, ast.Attribute) and ("." in "".join(names)) and ast.unparse(x) in names:
                return True
        return False

    def of(self, fi, e, names, seen=()):
        """names: tracked names (with aliases) of function fi"""
        if e is None:
            return None
        if isinstance(e, ast.Name):
            if e.id in names:
                return "raw"
            f = self.sc.owner(fi, e.id)
            if f is None or f is not fi or e.id in seen:
                return None
            out = None
            for kind, v in self.sc.defs(f, e.id):
                if kind == "def":
                    if self.mentions(fi, v, names | self.aliases(fi, names)):
                        out = "lazy"
                elif kind == "value":
                    r = self.of(fi, v, names, seen + (e.id,))
                    out = "lazy" if "lazy" in (r, out) else r or out
            return out
        if isinstance(e, ast.Attribute):
            if ast.unparse(e) in names:
                return "raw"
            return "raw" if self.of(fi, e.value, names, seen) == "raw" else None
        if isinstance(e, (ast.Lambda, ast.GeneratorExp)):
            return "lazy" if self.mentions(fi, e, names | self.aliases(fi, names)) else None
        if isinstance(e, (ast.IfExp,)):
            return self.best(self.of(fi, e.body, names, seen), self.of(fi, e.orelse, names, seen))
        if isinstance(e, ast.BoolOp):
            return self.best(*[self.of(fi, v, names, seen) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.of(fi, e.value, names, seen)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            rs = [self.of(fi, v, names, seen) for v in e.elts if not isinstance(v, ast.Starred)]
            return "lazy" if "lazy" in rs else None
        if isinstance(e, ast.BinOp):
            l = self.of(fi, e.left, names, seen)
            t = self.sc.typ(fi, e.left)
            if l and t:
                dn = {"Add": "__add__", "BitOr": "__or__", "RShift": "__rshift__", "BitAnd": "__and__", "MatMult": "__matmul__"}.get(type(e.op).__name__)
                m = dn and self.sc.prog.find_method(t, dn)
                if m:
                    return self.apply(self.sc.fi(m[1]), {params(m[1])[0][0]: l})
            return None
        if isinstance(e, ast.Call):
            return self.call(fi, e, names, seen)
        return None

    def best(self, *rs):
        return "lazy" if "lazy" in rs else "raw" if "raw" in rs else None

    def aliases(self, fi, names):
        out = set()
        for x in own(fi.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Name, ast.Attribute)) and ast.unparse(x.value) in names:
                out.update(t.id for t in x.targets if isinstance(t, ast.Name))
        return out

    def args(self, fi, c, names, seen):
        return [(self.of(fi, a.value if isinstance(a, ast.Starred) else a, names, seen)) for a in c.args], \
            {k.arg: self.of(fi, k.value, names, seen) for k in c.keywords}

    def call(self, fi, c, names, seen):
        f = c.func
        # two-stage calls of curried functions: g(b)(a)
        if isinstance(f, ast.Call):
            t = self.sc.target_of(fi, f.func)
            if t and t[0] in ("func", "method"):
                cu = curried(self.sc.prog, t[1])
                a1, k1 = self.args(fi, f, names, seen)
                a2, k2 = self.args(fi, c, names, seen)
                pos = params(t[1].node)[0]
                if cu and cu[0] == "flip":
                    return self.apply(t[1], {**dict(zip(pos, a2)), **dict(zip(pos[cu[1]:], a1)), **k1, **k2})
                if cu:
                    return self.apply(t[1], {**dict(zip(pos, a1 + a2)), **k1, **k2})
                return self.result_of_result(t[1], {**dict(zip(pos, a1)), **k1}, a2)
            return None
        t = self.sc.target_of(fi, f)
        pos, kws = self.args(fi, c, names, seen)
        if t is None:
            if isinstance(f, ast.Attribute) and f.attr == "pipe":
                return self.pipe(fi, [f.value] + c.args, names, seen)
            return None
        if t[0] == "ext":
            d = t[1]
            if d in LAZY_EXT or d.startswith(LAZY_MODS):
                return "lazy" if any(pos) or any(kws.values()) else None
            if d.endswith("cast") and len(pos) == 2:
                return pos[1]
            return None
        if t[0] == "class":
            m = self.sc.prog.find_method(t[1], "__init__")
            if m is None:
                return "lazy" if "lazy" in pos + list(kws.values()) else self.stored(t[1], pos + list(kws.values()))
            g = self.sc.fi(m[1])
            ps = params(m[1])[0][1:]
            amap = {**dict(zip(ps, pos)), **kws}
            out = None
            for p, r in amap.items():
                if r and self.keeps(g, p):
                    out = self.best(out, "lazy" if r == "lazy" else self.stored(t[1], ["raw"]))
            return out
        g = t[1]
        if g.node and getattr(g.node, "name", "") == "pipe" and g.mod.endswith("core.pipe"):
            return self.pipe(fi, c.args, names, seen)
        if getattr(g.node, "name", "") == "pipe" and g.cls is not None and isinstance(f, ast.Attribute):
            return self.pipe(fi, [f.value] + c.args, names, seen)
        out = None
        for h in self.sc.overrides(t) if t[0] == "method" else [g]:
            ps = params(h.node)[0]
            am = {}
            if h.cls is not None and h.parent is None and ps and ps[0] in ("self", "cls"):
                am[ps[0]] = self.of(fi, t[2], names, seen) if t[0] == "method" else None
                ps = ps[1:]
            cu = curried(self.sc.prog, h)
            if cu and cu[0] == "flip":
                am.update(dict(zip(ps[cu[1]:], pos)))
                r = self.best(*[x for x in am.values()]) if any(am.values()) else None
                out = self.best(out, "lazy" if r else None)
                continue
            am.update(dict(zip(ps, pos)))
            v = params(h.node)[1]
            if v and len(pos) > len(ps):
                am[v] = self.best(*pos[len(ps):])
            am.update(kws)
            out = self.best(out, self.apply(h, am))
        return out

    def stored(self, qual, rs):
        """a wrapper object around the value: using it goes through the wrapper's own methods"""
        if not any(rs) or self.sc.prog.union_cases(qual):
            return None
        deleg = any(self.sc.prog.find_method(qual, m) for m in ("__iter__", "__aiter__", "__call__", "__next__", "__anext__"))
        return "lazy" if deleg else None

    def keeps(self, g, p):
        """the constructor stores the parameter as it is"""
        for x in own(g.node):
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                if any(isinstance(t, ast.Attribute) for t in ts) and self.of(g, x.value, {p}) in ("raw", "lazy"):
                    return True
        return False

    def pipe(self, fi, args, names, seen):
        if not args:
            return None
        cur = self.of(fi, args[0], names, seen)
        for f in args[1:]:
            cur = self.stage(fi, f, cur, names, seen)
        return cur

    def stage(self, fi, f, cur, names, seen):
        if isinstance(f, ast.Call):
            t = self.sc.target_of(fi, f.func)
            if t and t[0] in ("func", "method"):
                cu = curried(self.sc.prog, t[1])
                a1, k1 = self.args(fi, f, names, seen)
                pos = params(t[1].node)[0]
                if cu and cu[0] == "flip":
                    return self.apply(t[1], {**dict(zip(pos[cu[1]:], a1)), pos[0]: cur, **k1})
                if cu is None:
                    return self.result_of_result(t[1], {**dict(zip(pos, a1)), **k1}, [cur])
            return None
        t = self.sc.target_of(fi, f)
        if t and t[0] == "func" and not curried(self.sc.prog, t[1]):
            pos = params(t[1].node)[0]
            return self.apply(t[1], {pos[0]: cur}) if pos else None
        return None

    def result_of_result(self, g, amap, inner_args):
        """g(..)(..) where g returns one of its own nested functions"""
        if isinstance(g.node, ast.Lambda):
            return None
        out = None
        for x in own(g.node):
            if isinstance(x, ast.Return) and isinstance(x.value, ast.Name):
                for kind, d in self.sc.defs(g, x.value.id) if x.value.id in g.locals else ():
                    if kind == "def":
                        h = self.sc.fi(d)
                        pos = params(d)[0]
                        out = self.best(out, self.apply(h, dict(zip(pos, inner_args))))
                        for p, r in amap.items():
                            if r and self.free_lazy(h, p):
                                out = "lazy"
        return out

    def free_lazy(self, h, name):
        """the nested function's own result keeps a variable of its maker"""
        if h.is_gen:
            return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(h.node))
        for x in own(h.node):
            if isinstance(x, ast.Return) and self.of(h, x.value, {name}) == "lazy":
                return True
        return False

    def apply(self, g, amap):
        out = None
        for p, r in amap.items():
            if r:
                s = self.summary(g, p)
                if s == "lazy":
                    out = "lazy"
                elif s == "raw":
                    out = self.best(out, r)
        return out

    def summary(self, g, p):
        """what a call's result keeps of the argument p"""
        key = (id(g.node), p)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or p not in all_params(g.node):
            return None
        self.busy.add(key)
        try:
            out = None
            if not plain(self.sc.prog, g):
                pass                # what an unknown decorator makes of it is not known (computation builders run the body at once)
            elif g.is_gen or g.is_async:
                # a generator (or a coroutine not yet awaited) holds its arguments
                out = "lazy" if any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load) for x in ast.walk(g.node)) else None
            elif isinstance(g.node, ast.Lambda):
                out = self.of(g, g.node.body, {p})
            else:
                for x in own(g.node):
                    if isinstance(x, ast.Return) and x.value is not None:
                        out = self.best(out, self.of(g, x.value, {p}))
        finally:
            self.busy.discard(key)
        if not self.busy:
            self.memo[key] = out
        return out


def carried(loop, stmt, name):
    """the value used by stmt may come from an earlier turn of the loop"""
    def search(body):
        for i, st in enumerate(body):
            if st is stmt or any(x is stmt for x in ast.walk(st)):
                for prev in body[:i]:
                    if isinstance(prev, (ast.Assign, ast.AnnAssign)) and prev.value is not None:
                        ts = prev.targets if isinstance(prev, ast.Assign) else [prev.target]
                        if any(ast.unparse(t) == name or isinstance(t, ast.Tuple) and name in [ast.unparse(y) for y in t.elts] for t in ts) and \
                                not any(isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) == name for x in ast.walk(prev.value)):
                            return False
                    if isinstance(prev, (ast.With, ast.AsyncWith, ast.Try, ast.For, ast.While)) and False:
                        pass
                if st is stmt:
                    return True
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(st, f, None)
                    if isinstance(b, list) and any(x is stmt for y in b for x in ast.walk(y)):
                        if isinstance(st, (ast.For, ast.AsyncFor)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(st.target)):
                            return False
                        return search(b)
                for h in getattr(st, "handlers", ()) or ():
                    if any(x is stmt for y in h.body for x in ast.walk(y)):
                        return search(h.body)
                for c in getattr(st, "cases", ()) or ():
                    if any(x is stmt for y in c.body for x in ast.walk(y)):
                        if any(cap == name for cap, _ in captures(c.pattern)):
                            return False
                        return search(c.body)
                return True
        return True
    if isinstance(loop, (ast.For, ast.AsyncFor)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(loop.target)):
        return False
    return search(loop.body)


def reducers(sc, fi, c):
    """(reducer expression, index of the accumulator, element class) of a fold-like call"""
    f = c.func
    t = sc.target_of(fi, f)
    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
    if nm not in FOLDS or not c.args:
        return None
    if t and t[0] == "ext":
        if t[1] not in ("functools.reduce", "itertools.accumulate"):
            return None
        if t[1] == "itertools.accumulate":
            return (c.args[1], 0, None) if len(c.args) > 1 else None
        return c.args[0], 0, sc.elem(fi, c.args[1]) if len(c.args) > 1 else None
    el = None
    if isinstance(f, ast.Attribute):
        el = sc.elem(fi, f.value)
    return c.args[0], FOLDS[nm], el


def bounded(prog):
    findings, functions = [], set()
    sc = Scope(prog)
    de, lz = Descent(sc), Lazy(sc)
    scope = [f for f in prog.funcs.values() if f.mod.startswith("expression")]
    edges, ncalls = {}, 0

    def where(fi, node):
        return f"{prog.modules[fi.mod].path}:{getattr(node, 'lineno', fi.node.lineno)} {fi.qual}"
    for fi in scope:
        functions.add(fi.qual)
        es = call_edges(sc, de, fi)
        ncalls += len(es)
        edges[id(fi.node)] = [(id(g.node), gr, n, how) for g, gr, n, how in es if g.mod.startswith("expression")]
    comps = sccs([id(f.node) for f in scope], {a: [b for b, *_ in es] for a, es in edges.items()})
    cycles, descending = 0, []
    for c in comps:
        cyc = len(c) > 1 or any(b == c[0] for b, *_ in edges[c[0]])
        if not cyc:
            continue
        cycles += 1
        fs = [prog.funcs[x] for x in c]
        if all(f.mod in ARITY for f in fs):
            descending.append(f"{fs[0].qual}: number of curried arguments")
            continue
        bad = size_change(c, edges)
        if bad is None:
            descending.append(", ".join(sorted(f.qual for f in fs)))
            continue
        if any(trees_in(prog, f.mod, a.annotation) for f in fs for a in f.node.args.args):
            descending.append(f"{fs[0].qual}: stack of subtrees")
            continue
        f = prog.funcs[bad]
        inside = [(n, how, prog.funcs[b].qual) for b, g, n, how in edges[bad] if b in set(c)]
        n, how, q = next((x for x in inside if x[1] != "makes"), inside[0])
        findings.append({"key": f.qual, "what": f"recursion that does not descend the balanced tree: {f.qual} {how} {q} again ({len(c)} function(s) in the cycle), so the stack grows with the length of the input",
                         "where": where(f, n)})
    loops = folds = attrs = 0
    for fi in scope:
        body = list(own(fi.node))
        # loops
        for lp in body:
            if not isinstance(lp, (ast.For, ast.While, ast.AsyncFor)):
                continue
            loops += 1
            for st in ast.walk(lp):
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                    ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                    pairs = []
                    for t in ts:
                        if isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                            pairs += list(zip(t.elts, st.value.elts))
                        else:
                            pairs.append((t, st.value))
                    for t, v in pairs:
                        if isinstance(t, (ast.Name, ast.Attribute)):
                            nm = ast.unparse(t)
                            if lz.of(fi, v, {nm}, (nm,)) == "lazy" and carried(lp, st, nm):
                                findings.append({"key": f"{fi.qual}:{nm}", "what": f"every turn of the loop wraps {nm} in another lazy layer ({ast.unparse(v)[:60]}): using it needs one frame per turn", "where": where(fi, st)})
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                    e = ast.BinOp(left=ast.Name(id=st.target.id, ctx=ast.Load()), op=st.op, right=st.value)
                    if lz.of(fi, e, {st.target.id}, (st.target.id,)) == "lazy":
                        findings.append({"key": f"{fi.qual}:{st.target.id}", "what": f"every turn of the loop wraps {st.target.id} in another lazy layer", "where": where(fi, st)})
        # folds
        for c in body:
            if isinstance(c, ast.Call):
                r = reducers(sc, fi, c)
                if r is None:
                    continue
                folds += 1
                fn, idx, el = r
                t = sc.target_of(fi, fn)
                if not t or t[0] not in ("func", "method"):
                    continue
                g = t[1]
                ps = params(g.node)[0]
                if g.cls is not None and g.parent is None and ps and ps[0] in ("self", "cls"):
                    ps = ps[1:]
                if idx >= len(ps):
                    continue
                p = ps[idx]
                saved = None
                if el is not None and isinstance(g.node, ast.Lambda):
                    # the element type tells what the methods called on the accumulator are
                    a = [x for x in g.node.args.args if x.arg == p][0]
                    saved = a.annotation
                    a.annotation = ast.Constant(value="::" + el)
                s = typed_summary(lz, sc, g, p, el)
                if saved is not None or el is not None and isinstance(g.node, ast.Lambda):
                    a.annotation = saved
                if s == "lazy":
                    findings.append({"key": f"{fi.qual}:fold", "what": f"the folding function keeps the accumulated value {p} in a lazy wrapper at every step: using the result needs one frame per element",
                                     "where": where(fi, c)})
        # attributes rebuilt by every call
        if fi.cls is not None and not isinstance(fi.node, ast.Lambda) and fi.node.name not in ("__init__", "__new__", "__post_init__"):
            for st in body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and \
                        isinstance(st.targets[0].value, ast.Name) and st.targets[0].value.id == "self":
                    attrs += 1
                    nm = ast.unparse(st.targets[0])
                    if lz.of(fi, st.value, {nm}) == "lazy":
                        findings.append({"key": f"{fi.qual}:{nm}", "what": f"every call wraps the previous {nm} in another lazy layer: using it needs one frame per call", "where": where(fi, st)})
    uniq = {(f["key"], f["where"]): f for f in findings}
    return {"findings": list(uniq.values()), "instances": cycles + loops + folds + attrs,
            "analysed": {"functions": len(scope), "call_edges": ncalls, "recursive_components": cycles, "descending": descending,
                         "loops": loops, "folds": folds, "attribute_updates": attrs},
            "undecided": [], "functions": sorted(functions),
            "rule": "every call-graph cycle shrinks a subtree of the balanced tree (size-change principle); no loop, fold or method wraps its accumulated value lazily"}


def typed_summary(lz, sc, g, p, el):
    if el is None:
        return lz.summary(g, p)
    klass = sc.klass

    def with_elem(mod, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str) and ann.value.startswith("::"):
            return ann.value[2:]
        return klass(mod, ann)
    sc.klass = with_elem
    try:
        lz.memo.pop((id(g.node), p), None)
        return lz.summary(g, p)
    finally:
        sc.klass = klass
        lz.memo.pop((id(g.node), p), None)
