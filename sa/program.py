"""Whole-program model of the analysed source: modules, classes, functions and
name resolution.  Everything is parsed from the working tree on every run;
nothing from the analysed packages is ever imported or executed."""
from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ProgramError(Exception):
    """The tree cannot be analysed (syntax error, vanished anchor)."""


class FuncInfo:
    __slots__ = ("node", "mod", "qual", "cls", "locals", "is_gen", "is_async", "nonlocals", "globals_", "parent")

    def __init__(self, node, mod, qual, cls=None, parent=None):
        self.node, self.mod, self.qual, self.cls, self.parent = node, mod, qual, cls, parent
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self._scan()

    def _scan(self):
        names, nonl, glob = set(), set(), set()
        gen = False
        a = self.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(p.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        body = self.node.body if isinstance(self.node.body, list) else [self.node.body]
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                stack.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen = True
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.MatchAs) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.MatchStar) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            elif isinstance(n, ast.Global):
                glob.update(n.names)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension targets live in their own scope; only the first
                # iterable (and walrus targets) belong to this one
                stack.append(n.generators[0].iter)
                for sub in ast.walk(n):
                    if isinstance(sub, ast.NamedExpr):
                        names.add(sub.target.id)
                continue
            stack.extend(ast.iter_child_nodes(n))
        self.locals = names - nonl - glob
        self.nonlocals, self.globals_, self.is_gen = nonl, glob, gen


class ClassInfo:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual, self.name = node, mod, qual, node.name
        self.methods = {}      # name -> ast function node (last non-overload definition)
        self.kinds = {}        # name -> 'method' | 'static' | 'class' | 'property'
        self.attrs = {}        # class level assignments name -> expr
        self.annots = {}       # class level annotations name -> annotation expr
        self.order = []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [deco_name(d) for d in st.decorator_list]
                if "overload" in decs:
                    continue
                kind = "method"
                if "staticmethod" in decs:
                    kind = "static"
                elif "classmethod" in decs:
                    kind = "class"
                elif "property" in decs:
                    kind = "property"
                self.methods[st.name] = st
                self.kinds[st.name] = kind
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
                        if isinstance(st.value, ast.Name) and st.value.id in self.methods:
                            self.methods[t.id] = self.methods[st.value.id]
                            self.kinds[t.id] = self.kinds[st.value.id]
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annots[st.target.id] = st.annotation
                self.order.append(st.target.id)
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
        # annotations given to instance attributes anywhere in the methods
        for m in self.methods.values():
            for n in ast.walk(m):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and \
                        isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                    self.annots.setdefault(n.target.attr, n.annotation)
        # and those that receive an annotated parameter of the constructor as it is
        ini = self.methods.get("__init__")
        if ini is not None:
            a = ini.args
            par = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
            hits = {}
            for m in self.methods.values():
                for n in ast.walk(m):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and n.value.id == "self":
                        hits[n.attr] = hits.get(n.attr, 0) + 1
            for n in ini.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                        isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" and \
                        isinstance(n.value, ast.Name) and n.value.id in par and hits.get(n.targets[0].attr) == 1:
                    self.annots.setdefault(n.targets[0].attr, par[n.value.id])
        # and those that only ever hold tuples
        stores = {}
        for m in self.methods.values():
            one = {}
            for n in ast.walk(m):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.withitem, ast.NamedExpr)):
                    v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
                    for t in (n.targets if isinstance(n, ast.Assign) else [getattr(n, "target", None) or getattr(n, "optional_vars", None)]):
                        for x in ast.walk(t) if t is not None else ():
                            if isinstance(x, ast.Name):
                                one.setdefault(x.id, []).append(v if x is t else None)
                            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                stores.setdefault(x.attr, []).append((v if x is t else None, one))
        for a, vs in stores.items():
            if a not in self.annots and all(is_tuple_expr(v, one) for v, one in vs):
                self.annots[a] = ast.Name("tuple", ast.Load())
                # of the elements of a parameter of the constructor
                for v, _ in vs:
                    for c in ast.walk(v) if v is not None and ini is not None else ():
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "tuple" and len(c.args) == 1 and isinstance(c.args[0], ast.Name):
                            t = par.get(c.args[0].id)
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in ("Iterable", "Sequence", "Collection"):
                                self.annots[a] = ast.Subscript(ast.Name("tuple", ast.Load()), ast.Tuple([t.slice, ast.Constant(...)], ast.Load()), ast.Load())


def is_tuple_expr(v, one, depth=0):
    if isinstance(v, ast.Tuple):
        return True
    if isinstance(v, ast.Call):
        return isinstance(v.func, ast.Name) and v.func.id == "tuple" or isinstance(v.func, ast.Attribute) and v.func.attr == "tuple" and \
            isinstance(v.func.value, ast.Name) and v.func.value.id == "builtins"
    if isinstance(v, ast.IfExp):
        return is_tuple_expr(v.body, one, depth) and is_tuple_expr(v.orelse, one, depth)
    if isinstance(v, ast.Name) and depth < 3:
        vs = one.get(v.id, [])
        return bool(vs) and all(is_tuple_expr(x, one, depth + 1) for x in vs)
    return False


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return ""


class Module:
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        self.src = src
        try:
            self.tree = ast.parse(src, path)
        except SyntaxError as e:  # pragma: no cover
            raise ProgramError(f"{path}: {e}")
        self.bindings = {}     # name -> ('def',node) ('class',node) ('expr',node) ('import',mod,name|None)
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(deco_name(d) == "overload" for d in st.decorator_list):
                    continue
                self.bindings[st.name] = ("def", st)
            elif isinstance(st, ast.ClassDef):
                self.bindings[st.name] = ("class", st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.bindings[t.id] = ("expr", st.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                sub = ast.Subscript(value=st.value, slice=ast.Constant(i), ctx=ast.Load())
                                ast.copy_location(sub, st)
                                ast.fix_missing_locations(sub)
                                self.bindings[e.id] = ("expr", sub)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.bindings[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.bindings[al.asname] = ("import", al.name, None)
                    else:
                        top = al.name.split(".")[0]
                        self.bindings[top] = ("import", top, None)
            elif isinstance(st, ast.ImportFrom):
                base = self.rel(st.module, st.level)
                for al in st.names:
                    self.bindings[al.asname or al.name] = ("import", base, al.name)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                self._collect(st.orelse)

    def rel(self, module, level):
        if not level:
            return module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))


class Program:
    def __init__(self, repo=REPO, overrides=None):
        self.repo = repo
        self.overrides = overrides or {}      # path -> source text (used by tools/ only)
        self.modules = {}
        self.funcs = {}        # id(node) -> FuncInfo
        self.classes = {}      # qual -> ClassInfo
        self.class_by_node = {}
        root = os.path.join(repo, "expression")
        if not os.path.isdir(root):
            raise ProgramError("package directory /repo/expression not found")
        for dp, _dn, fns in os.walk(root):
            if "__pycache__" in dp:
                continue
            for fn in sorted(fns):
                if fn.endswith(".py"):
                    p = os.path.join(dp, fn)
                    rel = os.path.relpath(p, repo)[:-3].split(os.sep)
                    pkg = rel[-1] == "__init__"
                    if pkg:
                        rel = rel[:-1]
                    self._add(".".join(rel), p, pkg)
        for d in (os.path.join(HERE, "specs"), os.path.join(HERE, "sa", "models")):
            if os.path.isdir(d):
                for fn in sorted(os.listdir(d)):
                    if fn.endswith(".py"):
                        self._add(os.path.basename(d) + "." + fn[:-3], os.path.join(d, fn), False)

    def _add(self, name, path, pkg):
        src = self.overrides.get(path)
        if src is None:
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
        self.modules[name] = Module(name, path, src, pkg)
        self._index(self.modules[name].tree, name, name, None, None)

    def _index(self, node, mod, qual, cls, parent):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = qual + "." + ch.name
                self.funcs[id(ch)] = FuncInfo(ch, mod, q, cls, parent)
                self._index(ch, mod, q, cls, ch)
            elif isinstance(ch, ast.Lambda):
                q = qual + ".<lambda>"
                self.funcs[id(ch)] = FuncInfo(ch, mod, q, cls, parent)
                self._index(ch, mod, q, cls, ch)
            elif isinstance(ch, ast.ClassDef):
                q = qual + "." + ch.name
                ci = ClassInfo(ch, mod, q)
                self.classes[q] = ci
                self.class_by_node[id(ch)] = ci
                self._index(ch, mod, q, ci, parent)
            else:
                self._index(ch, mod, qual, cls, parent)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            if n.startswith("expression"):
                h.update(n.encode())
                h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    # ------------------------------------------------------------ resolution
    def mentions(self, mod, name):
        """might the module bind the name in a way the binding table does not cover?"""
        m = self.modules[mod]
        if not hasattr(m, "anyhow"):
            m.anyhow = set()
            stack = list(m.tree.body)
            while stack:
                n = stack.pop()
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    m.anyhow.add(n.id)
                elif isinstance(n, ast.alias):
                    m.anyhow.add(n.asname or n.name.split(".")[0])
                elif isinstance(n, ast.Global):
                    m.anyhow.update(n.names)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    m.anyhow.add(n.name)
                    stack.extend(g for g in ast.walk(n) if isinstance(g, ast.Global))
                    continue
                elif isinstance(n, ast.Lambda):
                    continue
                stack.extend(ast.iter_child_nodes(n))
        return name in m.anyhow or "*" in m.anyhow or name.startswith("__")

    def resolve(self, mod, name, seen=None):
        """Resolve a module global to ('def',mod,node) ('class',qual)
        ('expr',mod,node,name) ('mod',name) ('ext',dotted) or None."""
        seen = seen or set()
        if (mod, name) in seen:
            return None
        seen.add((mod, name))
        m = self.modules.get(mod)
        if m is None:
            return ("ext", f"{mod}.{name}")
        b = m.bindings.get(name)
        if b is None:
            if f"{mod}.{name}" in self.modules:
                return ("mod", f"{mod}.{name}")
            return None
        if b[0] == "def":
            return ("def", mod, b[1])
        if b[0] == "class":
            return ("class", self.class_by_node[id(b[1])].qual)
        if b[0] == "expr":
            return ("expr", mod, b[1], name)
        if b[0] == "import":
            if b[2] is None:
                return ("mod", b[1]) if b[1] in self.modules else ("ext", b[1])
            if b[1] in self.modules:
                # names bound in the package win over sub-modules
                r = self.resolve(b[1], b[2], seen)
                if r is None and f"{b[1]}.{b[2]}" in self.modules:
                    return ("mod", f"{b[1]}.{b[2]}")
                return r
            return ("ext", f"{b[1]}.{b[2]}")
        return None

    def import_from(self, mod, module, level, name):
        base = self.modules[mod].rel(module, level)
        if base in self.modules:
            r = self.resolve(base, name)
            if r is None and f"{base}.{name}" in self.modules:
                return ("mod", f"{base}.{name}")
            return r
        return ("ext", f"{base}.{name}")

    def resolve_expr(self, mod, e):
        """Resolve a dotted expression (type position); subscripts are dropped."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(mod, e.value)
        if isinstance(e, ast.Name):
            r = self.resolve(mod, e.id)
            if r is None:
                return ("ext", "builtins." + e.id)
            if r[0] == "expr":
                r2 = self.resolve_expr(r[1], r[2])
                return r2 or r
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if b is None:
                return None
            if b[0] == "mod":
                r = self.resolve(b[1], e.attr)
                if r is None and b[1] + "." + e.attr in self.modules:
                    return ("mod", b[1] + "." + e.attr)
                return r
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def bases(self, qual):
        ci = self.classes[qual]
        out = []
        for b in ci.node.bases:
            r = self.resolve_expr(ci.mod, b)
            if r is None:
                continue
            if r[0] == "class":
                out.append(r[1])
            elif r[0] == "ext":
                out.append(r[1])
        return out

    def mro(self, qual):
        out, todo = [], [qual]
        while todo:
            q = todo.pop(0)
            if q in out:
                continue
            out.append(q)
            if q in self.classes:
                todo.extend(self.bases(q))
        return out

    def is_subclass(self, a, b):
        return b in self.mro(a)

    def find_method(self, qual, name, after=None):
        mro = self.mro(qual)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for q in mro:
            ci = self.classes.get(q)
            if ci and name in ci.methods:
                return ci, ci.methods[name], ci.kinds[name]
        return None

    def find_attr(self, qual, name):
        for q in self.mro(qual):
            ci = self.classes.get(q)
            if ci and name in ci.attrs:
                return ci, ci.attrs[name]
        return None

    def union_cases(self, qual):
        """Case names if the class (or a base) is decorated as a tagged union."""
        for q in self.mro(qual):
            ci = self.classes.get(q)
            if not ci:
                continue
            for d in ci.node.decorator_list:
                r = self.resolve_expr(ci.mod, d.func if isinstance(d, ast.Call) else d)
                if r and r[0] == "def" and r[2].name == "tagged_union":
                    return q, [n for n in ci.order if n != "tag"]
        return None

    def union_flag(self, qual, name):
        """keyword option of the tagged_union decorator"""
        for q in self.mro(qual):
            ci = self.classes.get(q)
            for d in (ci.node.decorator_list if ci else ()):
                if isinstance(d, ast.Call):
                    r = self.resolve_expr(ci.mod, d.func)
                    if r and r[0] == "def" and r[2].name == "tagged_union":
                        for k in d.keywords:
                            if k.arg == name:
                                return isinstance(k.value, ast.Constant) and bool(k.value.value)
                        return name in ("repr", "eq")
        return False

    def is_dataclass(self, qual):
        ci = self.classes[qual]
        return any(deco_name(d) == "dataclass" for d in ci.node.decorator_list)

    def dataclass_fields(self, qual):
        out = []
        for q in reversed(self.mro(qual)):
            ci = self.classes.get(q)
            if ci and self.is_dataclass(q):
                for n in ci.order:
                    if n not in out:
                        out.append(n)
        return out

    def is_enum(self, qual):
        return any(b.startswith("enum.") for b in self.mro(qual))
