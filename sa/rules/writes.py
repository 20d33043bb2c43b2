"""Ownership rule: the persistent types are written only while they are being built.

Every attribute or item store or deletion, and every call of a mutating method of a builtin container, in the
modules of the persistent types must go to an object the function itself has created (or to `self` in a
constructor, or to an iterator's own position).  A helper that fills a parameter passes the obligation on to its callers."""
from __future__ import annotations

import ast

MODULES = ("expression.collections.block", "expression.collections.map", "expression.collections.maptree", "expression.collections.seq",
           "expression.core.option", "expression.core.result", "expression.core.try_", "expression.extra")
CONSTRUCT = {"__init__", "__new__", "__post_init__", "__setstate__", "__init_subclass__"}
MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem",
       "appendleft", "popleft", "__setitem__", "__delitem__", "__iadd__"}
BUILTIN = {"list", "dict", "set", "bytearray", "array", "deque", "List", "Dict", "Set", "MutableSequence", "MutableMapping", "MutableSet", "defaultdict"}
FRESH = {"list", "dict", "set", "bytearray", "deque", "defaultdict", "OrderedDict", "sorted", "copy", "deepcopy", "object", "Counter"}
# documented to fill the list it is given
OUT_PARAMETERS = {("expression.collections.map.Map.try_get_value", "value")}


def chain(prog, fi):
    while fi is not None:
        yield fi
        fi = prog.funcs.get(id(fi.parent)) if fi.parent is not None else None


def own(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))


def params(node):
    a = node.args
    return [p for p in a.posonlyargs + a.args + a.kwonlyargs]


def base(e):
    """(innermost expression, number of attribute/item steps)"""
    n = 0
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
        e = e.value
        n += 1
    return e, n


class Owner:
    """where a value comes from: 'fresh', ('param', fi, name), ('self', fi) or None (not known)"""

    def __init__(self, prog):
        self.prog = prog

    def name(self, n, fi, seen=()):
        for f in chain(self.prog, fi):
            if n not in f.locals:
                continue
            if (id(f.node), n) in seen:
                return "fresh"          # only ever itself
            seen = seen + ((id(f.node), n),)
            defs = []
            for x in own(f.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name) and t.id == n:
                            defs.append(self.value(x.value, f, seen))
                        elif any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for y in ast.walk(t)):
                            defs.append(self.part(x.value, f, seen))
                elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and isinstance(x.target, ast.Name) and x.target.id == n and x.value is not None:
                    defs.append(self.value(x.value, f, seen))
                elif isinstance(x, (ast.For, ast.AsyncFor)) and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(x.target)):
                    defs.append(self.part(x.iter, f, seen))
                elif isinstance(x, ast.Match):
                    for c in x.cases:
                        for y in ast.walk(c.pattern):
                            if isinstance(y, (ast.MatchAs, ast.MatchStar)) and y.name == n:
                                defs.append(self.part(x.subject, f, seen))
                elif isinstance(x, (ast.With, ast.AsyncWith)):
                    if any(i.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(i.optional_vars)) for i in x.items):
                        defs.append(None)
            for p in params(f.node):
                if p.arg == n:
                    if n == "self" and f.cls is not None:
                        defs.append(("self", f))
                    else:
                        defs.append(("param", f, n))
            if f.node.args.vararg and f.node.args.vararg.arg == n or f.node.args.kwarg and f.node.args.kwarg.arg == n:
                defs.append("fresh")
            if not defs or None in defs and all(d in (None, "fresh") for d in defs):
                return None
            bad = [d for d in defs if d not in (None, "fresh")]
            return bad[0] if bad else "fresh"
        return None

    def part(self, e, f, seen):
        """something inside the value of e"""
        b, _ = base(e)
        while isinstance(b, ast.Call):
            # parts of what a method of x returns are parts of x (to_list, items, ...)
            if isinstance(b.func, ast.Attribute):
                b, _ = base(b.func)
            elif isinstance(b.func, ast.Name) and b.func.id in ("iter", "list", "tuple", "reversed", "enumerate", "zip", "sorted") and b.args:
                b, _ = base(b.args[-1])
            else:
                return None
        if isinstance(b, ast.Name):
            o = self.name(b.id, f, seen)
            return None if o == "fresh" else o
        return None

    def value(self, e, f, seen=()):
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Constant, ast.BinOp, ast.GeneratorExp,
                          ast.Tuple, ast.JoinedStr, ast.Compare, ast.Lambda)):
            return "fresh"
        if isinstance(e, ast.IfExp):
            a, b = self.value(e.body, f, seen), self.value(e.orelse, f, seen)
            return a if a not in (None, "fresh") else b if b not in (None, "fresh") else ("fresh" if a == b == "fresh" else None)
        if isinstance(e, ast.Name):
            return self.name(e.id, f, seen)
        if isinstance(e, ast.Call):
            r = self.prog.resolve_expr(f.mod, e.func)
            if r is not None and r[0] == "class":
                return "fresh"
            nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
            if nm in FRESH and not (isinstance(e.func, ast.Name) and e.func.id in f.locals):
                return "fresh"
            return None
        if isinstance(e, ast.Subscript):
            return "fresh" if isinstance(e.slice, ast.Slice) else self.part(e, f, seen)
        if isinstance(e, ast.Attribute):
            return self.part(e, f, seen)
        return None


def head(annot):
    if isinstance(annot, ast.Constant) and isinstance(annot.value, str):
        try:
            annot = ast.parse(annot.value, mode="eval").body
        except SyntaxError:
            return ""
    while isinstance(annot, ast.Subscript):
        annot = annot.value
    return annot.id if isinstance(annot, ast.Name) else annot.attr if isinstance(annot, ast.Attribute) else ""


def exported(prog, fi):
    if fi.parent is not None or fi.node.name.startswith("_"):
        return False
    if fi.cls is not None:
        return not fi.cls.name.startswith("_")
    al = prog.modules[fi.mod].bindings.get("__all__")
    if al and al[0] == "expr" and isinstance(al[1], (ast.List, ast.Tuple)):
        return any(isinstance(x, ast.Constant) and x.value == fi.node.name for x in al[1].elts)
    return True


def owned(prog):
    findings, undecided, functions = [], [], set()
    instances = sites = 0
    o = Owner(prog)
    work = []

    def site(fi, node, target, steps, what):
        nonlocal instances
        instances += 1
        functions.add(fi.qual)
        work.append((fi, node, target, steps, what, 0))

    scope = [f for f in prog.funcs.values() if any(f.mod == m or f.mod.startswith(m + ".") for m in MODULES) and not isinstance(f.node, ast.Lambda)]
    for fi in scope:
        functions.add(fi.qual)
        for n in own(fi.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b, k = base(n)
                site(fi, n, b, k, f"writes {ast.unparse(n)}")
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in ("setattr", "delattr") and n.args or \
                        isinstance(f, ast.Attribute) and f.attr in ("__setattr__", "__delattr__") and n.args:
                    b, k = base(n.args[0])
                    site(fi, n, b, k + 1, f"writes {ast.unparse(n)}")
                elif isinstance(f, ast.Attribute) and f.attr in MUT:
                    b, k = base(f.value)
                    if not isinstance(b, ast.Name):
                        continue
                    t = None
                    if k == 0:
                        for c in chain(prog, fi):
                            t = t or next((p.annotation for p in params(c.node) if p.arg == b.id), None)
                    elif k == 1 and isinstance(f.value, ast.Attribute) and b.id == "self" and fi.cls is not None:
                        for q in prog.mro(fi.cls.qual):
                            if q in prog.classes and t is None:
                                t = prog.classes[q].annots.get(f.value.attr)
                    if head(t) in BUILTIN:
                        site(fi, n, b, k + 1, f"calls {ast.unparse(f)} on")
    while work:
        fi, node, b, steps, what, depth = work.pop()
        sites += 1
        src = o.name(b.id, fi) if isinstance(b, ast.Name) else o.value(b, fi)
        where = f"{prog.modules[fi.mod].path}:{node.lineno} {fi.qual}"
        if src == "fresh":
            if steps > 1:
                undecided.append(f"{where}: {what} (part of a new object)")
            continue
        if src is None:
            undecided.append(f"{where}: {what} (origin not known)")
            continue
        if src[0] == "self":
            f = src[1]
            if steps <= 2 and f.node.name in CONSTRUCT and fi is f:
                continue
            if steps == 1 and (prog.find_method(f.cls.qual, "__next__") or prog.find_method(f.cls.qual, "__anext__")):
                continue
            findings.append({"key": f"{fi.qual}:{ast.unparse(node)[:60]}", "what": f"{what} a value after its construction", "where": where})
            continue
        _, f, pn = src
        if (f.qual, pn) in OUT_PARAMETERS:
            continue
        if exported(prog, f) or depth > 3:
            findings.append({"key": f"{fi.qual}:{ast.unparse(node)[:60]}", "what": f"{what} the argument {pn} of {f.qual}", "where": where})
            continue
        # an internal helper: its callers must own what they pass
        pos = [p.arg for p in params(f.node)]
        if f.cls is not None and f.parent is None and pos and pos[0] in ("self", "cls"):
            pos = pos[1:]
        found = False
        for g in prog.funcs.values():
            if not g.mod.startswith("expression"):
                continue
            for c in (own(g.node) if not isinstance(g.node, ast.Lambda) else ast.walk(g.node.body)):
                if isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == f.node.name or isinstance(c.func, ast.Attribute) and c.func.attr == f.node.name):
                    if g is f:
                        continue        # handing its own parameter on
                    arg = next((k.value for k in c.keywords if k.arg == pn), None)
                    if arg is None and pn in pos and pos.index(pn) < len(c.args) and not any(isinstance(x, ast.Starred) for x in c.args):
                        arg = c.args[pos.index(pn)]
                    if arg is None:
                        continue
                    found = True
                    ab, ak = base(arg)
                    work.append((g, c, ab, steps + ak, f"{f.qual} (called here) {what}", depth + 1))
        if not found:
            undecided.append(f"{where}: {what} (no call of {f.qual} resolved)")
    return {"findings": findings, "instances": instances, "analysed": {"write_sites": instances, "origins_traced": sites, "functions": len(scope)},
            "undecided": [], "open": undecided, "functions": sorted(functions),
            "rule": "stores, deletions and mutator calls in the modules of the persistent types go to objects the function created, to self in a constructor, or to an iterator's position"}
