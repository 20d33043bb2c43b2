"""Exception-flow rule: no handler, suppressor, finally-clause or context manager of the library may
swallow or replace an exception that user code raises.

For every `try` of the package: the exceptions each handler can intercept, whether every path through the
handler re-raises what it caught, and whether the guarded statements can run code the caller supplied
(a parameter that is called or handed on, a stored callable, iteration of a caller's source, an await)."""
from __future__ import annotations

import ast

BROAD = {"Exception", "BaseException"}
# iteration protocol and the library's own short-circuit signal
PROTOCOL = {"StopIteration", "StopAsyncIteration", "EffectError"}
# callables that look at a function without running it
LOOKS = {"callable", "isinstance", "issubclass", "hasattr", "getattr", "id", "repr", "type", "cast", "wraps", "signature", "isgenerator",
         "iscoroutine", "isasyncgen", "isfunction", "iscoroutinefunction", "isawaitable", "TypeVar", "str", "hash"}
HERE = "exceptions"


def funcs_of(prog):
    for node_id, fi in prog.funcs.items():
        if fi.mod.startswith("expression") and not isinstance(fi.node, ast.Lambda):
            yield fi


def own(node):
    """statements and expressions of a function, nested definitions excluded"""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def mentions(annot, words=("Callable", "Continuation", "Callbacks", "Fn", "Mapper", "Reducer")):
    if annot is None:
        return False
    for n in ast.walk(annot):
        if isinstance(n, ast.Name) and n.id in words or isinstance(n, ast.Attribute) and n.attr in words:
            return True
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and any(w in n.value for w in words):
            return True
    return False


def user_callables(prog, fi):
    """names in scope that may be callables given by the caller"""
    names, params = set(), set()
    node, chain = fi.node, []
    while node is not None:
        chain.append(node)
        info = prog.funcs.get(id(node))
        node = info.parent if info else None
    local_defs = set()
    for f in chain:
        for n in own(f):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                local_defs.add(n.name)
    called = {n.func.id for f in chain for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
    for f in chain:
        a = f.args
        ps = a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else [])
        for p in ps:
            if p.arg in ("self", "cls"):
                continue
            params.add(p.arg)
            if mentions(p.annotation) or p.arg in called:
                names.add(p.arg)
    # plain aliases and loop variables over callables
    for _ in range(3):
        for f in chain:
            for n in own(f):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                    names.update(t.id for t in n.targets if isinstance(t, ast.Name))
                if isinstance(n, (ast.For, ast.AsyncFor)) and isinstance(n.target, ast.Name) and n.target.id in called:
                    names.add(n.target.id)
    return names - local_defs, params


def stored_callables(prog, fi):
    out = set()
    if fi.cls is not None:
        for q in prog.mro(fi.cls.qual):
            ci = prog.classes.get(q)
            if ci:
                out.update(a for a, t in ci.annots.items() if mentions(t))
    return out


def runs_user_code(prog, fi, body):
    """evidence: calls of caller-supplied functions; anything that could reach user code; driving of iterators, generators and awaitables"""
    names, params = user_callables(prog, fi)
    attrs = stored_callables(prog, fi)
    direct, possible, drives = [], [], []

    def given(x):
        while isinstance(x, (ast.Attribute, ast.Call)):
            if isinstance(x, ast.Call):
                if not (isinstance(x.func, ast.Name) and x.func.id in ("iter", "aiter", "enumerate", "zip", "reversed") and x.args):
                    return False
                x = x.args[0]
            else:
                return isinstance(x.value, ast.Name) and x.value.id == "self"
        return isinstance(x, ast.Name) and x.id in params

    def visit(n, looking=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(n, ast.Call):
            f = n.func
            fname = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            look = fname in LOOKS
            if fname in ("send", "asend", "throw", "athrow", "__next__", "__anext__") and isinstance(f, ast.Attribute) or \
                    fname in ("next", "anext", "list", "tuple", "sum", "reduce") and n.args and given(n.args[-1]):
                drives.append(n)
            if not look:
                hit = False
                for x in [f] + list(n.args) + [k.value for k in n.keywords]:
                    y = x.value if isinstance(x, ast.Starred) else x
                    if isinstance(y, ast.Name) and y.id in names:
                        hit = True
                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" and y.attr in attrs:
                        hit = True
                if hit:
                    direct.append(n)
                else:
                    possible.append(n)
        elif isinstance(n, (ast.For, ast.AsyncFor, ast.Await, ast.Yield, ast.YieldFrom, ast.comprehension, ast.With, ast.AsyncWith)):
            possible.append(n)
            if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom)) or isinstance(n, (ast.For, ast.AsyncFor)) and given(n.iter):
                drives.append(n)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for st in body:
        visit(st)
    return direct, possible, drives


def handler_types(prog, fi, h):
    """names of what a handler catches; '?' for one decided at run time"""
    if h.type is None:
        return ["BaseException"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    out = []
    for t in ts:
        r = None
        if isinstance(t, ast.Name):
            _, params = user_callables(prog, fi)
            if t.id in params or t.id in fi.locals:
                out.append("?" + t.id)
                continue
        r = prog.resolve_expr(fi.mod, t)
        if r is None:
            out.append("?")
        elif r[0] == "ext":
            out.append(r[1].split(".")[-1])
        elif r[0] == "class":
            out.append(r[1].split(".")[-1])
        elif r[0] == "expr" and isinstance(r[2], ast.Tuple):
            for e in r[2].elts:
                q = prog.resolve_expr(r[1], e)
                out.append(q[1].split(".")[-1] if q and q[0] in ("ext", "class") else "?")
        else:
            out.append("?")
    return out


def reraises(stmts, name):
    """set of ways the handler's statements can end: 'same' (the caught exception goes on), 'other' (another one
    is raised instead), 'swallow'"""
    out = {"next"}
    for st in stmts:
        if "next" not in out:
            break
        out.discard("next")
        out |= one(st, name)
    return out


def one(st, name):
    if isinstance(st, ast.Raise):
        if st.exc is None or isinstance(st.exc, ast.Name) and st.exc.id == name:
            return {"same"}
        if isinstance(st.exc, ast.Call) and isinstance(st.exc.func, ast.Attribute) and st.exc.func.attr == "with_traceback" and \
                isinstance(st.exc.func.value, ast.Name) and st.exc.func.value.id == name:
            return {"same"}
        return {"other"}
    if isinstance(st, (ast.Return, ast.Break, ast.Continue)):
        return {"swallow"}
    if isinstance(st, ast.If):
        return reraises(st.body, name) | (reraises(st.orelse, name) if st.orelse else {"next"})
    if isinstance(st, (ast.With, ast.AsyncWith)):
        return reraises(st.body, name)
    if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
        inner = reraises(st.body, name)
        return (inner - {"swallow"}) | {"next"} | ({"swallow"} if any(isinstance(x, ast.Return) for x in ast.walk(st)) else set())
    if isinstance(st, ast.Try):
        r = reraises(st.body, name)
        if "next" in r and st.orelse:
            r = (r - {"next"}) | reraises(st.orelse, name)
        f = reraises(st.finalbody, name) if st.finalbody else {"next"}
        return (r if "next" in f else set()) | (f - {"next"})
    if isinstance(st, ast.Match):
        out = set()
        for c in st.cases:
            out |= reraises(c.body, name)
        return out | {"next"}
    return {"next"}


def leaves_finally(stmts, in_loop=False):
    """return/break/continue that would discard an exception in flight"""
    for st in stmts:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(st, ast.Return):
            yield st
        elif isinstance(st, (ast.Break, ast.Continue)) and not in_loop:
            yield st
        loop = in_loop or isinstance(st, (ast.For, ast.While, ast.AsyncFor))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(st, f, None)
            if isinstance(b, list):
                yield from leaves_finally(b, loop if f == "body" else in_loop)
        for h in getattr(st, "handlers", ()) or ():
            yield from leaves_finally(h.body, in_loop)
        for c in getattr(st, "cases", ()) or ():
            yield from leaves_finally(c.body, in_loop)


def allowed(prog, fi, types, h):
    """the two documented places that turn exceptions into something else"""
    if fi.mod == "expression.system.cancellation" and set(types) <= {"Exception"}:
        return "listeners are isolated from one another"
    if fi.mod.startswith("expression.extra.result") and len(types) == 1 and types[0].startswith("?") and types[0] != "?":
        return "the exception kind requested by the caller (decided by the law obligations)"
    return None


def swallow(prog):
    findings, undecided, handlers, finals, exits, funs = [], [], [], [], [], set()
    for fi in funcs_of(prog):
        path = prog.modules[fi.mod].path
        rel = path[len(prog.repo):].lstrip("/")

        def add(node, what):
            findings.append({"key": f"{fi.qual}", "what": what, "where": f"{rel}:{node.lineno} in {fi.qual}"})
        for n in own(fi.node):
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                funs.add(fi.qual)
                direct, possible, drives = runs_user_code(prog, fi, n.body)
                for h in n.handlers:
                    types = handler_types(prog, fi, h)
                    handlers.append(f"{rel}:{h.lineno} except {'/'.join(types)}")
                    ends = reraises(h.body, h.name)
                    if ends <= {"same"}:
                        continue
                    if allowed(prog, fi, types, h):
                        continue
                    how = "replaces it by another exception" if "swallow" not in ends and "next" not in ends else "swallows it"
                    if set(types) & BROAD:
                        if direct or possible:
                            d = (direct or possible)[0]
                            add(h, f"handler for {'/'.join(types)} intercepts any exception raised by the user code run at line {d.lineno} and {how}")
                        continue
                    if set(types) <= PROTOCOL:
                        # around a direct call of a caller's function the protocol exception may be the function's own
                        if direct and not protocol_call(direct):
                            add(h, f"handler for {'/'.join(types)} also intercepts that exception raised by the user function called at line {direct[0].lineno} and {how}")
                        continue
                    if direct or drives:
                        add(h, f"handler for {'/'.join(types)} intercepts that exception raised by the user code run at line {(direct or drives)[0].lineno} and {how}")
                if n.finalbody:
                    finals.append(f"{rel}:{n.finalbody[0].lineno}")
                    for st in leaves_finally(n.finalbody):
                        if direct or possible:
                            add(st, f"{type(st).__name__.lower()} inside finally discards any exception raised by the user code run at line {(direct or possible)[0].lineno}")
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call):
                        r = prog.resolve_expr(fi.mod, c.func)
                        if r and r[0] == "ext" and r[1].endswith("suppress"):
                            funs.add(fi.qual)
                            direct, possible, drives = runs_user_code(prog, fi, n.body)
                            tys = [a.id if isinstance(a, ast.Name) else "?" for a in c.args]
                            if allowed(prog, fi, tys, None):
                                continue
                            if (direct or drives) and not set(tys) <= PROTOCOL or possible and set(tys) & BROAD:
                                add(n, f"suppress({', '.join(tys)}) swallows exceptions of the user code run at line {(direct or possible)[0].lineno}")
        if fi.cls is not None and fi.node.name in ("__exit__", "__aexit__"):
            exits.append(fi.qual)
            funs.add(fi.qual)
            for n in own(fi.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    v = n.value
                    if isinstance(v, ast.Constant):
                        if v.value:
                            add(n, f"{fi.node.name} returns a true value, which suppresses the exception raised inside the with-block")
                    elif not isinstance(v, (ast.Call, ast.Await)):
                        undecided.append(f"{rel}:{n.lineno}: result of {fi.node.name} not constant (decided by the law obligations)")
    # duplicates per function are one construct
    return dict(findings=findings, instances=len(handlers) + len(finals) + len(exits), undecided=undecided, functions=sorted(funs),
                analysed={"handlers": handlers, "finally": finals, "exit methods": exits, "functions": sum(1 for _ in funcs_of(prog))},
                rule="a handler that can intercept user exceptions re-raises them on every path")


def protocol_call(direct):
    """next(f) / f.send(..) style uses hand the protocol object on rather than call it"""
    for n in direct:
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("next", "anext", "iter", "aiter"):
            continue
        if isinstance(f, ast.Attribute) and f.attr in ("send", "asend", "throw", "athrow", "__next__", "__anext__"):
            continue
        return False
    return True
