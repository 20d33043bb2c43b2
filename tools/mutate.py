"""Development aid: measure what the checks notice.

  python3 tools/mutate.py FILE [FUNC_SUBSTR]     mutants of one repo file; prints survivors
Not used by any registered check."""
import ast, copy, os, sys, collections, multiprocessing as mp, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(12000)
from sa.program import Program, REPO
from sa import laws, registry, check as chk

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def sites(fn):
    """yield (description, mutate(node)) for a function node: list of closures applied on a deepcopy by index"""
    out = []
    nodes = list(ast.walk(fn))
    own = set()
    def skip(n):
        # do not mutate decorators/annotations/docstrings
        return id(n) in own
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                own.update(id(x) for x in ast.walk(d))
            if n.returns: own.update(id(x) for x in ast.walk(n.returns))
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation: own.update(id(x) for x in ast.walk(a.annotation))
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                own.add(id(n.body[0])); own.add(id(n.body[0].value))
        if isinstance(n, ast.AnnAssign): own.update(id(x) for x in ast.walk(n.annotation))
    names = sorted({a.arg for x in nodes if isinstance(x, ast.arguments) for a in x.args + x.posonlyargs if a.arg not in ("self", "cls")} |
                   {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
    for i, n in enumerate(nodes):
        if skip(n): continue
        L = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = CMP.get(type(n.ops[0]))
            if t: out.append((i, f"L{L} cmp {type(n.ops[0]).__name__}->{t.__name__}", lambda m, t=t: m.ops.__setitem__(0, t())))
            if isinstance(n.ops[0], (ast.Lt, ast.Gt)):
                t2 = ast.Gt if isinstance(n.ops[0], ast.Lt) else ast.Lt
                out.append((i, f"L{L} cmp flip", lambda m, t2=t2: m.ops.__setitem__(0, t2())))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant)):
            out.append((i, f"L{L} negate test", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
            if not isinstance(n, ast.While):
                out.append((i, f"L{L} test->True", lambda m: setattr(m, "test", ast.Constant(True))))
                out.append((i, f"L{L} test->False", lambda m: setattr(m, "test", ast.Constant(False))))
        if isinstance(n, ast.BoolOp):
            out.append((i, f"L{L} and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            out.append((i, f"L{L} swap bool operands", lambda m: m.values.reverse()))
            out.append((i, f"L{L} drop operand", lambda m: setattr(m, "values", [m.values[0], m.values[0]])))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((i, f"L{L} const {n.value}+1", lambda m: setattr(m, "value", m.value + 1)))
            out.append((i, f"L{L} const {n.value}-1", lambda m: setattr(m, "value", m.value - 1)))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((i, f"L{L} flip {n.value}", lambda m: setattr(m, "value", not m.value)))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            out.append((i, f"L{L} swap args", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((i, f"L{L} drop last arg", lambda m: m.args.pop()))
        if isinstance(n, ast.Call) and n.keywords:
            out.append((i, f"L{L} drop kw", lambda m: m.keywords.pop()))
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            out.append((i, f"L{L} swap tuple", lambda m: m.elts.reverse()))
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add}.get(type(n.op))
            if sw: out.append((i, f"L{L} +<->-", lambda m, sw=sw: setattr(m, "op", sw())))
            out.append((i, f"L{L} swap operands", lambda m: (lambda a, b: (setattr(m, "left", b), setattr(m, "right", a)))(m.left, m.right)))
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
            out.append((i, f"L{L} += -> -=", lambda m: setattr(m, "op", ast.Sub())))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((i, f"L{L} drop unary", lambda m: setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.USub) else (setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            for o in names:
                if o != n.id: out.append((i, f"L{L} {n.id}->{o}", lambda m, o=o: setattr(m, "id", o)))
        if isinstance(n, ast.Attribute) and n.attr in ("left", "right"):
            out.append((i, f"L{L} left<->right", lambda m: setattr(m, "attr", "right" if m.attr == "left" else "left")))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for j, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Break, ast.Continue, ast.Raise, ast.If, ast.For)) and not skip(st):
                        out.append((i, f"L{st.lineno} delete {type(st).__name__}", lambda m, fld=fld, j=j: getattr(m, fld).__setitem__(j, ast.Pass())))
                    if isinstance(st, ast.Return) and st.value is not None:
                        out.append((i, f"L{st.lineno} return->None", lambda m, fld=fld, j=j: setattr(getattr(m, fld)[j], "value", ast.Constant(None))))
                    if j + 1 < len(b) and isinstance(st, (ast.Assign, ast.Expr, ast.AugAssign)) and isinstance(b[j + 1], (ast.Assign, ast.Expr, ast.AugAssign)) and not skip(st):
                        out.append((i, f"L{st.lineno} swap stmts", lambda m, fld=fld, j=j: getattr(m, fld).__setitem__(slice(j, j + 2), getattr(m, fld)[j:j + 2][::-1])))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            out.append((i, f"L{L} except->BaseException", lambda m: setattr(m, "type", ast.Name("BaseException", ast.Load()))))
            out.append((i, f"L{L} except->KeyError", lambda m: setattr(m, "type", ast.Name("KeyError", ast.Load()))))
        if isinstance(n, ast.Yield) and False: pass
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("Some", "Ok", "Error"):
            o = {"Some": "Some", "Ok": "Error", "Error": "Ok"}[n.func.id]
            if o != n.func.id: out.append((i, f"L{L} {n.func.id}->{o}", lambda m, o=o: setattr(m.func, "id", o)))
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords:
            out.append((i, f"L{L} unwrap call", "unwrap"))
        if isinstance(n, ast.Try) and n.finalbody:
            out.append((i, f"L{L} drop finally", lambda m: setattr(m, "finalbody", [ast.Pass()])))
        if isinstance(n, (ast.With, ast.AsyncWith)):
            out.append((i, f"L{L} drop with", "unwith"))
    return out


class Repl(ast.NodeTransformer):
    def __init__(self, target, new): self.t, self.n = target, new
    def visit(self, node):
        if node is self.t: return self.n
        return self.generic_visit(node)


def mutants(src, want=None):
    tree = ast.parse(src)
    fns = []
    def rec(node, q):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if not any((getattr(d, "id", "") == "overload") for d in ch.decorator_list):
                    fns.append((q + ch.name, ch))
            elif isinstance(ch, ast.ClassDef):
                rec(ch, q + ch.name + ".")
            elif isinstance(ch, ast.If):
                rec(ch, q)
    rec(tree, "")
    lines = src.split("\n")
    for q, fn in fns:
        if want and want not in q: continue
        for i, d, m in sites(fn):
            f2 = copy.deepcopy(fn)
            node = list(ast.walk(f2))[i]
            try:
                if m == "unwrap":
                    f2 = Repl(node, node.args[0]).visit(f2)
                elif m == "unwith":
                    f2 = Repl(node, ast.If(ast.Constant(True), node.body, [])).visit(f2)
                else:
                    m(node)
                ast.fix_missing_locations(f2)
                text = ast.unparse(f2)
            except Exception:
                continue
            start = min([fn.lineno] + [x.lineno for x in fn.decorator_list]) - 1
            ind = " " * fn.col_offset
            new = lines[:start] + [ind + l for l in text.split("\n")] + lines[fn.end_lineno:]
            s2 = "\n".join(new)
            try:
                compile(s2, "x", "exec")
            except Exception:
                continue
            yield q, d, s2


BASE = {}


def baseline():
    p = Program()
    for m in [m for m in p.modules if m.startswith("specs.") and m not in ("specs.lib", "specs.tree")]:
        for oid, i, s in laws.LawSet(p, m).obligations():
            try:
                r = laws.check(p, m, i, s)
                BASE[(m, oid)] = set(r["visited"])
            except Exception:
                BASE[(m, oid)] = set()


def run(job):
    path, modname, q, d, src = job
    try:
        p = Program(overrides={path: src})
    except Exception as e:
        return q, d, "BUILD", str(e)
    full = modname + "." + q
    unk = []
    for m in sorted({m for m, _ in BASE}):
        for oid, i, s in laws.LawSet(p, m).obligations():
            if full not in BASE[(m, oid)]:
                continue
            try:
                r = laws.check(p, m, i, s)
            except RecursionError:
                r = {"verdict": "UNKNOWN", "detail": "recursion"}
            except Exception as e:
                r = {"verdict": "UNKNOWN", "detail": "internal " + repr(e)[:80]}
            if r["verdict"] == "VIOLATION":
                return q, d, "KILLED", oid + ": " + r["detail"]
            if r["verdict"] == "UNKNOWN":
                unk.append(oid + ": " + r["detail"])
    for rname in sorted({r for sp in registry.PROPERTIES.values() for r in sp.get("rules", ())}):
        try:
            r = registry.rule(rname)(p)
        except Exception as e:
            unk.append(rname + " " + repr(e)[:80]); continue
        if r["findings"]:
            return q, d, "KILLED", rname + ": " + r["findings"][0]["what"]
    return q, d, "UNKNOWN" if unk else "SURVIVED", (unk or [""])[0]


def main():
    rel = sys.argv[1].replace("/repo/expression/", "")
    want = sys.argv[2] if len(sys.argv) > 2 else None
    path = os.path.join(REPO, "expression", rel)
    mod = "expression." + rel[:-3].replace("/", ".")
    if mod.endswith(".__init__"): mod = mod[:-9]
    src = open(path).read()
    baseline()
    jobs = [(path, mod, q, d, s) for q, d, s in mutants(src, want)]
    cnt = collections.Counter()
    per = collections.defaultdict(collections.Counter)
    with mp.get_context("fork").Pool(8) as pool:
        for q, d, v, detail in pool.imap(run, jobs, chunksize=4):
            cnt[v] += 1
            per[q][v] += 1
            if v != "KILLED" or "-k" in sys.argv:
                print(f"{v:9} {q:30} {d:30} {detail[:150]}")
    print(dict(cnt))


if __name__ == "__main__":
    main()
