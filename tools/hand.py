"""Development aid: hand-written behaviour-preserving rewrites of single functions, on which every check has to stay quiet.

  python3 tools/hand.py [-t] [-v] [NAME...]   -t: run the repository's tests on each rewrite too
Rewrites are in tools/hand/*.txt:
  === NAME | FILE | QUALNAME          (new body of that function follows, dedented; QUALNAME 'module' appends to the module after the imports)
Several blocks with the same NAME are applied together. Not used by any registered check."""
import ast, glob, os, sys, subprocess, tempfile, shutil, textwrap, collections, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
sys.setrecursionlimit(12000)
from sa.program import Program, REPO
import refactor
from sa import laws, registry, check as chk


def load():
    out = collections.OrderedDict()
    for f in sorted(glob.glob(HERE + "/hand/*.txt")):
        cur = None
        for line in open(f):
            if line.startswith("=== "):
                nm, fl, q = [x.strip() for x in line[4:].split("|")]
                cur = []
                out.setdefault(nm, []).append((fl, q, cur))
            elif cur is not None:
                cur.append(line)
    return out


def find(tree, q):
    node = tree
    for part in q.split("."):
        c = [n for n in node.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n.name == part]
        c = [n for n in c if not any(getattr(d, "id", getattr(d, "attr", "")) == "overload" for d in getattr(n, "decorator_list", []))]
        assert c, q
        node = c[-1]
    return node


def apply(blocks):
    """-> {path: source}"""
    srcs = {}
    for fl, q, lines in blocks:
        path = f"{REPO}/expression/{fl}"
        s = srcs.get(path) or open(path).read()
        L = s.split("\n")
        body = textwrap.dedent("".join(lines)).strip("\n")
        t = ast.parse(s)
        if q == "module":
            last = max(n.end_lineno for n in t.body if isinstance(n, (ast.Import, ast.ImportFrom)))
            L[last:last] = body.split("\n")
        elif q.startswith("def "):
            n = find(t, q[4:])
            start = min([n.lineno] + [d.lineno for d in n.decorator_list])
            L[start - 1:n.end_lineno] = textwrap.indent(body, " " * n.col_offset).split("\n")
        else:
            n = find(t, q)
            first = n.body[0]
            if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) and len(n.body) > 1:
                first = n.body[1]
            start = min([first.lineno] + [d.lineno for d in getattr(first, "decorator_list", [])])
            body, _, after = body.partition("\n@@\n")
            new = textwrap.indent(body, " " * (n.col_offset + 4))
            if after:
                new += "\n\n" + textwrap.indent(after, " " * n.col_offset)
            L[start - 1:n.end_lineno] = new.split("\n")
        srcs[path] = "\n".join(L)
    return srcs


def job(a):
    nm, o, payload, blocks = a
    if nm not in PROGS:
        PROGS.clear()
        try:
            PROGS[nm] = Program(overrides=apply(blocks))
        except Exception as e:
            return nm, o, {"verdict": "CRASH", "detail": repr(e)}
    chk._P = PROGS[nm]
    if payload is None:
        try:
            fs = registry.rule(o)(PROGS[nm])["findings"]
        except Exception as e:
            return nm, o, {"verdict": "CRASH", "detail": repr(e)}
        return nm, o, {"verdict": "VIOLATION" if fs else "HOLDS", "detail": "; ".join(f["where"] + " " + f["what"] for f in fs)[:400]}
    k, n, r = chk._run(("law", o, payload, 120))
    return nm, o, {k: r.get(k) for k in ("verdict", "detail", "pos", "case")}


PROGS = {}


def jobs_for(sel):
    foot = refactor.footprint()
    pays = {("writes." if e else "") + m + ".": ("specs." + m, "effects" if e else None, None) for m, e in refactor.law_modules()}
    rules = sorted({r for p in registry.PROPERTIES.values() for r in p.get("rules", ())})
    for nm, blocks in sel.items():
        qs = {"expression." + fl[:-3].replace("/", ".") + "." + q.replace("def ", "") for fl, q, _ in blocks if q != "module"}
        for o, vis in foot.items():
            if any(v == q or v.startswith(q + ".") for v in vis for q in qs):
                yield nm, o, next(v for k, v in pays.items() if o.startswith(k)), blocks
        for r in rules:
            yield nm, r, None, blocks


def tests(a):
    nm, blocks = a
    d = tempfile.mkdtemp(prefix="hand_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", REPO + "/.", d], check=True)
        for path, s in apply(blocks).items():
            open(path.replace(REPO, d), "w").write(s)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, capture_output=True, text=True,
                           env={**os.environ, "PYTHONPATH": d})
        return nm, r.returncode, r.stdout[-600:]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    all_ = load()
    sel = {n: b for n, b in all_.items() if not args or any(x in n for x in args)}
    with mp.Pool(int(os.environ.get("JOBS", "8"))) as pool:
        if "-t" in sys.argv:
            for nm, rc, out in pool.imap_unordered(tests, list(sel.items())):
                if rc:
                    print("TESTS FAIL", nm, out)
        cnt = collections.Counter()
        for nm, o, r in pool.imap_unordered(job, list(jobs_for(sel)), chunksize=4):
            cnt[r["verdict"]] += 1
            if r["verdict"] in ("VIOLATION", "CRASH"):
                print("ALARM", nm, o, r["verdict"], str(r["detail"])[:300], r.get("pos"), r.get("case"), flush=True)
            elif r["verdict"] != "HOLDS":
                print("unknown", nm, o, str(r["detail"])[:160], flush=True)
        print(len(sel), "rewrites", dict(cnt))
