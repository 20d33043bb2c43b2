"""Create and confirm planted bugs.  python3 tools/seed.py FILE.py   (FILE defines BUGS = [dict(id, property, edits=[(path, old, new)], demo, needs, breaks)])

Each bug is applied in a scratch copy of /repo; kept only if the stable tests pass with it
and demo.sh exits 0 without it and nonzero with it."""
import json, os, shutil, subprocess, sys, runpy, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/bash\n# exit 0 when the property holds\ncd "${REPO:-$PWD}"\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 "$PY" "$(dirname "$(readlink -f "$0")")/demo.py"\n'


def run(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(b, skip_tests=False):
    scratch = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        repo = os.path.join(scratch, "repo")
        run(["cp", "-a", "/repo", repo])
        out = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        demo = os.path.join(out, "demo.sh")
        r0 = run(["bash", demo], cwd=repo)
        for path, old, new in b["edits"]:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"edit of {path}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], cwd=repo).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        r1 = run(["bash", demo], cwd=repo)
        if r0.returncode != 0:
            return b["id"], "demo fails on the unchanged tree:\n" + r0.stdout[-1500:]
        if r1.returncode == 0:
            return b["id"], "demo passes with the bug"
        if not skip_tests:
            r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, env={**os.environ, "PYTHONPATH": repo})
            if r.returncode != 0:
                return b["id"], "tests fail with the bug:\n" + r.stdout[-1500:]
        return b["id"], None
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    bugs = []
    for f in sys.argv[1:]:
        bugs += runpy.run_path(f)["BUGS"]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        for bid, err in ex.map(one, bugs):
            print(bid, "OK" if err is None else "REJECTED: " + err)
            if err is not None:
                shutil.rmtree(os.path.join(HERE, "seeded", bid), ignore_errors=True)
