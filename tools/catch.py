"""python3 tools/catch.py [ids...]: run the checks on planted bugs (scratch copies); prints which property's check reports."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bid):
    d = os.path.join(HERE, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    s = tempfile.mkdtemp(prefix="catch_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", s + "/repo"], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=s + "/repo", check=True)
        r = subprocess.run([sys.executable, "-m", "sa.check", meta["property"]], cwd=HERE, env={**os.environ, "SA_REPO": s + "/repo", "SA_EVIDENCE": s + "/ev"}, capture_output=True, text=True)
        return bid, meta["property"], r.returncode, r.stdout + r.stderr[-500:]
    finally:
        shutil.rmtree(s)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
with ThreadPoolExecutor(4) as ex:
    n = 0
    for bid, p, rc, out in ex.map(one, ids):
        n += rc == 1
        lines = [l for l in out.splitlines() if not l.startswith("VIOLATION")]
        print(("CAUGHT " if rc == 1 else f"MISSED(rc={rc}) ") + bid, p, "\n     " + "\n     ".join(l[:250] for l in lines[:3 if rc == 1 else 8]))
    print(n, "of", len(ids), "caught")
