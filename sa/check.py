"""Check driver:  python3 -m sa.check <property> [--only OBLIGATION]

Decides one property on the current working tree of /repo.  Exit status: 0 the
property held on everything analysed, 1 with a VIOLATION line, 2 an error of
the check itself (anchor vanished, nothing could be decided)."""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import laws, registry
from .program import HERE, Program, ProgramError

_P = None
# documented to fill the list it is given
EFFECTS_ALLOWED = ("expression.collections.map.Map.try_get_value",)


_DEADLINE = None        # when the check as a whole has to come to an end


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def _run(job):
    kind, name, payload, limit = job
    t0 = time.time()
    if _DEADLINE is not None:
        limit = int(max(1, min(limit, _DEADLINE - t0)))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        if kind == "law":
            mod, what, specs = payload
            ls = laws.LawSet(_P, mod)
            for oid, i, s in ls.obligations():
                if what == "effects" and "writes." + oid == name:
                    r = laws.effects(_P, mod, i, EFFECTS_ALLOWED)
                elif what != "effects" and oid == name:
                    r = laws.check(_P, mod, i, s)
                else:
                    continue
                if r:
                    r["line"] = i.lineno
                    break
            r["visited"] = {str(k): v for k, v in r.get("visited", {}).items()}
            return kind, name, r
        fn = registry.rule(payload)
        r = fn(_P)
        r["wall"] = time.time() - t0
        return kind, name, r
    except _Timeout:
        r = {"verdict": "UNKNOWN", "detail": f"not decided within {limit}s"}
    except ProgramError as e:
        r = {"verdict": "UNKNOWN", "detail": f"anchor: {e}", "anchor": True}
    except (Exception, RecursionError) as e:  # noqa: BLE001 - an internal failure decides nothing
        r = {"verdict": "UNKNOWN", "detail": f"internal: {type(e).__name__}: {e}", "trace": traceback.format_exc()[-2000:]}
    finally:
        signal.alarm(0)
    r.update(wall=time.time() - t0, visited={})
    if kind == "rule":
        r.update(findings=[], analysed={}, undecided=[r["detail"]], instances=0)
    return kind, name, r


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def decide(pid, prog, only=None, workers=None, limit=None):
    """-> (results, findings): findings = [(key, text, pos)]"""
    global _P, _DEADLINE
    _P = prog
    if workers != 0 and os.environ.get("VERIF_TIER") != "thorough":
        _DEADLINE = time.time() + 600
    spec = registry.PROPERTIES[pid]
    limit = limit or (300 if os.environ.get("VERIF_TIER") == "thorough" else 120)
    jobs = []
    for mod in spec.get("laws", ()):
        ls = laws.LawSet(prog, "specs." + mod)
        for oid, i, s in ls.obligations():
            if only is None or only in oid:
                jobs.append(("law", oid, ("specs." + mod, None, None), limit))
    for mod in spec.get("effects", ()):
        ls = laws.LawSet(prog, "specs." + mod)
        for oid, i, s in ls.obligations():
            if only is None or only in "writes." + oid:
                jobs.append(("law", "writes." + oid, ("specs." + mod, "effects", None), limit))
    for rname in spec.get("rules", ()):
        if only is None or only in rname:
            jobs.append(("rule", rname, rname, limit))
    results = []
    if workers == 0:
        results = [_run(j) for j in jobs]
    else:
        with mp.get_context("fork").Pool(workers or min(8, os.cpu_count() or 1, max(1, len(jobs)))) as pool:
            results = list(pool.imap_unordered(_run, jobs, chunksize=1))
    results.sort(key=lambda r: (r[0], r[1]))
    findings = []
    for kind, name, r in results:
        if kind == "law":
            if r["verdict"] == "VIOLATION":
                pos = r.get("pos")
                findings.append((name, r["detail"], pos, r.get("case", ""), r))
        else:
            for f in r["findings"]:
                findings.append((f"{name}:{f['key']}", f["what"], f.get("where"), "", f))
    return results, findings


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    sys.setrecursionlimit(12000)
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.PROPERTIES[pid]
    try:
        prog = Program()
    except (ProgramError, SyntaxError) as e:
        print(f"ERROR property={pid}: the tree cannot be analysed: {e}")
        return 2
    results, findings = decide(pid, prog, a.only)
    known = known_findings(pid)
    laws_ = [(n, r) for k, n, r in results if k == "law"]
    rules_ = [(n, r) for k, n, r in results if k == "rule"]
    held = [n for n, r in laws_ if r["verdict"] == "HOLDS"]
    undecided = [(n, r["detail"]) for n, r in laws_ if r["verdict"] == "UNKNOWN"]
    for n, r in rules_:
        undecided += [(n, u) for u in r.get("undecided", ())]
    funcs = set()
    for n, r in laws_:
        funcs.update(r.get("visited", {}))
    rule_instances = {n: r.get("instances", 0) for n, r in rules_}
    for n, r in rules_:
        funcs.update(r.get("functions", ()))
    funcs = {f for f in funcs if f.startswith("expression.")}

    evdir = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    new, old = [], []
    for key, what, pos, case, r in findings:
        (old if key in known else new).append((key, what, pos, case, r))
    violations = []
    for i, (key, what, pos, case, r) in enumerate(new):
        path = os.path.join(evdir, "replay", f"{pid}-{i}.json")
        with open(path, "w") as fh:
            json.dump({
                "property": pid, "obligation": key, "where": pos, "case": case, "what": what,
                "rerun": f"cd {HERE} && python3 -m sa.check {pid} --only '{key.split(':')[0]}' -v",
                "functions_on_path": sorted(k for k in r.get("visited", {}) if k.startswith("expression."))[:200],
            }, fh, indent=1)
        violations.append({"obligation": key, "where": pos, "what": what, "replay": path})
        print(f"  {key}: {what}" + (f" [{pos}]" if pos else "") + (f" when {case}" if case else ""))
        print(f"VIOLATION property={pid} replay={path}")
    for key, what, pos, case, r in old:
        print(f"KNOWN-FINDING: property={pid} {key} {known[key]}")

    floor = spec.get("floor", 1)
    decided = len(held) + len([1 for n, r in laws_ if r["verdict"] == "VIOLATION"]) + sum(rule_instances.values())
    cov = {
        "explanation": spec.get("explain", "") + " Obligations are implementation/specification law pairs compared path by path "
                       "in the term (value-number) domain, and rule instances are the constructs each rule inspected; every count is measured on this run.",
        "law_obligations": len(laws_),
        "law_obligations_held": len(held),
        "rule_instances": rule_instances,
        "abstract_paths": sum(r.get("paths", 0) for _, r in laws_),
        "loops_summarised": sum(r.get("loops", 0) for _, r in laws_),
        "path_pairs_compared": sum(r.get("pairs", 0) for _, r in laws_),
        "functions_analysed": len(funcs),
        "functions": sorted(funcs),
        "rules": {n: r.get("rule", "") for n, r in rules_},
        "analysed": {n: r.get("analysed", {}) for n, r in rules_},
        "undecided": [{"obligation": n, "reason": u} for n, u in undecided],
        "held": held,
        "source_digest": prog.digest(),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "wall_s": round(time.time() - t0, 3),
        "assumptions": registry.ASSUMPTIONS + spec.get("assumptions", []),
        "violations": violations,
        "known_findings": [k for k, *_ in old],
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid}: {len(held)}/{len(laws_)} law obligations hold, {sum(rule_instances.values())} rule instances, "
          f"{len(funcs)} functions of /repo analysed, {len(undecided)} undecided, {len(new)} violations, {time.time() - t0:.1f}s")
    for n, u in undecided:
        print(f"  UNDECIDED {n}: {u}"[:400])
    if a.v:
        for n, r in laws_ + rules_:
            print("  ", n, r.get("verdict", ""), r.get("trace", ""))
    if violations:
        return 1
    if a.only is None and decided < max(1, floor // 2):
        print(f"ERROR property={pid}: only {decided} obligations could be decided, {floor} are expected; the check has lost its anchors")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
