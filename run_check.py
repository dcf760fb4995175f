#!/opt/venv/bin/python
"""Runs the check of one property.

    run_check.py C06                  tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
    run_check.py C06 --tier thorough
    run_check.py C06 --replay FILE    judge one recorded case again

Exit 0: the property held on everything explored.  Exit 1: violation, with a
line "VIOLATION property=<id> replay=<path>".  Exit 2: error of the harness.
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TOTAL_LIMIT = {"quick": 600.0, "thorough": 5400.0}
BUDGET = {"quick": 100.0, "thorough": 1500.0}
CASE_LIMIT = 200.0  # a single case never takes anywhere near this long


def child_env(scratch):
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=scratch,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONHASHSEED="0",
        TMPDIR=scratch,
    )
    e.pop("PYTHONPATH", None)
    return e


def worker_main(a):
    """One shard; everything printed by the code under test goes to a log."""
    log = os.open(a.log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    os.dup2(log, 2)
    sys.path.insert(0, HERE)
    result = {"subs": [], "error": None}
    try:
        from pbt import core

        module = importlib.import_module(f"pbt.checks.{a.prop.lower()}")
        result["meta"] = {
            "rule": " | ".join(s.name + ": " + s.rule for s in module.SUBS),
            "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        }
        if a.replay:
            rec = json.load(open(a.replay))
            sub = {s.name: s for s in module.SUBS}[rec["sub"]]
            status, msg = core.judge(sub, rec["case"])
            result["replay"] = {"status": status, "message": msg}
        else:
            result["subs"] = core.run_shard(
                module, a.prop, a.seed, a.shard, a.nshards, a.tier, a.budget, a.current
            )
    except BaseException:
        import traceback

        result["error"] = traceback.format_exc()
    with open(a.out + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(a.out + ".tmp", a.out)
    sys.stdout.flush()
    os._exit(0)


class Job:
    def __init__(self, a, scratch, tag, extra):
        self.out = os.path.join(scratch, f"{tag}.json")
        self.log = os.path.join(scratch, f"{tag}.log")
        self.current = os.path.join(scratch, f"{tag}.current")
        cmd = [PY, os.path.abspath(__file__), a.prop, "--worker", "--out", self.out,
               "--log", self.log, "--current", self.current, "--seed", str(a.seed),
               "--tier", a.tier] + extra
        self.proc = subprocess.Popen(
            cmd, cwd=scratch, env=child_env(scratch), stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)

    def done(self):
        return self.proc.poll() is not None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def result(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None

    def current_case(self):
        try:
            return json.load(open(self.current))
        except (OSError, ValueError):
            return None


def replay(a, scratch, path, tag="replay", limit=CASE_LIMIT):
    """Judge a recorded case in a fresh process -> (status, message)."""
    j = Job(a, scratch, tag, ["--replay", path])
    t0 = time.time()
    while not j.done():
        if time.time() - t0 > limit:
            j.kill()
            return "violation", f"no result within {limit:.0f} s"
        time.sleep(0.02)
    r = j.result()
    if r is None:
        return "violation", f"the process died (status {j.proc.returncode})"
    if r["error"]:
        return "error", r["error"]
    return r["replay"]["status"], r["replay"]["message"]


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def known_match(prop, case_sub, case):
    h = hashlib.sha256(
        json.dumps(case, sort_keys=True, separators=(",", ":")).encode()).hexdigest()
    for k in load_known():
        if k.get("status") == "open" and k["property"] == prop and k.get("sub") == case_sub \
                and k.get("case_sha256") == h:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--log")
    ap.add_argument("--current")
    ap.add_argument("--budget", type=float, default=0.0)
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    a.prop = a.prop.upper()
    if a.worker:
        worker_main(a)
    scratch = tempfile.mkdtemp(prefix=f"pbt-{a.prop}-")
    try:
        rc = replay_cmd(a, scratch) if a.replay else check(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def replay_cmd(a, scratch):
    status, msg = replay(a, scratch, os.path.abspath(a.replay))
    print(f"{a.prop} replay: {status}: {msg}")
    if status == "error":
        return 2
    if status == "violation":
        print(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
        return 1
    return 0


def write_replay(a, rec):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rec["case"], sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, f"{a.prop}-{rec['sub']}-{h}.json")
    with open(p, "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    return p


def run_jobs(a, scratch):
    """All shards -> (results, violations [(sub, case, message)], error, notes)"""
    nsh = a.workers
    budget = a.budget or BUDGET[a.tier]
    jobs = {}
    for k in range(nsh):
        jobs[k] = Job(a, scratch, f"shard{k}", ["--shard", str(k), "--nshards", str(nsh),
                                                 "--budget", str(budget)])
    t0 = time.time()
    results, violations, notes, errors = {}, [], [], []
    stop_at = None
    suspicious = []
    while jobs:
        time.sleep(0.02)
        now = time.time()
        for k, j in list(jobs.items()):
            if j.done():
                del jobs[k]
                r = j.result()
                if r is None:
                    cur = j.current_case()
                    notes.append(f"shard {k} died (status {j.proc.returncode})")
                    suspicious.append((cur, f"the process died (status {j.proc.returncode})"))
                    continue
                results[k] = r
                if r["error"]:
                    errors.append(r["error"])
                for s in r["subs"]:
                    if s["violation"]:
                        violations.append((s["name"], s["violation"]["case"],
                                           s["violation"]["message"]))
                        if stop_at is None:
                            stop_at = now + 60
            else:
                cur = j.current_case()
                if cur and now - cur["t"] > CASE_LIMIT:
                    j.kill()
                    del jobs[k]
                    notes.append(f"shard {k}: a case took more than {CASE_LIMIT:.0f} s")
                    suspicious.append((cur, f"no result within {CASE_LIMIT:.0f} s"))
        if jobs and ((stop_at and now > stop_at) or now - t0 > TOTAL_LIMIT[a.tier]):
            for j in jobs.values():
                j.kill()
            notes.append(f"{len(jobs)} shards stopped early")
            break
    for cur, why in suspicious:
        if cur:
            violations.append((cur["sub"], cur["case"], why))
    return results, violations, errors, notes


def check(a, scratch):
    t0 = time.time()
    results, violations, errors, notes = run_jobs(a, scratch)
    confirmed, unreproduced, known = [], [], []
    for sub, case, msg in violations:
        rec = {"property": a.prop, "sub": sub, "case": case, "message": msg,
               "seed": a.seed, "tier": a.tier}
        k = known_match(a.prop, sub, case)
        if k:
            known.append(k)
            continue
        tmp = os.path.join(scratch, "confirm.json")
        json.dump(rec, open(tmp, "w"))
        st, m2 = replay(a, scratch, tmp, tag=f"confirm{len(confirmed)}")
        if st == "violation":
            rec["message"] = m2
            confirmed.append(rec)
            break
        unreproduced.append((rec, st, m2))
    if not confirmed and unreproduced:
        # fails only after the cases before it: the history is the input.
        # Run that shard again; if it fails again, report it.
        rec = unreproduced[0][0]
        res2, viol2, _, _ = run_jobs(a, scratch)
        same = [v for v in viol2 if v[0] == rec["sub"]]
        if same:
            rec["message"] = "only after the cases before it (state kept between cases): " + same[0][2]
            rec["history"] = "rerun the check with the same seed and tier"
            confirmed.append(rec)
        else:
            notes.append(f"not reproduced: {rec['sub']}: {rec['message']}")
    # known findings are exercised on every run
    for k in load_known():
        if k.get("status") != "open" or k["property"] != a.prop:
            continue
        tmp = os.path.join(scratch, "known.json")
        json.dump({"sub": k["sub"], "case": k["case"]}, open(tmp, "w"))
        st, m = replay(a, scratch, tmp, tag="known")
        if st == "violation":
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
        else:
            notes.append(f"known finding no longer fails: {k['what']}")
    agg = {}
    for r in results.values():
        for s in r["subs"]:
            g = agg.setdefault(s["name"], {"evaluations": 0, "keys": set(), "labels": {},
                                           "samples": [], "inconclusive": {}, "skipped": 0})
            g["evaluations"] += s["evaluations"]
            g["keys"].update(s["keys"])
            g["skipped"] += s["skipped_for_time"]
            for src, dst in ((s["labels"], g["labels"]), (s["inconclusive"], g["inconclusive"])):
                for kk, v in src.items():
                    dst[kk] = dst.get(kk, 0) + v
            if len(g["samples"]) < 2:
                g["samples"] += s["samples"][: 2 - len(g["samples"])]
    rc = 0
    if confirmed:
        rc = 1
    elif errors:
        rc = 2
    meta = next((r["meta"] for r in results.values() if r.get("meta")), {})
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(g["evaluations"] for g in agg.values()),
            "distinct_nontrivial": sum(len(g["keys"]) for g in agg.values()),
            "rule": meta.get("rule", ""),
            "samples": [{"check": n, "case": c} for n, g in sorted(agg.items())
                        for c in g["samples"][:1]],
            "checks": {n: {"evaluations": g["evaluations"],
                           "distinct_nontrivial": len(g["keys"]),
                           "classes": dict(sorted(g["labels"].items())),
                           "inconclusive": g["inconclusive"],
                           "not_run_time_budget": g["skipped"]}
                       for n, g in sorted(agg.items())},
            "notes": notes,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", f"{a.prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for n, g in sorted(agg.items()):
        print(f"{a.prop}/{n}: {g['evaluations']} cases, {len(g['keys'])} distinct non-trivial"
              + (f", inconclusive {sum(g['inconclusive'].values())}" if g["inconclusive"] else "")
              + (f", {g['skipped']} not run (time)" if g["skipped"] else ""))
    for m in notes:
        print("note:", m)
    if errors and not confirmed:
        print("HARNESS ERROR", errors[0])
    for rec in confirmed:
        path = write_replay(a, rec)
        print(f"{a.prop}/{rec['sub']}: {rec['message']}")
        print(f"VIOLATION property={a.prop} replay={path}")
    print(f"{a.prop} {a.tier} seed={a.seed}: exit {rc} in {time.time() - t0:.1f} s")
    return rc


if __name__ == "__main__":
    main()
