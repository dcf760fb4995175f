#!/usr/bin/env python3
"""Turns a description of a planted bug into /verif/seeded/<id>/ after confirming it.

    plant.py SPEC.py ...        SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS, DEMO

EDITS is a list of (anchor, old, new): `old` is replaced by `new` at its first
occurrence after `anchor` in mpopt/mpopt.py.  A bug is kept when the patch
applies, the stable tests pass with it, the demonstration exits 0 without and
nonzero with it.  --check runs the quick check of its property against it
(all checks with --all).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)


def plant(path, run_all=False, check=True):
    spec = {}
    exec(open(path).read(), spec)
    tmp = tempfile.mkdtemp(prefix="plant-")
    out = []
    try:
        wt, clean = tmp + "/wt", tmp + "/clean"
        for d in (wt, clean):
            assert sh(f"git clone -q /repo {d}").returncode == 0
        src = wt + "/mpopt/mpopt.py"
        text = open(src).read()
        for anchor, old, new in spec["EDITS"]:
            at = text.find(anchor)
            assert at >= 0, f"anchor {anchor!r}"
            pos = text.find(old, at)
            assert pos >= 0, f"old {old!r}"
            text = text[:pos] + new + text[pos + len(old):]
        open(src, "w").write(text)
        diff = sh("git diff", cwd=wt).stdout
        assert diff
        dest = f"{HERE}/seeded/{spec['ID']}"
        stage = tmp + "/demo"
        os.makedirs(stage)
        open(stage + "/demo.sh", "w").write(DEMO_SH)
        open(stage + "/demo.py", "w").write(spec["DEMO"].lstrip())
        # blame: a hunk must change a line of the original repository
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        clean_rc = sh(f"sh {stage}/demo.sh", cwd=clean, env=env)
        bad_rc = sh(f"sh {stage}/demo.sh", cwd=wt, env=env)
        out.append(f"demo clean {clean_rc.returncode} bug {bad_rc.returncode}")
        ok = clean_rc.returncode == 0 and bad_rc.returncode != 0
        if clean_rc.returncode:
            out.append(clean_rc.stdout[-600:] + clean_rc.stderr[-1500:])
        elif ok:
            out.append((bad_rc.stderr.strip().splitlines() or [""])[-1][:150])
        e = dict(env, OMP_NUM_THREADS="1", PYTHONPATH=wt, PYTHONHASHSEED="0")
        t = sh(f"{PY} -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3", cwd=wt, env=e)
        passed = "51 passed" in t.stdout
        out.append("tests " + t.stdout.strip().splitlines()[-1])
        if ok and passed:
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(stage, dest)
            open(dest + "/patch.diff", "w").write(diff)
            json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                      open(dest + "/meta.json", "w"), indent=1)
            out.append("KEPT")
        else:
            out.append("NOT KEPT")
        if check:
            props = [f"C{i:02d}" for i in range(1, 31)] if run_all else [spec["PROP"]]
            for p in props:
                r = sh(f"{PY} {HERE}/run_check.py {p} --tier quick", cwd=HERE,
                       env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_EVIDENCE=tmp))
                last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
                out.append(f"{p} exit {r.returncode} {last[-60:]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(spec["ID"], "|", " | ".join(out), flush=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("specs", nargs="+")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--no-check", action="store_true")
    a = ap.parse_args()
    for s in a.specs:
        try:
            plant(s, a.all, not a.no_check)
        except Exception as e:  # noqa
            print(s, "ERROR", repr(e), flush=True)
