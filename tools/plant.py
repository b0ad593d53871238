#!/usr/bin/env python3
"""Confirm planted bugs. usage: plant.py BUGS.py [id ...] [--jobs N] [--checks]
BUGS.py defines BUGS = [dict(id, prop, file, edits=[(old, new), ...], demo=python text, needs, breaks)].
A bug is kept in /verif/seeded/<id>/ if it applies, passes the stable tests and its demo tells the trees apart."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "src/tight_binding_redweasel/"
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[-1]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
tmp="$(mktemp -d)"
export MPLCONFIGDIR="$tmp"
cd "$tmp" && /opt/venv/bin/python "$here/demo.py"
rc=$?
cd / && rm -rf "$tmp"
exit $rc
"""


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def one(b, checks):
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        r = os.path.join(w, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        edits = b["edits"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"], *e)
            p = os.path.join(r, PKG + f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"EDIT matches {s.count(old)} times: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        base_lines = {f: set(sh(["git", "show", BASE + ":" + PKG + f], "/repo").stdout.split("\n")) for f in {e[0] if len(e) == 3 else b["file"] for e in edits}}
        orig = set().union(*base_lines.values())
        mine = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---") and l[1:] not in orig]
        if mine:
            return b["id"], f"NOT ORIGINAL: {mine}"
        d = os.path.join(w, "demo")
        os.mkdir(d)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        base = sh(["bash", d + "/demo.sh"], "/repo")
        if base.returncode != 0:
            return b["id"], "DEMO fails on the unchanged tree: " + base.stderr[-400:]
        bad = sh(["bash", d + "/demo.sh"], r)
        if bad.returncode == 0:
            return b["id"], "DEMO passes with the patch: " + bad.stdout[-200:]
        env = dict(os.environ, PYTHONPATH=r + "/src", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-rA", "tests"], r, env)
        ok = {l.split()[1].replace("/", ".").replace(".py::", "::") for l in t.stdout.splitlines() if l.startswith("PASSED ")}
        if STABLE - ok:
            return b["id"], f"TESTS fail: {sorted(STABLE - ok)[:4]} {t.stdout[-300:] if len(ok) < 5 else ''}"
        out = os.path.join(V, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.sh", out), shutil.copy(d + "/demo.py", out)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1, ensure_ascii=False)
        res = []
        for p in ([b["prop"]] + b.get("also", [])) if checks else []:
            c = sh(["bash", V + "/run.sh", p, "quick", "--no-evidence", "--jobs", "3"], V, dict(os.environ, VERIF_REPO=r, VERIF_SEED="1"))
            first = next((l for l in c.stdout.splitlines() if l.startswith("[")), "")
            res.append(f"{p}: {'CAUGHT' if c.returncode == 1 else 'missed' if c.returncode == 0 else 'ERROR'} {first[:170]}")
        return b["id"], "kept; " + "; ".join(res)
    except Exception as e:
        return b["id"], f"ERROR {type(e).__name__}: {e}"
    finally:
        shutil.rmtree(w, True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    if len(args) > 1:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(lambda b: one(b, "--nochecks" not in sys.argv), bugs):
            print(f"{i}: {r}", flush=True)
