"""run.sh <property> [quick|thorough] [--replay FILE] [--only SUB] [--scale X] [--seed N] [--no-evidence]"""
import os, sys, json, time, importlib, traceback, argparse, shutil, tempfile, atexit
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def worker(args):
    prop, subname, n, seed = args
    mod = load(prop)
    sub = {s.name: s for s in mod.SUBS}[subname]
    return core.run_sub(prop, sub, n, seed)


_mods = {}


def load(prop):
    if prop not in _mods:
        _mods[prop] = importlib.import_module(prop.lower())
    return _mods[prop]


def load_known():
    path = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    prop = a.property
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_main_")
    atexit.register(shutil.rmtree, tmp, True)
    os.environ["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    os.environ["PYTHONPYCACHEPREFIX"] = os.path.join(tmp, "pyc")
    sys.pycache_prefix = os.path.join(tmp, "pyc")
    sys.dont_write_bytecode = True
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    try:
        core.setup_paths()
        sys.path.insert(0, os.path.join(core.VERIF, "checks"))
        mod = load(prop)
    except Exception:
        traceback.print_exc()
        print(f"ERROR: the check for {prop} could not be loaded")
        return 2
    subs = mod.SUBS if not a.only else [s for s in mod.SUBS if s.name == a.only]

    if a.replay:
        d = json.load(open(a.replay))
        sub = {s.name: s for s in mod.SUBS}[d["sub"]]
        scratch = tempfile.mkdtemp(prefix="verif_replay_")
        os.chdir(scratch)
        try:
            ctx, failure = core.run_case(sub, d["case"], scratch)
        finally:
            os.chdir("/")
            shutil.rmtree(scratch, True)
        if failure:
            print(f"[{prop}/{sub.name}] {failure}")
            print(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
            return 1
        print(f"replay of {a.replay}: property held")
        return 0

    tasks = []
    for si, s in enumerate(subs):
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * a.scale))
        shards = s.shards if tier == "quick" else max(s.shards, 4)
        shards = max(1, min(shards, n))
        for k in range(shards):
            tasks.append((prop, s.name, (n + shards - 1) // shards, seed * 100003 + si * 101 + k))
    results = []
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed
    budget = float(os.environ.get("VERIF_BUDGET_S", "780" if tier == "quick" else "86400"))
    if hasattr(mod, "PRELOAD"):
        mod.PRELOAD()
    inconclusive = []
    with ProcessPoolExecutor(max_workers=max(1, min(a.jobs, len(tasks))), mp_context=mp.get_context("fork"), max_tasks_per_child=None) as ex:
        futs = {ex.submit(worker, t): t for t in tasks}
        try:
            for f in as_completed(futs, timeout=budget):
                try:
                    results.append(f.result())
                except Exception as e:
                    results.append({"sub": futs[f][1], "evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "failure": None,
                                    "error": f"worker failed: {e!r}", "wall_s": 0})
                if results[-1]["failure"]:
                    # one violation decides; do not wait for everything else
                    for g in futs:
                        g.cancel()
        except TimeoutError:
            for f, t in futs.items():
                if not f.done():
                    inconclusive.append(t[1])
            for pr in list(ex._processes.values()):
                pr.kill()
        except Exception as e:  # cancelled futures
            pass

    cov = {"evaluations": sum(r["evaluations"] for r in results)}
    cov["distinct_nontrivial"] = len({(r["sub"], h) for r in results for h in r["nontrivial"]})
    cov["rule"] = getattr(mod, "RULE", "")
    samples = []
    for r in results:
        for c in r["samples"][:1]:
            t = core.case_key(c)
            samples.append({"sub": r["sub"], "case": c if len(t) < 3000 else t[:3000] + "..."})
    cov["samples"] = samples[:24]
    per = {}
    for r in results:
        d = per.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "wall_s": 0.0})
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += len(r["nontrivial"])
        d["wall_s"] = round(d["wall_s"] + r["wall_s"], 2)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
    cov["per_subcheck"] = per
    if inconclusive:
        cov["not_completed_within_budget"] = sorted(set(inconclusive))

    failures = [r for r in results if r["failure"]]
    errors = [r for r in results if r["error"]]
    status = 0
    # known findings: replay the listed inputs, they are excluded from generation by the check itself
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    for k in known:
        sub = {s.name: s for s in mod.SUBS}.get(k.get("sub"))
        if sub is None:
            continue
        scratch = tempfile.mkdtemp(prefix="verif_known_")
        cwd = os.getcwd(); os.chdir(scratch)
        try:
            ctx, failure = core.run_case(sub, k["case"], scratch)
        finally:
            os.chdir(cwd); shutil.rmtree(scratch, True)
        if failure:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if failures:
        status = 1
        rdir = os.path.join(core.VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for r in failures:
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            path = os.path.join(rdir, f"{prop}_{r['sub']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": r["sub"], "case": r["failure"]["case"], "message": r["failure"]["message"],
                           "first_message": r["failure"]["first_message"], "seed": seed, "tier": tier}, f, indent=1)
            print(f"[{prop}/{r['sub']}] {r['failure']['message']}")
            print(f"VIOLATION property={prop} replay={path}")
    elif errors:
        status = 2
    for r in errors:
        print(f"ERROR in sub-check {r['sub']}:\n{r['error']}")
    wall = time.time() - t0
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(failures)}
        with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{len(failures)} violations, {wall:.1f} s" + (f", inconclusive: {sorted(set(inconclusive))}" if inconclusive else ""))
    for k, d in per.items():
        print(f"   {k:34s} {d['evaluations']:6d} cases {d['wall_s']:8.1f} s  {dict(sorted(d['labels'].items()))}")
    return status


if __name__ == "__main__":
    sys.exit(main())
