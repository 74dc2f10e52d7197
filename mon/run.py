#!/usr/bin/python3
"""Runs the monitor of one property against the rfsed source in /repo.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

Shards the property's cases over worker processes running under the repository's
own interpreter, merges what their monitors observed, writes
evidence/PROPERTY.json, and ends with
  0  held on everything explored
  1  a violation (line "VIOLATION property=<id> replay=<path>")
  3  inconclusive (a watchdog fired, or the deciding monitor saw too little)
  4  the machinery itself failed
"""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("RFSED_REPO", "/repo")
PY = "/opt/venv/bin/python"

def known_findings(prop):
    """Open findings of a property: [(key, text)]; 'fixed:' lines suppress nothing."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            f = line.split(None, 3)   # finding: property=C01 key=xyz text
            if f[1] == "property=" + prop:
                out.append((f[2].split("=", 1)[1], f[3] if len(f) > 3 else ""))
    return out

def worker_env(scratch):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("PYTHON", "MPL")) or k in ("PYTHONIOENCODING",)}
    env.update(MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), HERE]),
               HOME=scratch, TMPDIR=scratch, RFSED_REPO=REPO)
    return env

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    a.shards = 0
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        assert r["property"] == a.prop
        a.seed, a.tier, only = r["seed"], r["tier"], r["case"]
        a.shards = r.get("shards", 8)
        a.no_evidence = True
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="rfsedmon-")
    os.makedirs(os.path.join(scratch, "mpl"))
    # a warmed font cache saves every worker a font scan; without one they build it
    for c in ("/opt/vp/mpl",):
        try:
            for f in os.listdir(c):
                if f.startswith("fontlist"):
                    shutil.copy(os.path.join(c, f), os.path.join(scratch, "mpl", f))
        except OSError:
            pass
    code = 4
    try:
        code = execute(a, scratch, only, t0)
        if only is not None and code == 0:      # alone it holds: again after the cases that went before it
            print("case %d holds alone; repeating it after the earlier cases of its process" % only)
            shutil.rmtree(scratch); os.makedirs(os.path.join(scratch, "mpl"))
            code = execute(a, scratch, only, t0, True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def execute(a, scratch, only, t0, history=False):
    sys.path.insert(0, HERE)
    import plans
    plan = plans.PLANS[a.prop][a.tier]
    n = a.cases or plan["cases"]
    nw = 1 if only is not None else (a.workers or min(plan.get("workers", 8), n))
    watchdog = plan.get("watchdog", 700 if a.tier == "quick" else 6 * 3600)
    procs = []
    for s in range(nw):
        d = os.path.join(scratch, "w%d" % s); os.makedirs(d)
        env = worker_env(scratch); env["TMPDIR"] = d; env.update(plan.get("env", {}))
        if plan.get("copy"):            # the case may write below the package: give it a copy of the tree
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "repo", "src"),
                            ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
            env.update(RFSED_REPO=os.path.join(d, "repo"), RFSED_ORIGINAL=REPO,
                       PYTHONPATH=os.pathsep.join([os.path.join(d, "repo", "src"), HERE]))
        out = os.path.join(scratch, "out%d.json" % s)
        part = [s, nw, n, plan["budget"]]
        if history:
            part = [only % a.shards, a.shards, only + 1, 1e9]
        cmd = [PY, "-W", "ignore", os.path.join(HERE, "worker.py"), a.prop, a.tier,
               str(a.seed)] + [str(x) for x in part] + [out, str(-1 if only is None or history else only)]
        log = open(os.path.join(scratch, "log%d" % s), "wb")
        procs.append((subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=log,
                                       stdin=subprocess.DEVNULL, start_new_session=True), out, log.name))
    deadline = time.time() + watchdog
    timed_out = False
    for p, _, _ in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
    for p, _, _ in procs:
        if p.poll() is None:
            timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    reports, broken = [], []
    for p, out, log in procs:
        try:
            reports.append(json.load(open(out)))
            if not reports[-1].get("finished") and not timed_out:
                broken.append(log)
        except (OSError, ValueError):
            broken.append(log)
    return verdict(a, plan, reports, broken, timed_out, t0, only, nw)

def verdict(a, plan, reports, broken, timed_out, t0, only, nw):
    counters, sigs, nontriv, samples, viol, notes = {}, set(), set(), [], [], []
    evals = 0
    for r in reports:
        evals += r["evaluations"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(r["signatures"]); nontriv.update(r["nontrivial"])
        samples += r["samples"]; viol += r["violations"]; notes += r["errors"]
    known = known_findings(a.prop)
    new, listed = [], {}
    for v in viol:
        k = [x for x in known if x[0] == v["key"]]
        if k:
            listed[k[0]] = listed.get(k[0], 0) + 1
        else:
            new.append(v)
    for (key, text), c in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (a.prop, text, key, c))
    if not a.no_evidence:
        meta = json.load(open(os.path.join(HERE, "levels.json"))).get(a.prop, {})
        ev = {"property": a.prop, "tier": a.tier, "seed": a.seed,
              "level": meta.get("level", "exploration"),
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontriv),
                           "distinct_cases": len(sigs), "rule": plan_rule(a.prop),
                           "samples": samples[:5], "observed": counters,
                           "workers": len(reports), "timed_out": timed_out},
              "assumptions": meta.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % a.prop)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", a.prop + ".json"))
    print("%s: %d cases, %d distinct, %d distinct non-trivial, seed %d, tier %s, %.1f s" %
          (a.prop, evals, len(sigs), len(nontriv), a.seed, a.tier, time.time() - t0))
    for k in sorted(counters):
        print("   observed %-45s %d" % (k, counters[k]))
    if new:
        rdir = os.path.join(ROOT, "replays"); os.makedirs(rdir, exist_ok=True)
        by = {}
        for v in new:
            by.setdefault(v["key"], []).append(v)
        for n, (key, vs) in enumerate(sorted(by.items())):
            v = vs[0]
            path = os.path.join(rdir, "%s-%s.json" % (a.prop, "".join(
                c if c.isalnum() else "_" for c in key)[:60]))
            json.dump(dict(v, property=a.prop, seed=a.seed, tier=a.tier, times=len(vs), shards=a.shards or nw),
                      open(path, "w"), indent=1, default=str)
            print("  %s: %s (x%d)" % (key, v["message"][:600], len(vs)))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if notes or broken:
        for x in notes[:5]:
            print("HARNESS ERROR:", x[:3000])
        for l in broken[:3]:
            print("worker gave no report:", open(l, errors="replace").read()[-3000:])
        return 4
    if timed_out:
        print("INCONCLUSIVE: watchdog fired")
        return 3
    if only is None:
        short = {k: (counters.get(k, 0), m) for k, m in plan.get("require", {}).items()
                 if counters.get(k, 0) < m}
        if a.cases == 0 and (short or evals == 0):
            print("INCONCLUSIVE: monitor saw too little:", short)
            return 3
    return 0

def plan_rule(prop):
    import plans
    return plans.RULES[prop]

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback; traceback.print_exc(); sys.stdout.flush(); os._exit(4)
