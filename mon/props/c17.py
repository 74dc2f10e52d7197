"""What each plot call writes and draws."""
import os
import numpy as np
import calls, figs

MAGIC = {"jpg": b"\xff\xd8\xff", "jpeg": b"\xff\xd8\xff", "png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml", "eps": b"%!PS"}
G = [75., 10., 15., 2.5]

def options(rng, job):
    """(arguments after the result and folder, effective gains, rmneg, format)"""
    fmt = rng.choice(["jpg", "png", "pdf", "svg", "png", "jpg"])
    if job.kind in ("wf", "wfmp"):
        return [fmt], {}, G, False, fmt
    if not job.clips:
        if rng.random() < .3:
            return [], {}, G, False, "jpg"
        return [fmt], {}, G, False, fmt
    g = rng.choice([None, [75., 10., 15., 2.5], [round(rng.uniform(1, 200), 2), round(rng.uniform(1, 30), 2), round(rng.uniform(1, 40), 2), round(rng.uniform(.5, 8), 2)]])
    rm = rng.choice([True, True, False, None])
    f = rng.choice([fmt, fmt, fmt, None])
    eg, er, ef = g or G, job.rmneg_default if rm is None else rm, f or "pdf"
    if rng.random() < .25:                           # leave them out: the defaults of the signature
        return [], {}, G, job.kind in ("hk", "hkSeq", "hkYu"), "jpg"
    if rng.random() < .3:
        return [], {"rmneg": rm, "format": f, "g": g}, eg, er, ef
    return [g, rm, f], {}, eg, er, ef

def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))

def judge_figure(mon, key, fig, spec, rmneg):
    axes = fig["axes"]
    surf_ax = None
    if spec.get("surface") is not None:
        want = np.array(spec["surface"], float)
        if rmneg:
            want[:, 2] = np.where(want[:, 2] <= 0, 0, want[:, 2])
        s3 = [(i, s) for i, s in fig["surfaces"] if len(s) >= 3]
        if mon.check(len(s3) == 1, key + ":surface", "%d surfaces drawn in %s" % (len(s3), spec["file"])):
            surf_ax, s = s3[0]
            ok = len(s[0]) == len(want)
            if ok:
                a = np.stack([np.asarray(x, float).ravel() for x in s[:3]], axis=1)
                o1, o2 = np.lexsort(np.round(a[:, :2], 8).T), np.lexsort(np.round(want[:, :2], 8).T)
                scale = np.max(np.abs(want[:, 2])) + 1e-300
                d = np.abs(a[o1] - want[o2])
                tol = spec.get("surftol", 1e-7)
                ok = bool(np.all(d[:, :2] < 1e-6)) and bool(np.all(d[:, 2] <= tol * scale))
            mon.count("surfaces judged")
            mon.check(ok, key + ":surface", "%s does not show the surface of the result (rmneg %s)" % (spec["file"], rmneg))
            ax = axes[surf_ax]
            (x0, x1), (y0, y1) = sorted(ax["xlim"]), sorted(ax["ylim"])
            mon.check(x0 <= want[:, 0].min() + 1e-6 and x1 >= want[:, 0].max() - 1e-6 and y0 <= want[:, 1].min() + 1e-6 and y1 >= want[:, 1].max() - 1e-6
                      or spec.get("note"), key + ":limits", "%s shows %s x %s of the surface" % (spec["file"], ax["xlim"], ax["ylim"]))
            pts = [l for l in ax["lines"] if len(l["x"]) == 1]
            b = spec["best"]
            if spec.get("tied"):
                mon.count("tied best models")
                v = want[:, 2] if not spec.get("note", "").startswith("Root") else -want[:, 2]
                cand = want[v >= v.max() - 1e-6 * (abs(v.max()) + 1e-300)]
                good = len(pts) == 1 and any(near(pts[0]["x"], [c[0]], 1e-6) and near(pts[0]["y"], [c[1]], 1e-6) for c in cand)
            else:
                good = len(pts) == 1 and near(pts[0]["x"], [b[0]], 1e-6) and near(pts[0]["y"], [b[1]], 1e-6)
            mon.count("markers judged")
            mon.check(good, key + ":marker", "%s: markers at %s, best model %s" % (spec["file"], [(list(p["x"]), list(p["y"])) for p in pts], b))
    if spec.get("title"):
        mon.check(any(spec["title"] in a["title"] for a in axes), key + ":title", "no title of %s names the station %s" % (spec["file"], spec["title"]))
    ctol = spec.get("curvetol", 1e-7)
    used = set()
    if spec.get("tied") and spec.get("note"):
        return                                       # curves of another of the tied models are as good
    for pi, p in enumerate(spec["panels"]):
        found = None
        for ai, ax in enumerate(axes):
            if ai in used or ai == surf_ax:
                continue
            hit = []
            for x, y, lab in p["curves"]:
                k = [li for li, l in enumerate(ax["lines"]) if li not in hit and len(l["x"]) == len(x) and len(x) and near(l["x"], x, 2e-4)
                     and near(l["y"], y, ctol * (np.max(np.abs(y)) + 1e-300)) and (lab is None or l["label"].strip().lower() == lab.lower())]
                if not k:
                    break
                hit.append(k[0])
            if len(hit) == len(p["curves"]):
                found = (ai, hit); break
        if not mon.check(found is not None, key + ":curves", "%s: panel %d does not show the expected curves" % (spec["file"], pi)):
            continue
        ai, hit = found; used.add(ai)
        mon.count("curves judged", len(hit))
        rest = [l for li, l in enumerate(axes[ai]["lines"]) if li not in hit and len(l["x"]) >= 2]
        got = []
        for l in rest:
            if len(l["x"]) == 2 and abs(l["x"][0] - l["x"][1]) < 1e-9:
                got.append((float(l["x"][0]), float(min(l["y"])), float(max(l["y"]))))
            else:
                mon.violation(key + ":extra", "%s: panel %d shows a line of %d points that is no part of the result" % (spec["file"], pi, len(l["x"])))
        for t, a, b in p["marks"]:
            k = [j for j, m in enumerate(got) if abs(m[0] - t) < 1e-6 and abs(m[1] - min(a, b)) < 1e-5 and abs(m[2] - max(a, b)) < 1e-5]
            mon.count("time markers judged")
            if mon.check(bool(k), key + ":times", "%s: no time marker at %.4f s around %.2f" % (spec["file"], t, (a + b) / 2)):
                got.pop(k[0])
        mon.check(not got, key + ":extra", "%s: %d time markers at times of no phase, e.g. %s" % (spec["file"], len(got), got[:1]))

def judge(mon, key, job, cap, before, after, path, specs, fmt, rmneg, real):
    """cap.saved against the specs; the folder before and after."""
    names = sorted("%s.%s" % (s["file"], fmt) for s in specs)
    saved = [os.path.relpath(os.path.realpath(str(f["path"])), os.path.realpath(path)) for f in cap.saved]
    mon.check(sorted(saved) == names, key + ":files", "files saved: %s, documented: %s" % (sorted(saved), names))
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    mon.check(changed == names, key + ":folder", "files changed in the folder: %s, documented: %s" % (changed, names))
    for f in cap.saved:
        mon.check((f["kw"].get("format") or os.path.splitext(str(f["path"]))[1][1:]).lower() == fmt, key + ":format", "%s saved as %r" % (f["path"], f["kw"].get("format")))
    if real:
        for n in names:
            p = os.path.join(path, n)
            if os.path.exists(p):
                with open(p, "rb") as fh:
                    head = fh.read(8)
                mon.count("real files judged")
                mon.check(head.startswith(MAGIC[fmt]) and os.path.getsize(p) > 500, key + ":content", "%s is no %s file (%r)" % (n, fmt, head))
    for s in specs:
        f = [f for f, n in zip(cap.saved, saved) if n == "%s.%s" % (s["file"], fmt)]
        if len(f) == 1:
            judge_figure(mon, key, f[0], s, rmneg)
            mon.count("figures judged")

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    real = i % 4 == 3
    # i//8 steps the kinds so that every shard meets all of them
    if i % 8 in (1, 5):
        first = ["wf", "wfmp"][i // 8 % 2]
    else:
        first = calls.LIGHT[(i // 8 + i % 8) % 7]
    kinds = [first] + [rng.choice(calls.LIGHT) for _ in range(rng.choice([1, 2, 3]) if not real else 1)]
    common = None
    if rng.random() < .4:                            # several analyses of the same streams
        import gen
        a, d = gen.stream(rng, nr, ntr=rng.choice([1, 2, 3]), n=rng.choice([301, 400]), scale=1.0)
        b, _ = gen.stream(rng, nr, ntr=rng.choice([1, 2, 3]), n=d["n"], rate=d["rate"], preonset=d["preonset"], scale=1.0)
        common = [(a, d["preonset"]), (b, d["preonset"])]
        kinds = [rng.choice(["hk", "hkSeq"]) for _ in range(2)] + kinds
        mon.count("cases sharing streams")
    jobs = [calls.make(rng, nr, k, common) for k in kinds]
    results = []
    for j in jobs:
        r = j.run(mon)
        results.append(r)
    if rng.random() < .5:                            # plot the first again, after the others
        jobs.append(jobs[0]); results.append(results[0])
    figs.plt.close("all")
    root = mon.newdir()
    mon.describe(kinds=[j.kind for j in jobs], jobs=[j.desc for j in jobs], real=real)
    opts = []
    cwd = os.getcwd()
    os.chdir(root)
    try:
        shared = os.path.join(root, rng.choice(["plots", "my plots", "a.b/c"]))
        os.makedirs(shared)
        for j, r in zip(jobs, results):
            pos, kw, g, rmneg, fmt = options(rng, j)
            target = shared if rng.random() < .6 else os.path.join(root, "d%d" % rng.randrange(3))
            os.makedirs(target, exist_ok=True)
            path = rng.choice([target, target, os.path.relpath(target, root), target + "/"])
            if rng.random() < .1:
                target = root; path = rng.choice([".", root])
            specs = j.spec(r, g, rmneg)
            # older, larger and foreign files
            for s in specs:
                if rng.random() < .3:
                    with open(os.path.join(target, "%s.%s" % (s["file"], fmt)), "wb") as f:
                        f.write(b"old" * rng.choice([1, 30000]))
            left = []
            if rng.random() < .4:                    # a figure of the user's own is open
                figs.plt.figure(); figs.plt.plot([0, 1, 2], [5, 6, 7]); left = [1]
                mon.count("plots with a figure open")
            b4, all4 = figs.tree(target), figs.tree(root)
            opts.append((j.kind, str(pos), str(kw), os.path.relpath(path, root), fmt))
            mon.describe(opts=opts)
            with figs.Capture(write=real, dpi=10) as cap:
                mon.call("plot " + j.kind, j.plot, r, path, *pos, **kw)
            a4, all5 = figs.tree(target), figs.tree(root)
            key = j.kind
            judge(mon, key, j, cap, b4, a4, target, specs, fmt, rmneg, real)
            inside = os.path.relpath(target, root)
            out = [k for k in set(all4) | set(all5) if all4.get(k) != all5.get(k) and not (inside == "." or k.startswith(inside + os.sep))]
            mon.check(not out, key + ":elsewhere", "files written elsewhere: %s" % out)
            mon.check(len(figs.open_figures()) <= len(left), key + ":left-open", "%d figures left open" % len(figs.open_figures()))
            figs.plt.close("all")
            mon.count("plots judged " + j.kind)
            mon.count("rmneg on" if rmneg and j.clips else "rmneg off", j.clips)
    finally:
        os.chdir(cwd)
        figs.plt.close("all")
    mon.nontriv(len(jobs) > 1)
