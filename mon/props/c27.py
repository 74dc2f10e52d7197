"""What figures shade, highlight and leave in view."""
import os
import numpy as np
from matplotlib.path import Path
import calls, figs, gen

KINDS = ["hk", "hkSeq", "hkYu", "hkSynth", "hkSeq", "hkSeqSynth", "hk", "hkSeq", "hk"]

def directions(rng, nr):
    """Two streams on one time axis, from few, near, far and northern directions."""
    pre, n, rate = rng.choice([2, 5, 10]), rng.choice([301, 400]), rng.choice([10.0, 20.0, 12.5])
    out = []
    for _ in range(2):
        st, _ = gen.stream(rng, nr, ntr=rng.choice([1, 2, 3, 5]), n=n, rate=rate, preonset=pre, scale=1.0, slow=rng.choice([(4.0, 8.8), (4.0, 4.4), (8.2, 8.8)]))
        b0 = rng.choice([0, 20, 90, 180, 350])
        for tr in st:
            tr.stats.back_azimuth = (b0 + rng.uniform(-15, 15)) % 360 if rng.random() < .7 else rng.uniform(0, 360)
            tr.stats.distance = rng.choice([30.0, 31.0, 60.0, 95.0, 100.0]) if rng.random() < .5 else rng.uniform(30, 100)
        out.append((st, pre))
    return out

def extreme(rng, job):
    """The thinnest or thickest models of the range."""
    for h, k in (("H", "K"), ("HSed", "KSed"), ("HMoho", "KMoho"), ("HSubSed", "KSubSed")):
        if h in job.names and rng.random() < .5:
            i, j = job.names.index(h), job.names.index(k)
            thin = max(job.args[i]) < 12
            H = rng.choice([[7., 8.5, 10.], [.1, .2, .3], [.3, 8.]] if thin else [[60., 65., 70.], [15., 16.], [70., 18., 40.]])
            K = rng.choice([[3., 3.2], [1.4, 1.5]] if thin else [[2.0, 2.1], [1.5, 1.55]])
            job.args[i][:], job.args[j][:] = np.resize(np.linspace(H[0], H[-1], len(job.args[i])), len(job.args[i])), np.linspace(K[0], K[-1], len(job.args[j]))

def colour(rgb):
    """red, blue, green or something else."""
    if rgb is None:
        return None
    r, g, b = rgb
    if r > g + .3 and r > b + .3:
        return "red"
    if b > g + .3 and b > r + .3:
        return "blue"
    return "green" if g > r + .1 and g > b + .1 else "other"

def covered(parts, pts):
    """Which points lie in one of the polygons."""
    out = np.zeros(len(pts), bool)
    for v in parts:
        if len(v) < 3:
            continue
        k = ~out & (pts[:, 0] >= v[:, 0].min()) & (pts[:, 0] <= v[:, 0].max())
        if k.any():
            out[k] = Path(v).contains_points(pts[k])
    return out

def find(f, p, skip):
    for ai, ax in enumerate(f["axes"]):
        if ai == skip:
            continue
        if all(any(len(l["x"]) == len(x) and np.allclose(l["x"], x, rtol=0, atol=2e-4) and np.allclose(l["y"], y, rtol=0, atol=1e-6 * (np.max(np.abs(y)) + 1e-300)) for l in ax["lines"]) for x, y, _ in p["curves"]):
            return ax
    return None

def judge_shades(mon, key, name, ax, p, bases, rng):
    """Red between sample and baseline where positive, blue where negative, nothing elsewhere."""
    parts = {"red": [], "blue": []}
    for rgb, vs, _ in ax["polys"]:
        c = colour(rgb)
        if mon.check(c in parts, key + ":colour", "%s: an area is filled with %s" % (name, rgb)):
            parts[c] += vs
    spans = []
    for (t, y, _), base in zip(p["curves"], bases):
        a = y - base
        spans.append((t, np.minimum(0, a) + base, np.maximum(0, a) + base))
    for k, ((t, y, _), base) in enumerate(zip(p["curves"], bases)):
        a = y - base
        eps = 1e-5 * np.max(np.abs(a)) + 1e-10 * (1 + abs(base))
        for sgn, want, other in ((1, "red", "blue"), (-1, "blue", "red")):
            idx = np.nonzero((sgn * a[:-1] > 2 * eps) & (sgn * a[1:] > 2 * eps))[0]
            if not len(idx):
                continue
            idx = np.array(sorted(rng.sample(list(idx), min(len(idx), 25))))
            tm = (t[idx] + t[idx + 1]) / 2
            am = (a[idx] + a[idx + 1]) / 2
            ins = np.stack([tm, base + .5 * am], axis=1)
            out = np.stack([tm, base - .5 * am], axis=1)
            inside = covered(parts[want], ins)
            mon.count("shaded points judged", len(ins))
            mon.check(bool(inside.all()), key + ":unshaded", "%s: %d of %d points %s the baseline %.2f are not %s, e.g. t = %.3f" % (
                name, int((~inside).sum()), len(ins), "above" if sgn > 0 else "below", base, want, tm[np.argmin(inside)]))
            for pts, cols in ((ins, (other,)), (out, ("red", "blue"))):
                # where no other trace may lie
                free = np.ones(len(pts), bool)
                for j, (tj, lo, hi) in enumerate(spans):
                    if j != k:
                        w = 2 * (tj[1] - tj[0]) if len(tj) > 1 else 1
                        for q in np.nonzero(free)[0]:
                            m = np.abs(tj - pts[q, 0]) <= w
                            if m.any() and lo[m].min() - 1e-6 <= pts[q, 1] <= hi[m].max() + 1e-6:
                                free[q] = False
                if free.any():
                    for c in cols:
                        bad = covered(parts[c], pts[free])
                        mon.count("unshaded points judged", int(free.sum()))
                        mon.check(not bad.any(), key + ":shaded", "%s: %d points on the wrong side of the baseline %.2f are %s, e.g. t = %.3f" % (name, int(bad.sum()), base, c, pts[free][np.argmax(bad)][0]))

def judge_bands(mon, key, name, ax, p, half, need):
    got = sorted((a, b) for a, b, rgb in ax["bands"])
    if not got and not need:
        return
    mon.count("highlighted windows judged", len(got))
    times = [m[0] for m in p["marks"]]
    sets = [sorted(times[k:k + 3]) for k in range(0, len(times), 3)]
    ok = any(len(s) == len(got) and all(abs(a - (x - half)) < 1e-6 and abs(b - (x + half)) < 1e-6 for (a, b), x in zip(got, s)) for s in sets)
    mon.check(ok, key + ":bands", "%s: windows %s highlighted, predicted arrivals %s +- %.1f s" % (name, [(round(a, 3), round(b, 3)) for a, b in got], [[round(x, 3) for x in s] for s in sets[:3]], half))
    mon.check(all(colour(rgb) == "green" for _, _, rgb in ax["bands"]), key + ":band-colour", "%s: windows highlighted in %s" % (name, [b[2] for b in ax["bands"]]))

def covers(lim, lo, hi, most):
    a, b = sorted(lim)
    return a <= lo + 1e-9 and b >= hi - 1e-9 and b - a <= most

def judge_figure(mon, key, job, f, s, sed, stacked, rng, rmneg):
    name = s["file"]
    s3 = [(i, x) for i, x in f["surfaces"] if len(x) >= 3]
    if not mon.check(len(s3) == 1 and s3[0][0] >= 0, key + ":surface", "%s shows %d surfaces" % (name, len(s3))):
        return
    ai, _ = s3[0]
    ax = f["axes"][ai]
    g = np.array(s["surface"], float)
    for lab, lim, col in (("depths", ax["xlim"], g[:, 0]), ("Vp/Vs", ax["ylim"], g[:, 1])):
        a, b = sorted(lim)
        mon.count("surface limits judged")
        mon.check(abs(a - col.min()) < 1e-6 and abs(b - col.max()) < 1e-6, key + ":grid-limits", "%s shows %s from %.4f to %.4f; the grid spans %.4f to %.4f" % (name, lab, a, b, col.min(), col.max()))
    # colour scale
    z = np.where(g[:, 2] <= 0, 0, g[:, 2]) if rmneg else g[:, 2]
    lo, hi = float(z.min()), float(z.max())
    panels = [find(f, p, ai) for p in s["panels"]]
    if hi - lo > 1e-9 * abs(hi) + 1e-250:
        rest = [a for i, a in enumerate(f["axes"]) if i != ai and not any(a is q for q in panels)]
        w = hi - lo
        ok = any(min(l) <= lo + .03 * w and max(l) >= hi - .03 * w and max(l) - min(l) <= 1.3 * w for a in rest for l in (a["ylim"], a["xlim"]))
        mon.count("colour scales judged")
        mon.check(ok, key + ":colour-scale", "%s: no colour scale covers %g..%g: %s" % (name, lo, hi, [(a["xlim"], a["ylim"]) for a in rest]))
    for k, (p, pax) in enumerate(zip(s["panels"], panels)):
        if pax is None:
            if not s.get("tied"):
                mon.check(False, key + ":curves", "%s: panel %d does not show the expected curves" % (name, k))
            continue
        mon.count("panels judged")
        if s.get("note"):                            # waveform fitting
            if k == 0:
                mon.check(covers(pax["xlim"], -5, 25, 31), key + ":time-limits", "%s shows %s s" % (name, pax["xlim"]))
                t, y, _ = p["curves"][0]
                amp = max(float(np.max(np.abs(y))), float(np.max(np.abs(p["curves"][1][1]))))
                if mon.check(len(pax["polys"]) == 1 and len(pax["polys"][0][1]) == 1, key + ":band", "%s: %d filled areas, one band is documented" % (name, len(pax["polys"]))):
                    v = pax["polys"][0][1][0]
                    good = True; hs = []
                    for q in range(0, len(t), max(1, len(t) // 40)):
                        col = v[np.abs(v[:, 0] - t[q]) < 1e-6 + 1e-3 * (t[1] - t[0])][:, 1]
                        if len(col) < 2 or abs(col.max() + col.min() - 2 * y[q]) > 1e-6 * amp:
                            good = False
                        else:
                            hs.append(col.max() - col.min())
                    mon.count("uncertainty bands judged")
                    mon.check(good and (np.std(y) < 1e-9 * amp or min(hs) > 0), key + ":band", "%s: the band is not centred on the stacked RF" % name)
                (y0, y1) = sorted(pax["ylim"])
                vis = [y[(t >= -5) & (t <= 25)]] + [c[1][(c[0] >= -5) & (c[0] <= 25)] for c in p["curves"][1:]]
                mon.check(all(y0 <= v.min() + 1e-6 * amp and y1 >= v.max() - 1e-6 * amp for v in vis), key + ":amplitudes", "%s cuts the RFs at %s" % (name, pax["ylim"]))
            else:
                y0, y1 = pax["ylim"]
                mon.check(y0 > y1 and covers((y0, y1), 0, 50, 80) and covers(pax["xlim"], 1.5, 8.1, 15), key + ":velocity-limits", "%s shows %s km/s, %s km" % (name, pax["xlim"], pax["ylim"]))
            continue
        t0, t1 = (-1, 10) if sed else (-5, 30)
        mon.check(abs(min(pax["xlim"]) - t0) < 1e-6 and abs(max(pax["xlim"]) - t1) < 1e-6 and pax["xlim"][0] < pax["xlim"][1], key + ":time-limits", "%s, panel %d shows %s s; %d to %d s are documented for the layer" % (name, k, pax["xlim"], t0, t1))
        dist = not stacked and k == 1
        lo, hi = (30, 100) if dist else (0, 360)
        mon.check(covers(pax["ylim"], lo, hi, 140 if dist else 500) and pax["ylim"][0] < pax["ylim"][1], key + ":range", "%s, panel %d shows %s, not all of %d to %d degrees" % (name, k, pax["ylim"], lo, hi))
        bases = [(m[1] + m[2]) / 2 for m in p["marks"][::3]]
        judge_shades(mon, key, name, pax, p, bases, rng)
        judge_bands(mon, key, name, pax, p, 0.1 if sed else 0.5, job.kind in ("hk", "hkSynth") or job.kind == "hkSeq" and not stacked)

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    kind = rng.choice(["wf", "wfmp"]) if i % 20 in (5, 14) else KINDS[(i + i // 8) % len(KINDS)]
    job = calls.make(rng, nr, kind, directions(rng, nr) if kind in ("hk", "hkSeq") and rng.random() < .7 else None)
    if kind not in ("wf", "wfmp") and all(a.dtype.kind == "f" for a in job.args if isinstance(a, np.ndarray)):
        extreme(rng, job)
    a = dict(zip(job.names, job.args))
    mon.describe(kind=kind, job=job.desc, case=i)
    r = job.run(mon)
    figs.plt.close("all")
    rm = rng.choice([True, False])
    gains = rng.choice([[75., 10., 15., 2.5], [round(rng.uniform(1, 200), 2), round(rng.uniform(1, 30), 2), round(rng.uniform(1, 40), 2), round(rng.uniform(.5, 8), 2)]])
    specs = job.spec(r, gains, rm and job.clips)
    fmt = rng.choice(["png", "jpg", "pdf"])
    if rng.random() < .3:
        figs.plt.figure(); figs.plt.plot([0, 1], [1, 0]); figs.plt.axvspan(0, 1); mon.count("plots with a figure open")
    with figs.Capture(write=False, shades=True) as cap:
        if job.clips:
            mon.call("plot " + kind, job.plot, r, mon.newdir(), gains, rm, fmt)
        else:
            mon.call("plot " + kind, job.plot, r, mon.newdir(), fmt)
    figs.plt.close("all")
    stacked = bool(a.get("stack")) if kind in ("hk", "hkSeq") else True
    for s in specs:
        f = [f for f in cap.saved if os.path.basename(str(f["path"])).rsplit(".", 1)[0] == s["file"]]
        if mon.check(len(f) == 1, kind + ":file", "%d figures saved as %s" % (len(f), s["file"])):
            sed = s["file"].endswith(("_Sed", "_Sediment"))
            judge_figure(mon, kind, job, f[0], s, sed, stacked, rng, rm and job.clips)
            mon.count("figures judged")
    mon.count("judged " + kind)
    mon.nontriv()
