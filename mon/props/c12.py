"""Parallel waveform fitting against serial fitting, under forced completion orders."""
import os
import numpy as np
import wf, figs, sched
from common import close

def moho(self, *a, **k):
    try:
        return "%r" % float(self.depth[-2])
    except Exception:
        return ""

def run_case(i, mon):
    from rfsed.WaveformFitting import WaveformFitting
    from rfsed import WaveformFittingMultiproc as M
    from rfsed.synrf import synrf
    rng, nr = mon.rng, mon.np
    c = wf.case(rng, nr, nmax=4 if i % 3 else 3, long=False)
    if i % 4 == 1:                                   # more depths than workers, few ratios
        c["H"] = np.linspace(25, 45, rng.choice([5, 6, 9])); c["K"] = np.array(sorted(rng.uniform(1.6, 1.95) for _ in range(2)))
        a = list(c["args"]); a[6], a[7] = c["K"], c["H"]; c["args"] = tuple(a)
        c["desc"].update(H=c["H"].tolist(), K=c["K"].tolist())
    H, K = np.asarray(c["H"], float), np.asarray(c["K"], float)
    w = wf.weights(rng)
    serial = mon.call("WaveformFitting", WaveformFitting, *c["args"], *w, mon.scratch, "png")
    stext = mon.stdout
    rows = {(r[4], r[5]): r for r in np.asarray(serial["WaveformSolutions"], float)}
    runs = []
    nprocs = rng.sample([1, 2, 3, 4, 6], 2 if mon.tier == "quick" else 3)
    if len(H) < 5 and rng.random() < .5:
        nprocs[-1] = len(H) + rng.choice([1, 2])     # more workers than tasks
    mon.describe(w=w, nprocs=nprocs, **c["desc"])
    res = par = None
    pargs = list(c["args"])
    other = rng.random() < .4                        # depths asked for are not those the parameters were made with
    if other:
        pargs[7] = rng.choice([np.linspace(22, 52, len(H) + 3), np.array(H[:-1]), np.array([30.0]), np.sort(H)[::-1] + 1.5, np.array(H[::-1])])
    mon.count("depths other than those of the parameters", other)
    for nproc in nprocs:
        mode = rng.choice(["inverted", "inverted", "random", "none"])
        step = rng.choice([0.02, 0.06])
        def delay(self, *a, **k):
            if mode == "inverted":                   # the first depths finish last
                d = moho(self)
                j = int(np.argmin(np.abs(H - float(d)))) if d else 0
                return step * (len(H) - j)
            return rng.random() * step * (os.getpid() % 5) if mode == "random" else 0
        before = sched.children()
        with sched.Sched(os.path.join(mon.scratch, "ev"), synrf, "run_fwd", delay=delay, key=moho) as s:
            par = mon.call("WaveformPara", M.WaveformPara, *pargs)
            res = mon.call("run_waveformfitting", M.run_waveformfitting, nproc, c["H"], par)
            ev = s.events()
        order = [float(k) for _, k in ev if k]
        mon.count("schedules run"); mon.count("workers seen", len({p for p, _ in ev}))
        last = {}
        for j, d in enumerate(order):
            last[d] = j
        pos = [int(np.argmin(np.abs(H - d))) for d in sorted(last, key=last.get)]
        inv = sched.inversions(pos)
        mon.count("schedules finishing out of order", inv > 0)
        runs.append((nproc, mode, pos))
        key = "parallel"
        if not mon.check(isinstance(res, list) and len(res) == len(H), key + ":lists", "%d lists for %d depths" % (len(res), len(H))):
            continue
        for j, (h, L) in enumerate(zip(H, res)):
            if not mon.check(len(L) == len(K), key + ":ratios", "%d solutions for %d ratios at depth %d" % (len(L), len(K), j)):
                continue
            for k, sol in zip(K, L):
                if not mon.check(len(sol) >= 5 and abs(sol[3] - h) < 1e-12 and abs(sol[4] - k) < 1e-12, key + ":order",
                                 "solution %s where depth %r, ratio %r is expected (nproc %d)" % (list(sol)[3:], h, k, nproc)):
                    continue
                r = rows.get((h, k))
                if r is None:
                    mon.violation(key + ":serial", "the serial fitting has no row for %r, %r" % (h, k)); continue
                mon.count("solutions compared with serial")
                mon.check(abs(sol[0] - r[0]) <= 1e-8, key + ":correlation", "%r, serial %r (nproc %d)" % (sol[0], r[0], nproc))
                mon.check(abs(sol[1] - r[1]) <= 1e-8 * (abs(r[1]) + np.max(np.abs(c["mean"]))), key + ":rmse", "%r, serial %r" % (sol[1], r[1]))
                ok = abs(sol[2] - r[2]) <= 1e-6
                if not ok:                           # signs of samples that are zero up to rounding
                    _, _, lo, hi = wf.scores(c["mean"], h, k, c["par"], c["delta"], c["pre"])
                    ok = lo - 1e-5 <= sol[2] <= hi + 1e-5
                mon.check(ok, key + ":phase", "%r, serial %r" % (sol[2], r[2]))
    mon.describe(runs=[(a, b) for a, b, _ in runs])
    if res is not None and i % 2 == 0 and all(len(L) == len(K) for L in res) and len(res) == len(H):
        with figs.Capture(write=False, artists=False) as cap:
            mon.call("plotbestmodel", M.plotbestmodel, res, par, w[0], w[1], w[2], mon.scratch, "png")
        figs.plt.close("all")
        text = mon.stdout
        sol = np.zeros((len(H) * len(K), 6))
        flat = np.array([list(x)[:5] for L in res for x in L], float)
        sol[:, :3], sol[:, 4:] = flat[:, :3], flat[:, 3:5]
        sol[:, 3] = wf.gof(sol, w)
        wf.check_report(mon, "plotbestmodel", text, sol, w)
        ser = np.asarray(serial["WaveformSolutions"], float)
        a, b = wf.report(text), wf.report(stext)
        for name, col, sgn in wf.CRIT:
            v = np.sort(sgn * ser[:, col])[::-1]
            clear = len(v) < 2 or v[0] - v[1] > 1e-6 * (abs(v[0]) + 1e-300)
            if clear and np.max(np.abs(ser[:, 2] - sol[np.lexsort((sol[:, 5], sol[:, 4])), 2][np.argsort(np.lexsort((ser[:, 5], ser[:, 4])))])) < 1e-6:
                mon.count("reports compared with serial")
                mon.check(a.get(name) == b.get(name), "plotbestmodel:as-serial", "%s: %s, serial %s" % (name, a.get(name), b.get(name)))
        got = [s for _, s in [(x, y) for f in cap.saved for x, y in f["surfaces"]] if len(s) >= 3]
        if len(got) == 4:
            for col, s in enumerate(got):
                m = {(round(x, 9), round(y, 9)): z for x, y, z in zip(s[0], s[1], s[2])}
                want = np.array([m.get((round(x, 9), round(y, 9)), np.nan) for x, y in sol[:, 4:6]])
                mon.count("fit surfaces compared")
                mon.check(close(want, sol[:, col], 1e-8 * (1 + np.max(np.abs(sol[:, col])))), "plotbestmodel:surface", "drawn criterion %d is not the one computed" % col)
    mon.nontriv(len(H) > 1 and any(inv for inv in [sched.inversions(p) for _, _, p in runs]))
