"""Waveform fitting: random cases and scores computed independently of the fitting functions."""
import re
import numpy as np
import gen

def brocher_vs(v):
    return np.polyval([0.0064, -0.1238, 0.7949, -1.2344, 0.7858], v)

def nafe_drake(v):
    return np.polyval([0.000106, -0.0043, 0.0671, -0.4721, 1.6612, 0.0], v)

def synth(H, K, par, delta, n, preonset):
    from rfsed.synrf import synrf
    s = synrf(np.array([par["HSed"], H, 77.5]), np.array([par["VpSed"], par["VpCrust"], 8.045]),
              np.array([brocher_vs(par["VpSed"]), par["VpCrust"] / K, 4.49]),
              np.array([nafe_drake(par["VpSed"]), nafe_drake(par["VpCrust"]), 3.299]),
              par["rayp"], dt=delta, npts=n, ipha=1)
    s.run_fwd()
    s.filter(freqmin=0.05, freqmax=1.25, order=2, zerophase=True)
    return np.array(s.run_deconvolution(pre_filt=[0.05, 1.25], preonset=preonset, gaussian=par["gaussian"])[0].data)

def scores(data, H, K, par, delta, preonset):
    """(correlation, rms error, lowest and highest phase fit) over 0..25 s after P.

    The phase fit looks only at signs, so where the synthetic is zero up to rounding any sign is
    right: the bounds then come from redrawing those signs."""
    from obspy.signal.tf_misfit import pg
    n = len(data)
    s = synth(H, K, par, delta, n, preonset)
    i0 = int(np.argmin(np.abs(np.arange(n) * delta - preonset)))
    w = slice(i0, i0 + int(25 / delta + 1e-9))
    a, b = np.asarray(data[w], float), s[w]
    ac, bc = a - a.mean(), b - b.mean()
    cc = float(np.sum(ac * bc) / np.sqrt(np.sum(ac ** 2) * np.sum(bc ** 2)))
    rms = float(np.sqrt(np.mean((a - b) ** 2)))
    def phase(x, y):
        return float(pg(x, y, dt=delta, fmin=.5, fmax=10, nf=100, w0=6, st2_isref=True, a=10., k=1.))
    sa, sb = np.sign(a), np.sign(b)
    unsure_a = (np.abs(a) < 1e-13 * np.max(np.abs(a))) & (a != 0)
    unsure_b = np.abs(b) < 1e-9 * np.max(np.abs(s))
    ps = [phase(sa, sb)]
    if np.any(unsure_a) or np.any(unsure_b):
        r = np.random.RandomState(len(data))
        for _ in range(8):
            ya, yb = sa.copy(), sb.copy()
            yb[unsure_b] = r.choice([-1.0, 1.0], int(unsure_b.sum()))
            ya[unsure_a] = r.choice([-1.0, 1.0], int(unsure_a.sum()))
            ps.append(phase(ya, yb))
    d = 2 * (max(ps) - min(ps))
    return cc, rms, min(ps) - d, max(ps) + d

def case(rng, nr, nmax=3, self_fit=False, long=False):
    rate = rng.choice([10.0, 10.0, 12.5, 8.0] + ([20.0, 40.0] if long else []))
    delta = 1 / rate
    pre = rng.choice([0, 2, 3, 5, 5, 7, 10, 10, 3.33])
    n = int((pre + 25 + rng.choice([0.5, 2, 8, 15])) * rate) + rng.choice([1, 2])
    par = dict(HSed=round(rng.uniform(0.4, 3.5), 2), VpSed=round(rng.uniform(1.9, 3.9), 2), VpCrust=round(rng.uniform(6, 7), 2),
               rayp=round(rng.uniform(0.04, 0.075), 4), gaussian=rng.choice([1.0, 1.25, 2.0, 2.5]))
    H = gen.grid(rng, 20, 55, 2, nmax); K = gen.grid(rng, 1.6, 1.95, 2, nmax)
    truth = None
    comps = rng.choice([["BHR"], ["BHR"], ["HHR"], ["BHR", "BHT"], ["BHT", "BHR"], ["BHR", "BHT", "BHZ"]])
    nR = 1 if self_fit and rng.random() < .5 else rng.choice([1, 2, 3, 4, 4, 11])
    if self_fit:
        truth = (float(rng.choice(list(H))), float(rng.choice(list(K))))
        base = synth(truth[0], truth[1], par, delta, n, abs(-pre))
        noise = [nr.randn(n) * 0.05 for _ in range(nR)]
        m = np.mean(noise, axis=0)
        datas = [base + x - m for x in noise]
    else:
        kind = rng.choice(["noise", "pulses", "near", "anti"])
        scale = rng.choice([1.0, 1.0, 0.02, 30])
        if kind in ("near", "anti"):
            b = synth(rng.uniform(25, 50), rng.uniform(1.65, 1.9), par, delta, n, abs(-pre))
            b = -b if kind == "anti" else b           # all models anti-correlated with the data
            datas = [scale * (b + 0.1 * np.max(np.abs(b)) * gen.smooth(nr.randn(n), 5)) for _ in range(nR)]
        else:
            datas = [scale * gen.rfdata(rng, nr, n, delta, pre, kind) for _ in range(nR)]
    trs = []
    rad = [c for c in comps if c.endswith("R")][0]
    locs = rng.choice([[""], ["", "01"], ["00", "10"]])
    net, sta = rng.choice(gen.NETS), rng.choice(gen.STAS)
    from obspy import UTCDateTime as UTC
    from rf.rfstream import RFStream
    mixed = rng.random() < .25                # the station's sensor was replaced
    for k in range(nR):
        band = rng.choice(["BH", "HH"]) if mixed else None
        for c in comps:
            c0, c = c, band + c[-1] if band else c
            d = datas[k] if c0 == rad else nr.randn(n) * 3
            trs.append(gen.make_trace(np.array(d), delta, pre, rng.uniform(4.5, 8), rng.uniform(0, 360), rng.uniform(30, 95),
                                      net, sta, rng.choice(locs), c, UTC(2016, 1, 1) + 7000 * k))
    st = RFStream(traces=trs)
    desc = dict(rate=rate, pre=pre, n=n, par=par, H=[float(x) for x in H], K=[float(x) for x in K], comps=comps, nR=nR, truth=truth, mixed=mixed)
    return dict(st=st, delta=delta, pre=pre, n=n, par=par, H=H, K=K, truth=truth, mean=np.mean(datas, axis=0), desc=desc,
                args=(st, pre, par["HSed"], par["VpSed"], par["VpCrust"], par["rayp"], K, H, par["gaussian"]))

def weights(rng):
    k = rng.random()
    if k < .4:
        return (0.4, 0.4, 0.2)
    if k < .5:
        return (0, 1, 0)
    a, b = sorted([rng.random(), rng.random()])
    return (round(a, 3), round(b - a, 3), round(1 - b, 3))

def gof(cols, w):
    c, r, p = cols[:, 0], cols[:, 1], cols[:, 2]
    return w[0] * c / np.max(c) + w[1] * (1 - r / np.max(r)) + w[2] * p / np.max(p)

CRIT = [("Correlation", 0, 1), ("RMSE", 1, -1), ("PG", 2, 1), ("Goodness", 3, 1)]

def report(text):
    """The four reported best models, {criterion: (H, K)}."""
    out = {}
    for line in text.splitlines():
        if "Moho at" not in line:
            continue
        head, tail = line.split("Moho at", 1)
        nums = re.findall(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", tail)
        for name, _, _ in CRIT:
            if name in head and len(nums) >= 2:
                out.setdefault(name, []).append((float(nums[0]), float(nums[1])))
    return out

def check_report(mon, key, text, sol, w):
    """The printed best models are optimal rows of the solutions."""
    rep = report(text)
    for name, col, sgn in CRIT:
        if not mon.check(len(rep.get(name, [])) == 1, key + ":report-" + name, "%d lines report the best model by %s" % (len(rep.get(name, [])), name)):
            continue
        H, K = rep[name][0]
        v = sgn * sol[:, col]
        tol = 1e-9 * (np.max(np.abs(v)) + 1e-300)
        best = sol[v >= np.max(v) - tol]
        ok = np.any((np.abs(best[:, 4] - H) <= 0.0051) & (np.abs(best[:, 5] - K) <= 0.0051))
        mon.count("best models compared")
        mon.check(ok, key + ":best-" + name, "best by %s reported as %.2f, %.2f; it is %s" % (name, H, K, best[:, 4:6].tolist()))
