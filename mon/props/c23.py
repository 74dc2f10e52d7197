"""The synthetic RF chain: band pass of both components, deconvolution per ray parameter, headers."""
import numpy as np
import gen
from common import close, maxdiff
from props.c10 import build, arrays, make

def bandpass(x, f1, f2, rate, order, zero):
    """Butterworth band pass from its definition: causal recursion, and again backwards if zero phase."""
    from scipy.signal import butter
    b, a = None, None
    sos = butter(order, [f1 / (rate / 2), f2 / (rate / 2)], btype="band", output="sos")
    def run(v):
        v = np.array(v, float)
        for b0, b1, b2, _, a1, a2 in sos:
            out = np.empty_like(v); z1 = z2 = 0.0
            for k, s in enumerate(v.tolist()):
                y = b0 * s + z1
                z1, z2 = b1 * s - a1 * y + z2, b2 * s - a2 * y
                out[k] = y
            v = out
        return v
    y = run(x)
    return run(y[::-1])[::-1] if zero else y

def same(got, want, rel):
    return len(got) == len(want) and all(close(g, w, rel * (np.max(np.abs(w)) + 1e-300)) for g, w in zip(got, want))

def value(h, k):
    v = h.get(k) if hasattr(h, "get") else None
    return v

def run_case(i, mon):
    from rfsed import synrf as S
    rng, nr = mon.rng, mon.np
    mdl, _ = build(rng)
    dt = rng.choice([0.1, 0.05, 0.08, 0.1, 0.025]); rate = 1 / dt
    n = rng.choice([200, 256, 300, 401, 512])
    ps = [round(rng.uniform(0.035, 0.075), 4) for _ in range(rng.choice([1, 2, 3, 4]))]
    if len(ps) > 2 and rng.random() < .4:
        ps[-1] = ps[0]
    rng.shuffle(ps)
    kind = rng.choice(["list", "array"]) if len(ps) > 1 else rng.choice(["float", "list", "array"])
    ipha = rng.choice([1, 1, 1, -1])
    rp = ps[0] if kind == "float" else ps if kind == "list" else np.array(ps)
    what = ["filter", "default", "chain", "chain", "twice"][i % 5]
    s = mon.call("synrf", S.synrf, mdl[0], mdl[1], mdl[2], mdl[3], rp, dt=dt, npts=n, ipha=ipha)
    mon.call("run_fwd", s.run_fwd)
    R, Z = arrays(s.rstream), arrays(s.zstream)
    d = dict(what=what, depth=mdl[0].tolist(), vp=mdl[1].tolist(), dt=dt, n=n, ps=ps, kind=kind, ipha=ipha)
    mon.check(len(R) == len(ps) == len(Z), "fwd:count", "%d radial and %d vertical seismograms for %d ray parameters" % (len(R), len(Z), len(ps)))
    for tr in list(s.rstream) + list(s.zstream):
        mon.check(len(tr.data) == n and abs(tr.stats.delta - dt) < 1e-9, "fwd:shape", "seismogram of %d samples at %r s" % (len(tr.data), tr.stats.delta))
    if what in ("filter", "twice"):
        for rep in range(1 + (what == "twice")):
            f1, f2 = round(rng.uniform(0.02, 0.4), 3), round(rng.uniform(0.6, min(4.0, 0.45 * rate)), 3)
            order, zero = rng.choice([1, 2, 3, 4]), rng.choice([True, False])
            form = rng.choice(["all", "default", "positional", "names"])
            if form == "default": order, zero = 2, True
            a, k = {"all": ([f1, f2], dict(order=order, zerophase=zero)), "default": ([f1, f2], {}), "positional": ([f1, f2, order, zero], {}),
                    "names": ([], dict(freqmax=f2, zerophase=zero, order=order, freqmin=f1))}[form]
            d.setdefault("filters", []).append((f1, f2, order, zero, form)); mon.describe(**d)
            mon.call("filter", s.filter, *a, **k)
            wr = [bandpass(x, f1, f2, rate, order, zero) for x in R]; wz = [bandpass(x, f1, f2, rate, order, zero) for x in Z]
            gr, gz = arrays(s.rstream), arrays(s.zstream)
            mon.check(same(gr, wr, 1e-7), "filter:radial", "radial seismograms after filter(%s): differ by %s" % (d["filters"][-1], [maxdiff(x, y) for x, y in zip(gr, wr)]))
            mon.check(same(gz, wz, 1e-7), "filter:vertical", "vertical seismograms after filter(%s) differ by %s" % (d["filters"][-1], [maxdiff(x, y) for x, y in zip(gz, wz)]))
            mon.count("filtered seismograms compared", 2 * len(R)); mon.count("zero phase" if zero else "causal")
            R, Z = gr, gz
        mon.nontriv()
        if what == "filter":
            return
    # the chain
    f1, f2 = round(rng.uniform(0.02, 0.3), 3), round(rng.uniform(0.8, min(3.0, 0.4 * rate)), 3)
    pf = rng.choice([[f1, f2], (f1, f2), [f1, f2], None, [f1, f2, 3], [f1, f2, 2, False]])
    method = rng.choice(["iter", "iter", "water"])
    a = rng.choice([1.0, 1.25, 2.5, 3.0]); pre = rng.choice([0, 2, 5, 12, 3.3, 4.25])
    opt = {} if method == "iter" else {"method": rng.choice(["water", "Water"])}
    if method == "iter":
        if rng.random() < .3: opt["method"] = rng.choice(["iter", "ITER"])
        if rng.random() < .5: opt["itmax"] = rng.choice([1, 3, 10, 60])
        if rng.random() < .5: opt["minderr"] = rng.choice([0.1, 0.01, 0.001, 1e-4])
        if rng.random() < .3: opt["phase"] = rng.choice(["P", "S"])
    else:
        if rng.random() < .6: opt["wlevel"] = rng.choice([0.5, 0.1, 0.01, 0.001])
        if rng.random() < .5: opt["normalize"] = rng.choice([True, False])
    if what == "default":
        args, eff = {}, dict(pf=[0.05, 2], pre=10, a=2.0)
        if rng.random() < .5: args["pre_filt"] = pf; eff["pf"] = pf
        if rng.random() < .4: args["preonset"] = pre; eff["pre"] = pre
        if rng.random() < .4: args["gaussian"] = a; eff["a"] = a
        if rng.random() < .5: opt = {}; method = "iter"
        if rng.random() < .3: args = dict(); eff = dict(pf=[0.05, 2], pre=10, a=2.0)
        mon.count("default options used", 3 - len(args))
    else:
        args, eff = dict(pre_filt=pf, preonset=pre, gaussian=a), dict(pf=pf, pre=pre, a=a)
    d.update(eff=str(eff), opt=opt); mon.describe(**d)
    pfkeep = list(pf) if pf is not None else None
    rfs = mon.call("run_deconvolution", s.run_deconvolution, **dict(args, **opt))
    mon.check((list(pf) if pf is not None else None) == pfkeep, "chain:argument", "pre_filt became %r" % (pf,))
    q = eff["pf"]
    if q is None:
        r, z = R, Z
    else:
        g = (list(q) + [2, True])[:4] if len(q) == 2 else (list(q) + [True])[:4]
        r, z = [bandpass(x, g[0], g[1], rate, g[2], g[3]) for x in R], [bandpass(x, g[0], g[1], rate, g[2], g[3]) for x in Z]
    if not mon.check(len(rfs) == len(ps), "chain:count", "%d RFs for %d ray parameters" % (len(rfs), len(ps))):
        return
    sub = {k: v for k, v in opt.items() if k != "method"}
    for k, tr in enumerate(rfs):
        fn = S.deconv_iterative if method == "iter" else S.deconv_waterlevel
        want = fn(r[k], z[k], float(tr.stats.delta), preonset=eff["pre"], gaussian=eff["a"], **sub)
        sc = np.max(np.abs(want[0])) + 1e-300
        h = tr.stats
        mon.check(len(tr.data) == n and abs(h.delta - dt) < 1e-9, "chain:shape", "RF of %d samples at %r s" % (len(tr.data), h.delta))
        if method == "iter":
            # the choice of spikes may turn on rounding: then the misfit tells
            ok = close(tr.data, want[0], 1e-5 * sc)
            if not ok:
                got = float(np.atleast_1d(h.get("rms", np.nan))[-1])
                ok2 = abs(got - float(want[1][-1])) <= 2e-3 * max(float(want[1][-1]), 1e-3) and np.corrcoef(tr.data, want[0])[0, 1] > 0.9995
                mon.count("RFs equal up to the choice of spikes", ok2); ok = ok2
            else:
                mon.check(int(value(h, "iter")) == int(want[2]) and close(np.atleast_1d(value(h, "rms")), want[1], 1e-5), "chain:report", "header says %r iterations, rms %s; the deconvolution made %d" %
                          (value(h, "iter"), np.atleast_1d(value(h, "rms"))[-3:], want[2]))
                mon.count("headers compared")
        else:
            ok = close(tr.data, want[0], 1e-5 * sc)
            mon.check(abs(complex(value(h, "rms")) - complex(want[1])) < 1e-5 * max(1, abs(want[1])), "chain:report", "header rms %r, misfit %r" % (value(h, "rms"), want[1]))
            mon.count("headers compared")
        mon.check(ok, "chain:rf-" + method, "RF of ray parameter %g is not the deconvolution of its filtered seismograms (%s of %g)" % (ps[k], maxdiff(tr.data, want[0]), sc))
        mon.check(float(h.get("preonset", -1)) == eff["pre"] and float(h.get("gaussian", -1)) == eff["a"] and all(h.get(x) == v for x, v in sub.items()), "chain:header",
                  "header holds preonset %r, gaussian %r, %s" % (h.get("preonset"), h.get("gaussian"), {x: h.get(x) for x in sub}))
        mon.count("RFs compared with the chain")
    mon.check(same(arrays(s.rstream), R, 0) and same(arrays(s.zstream), Z, 0), "chain:stored", "run_deconvolution changed the stored seismograms")
    mon.nontriv()
