"""Synthetic RFs: phases of a one-layer crust where layered-earth times put them; repeatable requests."""
import numpy as np
import gen, ref
from common import close, maxdiff
from props.c08 import npow2

def build(rng, nl=None):
    nl = nl or rng.choice([1, 1, 2, 3])
    if nl == 1:
        H, Vp, K = rng.uniform(26, 50), rng.uniform(5.9, 6.8), rng.uniform(1.66, 1.9)
        return (np.array([H, 77.5]), np.array([Vp, 8.045]), np.array([Vp / K, 4.49]), np.array([2.8, 3.3])), (H, Vp, K)
    th = [rng.uniform(0.5, 4)] + [rng.uniform(8, 25) for _ in range(nl - 1)] + [30]
    vp = [rng.uniform(2.2, 4)] + sorted(rng.uniform(5.5, 7.2) for _ in range(nl - 1)) + [8.045]
    vs = [vp[0] / rng.uniform(1.8, 2.4)] + [v / rng.uniform(1.68, 1.85) for v in vp[1:-1]] + [4.49]
    return (np.cumsum(th), np.array(vp), np.array(vs), np.array([2.2] + [2.8] * (nl - 1) + [3.3])), None

def phases(mon, rf, dt, pre, H, Vp, K, p, width, key, maxlag):
    t = np.arange(len(rf)) * dt - pre
    j = int(np.argmax(rf))
    if not mon.check(abs(t[j]) <= 1.5 * dt + 1e-9, key + ":P", "direct P at %+.3f s from preonset" % t[j]):
        return
    P = rf[j]
    base = np.median(rf)
    for name, tt, sign, rel in zip(("Ps", "PpPs", "PsPs+PpSs"), [float(x[0, 0]) for x in ref.phases_one([H], [K], Vp, p)], (1, 1, -1), (0.04, 0.02, 0.02)):
        if tt + 1 > min(t[-1], maxlag):         # beyond the record or the lags the method searches
            mon.count("phases beyond the searched lags")
            continue
        near = np.abs(t - tt) <= 0.5
        y = sign * (rf[near] - base)
        k = int(np.argmax(y)); off = t[near][k] - tt
        mon.count("phases located")
        mon.check(y[k] > rel * P, key + ":" + name + "-sign", "%s expected at %.2f s with sign %+d, amplitude there %.3f of P" % (name, tt, sign, sign * y[k] / P))
        mon.check(abs(off) <= max(1.5 * dt, 0.1 * width) + 0.05, key + ":" + name + "-time", "%s at %.3f s, expected %.3f s" % (name, tt + off, tt))

def make(S, mdl, rayp, dt, n):
    return S.synrf(mdl[0], mdl[1], mdl[2], mdl[3], rayp, dt=dt, npts=n, ipha=1)

def arrays(st):
    return [np.array(t.data) for t in st]

def run_case(i, mon):
    from rfsed import synrf as S
    rng, nr = mon.rng, mon.np
    if i % 2 == 0:
        mdl, one = build(rng, 1)
        dt = rng.choice([0.05, 0.0625, 0.1, 0.08]); n = int(rng.choice([51.2, 60, 75]) / dt)
        pre = rng.choice([0, 2, 5, 10, 10, 3.3])
        method = rng.choice(["iter", "iter", "water"])
        ps = [round(rng.uniform(0.045, 0.075), 4) for _ in range(rng.choice([1, 1, 2, 3]))]
        a = rng.choice([2.0, 2.5, 3.0])
        pf = rng.choice([[0.05, 2.0], [0.03, 2.5], None])
        mon.describe(H=one[0], Vp=one[1], K=one[2], dt=dt, n=n, pre=pre, method=method, ps=ps, a=a, pre_filt=pf)
        kind = rng.choice(["list", "array"]) if len(ps) > 1 else rng.choice(["float", "list", "array"])
        s = make(S, mdl, ps[0] if kind == "float" else ps if kind == "list" else np.array(ps), dt, n)
        mon.call("run_fwd", s.run_fwd)
        kw = {} if method == "iter" else {"method": "water", "wlevel": 0.001}
        rfs = mon.call("run_deconvolution", s.run_deconvolution, pre_filt=pf, preonset=pre, gaussian=a, **kw)
        if mon.check(len(rfs) == len(ps), "rf:count", "%d RFs for %d ray parameters" % (len(rfs), len(ps))):
            for tr, p in zip(rfs, ps):
                mon.check(len(tr.data) == n and abs(tr.stats.delta - dt) < 1e-9, "rf:shape", "RF of %d samples at %r s" % (len(tr.data), tr.stats.delta))
                phases(mon, np.asarray(tr.data), dt, pre, one[0], one[1], one[2], p, 2 / a, "rf-" + method,
                       0.5 * npow2(n) * dt if method == "iter" else np.inf)
        mon.count("RFs by " + method, len(ps)); mon.nontriv()
        return
    # histories over one or two objects
    dt, n = rng.choice([0.1, 0.2]), rng.choice([256, 300, 400])
    objs = []
    for _ in range(rng.choice([1, 2])):
        mdl, _1 = build(rng)
        ps = [round(rng.uniform(0.03, 0.075), 4) for _ in range(rng.choice([1, 2, 3]))]
        objs.append((mdl, ps))
    live = []
    for mdl, ps in objs:
        s = make(S, mdl, ps if len(ps) > 1 else ps[0], dt, n)
        live.append(s); mon.call("run_fwd", s.run_fwd)
    fresh_fwd = []
    for mdl, ps in objs:
        s = make(S, mdl, list(ps), dt, n); s.run_fwd(); fresh_fwd.append((arrays(s.rstream), arrays(s.zstream)))
    reqs = [dict(pre_filt=rng.choice([[0.05, 1.25], [0.1, 2.0], None]), preonset=rng.choice([0, 5, 10, 3.3]), gaussian=rng.choice([1.0, 1.5, 2.5]),
                 **rng.choice([{}, {"itmax": 20}, {"method": "water"}])) for _ in range(3)]
    memo, filt = {}, [[] for _ in live]
    hist = []
    for step in range(rng.randint(5, 9)):
        k = rng.randrange(len(live)); s = live[k]
        op = rng.choice(["dec", "dec", "dec", "dec", "fwd", "filter"])
        hist.append((k, op))
        if op == "fwd":
            mon.call("run_fwd", s.run_fwd); filt[k] = []
            mon.count("forward runs repeated")
            ok = all(np.array_equal(a, b) for a, b in zip(arrays(s.rstream) + arrays(s.zstream), fresh_fwd[k][0] + fresh_fwd[k][1]))
            mon.check(ok and len(s.rstream) == len(objs[k][1]), "history:fwd", "repeated run_fwd differs from the first")
        elif op == "filter":
            f = rng.choice([(0.05, 1.25), (0.1, 2.0)]); z = rng.choice([True, False])
            mon.call("filter", s.filter, f[0], f[1], order=2, zerophase=z); filt[k] = filt[k] + [(f, z)]
        else:
            q = rng.randrange(len(reqs))
            before = arrays(s.rstream) + arrays(s.zstream)
            rf = mon.call("run_deconvolution", s.run_deconvolution, **dict(reqs[q]))
            after = arrays(s.rstream) + arrays(s.zstream)
            mon.check(len(before) == len(after) and all(np.array_equal(a, b) for a, b in zip(before, after)), "history:seismograms",
                      "run_deconvolution changed the stored seismograms")
            mon.check(len(rf) == len(objs[k][1]), "history:count", "%d RFs for %d ray parameters" % (len(rf), len(objs[k][1])))
            key = (k, tuple(filt[k]), q)
            if key in memo:
                mon.count("requests repeated")
                mon.check(len(memo[key]) == len(rf) and all(np.array_equal(a, b.data) for a, b in zip(memo[key], rf)), "history:repeat",
                          "the same request gives another RF the second time")
            else:
                memo[key] = arrays(rf)
                f = make(S, objs[k][0], list(objs[k][1]), dt, n); f.run_fwd()
                for ff, z in filt[k]:
                    f.filter(ff[0], ff[1], order=2, zerophase=z)
                want = f.run_deconvolution(**dict(reqs[q]))
                mon.count("requests compared with a fresh object")
                mon.check(all(close(a.data, b.data, 1e-9 * (np.max(np.abs(b.data)) + 1e-300)) for a, b in zip(rf, want)), "history:fresh",
                          "RF depends on what the object computed before")
    mon.describe(history=hist, dt=dt, n=n, objects=[(m[0].tolist(), p) for m, p in objs], requests=reqs)
    mon.nontriv(len(hist) > 4)
