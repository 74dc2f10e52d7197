"""hk: surface, best model and context against the reference stack."""
import numpy as np
import gen, ref
from common import close, maxdiff

def shipped(rng):
    from rf.rfstream import read_rf
    import os
    from common import SRC
    which = rng.choice(["Moho", "Sed"])
    st = read_rf(os.path.join(SRC, "rfsed/data/rfstreams_%s/rfstreams.h5" % which))
    if rng.random() < 0.5:
        k = rng.randint(2, len(st))
        st = st[:k]
    return st, dict(kind="shipped-" + which, ntr=len(st), n=len(st[0].data), preonset=10,
                    rate=st[0].stats.sampling_rate)

def check_hk(mon, st, snap, r, preonset, H, K, Vp, w, layer, stack, key="hk"):
    """Judge one hk result; snap is [(data, slowness)] taken before the call."""
    delta, n = st[0].stats.delta, len(snap[0][0])
    datas = [d for d, _ in snap]; ps = [ref.rayp(s) for _, s in snap]
    meand, meanp = np.mean(datas, axis=0), float(np.mean(ps))
    f32 = datas[0].dtype == np.float32
    rfs = [(meand, meanp)] * len(snap) if stack else list(zip(datas, ps))
    lo, hi, amp = ref.surface(rfs, delta, preonset, w,
                              lambda p: ref.phases_one(H, K, Vp, p))
    tol = (2e-5 if f32 else 1e-9) * (amp + 1e-300)
    ref.check_surface(mon, key, r["stackvalues"], H, K, lo, hi, tol)
    ref.check_best(mon, key, r["bestmodel"], r["stackvalues"], tol)
    peak = float(np.max(np.abs(meand))) + 1e-300
    mon.check(close(r["RFStack"], meand, (2e-5 if f32 else 1e-9) * max(peak, np.max(np.abs(datas)))), key + ":meanrf",
              "RFStack is not the mean of all traces (off by %s)" % maxdiff(r["RFStack"], meand))
    mon.check(close(r["time"], ref.taxis(n, delta, preonset), 1e-7), key + ":time", "time axis is not delta*k - preonset")
    mon.check(close(r["AvgSlow"], np.mean([s for _, s in snap]), 1e-9), key + ":avgslow", "AvgSlow %r" % r["AvgSlow"])
    mon.check(r["staname"] == st[0].stats.station and r["comp"] == st[0].stats.channel, key + ":names",
              "station/component %r %r" % (r["staname"], r["comp"]))
    mon.check(r["layer"] == layer and bool(r["stack"]) == bool(stack), key + ":flags", "layer/stack flags wrong")
    mon.check(close(r["Vp"], Vp, 1e-12) and close(r["H"], H, 0) and close(r["K"], K, 0), key + ":inputs", "Vp/H/K not those given")
    mon.check(len(r["RF"]) == len(st) and all(np.array_equal(a.data, d) for a, d in zip(r["RF"], datas)),
              key + ":stream", "RF in the result is not the stream given")
    return lo

def run_case(i, mon):
    from rfsed.hkZhu import hk
    rng, nr = mon.rng, mon.np
    if i % 12 == 5:
        st, d = shipped(rng)
        H, K = gen.grid(rng, 15, 60, 2, 5), gen.grid(rng, 1.6, 2.0, 2, 5)
    else:
        big = i % 10 == 3
        st, d = gen.stream(rng, nr, ntr=rng.choice([20, 31, 70, 130]) if big else rng.choice([1, 2]) if i % 10 == 6 else None,
                           n=rng.choice([2001, 2500, 4096, 9000]) if i % 10 == 7 else None,
                           dtype="float32" if i % 9 == 4 else None,
                           preonset=rng.choice([2.5, 5.5, 7.25]) if i % 13 == 6 else None)
        H = None
    layer = rng.choice(["Moho", "Moho", "Sed"])
    if H is None:
        m = 3 if d["ntr"] > 40 else 5 if d["ntr"] > 12 else 14 if i % 10 == 9 else 8
        if layer == "Moho":
            H, K = gen.grid(rng, 12, 75, 2, m), gen.grid(rng, 1.5, 2.1, 2, m)
        else:
            H, K = gen.grid(rng, 0, 12, 2, m), gen.grid(rng, 1.4, 3.5, 2, m)
        if rng.random() < 0.1:
            H[0] = 0
            H = np.unique(H)
    if len(H) < 2:
        H = np.array([1.0, 3.0])
    if i % 10 == 6:                           # the grids used in practice
        H = np.linspace(0.5, 9, rng.randint(30, 60)) if layer == "Sed" else np.linspace(20, 60, rng.randint(30, 60))
        K = np.linspace(1.5, 2.2, rng.randint(25, 45))
        mon.count("grids of over 700 models")
    Vp = round(rng.uniform(5.5, 7.5), 2) if layer == "Moho" else round(rng.uniform(1.6, 4.5), 2)
    w = gen.weights(rng)
    stack = rng.choice([False, False, True])
    snap = [(tr.data.copy(), float(tr.stats.slowness)) for tr in st]
    if i % 7 == 2:                            # onsets between samples: the preonset given counts
        for tr in st:
            tr.stats.onset += rng.uniform(-.45, .45) * tr.stats.delta
    mon.describe(stream=d, H=H.tolist(), K=K.tolist(), Vp=Vp, w=w, layer=layer, stack=stack)
    r = mon.call("hk", hk, st, d["preonset"], H, K, Vp, w[0], w[1], w[2], layer, stack)
    lo = check_hk(mon, st, snap, r, d["preonset"], H, K, Vp, w, layer, stack)
    mon.count("stack on" if stack else "stack off")
    mon.count("traces stacked", len(st))
    mon.count("streams with several location codes", len(set(t.id for t in st)) > 1)
    mon.nontriv(len(H) * len(K) >= 4 and float(np.ptp(lo)) > 0)
