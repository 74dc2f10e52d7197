"""hkSeq: both surfaces and best models against the reference stacks."""
import numpy as np
import gen, ref
from common import close, maxdiff

def check_seq(mon, stS, stM, snapS, snapM, r, preonset, gS, gM, stack, key="hkSeq"):
    """gS/gM = (H, K, Vp, w)."""
    delta, n = stS[0].stats.delta, len(snapS[0][0])
    out = []
    for part, snap in (("Sed", snapS), ("Moho", snapM)):
        datas = [d for d, _ in snap]; ps = [ref.rayp(s) for _, s in snap]
        rfs = [(np.mean(datas, axis=0), float(np.mean(ps)))] * len(snap) if stack else list(zip(datas, ps))
        H, K, Vp, w = gS if part == "Sed" else gM
        if part == "Sed":
            fn = lambda p: ref.phases_one(H, K, Vp, p)
        else:
            b = np.asarray(r["bestmodelSed"], float)
            fn = lambda p: ref.phases_two(H, K, Vp, p, b[0], b[1], gS[2])
        lo, hi, amp = ref.surface(rfs, delta, preonset, w, fn)
        f32 = datas[0].dtype == np.float32
        tol = (2e-5 if f32 else 1e-9) * (amp + 1e-300)
        ok = ref.check_surface(mon, key + part, r["stackvalue" + part], H, K, lo, hi, tol)
        ok &= ref.check_best(mon, key + part, r["bestmodel" + part], r["stackvalue" + part], tol)
        m = np.mean(datas, axis=0)
        mon.check(close(r["RF%sStack" % part], m, (2e-5 if f32 else 1e-9) * (1e-300 + np.max(np.abs(datas)))), key + part + ":meanrf",
                  "mean RF wrong by %s" % maxdiff(r["RF%sStack" % part], m))
        mon.check(close(r["Vp" + part], Vp, 1e-12) and close(r["H" + part], H, 0) and close(r["K" + part], K, 0),
                  key + part + ":inputs", "Vp/H/K in the result are not those given")
        s = r["RF" + part]
        mon.check(len(s) == len(datas) and all(np.array_equal(a.data, d) for a, d in zip(s, datas)),
                  key + part + ":stream", "stream in the result is not the one given")
        out.append((lo, ok))
        if not ok:
            break
        mon.count("negative stack values seen", int(np.sum(np.asarray(r["stackvalue" + part])[:, 2] < 0)))
    mon.check(close(r["time"], ref.taxis(n, delta, preonset), 1e-7), key + ":time", "time axis is not delta*k - preonset")
    mon.check(close(r["AvgSlow"], np.mean([s for _, s in snapM]), 1e-9), key + ":avgslow", "AvgSlow %r" % r["AvgSlow"])
    mon.check(r["staname"] == stS[0].stats.station and r["comp"] == stS[0].stats.channel, key + ":names", "station/component")
    mon.check(bool(r["stack"]) == bool(stack), key + ":flags", "stack flag")
    return out

def pair(rng, nr, i=0, **kw):
    rate, pre = rng.choice(gen.RATES), rng.choice([0, 2, 5, 5, 10, 10, 15])
    n = rng.choice([301, 400, 513, 600, 777, 1001]) if i % 10 != 7 else 2001
    big = i % 10 == 3
    sta = rng.choice(gen.STAS)
    stS, dS = gen.stream(rng, nr, ntr=rng.choice([18, 60, 110]) if big else rng.choice([1, 2, 3, 5, 8]), n=n, rate=rate, preonset=pre, sta=sta, **kw)
    stM, dM = gen.stream(rng, nr, ntr=rng.choice([1, 2, 3, 5, 8]), n=n, rate=rate, preonset=pre, sta=sta, **kw)
    return stS, stM, dS, dM, pre

def grids(rng, m=6):
    gS = (gen.grid(rng, 0, 10, 2, m), gen.grid(rng, 1.4, 3.2, 2, m), round(rng.uniform(1.6, 4.5), 2), gen.weights(rng))
    gM = (gen.grid(rng, 12, 65, 2, m), gen.grid(rng, 1.5, 2.1, 2, m), round(rng.uniform(5.5, 7.5), 2), gen.weights(rng))
    if rng.random() < 0.1:
        gS = (np.array([0, 1, 2.5]),) + gS[1:]
    return gS, gM

def run_case(i, mon):
    from rfsed.hkSeqYeck import hkSeq
    rng, nr = mon.rng, mon.np
    stS, stM, dS, dM, pre = pair(rng, nr, i, dtype="float32" if i % 9 == 4 else None)
    gS, gM = grids(rng, 12 if i % 10 == 9 else 3 if len(stS) > 40 else 6)
    if i % 10 == 6:                           # the grids used in practice
        stS, stM = stS[:1], stM[:2]
        gS = (np.linspace(.5, 6, rng.randint(28, 45)), np.linspace(1.5, 3, rng.randint(28, 40))) + gS[2:]
        gM = (np.linspace(20, 60, rng.randint(28, 45)), np.linspace(1.5, 2.1, rng.randint(28, 40))) + gM[2:]
        mon.count("grids of over 700 models")
    stack = rng.choice([None, False, False, True])
    snapS = [(t.data.copy(), float(t.stats.slowness)) for t in stS]
    snapM = [(t.data.copy(), float(t.stats.slowness)) for t in stM]
    if i % 7 == 2:                            # onsets between samples: the preonset given counts
        for tr in list(stS) + list(stM):
            tr.stats.onset += rng.uniform(-.45, .45) * tr.stats.delta
    mon.describe(sed=dS, moho=dM, gridSed=[x if isinstance(x, (float, tuple)) else x.tolist() for x in gS],
                 gridMoho=[x if isinstance(x, (float, tuple)) else x.tolist() for x in gM], stack=stack)
    args = (stS, stM, pre) + gS[:3] + tuple(gS[3]) + gM[:3] + tuple(gM[3])
    r = mon.call("hkSeq", hkSeq, *args, stack=stack)
    out = check_seq(mon, stS, stM, snapS, snapM, r, pre, gS, gM, bool(stack))
    mon.count("stack on" if stack else "stack off")
    mon.count("streams of different size", len(stS) != len(stM))
    mon.nontriv(len(out) == 2 and np.ptp(out[0][0]) > 0 and np.ptp(out[1][0]) > 0 and (len(stS) > 1 or len(stM) > 1))
