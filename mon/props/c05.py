"""SynthAnalysis against the reference formulas and against the real-data functions."""
import numpy as np
import gen, ref
from common import close, maxdiff
from props import c03

def onetrace(rng, data, delta, pre, p):
    return gen.stream(rng, None, ntr=1, n=len(data), rate=1 / delta, preonset=pre, datas=[data], slows=[p / ref.DEG])[0]

def same_rows(mon, key, a, b, tol, frac=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if not mon.check(a.shape == b.shape, key + ":shape", "%s vs %s" % (a.shape, b.shape)):
        return
    oa, ob = np.lexsort(np.round(a[:, :2], 9).T), np.lexsort(np.round(b[:, :2], 9).T)
    a, b = a[oa], b[ob]
    bad = np.abs(a - b).max(axis=1) > tol
    # a phase time at the midpoint of two samples may be read either way by the two
    mon.check(bad.sum() <= max(1, frac * len(bad)), key, "%d of %d rows differ" % (bad.sum(), len(bad)))

def run_case(i, mon):
    import rfsed.SynthAnalysis as S
    from rfsed.hkZhu import hk
    from rfsed.hkSeqYeck import hkSeq
    from rfsed.ReverbFilter import ResonanceFilt
    rng, nr = mon.rng, mon.np
    rate = rng.choice(gen.RATES); delta = 1 / rate
    pre = rng.choice([0, 2, 5, 5, 10, 10, 15])
    n = rng.choice([301, 400, 512, 513, 777, 1001, 2001])
    scale = rng.choice([1.0, 1.0, 1e-6, 250.0])
    p = round(rng.uniform(0.035, 0.08), 5)
    t = ref.taxis(n, delta, pre)
    which = ["hk", "seq", "flt"][i % 3]
    kind = rng.choice(gen.KINDS)
    data = scale * gen.rfdata(rng, nr, n, delta, pre, kind)
    keep = data.copy(); tk = t.copy()
    mon.describe(which=which, n=n, rate=rate, pre=pre, scale=scale, p=p, kind=kind)
    m = 12 if i % 10 == 9 else 7
    if which == "hk":
        layer = rng.choice(["Moho", "Sed", None])
        if layer == "Sed":
            H, K, Vp = gen.grid(rng, 0, 12, 2, m), gen.grid(rng, 1.4, 3.5, 2, m), round(rng.uniform(1.6, 4.5), 2)
        else:
            H, K, Vp = gen.grid(rng, 12, 75, 2, m), gen.grid(rng, 1.5, 2.1, 2, m), round(rng.uniform(5.5, 7.5), 2)
        if i % 10 == 6:                     # the grids used in practice
            H, K = np.linspace(H.min(), H.max() + 1, rng.randint(30, 50)), np.linspace(K.min(), K.max() + .1, rng.randint(25, 40))
            mon.count("grids of over 700 models")
        w = gen.weights(rng)
        mon.describe(H=H.tolist(), K=K.tolist(), Vp=Vp, w=w, layer=layer)
        r = mon.call("hkSynth", S.hkSynth, data, t, p, H, K, Vp, w[0], w[1], w[2], layer)
        lo, hi, amp = ref.surface([(keep, p)], delta, pre, w, lambda q: ref.phases_one(H, K, Vp, q))
        tol = 1e-9 * (amp + 1e-300)
        ref.check_surface(mon, "hkSynth", r["stackvalues"], H, K, lo, hi, tol)
        ref.check_best(mon, "hkSynth", r["bestmodel"], r["stackvalues"], tol)
        mon.check(close(r["SynthRF"], keep, 0) and close(r["time"], tk, 0) and close(r["H"], H, 0) and close(r["K"], K, 0)
                  and close(r["Vp"], Vp, 0) and close(r["rayp"], p, 0) and r["layer"] == (layer or "Moho"),
                  "hkSynth:inputs", "inputs in the result are not those given")
        real = mon.call("hk", hk, onetrace(rng, keep, delta, pre, p), pre, H, K, Vp, w[0], w[1], w[2], layer or "Moho", False)
        same_rows(mon, "hkSynth-vs-hk", r["stackvalues"], real["stackvalues"], 1e-7 * (amp + 1e-300), 0.02)
        mon.nontriv(np.ptp(lo) > 0)
    elif which == "seq":
        from props import c02
        d2 = scale * gen.rfdata(rng, nr, n, delta, pre, rng.choice(gen.KINDS)); keep2 = d2.copy()
        gS, gM = c02.grids(rng, m)
        if i % 10 == 4:
            gM = (np.linspace(20, 60, rng.randint(28, 45)), np.linspace(1.5, 2.1, rng.randint(28, 40))) + gM[2:]
            mon.count("grids of over 700 models")
        rmneg = rng.choice([None, False, True])
        mon.describe(gridSed=[np.asarray(x).tolist() for x in gS], gridMoho=[np.asarray(x).tolist() for x in gM], rmneg=rmneg)
        r = mon.call("hkSeqSynth", S.hkSeqSynth, data, d2, t, p, *(gS[:3] + tuple(gS[3]) + gM[:3] + tuple(gM[3])), rmneg=rmneg)
        lo, hi, amp = ref.surface([(keep, p)], delta, pre, gS[3], lambda q: ref.phases_one(gS[0], gS[1], gS[2], q))
        tol = 1e-9 * (amp + 1e-300)
        ok = ref.check_surface(mon, "hkSeqSynthSed", r["stackvalueSed"], gS[0], gS[1], lo, hi, tol)
        ok &= ref.check_best(mon, "hkSeqSynthSed", r["bestmodelSed"], r["stackvalueSed"], tol)
        if ok:
            b = np.asarray(r["bestmodelSed"], float)
            lo2, hi2, amp2 = ref.surface([(keep2, p)], delta, pre, gM[3],
                                         lambda q: ref.phases_two(gM[0], gM[1], gM[2], q, b[0], b[1], gS[2]))
            mon.count("negative Moho values expected", int((hi2 < 0).sum()) if not rmneg else 0)
            mon.count("rmneg on" if rmneg else "rmneg off")
            if rmneg:
                lo2, hi2 = np.maximum(lo2, 0), np.maximum(hi2, 0)
            tol2 = 1e-9 * (amp2 + 1e-300)
            ref.check_surface(mon, "hkSeqSynthMoho", r["stackvalueMoho"], gM[0], gM[1], lo2, hi2, tol2)
            ref.check_best(mon, "hkSeqSynthMoho", r["bestmodelMoho"], r["stackvalueMoho"], tol2)
            mon.nontriv(np.ptp(lo) > 0 and np.ptp(lo2) > 0)
        mon.check(close(r["SynthRFSed"], keep, 0) and close(r["SynthRFMoho"], keep2, 0) and close(r["time"], tk, 0)
                  and close(r["RayP"], p, 0) and close(r["VpSed"], gS[2], 0) and close(r["VpMoho"], gM[2], 0)
                  and close(r["HSed"], gS[0], 0) and close(r["KSed"], gS[1], 0) and close(r["HMoho"], gM[0], 0) and close(r["KMoho"], gM[1], 0),
                  "hkSeqSynth:inputs", "inputs in the result are not those given")
        if i % 2 == 0:
            a, b2 = onetrace(rng, keep, delta, pre, p), onetrace(rng, keep2, delta, pre, p)
            real = mon.call("hkSeq", hkSeq, a, b2, pre, *(gS[:3] + tuple(gS[3]) + gM[:3] + tuple(gM[3])))
            same_rows(mon, "hkSeqSynth-vs-hkSeq:Sed", r["stackvalueSed"], real["stackvalueSed"], 1e-7 * (amp + 1e-300), 0.02)
            if ok and not rmneg and close(r["bestmodelSed"], real["bestmodelSed"], 1e-9 * (1 + amp)):
                same_rows(mon, "hkSeqSynth-vs-hkSeq:Moho", r["stackvalueMoho"], real["stackvalueMoho"], 1e-7 * (amp2 + 1e-300), 0.02)
        mon.check(np.array_equal(d2, keep2), "hkSeqSynth:input", "input RF changed")
    else:
        data, kind, lag = c03.signal(rng, nr, n, delta, pre)
        data = scale * data; keep = data.copy()
        mon.describe(kind=kind, lag=lag)
        r = mon.call("ResonanceFilt(synth)", S.ResonanceFilt, data, t)
        sure = c03.check_filter(mon, r, keep, delta, n, tk, "synthFilt")
        real = mon.call("ResonanceFilt", ResonanceFilt, onetrace(rng, keep, delta, pre, p), pre)
        for k in ("filteredrf", "autoc", "resonancefilter"):
            tol = 1e-6 * (np.max(np.abs(keep)) if k == "filteredrf" else 1) + 1e-300
            if sure is not None:
                mon.check(close(r[k], real[k], tol), "synthFilt-vs-real:" + k, "%s differs from the real-data filter by %s" % (k, maxdiff(r[k], real[k])))
        if sure is not None:
            mon.check(abs(float(r["tlag"]) - float(real["tlag"])) < 1e-6 and abs(float(r["r"]) - float(real["r"])) < 1e-6,
                      "synthFilt-vs-real:lag", "lag or strength differ")
        mon.nontriv(sure is not None)
    mon.check(np.array_equal(data, keep) and np.array_equal(t, tk), which + ":input", "input arrays changed")
    mon.count("case " + which)
