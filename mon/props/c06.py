"""Known structures are recovered by every stacking method."""
import numpy as np
import gen, ref

SIG = np.array([1.0, 1.0, -1.0])

def axis(rng, lo, hi, step, true, m):
    """m values of the given spacing that contain true, in a random order."""
    k = rng.randint(0, m - 1)
    v = np.array([true + (j - k) * step for j in range(m)])
    v = v[(v > lo) & (v < hi)]
    o = rng.choice(["up", "up", "down", "shuffle"])
    if o == "down":
        v = v[::-1].copy()
    if o == "shuffle":
        v = list(v); rng.shuffle(v); v = np.array(v)
    return v

def ideal(H, K, w, fns, fields):
    """Stack of the continuous planted functions; fns(p)-> three (K, H) time arrays."""
    S = 0
    for (fn, f) in zip(fns, fields):
        for s, wk, tt in zip(SIG, w, fn):
            S = S + s * wk * f(tt)
    return S

def field(times, amps, width):
    def f(t):
        out = 0.0
        for tt, a in zip(times, amps):
            out = out + a * np.exp(-((t - tt) / width) ** 2)
        return out
    return f

def judge(mon, key, best, H, K, trueH, trueK, S, tolH=1e-9, tolK=1e-9, sampled=None, margin=0.12):
    """S: stack of the continuous pulses; sampled: bounds of the stack of the RFs as sampled."""
    iH, iK = int(np.argmin(np.abs(H - trueH))), int(np.argmin(np.abs(K - trueK)))
    top = S[iK, iH]
    rest = S.copy(); rest[iK, iH] = -np.inf
    if sampled is not None:
        lo, hi, amp = sampled
        r2 = hi.copy(); r2[iK, iH] = -np.inf
        margin = 0.01 if r2.max() < lo[iK, iH] - 1e-6 * amp else np.inf
        mon.count("close competitors", margin < 1 and rest.max() > 0.9 * top)
    if not (rest.max() < top - margin * abs(top)):
        mon.count("planted structure not distinct enough, not judged")
        return False
    mon.count("recovery judged")
    mon.count("recovery judged " + key)
    b = np.asarray(best, float)
    mon.check(abs(b[0] - trueH) <= tolH and abs(b[1] - trueK) <= tolK, key + ":recovery",
              "true structure H=%g Vp/Vs=%g, best model %r" % (trueH, trueK, b.tolist()))
    return True

def setting(rng):
    rate = rng.choice([20.0, 25.0, 40.0, 50.0])
    pre = rng.choice([5, 10, 10, 2.5, 15])
    return 1 / rate, pre, int(rate * (pre + rng.choice([40, 45, 60])))

def crust(rng):
    return rng.choice([24.0, 28.0, 31.5, 35.0, 40.0, 46.0]), round(rng.choice([1.65, 1.7, 1.73, 1.78, 1.85]), 3), round(rng.uniform(5.9, 6.9), 2)

def sediment(rng):
    Vp = round(rng.uniform(2.2, 3.8), 2)
    return rng.choice([2.0, 3.0, 4.0, 6.0]), rng.choice([1.7, 1.9, 2.2, 2.6]), Vp

def fine(rng, H0, K0):
    """Grids and pulse width: from coarse ones to ones that tell half a kilometre apart."""
    h, k, w = rng.choice([(3.0, 0.05, 0.35), (2.5, 0.05, 0.3), (2.0, 0.05, 0.2), (1.0, 0.03, 0.15), (0.75, 0.02, 0.12), (0.5, 0.015, 0.1),
                          (0.5, 0.02, 0.3), (1.0, 0.025, 0.5)])
    return axis(rng, 10, 70, h, H0, 9), axis(rng, 1.5, 2.2, k, K0, 7), w

def slownesses(rng, n):
    """Ray parameters (s/km) of events from 30 to 95 degrees, sometimes all near or all far."""
    lo, hi = rng.choice([(0.039, 0.083), (0.039, 0.083), (0.077, 0.083), (0.039, 0.045)])
    return [rng.uniform(lo, hi) for _ in range(n)]

def amplitudes(rng):
    return [rng.uniform(.3, .5), rng.uniform(.2, .35), -rng.uniform(.2, .3)]

def mk(rng, nr, data, delta, pre, ps, sta="ST1"):
    return gen.stream(rng, nr, ntr=len(data), n=len(data[0]), rate=1 / delta, preonset=pre, datas=data,
                      slows=[p / ref.DEG for p in ps], sta=sta)[0]

def case_hk(i, mon, synth):
    rng, nr = mon.rng, mon.np
    delta, pre, n = setting(rng); H0, K0, Vp = crust(rng)
    H, K, width = fine(rng, H0, K0)
    w = rng.choice([(0.6, 0.3, 0.1), (0.7, 0.2, 0.1), (0.34, 0.33, 0.33), (0.4, 0.35, 0.25)])
    ntr = 1 if synth else rng.choice([1, 2, 4, 8])
    ps = slownesses(rng, ntr)
    datas, fields, fns = [], [], []
    for p in ps:
        t3 = [float(x[0, 0]) for x in ref.phases_one([H0], [K0], Vp, p)]
        a = amplitudes(rng)
        datas.append(gen.pulses(n, delta, pre, [0.0] + t3, [1.0] + a, width))
        fields.append(field(t3, a, width)); fns.append(ref.phases_one(H, K, Vp, p))
    S = ideal(H, K, w, fns, fields)
    smp = ref.surface(list(zip(datas, ps)), delta, pre, w, lambda p: ref.phases_one(H, K, Vp, p))
    mon.describe(method="hkSynth" if synth else "hk", H0=H0, K0=K0, Vp=Vp, ps=ps, delta=delta, pre=pre, H=H.tolist(), K=K.tolist(), w=w)
    if synth:
        from rfsed.SynthAnalysis import hkSynth
        b = mon.call("hkSynth", hkSynth, datas[0], ref.taxis(n, delta, pre), ps[0], H, K, Vp, *w)["bestmodel"]
        return judge(mon, "hkSynth", b, H, K, H0, K0, S, sampled=smp)
    from rfsed.hkZhu import hk
    layer = rng.choice(["Moho", "Sed"])
    st = mk(rng, nr, datas, delta, pre, ps)
    r = mon.call("hk", hk, st, pre, H, K, Vp, w[0], w[1], w[2], layer, False)
    ok = judge(mon, "hk", r["bestmodel"], H, K, H0, K0, S, sampled=smp)
    if ok:                                   # orderings
        H2, K2 = H.copy(), K.copy(); nr.shuffle(H2); nr.shuffle(K2)
        st2 = st.copy(); order = list(range(len(st2))); rng.shuffle(order)
        st2.traces = [st2.traces[j] for j in order]
        r2 = mon.call("hk", hk, st2, pre, H2, K2, Vp, w[0], w[1], w[2], layer, False)
        mon.count("orderings compared")
        mon.check(np.allclose(r2["bestmodel"], r["bestmodel"], rtol=1e-9, atol=1e-12), "hk:order",
                  "best model depends on the order of traces or grid values: %r vs %r" % (r["bestmodel"], r2["bestmodel"]))
        close_p = max(ps) - min(ps) < 0.004
        pm = float(np.mean(ps))
        lo, hi, amp = ref.surface([(np.mean(datas, axis=0), pm)], delta, pre, w, lambda p: ref.phases_one(H, K, Vp, p))
        iH, iK = int(np.argmin(np.abs(H - H0))), int(np.argmin(np.abs(K - K0)))
        top = lo[iK, iH]; hi[iK, iH] = -np.inf
        if (close_p or len(ps) == 1) and hi.max() < top - 1e-6 * amp:          # equal slownesses: the mean RF shows the same structure
            r3 = mon.call("hk", hk, st, pre, H, K, Vp, w[0], w[1], w[2], layer, True)
            mon.check(abs(r3["bestmodel"][0] - H0) < 1e-9 and abs(r3["bestmodel"][1] - K0) < 1e-9, "hk:recovery-stacked",
                      "true %g %g, stacked best %r" % (H0, K0, r3["bestmodel"]))
            mon.count("stacked recovery judged")
    return ok

def case_seq(i, mon, synth):
    rng, nr = mon.rng, mon.np
    delta, pre, n = setting(rng)
    H0, K0, Vp = crust(rng); h0, k0, vp = sediment(rng)
    HS, KS = axis(rng, 0.2, 12, rng.choice([0.5, 0.2]), h0, 9), axis(rng, 1.4, 3.2, rng.choice([0.15, 0.06]), k0, 7)
    HM, KM, widthM = fine(rng, H0, K0)
    wS = rng.choice([(0.6, 0.3, 0.1), (0.4, 0.35, 0.25)]); wM = rng.choice([(0.6, 0.3, 0.1), (0.5, 0.3, 0.2)])
    width = rng.uniform(0.15, 0.2)
    nS, nM = (1, 1) if synth else (rng.choice([1, 2, 5]), rng.choice([1, 3, 4]))
    psS = slownesses(rng, nS)
    psM = psS if synth else slownesses(rng, nM)
    dS, fS, gS, dM, fM, gM = [], [], [], [], [], []
    for p in psS:
        t3 = [float(x[0, 0]) for x in ref.phases_one([h0], [k0], vp, p)]; a = amplitudes(rng)
        dS.append(gen.pulses(n, delta, pre, [0.0] + t3, [0.3] + a, width))
        full_t, full_a = t3 + [0.0], a + [0.3]
        fS.append(field(full_t, full_a, width)); gS.append(ref.phases_one(HS, KS, vp, p))
    for p in psM:
        t3 = [float(x[0, 0]) for x in ref.phases_two([H0], [K0], Vp, p, h0, k0, vp)]; a = amplitudes(rng)
        dM.append(gen.pulses(n, delta, pre, [0.0] + t3, [1.0] + a, widthM))
        fM.append(field(t3, a, widthM)); gM.append(ref.phases_two(HM, KM, Vp, p, h0, k0, vp))
    SS, SM = ideal(HS, KS, wS, gS, fS), ideal(HM, KM, wM, gM, fM)
    mon.describe(method="hkSeqSynth" if synth else "hkSeq", sed=(h0, k0, vp), crust=(H0, K0, Vp), psS=psS, psM=psM, delta=delta, pre=pre,
                 HS=HS.tolist(), KS=KS.tolist(), HM=HM.tolist(), KM=KM.tolist())
    if synth:
        from rfsed.SynthAnalysis import hkSeqSynth
        key = "hkSeqSynth"
        r = mon.call(key, hkSeqSynth, dS[0], dM[0], ref.taxis(n, delta, pre), psS[0], HS, KS, vp, *wS, HM, KM, Vp, *wM)
    else:
        from rfsed.hkSeqYeck import hkSeq
        key = "hkSeq"
        r = mon.call(key, hkSeq, mk(rng, nr, dS, delta, pre, psS), mk(rng, nr, dM, delta, pre, psM), pre,
                     HS, KS, vp, *wS, HM, KM, Vp, *wM)
    s1 = ref.surface(list(zip(dS, psS)), delta, pre, wS, lambda p: ref.phases_one(HS, KS, vp, p))
    s2 = ref.surface(list(zip(dM, psM)), delta, pre, wM, lambda p: ref.phases_two(HM, KM, Vp, p, h0, k0, vp))
    if judge(mon, key + "Sed", r["bestmodelSed"], HS, KS, h0, k0, SS, sampled=s1):
        return judge(mon, key + "Moho", r["bestmodelMoho"], HM, KM, H0, K0, SM, sampled=s2)
    return False

def case_yu(i, mon, synth):
    """Crustal phases shifted by a sediment layer, reverberation added, filtered, stacked."""
    rng, nr = mon.rng, mon.np
    from rfsed.hkYu import hkYu
    delta, pre, n = setting(rng)
    H0, K0, Vp = crust(rng)
    lag = rng.randint(int(round(1.2 / delta)), int(round(2.2 / delta))) * delta
    VpS = round(rng.uniform(2.2, 3.8), 2); VsS = round(VpS / rng.uniform(1.9, 2.6), 3)
    r0 = rng.uniform(0.3, 0.7); p = rng.uniform(0.04, 0.08)
    delay = lag * VsS / 2 * (1 / VsS - 1 / VpS)
    t3 = [float(x[0, 0]) for x in ref.phases_yu([H0], [K0], Vp, p, lag, delay)]
    a = [0.35, 0.25, -0.2]
    width = lag / 3.2
    ts, am = [], []
    for tt, aa in zip([0.0] + t3, [1.0] + a):
        k = 0
        while abs(aa * r0 ** k) > 1e-4 and tt + k * lag < n * delta:
            ts.append(tt + k * lag); am.append(aa * (-r0) ** k); k += 1
    d = gen.pulses(n, delta, pre, ts, am, width)
    H, K = axis(rng, 10, 70, 3.0, H0, 9), axis(rng, 1.5, 2.2, 0.08, K0, 6)
    w = (0.6, 0.3, 0.1)
    mon.describe(method="hkYu", H0=H0, K0=K0, Vp=Vp, p=p, lag=lag, r0=r0, VpS=VpS, VsS=VsS, delta=delta, pre=pre, H=H.tolist(), K=K.tolist())
    if synth:
        from rfsed.SynthAnalysis import ResonanceFilt
        f = mon.call("ResonanceFilt(synth)", ResonanceFilt, d, ref.taxis(n, delta, pre))
    else:
        from rfsed.ReverbFilter import ResonanceFilt
        f = mon.call("ResonanceFilt", ResonanceFilt, mk(rng, nr, [d], delta, pre, [p]), pre)
    if not mon.check(abs(float(f["tlag"]) - lag) < 0.3, "filter:lag-recovery", "echo lag %g s, filter found %r" % (lag, f["tlag"])):
        return True
    mon.count("echo lag recovered")
    S = ideal(H, K, w, [ref.phases_yu(H, K, Vp, p, lag, delay)], [field(t3, a, width)])
    b = mon.call("hkYu", hkYu, f, p, H, K, Vp, VpS, VsS, *w)["bestmodelSubSed"]
    # pulses here are wide: the neighbouring grid values are within their resolution
    return judge(mon, "hkYu", b, H, K, H0, K0, S, 3.0 + 1e-9, 0.08 + 1e-9)

def case_fwd(i, mon, synth):
    """Through the package's own forward modelling and deconvolution."""
    rng, nr = mon.rng, mon.np
    from rfsed.synrf import synrf
    delta = rng.choice([0.05, 0.1, 0.0625]); pre = rng.choice([5, 10])
    n = int(60 / delta)
    H0, K0, Vp = crust(rng)
    ps = [round(rng.uniform(0.045, 0.07), 4) for _ in range(1 if synth else rng.choice([1, 2, 3]))]
    s = synrf(np.array([H0, 77.5]), np.array([Vp, 8.045]), np.array([Vp / K0, 4.49]), np.array([2.8, 3.3]),
              ps, dt=delta, npts=n, ipha=1)
    mon.call("run_fwd", s.run_fwd)
    rfs = mon.call("run_deconvolution", s.run_deconvolution, pre_filt=[0.05, 2.0], preonset=pre, gaussian=2.5)
    H, K = axis(rng, 10, 70, 2.0, H0, 9), axis(rng, 1.5, 2.2, 0.05, K0, 7)
    w = (0.6, 0.3, 0.1)
    mon.describe(method="forward-" + ("hkSynth" if synth else "hk"), H0=H0, K0=K0, Vp=Vp, ps=ps, delta=delta, pre=pre, H=H.tolist(), K=K.tolist())
    datas = [np.array(t.data) for t in rfs]
    if synth:
        from rfsed.SynthAnalysis import hkSynth
        b = mon.call("hkSynth", hkSynth, datas[0], ref.taxis(n, delta, pre), ps[0], H, K, Vp, *w)["bestmodel"]
    else:
        from rfsed.hkZhu import hk
        b = mon.call("hk", hk, mk(rng, nr, datas, delta, pre, ps), pre, H, K, Vp, w[0], w[1], w[2], "Moho", False)["bestmodel"]
    mon.count("forward-modelled recovery judged")
    mon.check(abs(b[0] - H0) <= 2.0 + 1e-9 and abs(b[1] - K0) <= 0.05 + 1e-9, "forward:recovery",
              "model H=%g Vp/Vs=%g, recovered %r" % (H0, K0, np.asarray(b).tolist()))
    return True

def run_case(i, mon):
    k = i % 10
    f = {0: (case_hk, False), 1: (case_seq, False), 2: (case_yu, False), 3: (case_hk, True), 4: (case_seq, True), 5: (case_yu, True),
         6: (case_hk, False), 7: (case_seq, False), 8: (case_fwd, False), 9: (case_fwd, True)}[k]
    mon.nontriv(f[0](i, mon, f[1]))
