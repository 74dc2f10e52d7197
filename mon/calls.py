"""Random analysis calls, the plots they allow, and what those plots must show."""
import copy, os
import numpy as np
import gen, ref, wf
from props import c02, c03

WFLABELS = ["Correlation Coefficient", "Root-mean-square Error", "Phase Goodness of Fit", "Overall Goodness of Fit"]
KINDS = ["hk", "hkSeq", "filt", "hkYu", "hkSynth", "hkSeqSynth", "filtSynth", "wf", "wfmp"]
LIGHT = KINDS[:7]

class Job:
    """fn(*args) is one analysis call; plotters are (function, spec of its figures)."""
    def __init__(self, kind, fn, args, names, desc):
        self.kind, self.fn, self.args, self.names, self.desc = kind, fn, list(args), list(names), desc
        self.plot = self.spec = None
        self.rmneg_default = False
    def run(self, mon, args=None):
        return mon.call(self.kind, self.fn, *(self.args if args is None else args))
    def arg(self, name):
        return self.args[self.names.index(name)]

HKN = "rfstream preonset H K Vp w1 w2 w3 layer stack".split()
SEQN = "rfstreamSed rfstreamMoho preonset HSed KSed VpSed w1Sed w2Sed w3Sed HMoho KMoho VpMoho w1Moho w2Moho w3Moho g stack".split()
YUN = "FltResult rayp HSubSed KSubSed VpMoho VpSed VsSed w1SubSed w2SubSed w3SubSed".split()
SYN = "Synthrf time rayp H K Vp w1 w2 w3 layer".split()
SSYN = "rfSynthSed rfSynthMoho time rayp HSed KSed VpSed w1Sed w2Sed w3Sed HMoho KMoho VpMoho w1Moho w2Moho w3Moho g rmneg".split()

def tnow(tr):
    s = tr.stats
    return np.arange(len(tr.data)) * s.delta + (s.starttime - s.onset)

def one_grid(rng, layer, m=5):
    if layer == "Sed":
        return gen.grid(rng, 0, 10, 2, m), gen.grid(rng, 1.4, 3.2, 2, m), round(rng.uniform(1.8, 4.0), 2)
    return gen.grid(rng, 15, 65, 2, m), gen.grid(rng, 1.5, 2.1, 2, m), round(rng.uniform(5.6, 7.2), 2)

def marks(times, y, half):
    return [(float(np.asarray(t).ravel()[0]), y - half, y + half) for t in times]

def panel(curves, mk):
    return dict(curves=curves, marks=mk)

def by_trace(st, phases, g, which):
    """The back-azimuth or distance panel of an unstacked plot."""
    cs, ms = [], []
    for tr in st:
        y = tr.stats.back_azimuth if which == "baz" else tr.stats.distance
        gain, half = (g[0], g[1]) if which == "baz" else (g[2], g[3])
        cs.append((tnow(tr), np.asarray(tr.data, float) * gain + y, None))
        ms += marks(phases(ref.rayp(tr.stats.slowness)), y, half)
    return panel(cs, ms)

def coarse(rng, arrays):
    """Sometimes few different sample values, so that several models tie exactly."""
    if rng.random() < .12:
        for a in arrays:
            m = np.max(np.abs(a))
            if m > 0:
                a[:] = np.round(a / m)

def make(rng, nr, kind, streams=None, small=True):
    """A job; streams, if given, are shared ones to draw from: [(stream, preonset)] with a common axis."""
    m = 4 if small else 7
    def getst():
        if streams:
            return rng.choice(streams)
        st, d = gen.stream(rng, nr, ntr=rng.choice([1, 2, 3, 4]), n=rng.choice([301, 400, 513]), scale=rng.choice([1.0, 1.0, 1e-6]))
        coarse(rng, [tr.data for tr in st])
        return st, d["preonset"]
    if kind == "hk":
        from rfsed.hkZhu import hk, plothk
        st, pre = getst()
        layer = rng.choice(["Moho", "Moho", "Sed"]); stack = rng.choice([False, False, True])
        H, K, Vp = one_grid(rng, layer, m); w = gen.weights(rng)
        j = Job(kind, hk, [st, pre, H, K, Vp, w[0], w[1], w[2], layer, stack], HKN, dict(H=H.tolist(), K=K.tolist(), Vp=Vp, w=w, layer=layer, stack=stack))
        j.plot, j.rmneg_default = plothk, True
        keep = st.copy()
        sta, comp = st[0].stats.station, st[0].stats.channel
        def spec(r, g, rmneg):
            hb, kb = float(r["bestmodel"][0]), float(r["bestmodel"][1])
            ph = lambda p: ref.phases_one([hb], [kb], Vp, p)
            if stack:
                mean = np.mean([t.data for t in keep], axis=0); p = ref.rayp(np.mean([t.stats.slowness for t in keep]))
                ps = [panel([(ref.taxis(len(mean), keep[0].stats.delta, pre), mean * g[0] + 180, None)], marks(ph(p), 180, g[1]))]
            else:
                ps = [by_trace(keep, ph, g, "baz"), by_trace(keep, ph, g, "dist")]
            return [dict(file="%s_%s_%s" % (sta, comp, layer), surface=r["stackvalues"], best=(hb, kb), panels=ps)]
        j.spec = spec
    elif kind == "hkSeq":
        from rfsed.hkSeqYeck import hkSeq, plotSeqhk
        if streams:
            (a, pre), (b, _) = rng.choice(streams), rng.choice(streams)
        else:
            n, rate, pre = rng.choice([301, 400]), rng.choice([10.0, 20.0, 12.5]), rng.choice([2, 5, 10])
            a, _ = gen.stream(rng, nr, ntr=rng.choice([1, 2, 3]), n=n, rate=rate, preonset=pre, scale=1.0)
            b, _ = gen.stream(rng, nr, ntr=rng.choice([1, 2, 3]), n=n, rate=rate, preonset=pre, scale=1.0)
        HS, KS, VS = one_grid(rng, "Sed", m); HM, KM, VM = one_grid(rng, "Moho", m)
        w, w2 = gen.weights(rng), gen.weights(rng); stack = rng.choice([False, False, True, None])
        j = Job(kind, hkSeq, [a, b, pre, HS, KS, VS, *w, HM, KM, VM, *w2, None, stack], SEQN,
                dict(HS=HS.tolist(), KS=KS.tolist(), HM=HM.tolist(), KM=KM.tolist(), V=(VS, VM), w=w, w2=w2, stack=stack))
        j.plot, j.rmneg_default = plotSeqhk, True
        ka, kb_ = a.copy(), b.copy()
        sta, comp = b[0].stats.station, b[0].stats.channel
        def spec(r, g, rmneg):
            h1, k1 = [float(x) for x in r["bestmodelSed"][:2]]; h2, k2 = [float(x) for x in r["bestmodelMoho"][:2]]
            p1 = lambda p: ref.phases_one([h1], [k1], VS, p)
            p2 = lambda p: ref.phases_two([h2], [k2], VM, p, h1, k1, VS)
            out = []
            for st, ph, name, s, bm in ((ka, p1, "Sediment", "stackvalueSed", (h1, k1)), (kb_, p2, "Moho", "stackvalueMoho", (h2, k2))):
                if stack:
                    mean = np.mean([t.data for t in st], axis=0); p = ref.rayp(np.mean([t.stats.slowness for t in st]))
                    ps = [panel([(ref.taxis(len(mean), st[0].stats.delta, pre), mean * g[0] + 180, None)], marks(ph(p), 180, g[1]))]
                else:
                    ps = [by_trace(st, ph, g, "baz"), by_trace(st, ph, g, "dist")]
                out.append(dict(file="%s_%s_%s" % (r["staname"], r["comp"], name), surface=r[s], best=bm, panels=ps))
            return out
        j.spec = spec
    elif kind in ("filt", "hkYu"):
        from rfsed.ReverbFilter import ResonanceFilt, plotfiltrf
        from rfsed.hkYu import hkYu, plothkYu
        st, pre = getst()
        if kind == "filt":
            j = Job(kind, ResonanceFilt, [st, pre], ["rfstream", "preonset"], {})
            sta = st[0].stats.station
            j.plot = plotfiltrf
            j.spec = lambda r, g, rmneg: filterplots(r, sta)
        else:
            n, delta = len(st[0].data), float(st[0].stats.delta)
            F = {"rf": np.array(st[0].data, float), "filteredrf": nr.randn(n), "time": ref.taxis(n, delta, pre), "delta": delta,
                 "tlag": rng.choice([0.0, round(rng.uniform(0.2, 3), 3), round(rng.uniform(0.2, 8), 3)]), "r": 0.4, "staname": st[0].stats.station,
                 "autoc": nr.randn(n), "resonancefilter": nr.randn(n) + 0j}
            coarse(rng, [F["filteredrf"]])
            p = round(rng.uniform(0.04, 0.075), 4)
            H, K, Vp = one_grid(rng, "Moho", m); w = gen.weights(rng); vs = round(rng.uniform(0.5, 1.4), 2); vp = round(rng.uniform(1.8, 3), 2)
            j = Job(kind, hkYu, [F, p, H, K, Vp, vp, vs, *w], YUN, dict(H=H.tolist(), K=K.tolist(), Vp=Vp, VpSed=vp, VsSed=vs, w=w, tlag=F["tlag"], p=p))
            j.plot, j.rmneg_default = plothkYu, False
            kf = copy.deepcopy(F)
            def spec(r, g, rmneg):
                hb, kb = [float(x) for x in r["bestmodelSubSed"][:2]]
                hs = kf["tlag"] * vs / 2; d = hs * (1 / vs - 1 / vp)
                ps = [panel([(kf["time"], kf["filteredrf"] * g[0] + 180, None)], marks(ref.phases_yu([hb], [kb], Vp, p, kf["tlag"], d), 180, g[1]))]
                return [dict(file="FilteredRF_HKYu_SubSediment", surface=r["stackvaluesSubSed"], best=(hb, kb), panels=ps)]
            j.spec = spec
    elif kind in ("hkSynth", "hkSeqSynth", "filtSynth"):
        import rfsed.SynthAnalysis as S
        n, delta, pre = rng.choice([301, 400, 512]), 1 / rng.choice([10.0, 12.5, 20.0]), rng.choice([2, 5, 10])
        t = ref.taxis(n, delta, pre); p = round(rng.uniform(0.04, 0.075), 4)
        d1, d2 = gen.rfdata(rng, nr, n, delta, pre, rng.choice(gen.KINDS)), gen.rfdata(rng, nr, n, delta, pre, rng.choice(gen.KINDS))
        coarse(rng, [d1, d2])
        c1, c2 = d1.copy(), d2.copy()
        if kind == "hkSynth":
            layer = rng.choice(["Moho", "Sed", None])
            H, K, Vp = one_grid(rng, layer or "Moho", m); w = gen.weights(rng)
            j = Job(kind, S.hkSynth, [d1, t, p, H, K, Vp, *w, layer], SYN, dict(H=H.tolist(), K=K.tolist(), Vp=Vp, w=w, layer=layer, p=p))
            j.plot = S.plothkSynth
            def spec(r, g, rmneg):
                hb, kb = [float(x) for x in r["bestmodel"][:2]]
                return [dict(file="SynthRF_%s" % (layer or "Moho"), surface=r["stackvalues"], best=(hb, kb),
                             panels=[panel([(t.copy(), c1 * g[0] + 180, None)], marks(ref.phases_one([hb], [kb], Vp, p), 180, g[1]))])]
            j.spec = spec
        elif kind == "hkSeqSynth":
            HS, KS, VS = one_grid(rng, "Sed", m); HM, KM, VM = one_grid(rng, "Moho", m)
            w, w2 = gen.weights(rng), gen.weights(rng); rn = rng.choice([None, False, True])
            j = Job(kind, S.hkSeqSynth, [d1, d2, t, p, HS, KS, VS, *w, HM, KM, VM, *w2, None, rn], SSYN,
                    dict(HS=HS.tolist(), KS=KS.tolist(), HM=HM.tolist(), KM=KM.tolist(), V=(VS, VM), w=w, w2=w2, p=p, rmneg=rn))
            j.plot = S.plothkSeqSynth
            def spec(r, g, rmneg):
                h1, k1 = [float(x) for x in r["bestmodelSed"][:2]]; h2, k2 = [float(x) for x in r["bestmodelMoho"][:2]]
                return [dict(file="SynthRF_SeqHK_Sediment", surface=r["stackvalueSed"], best=(h1, k1),
                             panels=[panel([(t.copy(), c1 * (g[0] / 2) + 180, None)], marks(ref.phases_one([h1], [k1], VS, p), 180, g[1]))]),
                        dict(file="SynthRF_SeqHK_Moho", surface=r["stackvalueMoho"], best=(h2, k2),
                             panels=[panel([(t.copy(), c2 * g[0] + 180, None)], marks(ref.phases_two([h2], [k2], VM, p, h1, k1, VS), 180, g[1]))])]
            j.spec = spec
        else:
            j = Job(kind, S.ResonanceFilt, [d1, t], ["Synthrf", "time"], {})
            j.plot = S.plotfiltSynthrf
            j.spec = lambda r, g, rmneg: filterplots(r, None)
    else:
        c = wf.case(rng, nr, nmax=2 if small else 3)
        w = wf.weights(rng)
        fmt = rng.choice(["png", "jpg", "svg"])
        keep = c["st"].copy(); sta = keep[0].stats.station
        if kind == "wf":
            from rfsed.WaveformFitting import WaveformFitting, PlotWaveformFitting
            j = Job(kind, WaveformFitting, list(c["args"]) + [*w, ".", fmt],
                    "rfstream preonset HSed VpSed VpCrust rayp KMoho HMoho gaussian wtCorr wtRMSE wtPG savepath format".split(), dict(c["desc"], w=w))
            j.solutions = lambda r: np.array(r["WaveformSolutions"], float)
            j.plot = lambda r, path, f: PlotWaveformFitting(r, w[0], w[1], w[2], path, f)
        else:
            from rfsed import WaveformFittingMultiproc as M
            nproc = rng.choice([1, 2, 3])
            def both(*a):
                par = M.WaveformPara(*a)
                return {"par": par, "res": M.run_waveformfitting(nproc, a[7], par)}
            j = Job(kind, both, list(c["args"]), "rfstream preonset HSed VpSed VpCrust rayp KMoho HMoho gaussian".split(), dict(c["desc"], w=w, nproc=nproc))
            def sols(r):
                flat = np.array([list(x)[:5] for L in r["res"] for x in L], float)
                s = np.zeros((len(flat), 6)); s[:, :3], s[:, 4:] = flat[:, :3], flat[:, 3:5]; s[:, 3] = wf.gof(s, w)
                return s
            j.solutions = sols
            j.plot = lambda r, path, f: M.plotbestmodel(r["res"], r["par"], w[0], w[1], w[2], path, f)
        j.weights = w
        par, delta, pre, n = c["par"], c["delta"], c["pre"], c["n"]
        j.case = c
        def spec(r, g, rmneg):
            s = j.solutions(r); out = []
            for col, lab in enumerate(WFLABELS):
                v = -s[:, col] if col == 1 else s[:, col]
                b = s[np.argmax(v)]
                syn = wf.synth(b[4], b[5], par, delta, n, abs(float(tnow(keep[0])[0])))
                t = tnow(keep[0]); vs = wf.brocher_vs(par["VpSed"])
                dep = np.array([0, par["HSed"], par["HSed"], b[4], b[4], 50.0])
                ps = [panel([(t, c["mean"], "Stacked RF"), (ref.taxis(n, delta, abs(t[0])), syn, "Synthetic RF")], []),
                      panel([(np.repeat([par["VpSed"], par["VpCrust"], 8.045], 2), dep, "Vp"), (np.repeat([vs, par["VpCrust"] / b[5], 4.49], 2), dep, "Vs")], [])]
                vv = np.sort(v)
                out.append(dict(file="%s_%s" % (sta, lab), surface=s[:, [4, 5, col]], best=(float(b[4]), float(b[5])), panels=ps,
                                tied=len(vv) > 1 and vv[-1] - vv[-2] < 1e-7 * (abs(vv[-1]) + 1e-300), curvetol=1e-6, note=lab))
            return out
        j.spec = spec
    j.clips = kind in ("hk", "hkSeq", "hkYu", "hkSynth", "hkSeqSynth")
    return j

def filterplots(r, sta):
    t = np.array(r["time"], float)
    P = lambda *c: [panel([(t, np.array(y, float), lab) for y, lab in c], [])]
    return [dict(file="Autocorrelation", panels=P((r["autoc"], None)), title=sta),
            dict(file="Resonance_Filter", panels=P((np.real(r["resonancefilter"]), None)), title=sta),
            dict(file="RF_FilteredRF", panels=P((r["rf"], "RF"), (r["filteredrf"], "Filtered RF")), title=sta)]

# ---------------------------------------------------------------- snapshots
# not data, timing or station headers: processing notes, and the phase times plots attach to traces
SKIP = {"processing", "_format", "sac", "mseed"} | {p + l for p in ("tps", "tppps", "tpsps") for l in ("", "Sed", "Moho")}

def snap(x):
    """A deep, comparable copy of streams, results, arrays and plain values."""
    import obspy
    if isinstance(x, np.ndarray):
        return ("array", x.copy())
    if isinstance(x, obspy.Trace):
        st = {k: snap(v) for k, v in dict(x.stats).items() if k not in SKIP}
        return ("trace", {"data": snap(x.data), "stats": ("dict", st)})
    if isinstance(x, obspy.Stream):
        return ("list", [snap(t) for t in x.traces])
    if isinstance(x, obspy.UTCDateTime):
        return ("value", x.ns)
    if isinstance(x, dict) or hasattr(x, "items"):
        return ("dict", {k: snap(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ("list", [snap(v) for v in x])
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return ("value", x)
    return ("opaque", None)

def diff(a, b, where="", tol=0.0):
    """Path of the first thing of a that b lacks or holds otherwise (b may hold more keys), or None."""
    (ka, va), (kb, vb) = a, b
    if ka == "opaque":
        return None
    if ka != kb:
        return "%s: %s became %s" % (where, ka, kb)
    if ka == "array":
        if va.shape != vb.shape or va.dtype.kind != vb.dtype.kind:
            return "%s: array %s %s became %s %s" % (where, va.shape, va.dtype, vb.shape, vb.dtype)
        if va.dtype.kind not in "fcibu":
            return None if np.array_equal(va, vb) else where
        if tol:
            same = bool(np.all(np.abs(va.astype(complex) - vb) <= tol * (1e-300 + np.max(np.abs(va)) if va.size else 1))) if va.size else True
        else:
            same = np.array_equal(va, vb, equal_nan=va.dtype.kind in "fc")
        return None if same else where + ": array values differ"
    if ka == "value":
        if tol and isinstance(va, (float, np.floating)) and isinstance(vb, (int, float, np.floating)):
            return None if abs(va - vb) <= tol * (1e-300 + abs(va)) or va == vb else "%s: %r became %r" % (where, va, vb)
        try:
            same = va == vb or (va != va and vb != vb)
        except Exception:
            same = False
        return None if same else "%s: %r became %r" % (where, va, vb)
    if ka == "list":
        if len(va) != len(vb):
            return "%s: %d items became %d" % (where, len(va), len(vb))
        for k, (p, q) in enumerate(zip(va, vb)):
            d = diff(p, q, "%s[%d]" % (where, k), tol)
            if d:
                return d
        return None
    for k in va:
        if k not in vb:
            return "%s: %r is gone" % (where, k)
        d = diff(va[k], vb[k], "%s.%s" % (where, k), tol)
        if d:
            return d
    return None

# ---------------------------------------------------------------- repeatability
def same_result(mon, key, job, a, b, what):
    """Two results of the same call: equal, apart from models that tie."""
    if job.kind in ("wf", "wfmp"):
        s, q = job.solutions(a), job.solutions(b)
        if not mon.check(s.shape == q.shape, key, "%s: %s solutions became %s" % (what, s.shape, q.shape)):
            return
        tol = 1e-8 * (1 + np.max(np.abs(s), axis=0))
        bad = np.abs(s - q) > tol
        if bad[:, [0, 1, 4, 5]].any():
            mon.violation(key, "%s: solutions differ by %s" % (what, np.max(np.abs(s - q), axis=0)))
        elif bad[:, 2].any():                        # signs of samples that are zero up to rounding
            c = job.case
            for row in np.nonzero(bad[:, 2])[0][:3]:
                _, _, lo, hi = wf.scores(c["mean"], s[row, 4], s[row, 5], c["par"], c["delta"], c["pre"])
                mon.check(lo - 1e-5 <= s[row, 2] <= hi + 1e-5 and lo - 1e-5 <= q[row, 2] <= hi + 1e-5, key, "%s: phase fit %r became %r" % (what, s[row, 2], q[row, 2]))
        mon.count("checks")
        return
    drop = lambda r: ("dict", {k: v for k, v in snap(r)[1].items() if not k.startswith("bestmodel")})
    tied = False
    for k in a:
        if k.startswith("bestmodel"):
            sk = [x for x in a if x.startswith("stackvalue") and x.endswith(k[len("bestmodel"):])]
            if not sk:
                continue
            s = np.sort(np.asarray(a[sk[0]], float)[:, 2])
            if len(s) > 1 and s[-1] - s[-2] <= 1e-9 * np.max(np.abs(s)):
                tied = True
    sa, sb = drop(a), drop(b)
    if tied and diff(sa, sb, job.kind, 1e-9):
        mon.count("ties set aside")
        return
    d = diff(sa, sb, job.kind, 1e-9)
    mon.check(d is None, key, "%s: %s" % (what, d))
    if not tied:
        for k in a:
            if k.startswith("bestmodel"):
                mon.check(np.allclose(np.asarray(a[k], float), np.asarray(b[k], float), rtol=1e-9, atol=0), key, "%s: %s %r became %r" % (what, k, a[k], b[k]))
