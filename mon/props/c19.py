"""None stands for the documented default; explicit values, zero and False included, are used as given."""
import copy
import numpy as np
import calls, figs, gen, ref
from props import c17

DEF = {
    "hk": dict(Vp=6.5, w1=0.6, w2=0.3, w3=0.1, layer="Moho", stack=False),
    "hkSynth": dict(Vp=6.5, w1=0.6, w2=0.3, w3=0.1, layer="Moho"),
    "hkYu": dict(VpMoho=6.5, VpSed=2.5, w1SubSed=0.6, w2SubSed=0.3, w3SubSed=0.1),
    "hkSeq": dict(VpSed=3.0, w1Sed=0.6, w2Sed=0.3, w3Sed=0.1, stack=False),
    "hkSeqSynth": dict(VpSed=3.0, w1Sed=0.6, w2Sed=0.3, w3Sed=0.1, rmneg=False),
}
TRAIL = {"hk": ("stack",), "hkSynth": ("layer",), "hkSeq": ("g", "stack"), "hkSeqSynth": ("g", "rmneg")}   # may be left out
GAINS = [75., 10., 15., 2.5]
PLOTDEF = {"hk": True, "hkSeq": True, "hkYu": False, "hkSynth": False, "hkSeqSynth": False}
OMITTED = {"hk": True, "hkSeq": True, "hkYu": True, "hkSynth": False, "hkSeqSynth": False}
KINDS = list(DEF)

def surfaces(r):
    return [np.asarray(r[k], float) for k in sorted(r) if k.startswith("stackvalue")]

def drawn(cap):
    """What was drawn, as one comparable structure."""
    return calls.snap([dict(f=str(s["path"]), fmt=s["kw"].get("format"), axes=[dict(lines=[dict(x=l["x"], y=l["y"]) for l in a["lines"]], xlim=list(a["xlim"]), ylim=list(a["ylim"]),
                                                                                 title=a["title"], texts=a["texts"]) for a in s["axes"]],
                            surf=[x for _, x in s["surfaces"]]) for s in cap.saved])

def plotted(mon, job, r, path, *a, **k):
    with figs.Capture(write=False) as cap:
        mon.call("plot " + job.kind, job.plot, r, path, *a, **k)
    figs.plt.close("all")
    return cap

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    if i % 16 == 9:
        return weights_case(mon, rng, nr)
    kind = KINDS[(i // 8 + i) % 5]
    job = calls.make(rng, nr, kind)
    names, D = job.names, DEF[kind]
    # a stack that a wrong default would change
    none = [p for p in D if rng.random() < rng.choice([.3, .6, 1.0])] or [rng.choice(list(D))]
    base = list(job.args)
    for p, v in zip(names, base):
        if p in D and rng.random() < .3:             # explicit falsy values
            z = {"stack": False, "rmneg": False}.get(p, None)
            if p.startswith("w"):
                z = rng.choice([0, 0.0])
            if z is not None:
                base[names.index(p)] = z
    wn = [names.index(p) for p in names if p.startswith("w") and p[1:2].isdigit()]
    given, missing = list(base), list(base)
    for p in none:
        given[names.index(p)] = D[p]; missing[names.index(p)] = None
    mon.describe(kind=kind, none=sorted(none), args=job.desc, weights=[given[k] for k in wn])
    deep = lambda a: [x.copy() if hasattr(x, "traces") else copy.deepcopy(x) for x in a]
    a = job.run(mon, deep(given)); b = job.run(mon, deep(missing))
    calls.same_result(mon, kind + ":none", job, a, b, "None for %s" % ", ".join(sorted(none)))
    mon.count("None combinations compared"); mon.count("parameters given as None", len(none))
    # the explicit call itself follows the formulas (a default applied to both would go unseen)
    judge_explicit(mon, kind, job, given, a)
    k = next((j for j in range(len(names)) if set(names[j:]) <= set(TRAIL.get(kind, ()))), len(names))
    if k < len(names):
        full = list(given)
        for j in range(k, len(names)):
            full[j] = D.get(names[j], GAINS)
        x, y = job.run(mon, deep(full)), job.run(mon, deep(given[:k]))
        calls.same_result(mon, kind + ":omitted", job, x, y, "leaving out %s" % names[k:])
        mon.count("omitted parameters compared")
    # falsy values differ from the defaults they must not become
    if kind in ("hk", "hkSynth", "hkYu", "hkSeq", "hkSeqSynth"):
        mon.count("explicit zero weights", sum(1 for j in wn if given[j] == 0))
    # plots
    if i % 2 == 0:
        r = a
        path = mon.newdir()
        gain = [round(rng.uniform(1, 200), 2), round(rng.uniform(1, 30), 2), round(rng.uniform(1, 40), 2), round(rng.uniform(.5, 8), 2)]
        if rng.random() < .3:
            gain = [rng.choice([0, 0.0, 50.0]), rng.choice([0, 10]), rng.choice([0.0, 3]), rng.choice([0, 1.0])]
        opt = {"g": rng.choice([None, None, gain]), "rmneg": rng.choice([None, None, False, True]), "format": rng.choice([None, None, "png", "svg"])}
        dflt = {"g": GAINS, "rmneg": PLOTDEF[kind], "format": "pdf"}
        exp = {p: (dflt[p] if v is None else v) for p, v in opt.items()}
        one = plotted(mon, job, r, path, **opt)
        two = plotted(mon, job, r, path, **exp)
        mon.describe(plot=opt)
        d = calls.diff(drawn(two), drawn(one), kind, 1e-9)
        mon.check(d is None, kind + ":plot-none", "None for %s draws otherwise than the defaults: %s" % ([p for p in opt if opt[p] is None], d))
        mon.count("plots with None compared")
        explicit_plot(mon, kind, job, r, two, exp, given)
        if rng.random() < .6:
            drop = rng.choice([["format"], ["rmneg", "format"], ["g", "rmneg", "format"], ["g"], ["rmneg"]])
            sig = {"g": GAINS, "rmneg": OMITTED[kind], "format": "jpg"}
            part = {p: v for p, v in exp.items() if p not in drop}
            three = plotted(mon, job, r, path, **part)
            four = plotted(mon, job, r, path, **dict(part, **{p: sig[p] for p in drop}))
            d = calls.diff(drawn(four), drawn(three), kind, 1e-9)
            mon.check(d is None, kind + ":plot-omitted", "leaving out %s draws otherwise than its default: %s" % (drop, d))
            mon.count("plots with omitted options compared")
    mon.nontriv(len(none) > 1)

def judge_explicit(mon, kind, job, args, r):
    """The surface that depends on the defaults, with exactly the given weights and velocities."""
    A = dict(zip(job.names, args))
    if kind == "hk":
        st = A["rfstream"]
        rfs = [(t.data, ref.rayp(t.stats.slowness)) for t in st] if not A["stack"] else [(np.mean([t.data for t in st], axis=0), ref.rayp(np.mean([t.stats.slowness for t in st])))] * len(st)
        H, K, V, w, d, pre, key = A["H"], A["K"], A["Vp"], (A["w1"], A["w2"], A["w3"]), st[0].stats.delta, A["preonset"], "stackvalues"
        f = lambda p: ref.phases_one(H, K, V, p)
    elif kind == "hkSynth":
        t = A["time"]; d, pre = t[1] - t[0], -t[0]
        rfs = [(A["Synthrf"], A["rayp"])]
        H, K, V, w, key = A["H"], A["K"], A["Vp"], (A["w1"], A["w2"], A["w3"]), "stackvalues"
        f = lambda p: ref.phases_one(H, K, V, p)
    elif kind == "hkYu":
        F = A["FltResult"]; d, pre = F["delta"], -F["time"][0]
        rfs = [(F["filteredrf"], A["rayp"])]
        H, K, V, w, key = A["HSubSed"], A["KSubSed"], A["VpMoho"], (A["w1SubSed"], A["w2SubSed"], A["w3SubSed"]), "stackvaluesSubSed"
        dl = F["tlag"] * A["VsSed"] / 2 * (1 / A["VsSed"] - 1 / A["VpSed"])
        f = lambda p: ref.phases_yu(H, K, V, p, F["tlag"], dl)
    else:
        if kind == "hkSeq":
            st = A["rfstreamSed"]; d, pre = st[0].stats.delta, A["preonset"]
            rfs = [(t.data, ref.rayp(t.stats.slowness)) for t in st] if not A["stack"] else [(np.mean([t.data for t in st], axis=0), ref.rayp(np.mean([t.stats.slowness for t in st])))] * len(st)
        else:
            t = A["time"]; d, pre = t[1] - t[0], -t[0]; rfs = [(A["rfSynthSed"], A["rayp"])]
        H, K, V, w, key = A["HSed"], A["KSed"], A["VpSed"], (A["w1Sed"], A["w2Sed"], A["w3Sed"]), "stackvalueSed"
        f = lambda p: ref.phases_one(H, K, V, p)
    lo, hi, amp = ref.surface(rfs, d, pre, w, f)
    ref.check_surface(mon, kind + ":explicit", r[key], H, K, lo, hi, 1e-9 * (amp + 1e-300))
    if kind == "hkSeqSynth" and not A["rmneg"]:
        # negative Moho values survive an explicit False
        t = A["time"]; b = r["bestmodelSed"]
        lo, hi, amp = ref.surface([(A["rfSynthMoho"], A["rayp"])], d, pre, (A["w1Moho"], A["w2Moho"], A["w3Moho"]),
                                  lambda p: ref.phases_two(A["HMoho"], A["KMoho"], A["VpMoho"], p, float(b[0]), float(b[1]), V))
        ref.check_surface(mon, kind + ":explicit-Moho", r["stackvalueMoho"], A["HMoho"], A["KMoho"], lo, hi, 1e-9 * (amp + 1e-300))

def explicit_plot(mon, kind, job, r, cap, opt, args):
    """Explicit gains, rmneg and format show in what is drawn."""
    import os
    for s in cap.saved:
        mon.check(str(s["path"]).endswith("." + opt["format"]) and s["kw"].get("format") == opt["format"], kind + ":plot-format", "saved as %s (%r)" % (s["path"], s["kw"].get("format")))
    drawn_neg = any(np.any(x[2] < 0) for s in cap.saved for _, x in s["surfaces"] if len(x) >= 3)
    have_neg = any(np.any(x[:, 2] < 0) for x in surfaces(r))
    if opt["rmneg"]:
        mon.check(not drawn_neg, kind + ":plot-rmneg", "negative values drawn with rmneg on")
    elif have_neg:
        mon.check(drawn_neg, kind + ":plot-rmneg", "negative values not drawn with rmneg off")
        mon.count("plots keeping negative values")
    g = opt["g"]
    halves = sorted({round(abs(float(l["y"][0]) - float(l["y"][1])) / 2, 6) for s in cap.saved for a in s["axes"] for l in a["lines"] if len(l["x"]) == 2 and l["x"][0] == l["x"][1]})
    stacked = kind in ("hkYu", "hkSynth", "hkSeqSynth") or bool(dict(zip(job.names, args)).get("stack"))
    want = sorted({round(abs(float(g[1])), 6)} | (set() if stacked else {round(abs(float(g[3])), 6)}))
    mon.check(len(halves) == len(want) and all(abs(p - q) < 1e-4 for p, q in zip(halves, want)), kind + ":plot-gain", "time markers of half length %s, asked %s" % (halves, want))
    mon.count("explicit plot options judged")

def weights_case(mon, rng, nr):
    """plotbestmodel: None for fitting weights is 0.4/0.4/0.2."""
    import os, wf
    from rfsed import WaveformFittingMultiproc as M
    job = calls.make(rng, nr, "wfmp")
    r = job.run(mon)
    s = job.solutions(r)
    w = [rng.choice([None, None, 0, 0.0, round(rng.random(), 2)]) for _ in range(3)]
    e = [d if x is None else x for x, d in zip(w, (0.4, 0.4, 0.2))]
    mon.describe(kind="wfmp", w=w)
    for ww in (w, e):
        with figs.Capture(write=False, artists=False) as cap:
            mon.call("plotbestmodel", M.plotbestmodel, r["res"], r["par"], ww[0], ww[1], ww[2], mon.newdir(), "png")
        figs.plt.close("all")
        q = s.copy(); q[:, 3] = wf.gof(s, e)
        wf.check_report(mon, "wfmp", mon.stdout, q, e)
        got = [x for f in cap.saved for _, x in f["surfaces"] if len(x) >= 3]
        if mon.check(len(got) == 4, "wfmp:surfaces", "%d surfaces" % len(got)):
            mp = {(round(a, 9), round(b, 9)): z for a, b, z in zip(*got[3][:3])}
            want = np.array([mp.get((round(a, 9), round(b, 9)), np.nan) for a, b in q[:, 4:6]])
            mon.check(np.all(np.abs(want - q[:, 3]) <= 1e-7 * (1 + np.max(np.abs(q[:, 3])))), "wfmp:weights", "overall fit drawn with weights %s is not that of %s" % (ww, e))
            mon.count("fitting weights judged")
    mon.nontriv(any(x is None for x in w))
