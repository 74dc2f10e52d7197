"""Results stored, copied and used elsewhere mean what they meant."""
import copy, importlib, io, os, pickle
import numpy as np
import calls, common, figs, pristine

PLOT = {"hk": ("hkZhu", "plothk"), "hkSeq": ("hkSeqYeck", "plotSeqhk"), "hkYu": ("hkYu", "plothkYu"), "filt": ("ReverbFilter", "plotfiltrf"), "hkSynth": ("SynthAnalysis", "plothkSynth"),
        "hkSeqSynth": ("SynthAnalysis", "plothkSeqSynth"), "filtSynth": ("SynthAnalysis", "plotfiltSynthrf"), "wf": ("WaveformFitting", "PlotWaveformFitting"), "wfmp": ("WaveformFittingMultiproc", "plotbestmodel")}

def draw(kind, blob, folder, extra):
    """Plots a stored result; what the figures show, as plain data."""
    mod, name = PLOT[kind]
    fn = getattr(importlib.import_module("rfsed." + mod), name)
    r = pickle.loads(blob)
    args = [r["res"], r["par"]] if kind == "wfmp" else [r]
    with figs.Capture(write=False) as c:
        if kind in ("wf", "wfmp"):
            fn(*args, *extra["w"], folder, extra["fmt"])
        elif extra["clips"]:
            fn(r, folder, extra["g"], extra["rmneg"], extra["fmt"])
        else:
            fn(r, folder, extra["fmt"])
    figs.plt.close("all")
    return shown(c)

def shown(c):
    return [dict(file=os.path.basename(str(f["path"])), surfaces=[x for _, x in f["surfaces"]],
                 axes=[dict(lines=[(l["x"], l["y"], l["label"] if not l["label"].startswith("_") else "") for l in a["lines"]], title=a["title"], legend=a["legend"], xlabel=a["xlabel"], ylabel=a["ylabel"]) for a in f["axes"]]) for f in c.saved]

def same_figures(mon, key, a, b, what):
    d = calls.diff(calls.snap(a), calls.snap(b), "figures", 1e-9)
    mon.check(d is None, key, "%s: %s" % (what, d))
    mon.count("sets of figures compared")

def downstream(kind, r, nr_args):
    """A later stage of the analysis fed with the result."""
    from rfsed.hkYu import hkYu
    return hkYu(r, *nr_args)

def follow(blob, args):
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        r = downstream("filt", pickle.loads(blob), args)
    figs.plt.close("all")
    return r

def fit(blob, nproc, HMoho):
    from rfsed import WaveformFittingMultiproc as M
    return M.run_waveformfitting(nproc, HMoho, pickle.loads(blob))

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    pristine.start()
    kind = rng.choice(["wf", "wfmp"]) if i % 16 in (3, 10) else calls.LIGHT[(i + i // 8) % 7]
    j = calls.make(rng, nr, kind)
    mon.describe(kind=kind, job=j.desc)
    folder = mon.newdir()
    if kind == "wf":
        j.args[j.names.index("savepath")] = folder
    figs.plt.close("all")
    r = j.run(mon)
    figs.plt.close("all")
    try:
        blob = pickle.dumps(r)
    except Exception as e:
        mon.violation(kind + ":pickle", "the result cannot be stored: %s: %s" % (type(e).__name__, e)); return
    mon.count("results stored")
    s0 = calls.snap(r)
    back = pickle.loads(blob)
    d = calls.diff(s0, calls.snap(back), kind)
    mon.check(d is None, kind + ":stored", "stored and read back: %s" % d)
    try:
        deep = copy.deepcopy(r)
    except Exception as e:
        mon.violation(kind + ":copy", "the result cannot be copied: %s: %s" % (type(e).__name__, e)); return
    extra = dict(w=getattr(j, "weights", None), fmt=rng.choice(["png", "pdf"]), clips=j.clips, rmneg=rng.choice([True, False]), g=rng.choice([[75., 10., 15., 2.5], [30., 4., 9., 1.]]))
    try:
        a = draw(kind, blob, folder, extra)
        b = draw(kind, pickle.dumps(deep), folder, extra)
    except Exception as e:
        mon.violation("raises:plot " + kind, "plotting a stored result: %s: %s" % (type(e).__name__, e)); return
    same_figures(mon, kind + ":copied", a, b, "a copy of the result plots differently")
    ok, c = pristine.run(draw, kind, blob, folder, extra)
    if mon.check(ok == "ok", kind + ":elsewhere", "plotting the stored result in another process: %s" % (c if ok != "ok" else "")):
        same_figures(mon, kind + ":elsewhere", a, c, "the stored result plots differently in another process")
        mon.count("results plotted in another process")
    with figs.Capture(write=False) as cap:
        if kind in ("wf", "wfmp"):
            mon.call("plot " + kind, j.plot, r, folder, extra["fmt"])
        elif j.clips:
            mon.call("plot " + kind, j.plot, r, folder, extra["g"], extra["rmneg"], extra["fmt"])
        else:
            mon.call("plot " + kind, j.plot, r, folder, extra["fmt"])
    figs.plt.close("all")
    same_figures(mon, kind + ":live", a, shown(cap), "the live result plots differently from the stored one")
    if kind == "filt":
        args = (round(rng.uniform(.04, .07), 4), np.arange(25., 45, 5), np.arange(1.65, 1.9, .05), 6.3, 2.2, 0.9, .6, .3, .1)
        x = mon.call("hkYu", downstream, "filt", r, args)
        figs.plt.close("all")
        ok, y = pristine.run(follow, blob, args)
        if mon.check(ok == "ok", "filt:next", "hkYu of the stored filter result in another process: %s" % (y if ok != "ok" else "")):
            d = calls.diff(calls.snap(x), calls.snap(y), "hkYu", 1e-9)
            mon.check(d is None, "filt:next", "hkYu of the stored filter result: %s" % d); mon.count("later stages compared")
    if kind == "wfmp":
        q = copy.deepcopy(deep)
        grid = sorted({float(x[3]) for L in q["res"] for x in L})
        ok, y = pristine.run(fit, pickle.dumps(q["par"]), 2, np.array(grid))
        if mon.check(ok == "ok", "wfmp:next", "fitting with stored parameters in another process: %s" % (y if ok != "ok" else "")):
            s, t = j.solutions(q), j.solutions({"res": y})
            o = lambda z: z[np.lexsort((z[:, 5], z[:, 4]))]
            s, t = o(s), o(t)
            mon.check(s.shape == t.shape and np.allclose(s[:, [0, 1, 4, 5]], t[:, [0, 1, 4, 5]], rtol=1e-8, atol=1e-10), "wfmp:next", "fitting with stored parameters gives other scores"); mon.count("later stages compared")
    mon.count("judged " + kind); mon.nontriv()
