"""Printed reports, on-screen figures, legends and titles state the values of the result."""
import re
import numpy as np
import calls, figs, gen, wf

KINDS = ["hk", "hkSeq", "hkYu", "hkSynth", "hkSeqSynth", "filt", "filtSynth"]
NUM = re.compile(r"(?<![\w.+-])[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?(?![\w-])")

def numbers(text):
    """[(value, decimals shown)]; digits inside words (station names, 2-way) are no numbers."""
    out = []
    for m in NUM.findall(text):
        d = m.split("e")[0].split("E")[0]
        ex = int(re.split("[eE]", m)[1]) if re.search("[eE]", m) else 0
        out.append((float(m), len(d.split(".")[1]) - ex if "." in d else -ex))
    return out

def states(got, want, slack=0.0):
    """The shown number is the value, to the digits shown."""
    v, dec = got
    return abs(v - want) <= 0.5 * 10.0 ** -dec * (1 + 1e-9) + slack + 1e-12 * abs(want)

def stages(r):
    """[(name part, best model, surface)] of a result, in order."""
    if "bestmodelSed" in r:
        return [("Sediment", r["bestmodelSed"], r["stackvalueSed"]), ("Moho", r["bestmodelMoho"], r["stackvalueMoho"])]
    if "bestmodelSubSed" in r:
        return [("Subsediment", r["bestmodelSubSed"], r["stackvaluesSubSed"])]
    return [("", r["bestmodel"], r["stackvalues"])]

def judge_text(mon, key, job, r, text):
    want = []
    if job.kind == "hkYu":
        a = dict(zip(job.names, job.args))
        want.append(float(a["FltResult"]["tlag"]) * a["VsSed"] / 2)
    for _, b, _ in stages(r):
        want += [float(x) for x in b[:3]]
    got = numbers(text)
    mon.count("reports judged")
    ok = len(got) == len(want) and all(states(g, w) for g, w in zip(got, want))
    mon.check(ok, key + ":report", "printed %r; the result holds %s" % (text.strip()[:300], want))
    for name, _, _ in stages(r):
        mon.check(name.lower() in text.lower(), key + ":report-layer", "the report does not name the layer %r: %r" % (name, text.strip()[:200]))

def judge_screen(mon, key, r, shown):
    st = stages(r)
    if not mon.check(len(shown) == len(st), key + ":screen", "%d figures put on the screen, %d surfaces computed" % (len(shown), len(st))):
        return
    for f, (name, b, s) in zip(shown, st):
        s = np.asarray(s, float)
        clip = s.copy(); clip[:, 2] = np.where(clip[:, 2] <= 0, 0, clip[:, 2])
        s3 = [(i, x) for i, x in f["surfaces"] if len(x) >= 3]
        if not mon.check(len(s3) == 1 and s3[0][0] >= 0, key + ":screen-surface", "%d surfaces on the screen" % len(s3)):
            continue
        ai, x = s3[0]
        a = np.stack([np.asarray(v, float).ravel() for v in x[:3]], axis=1)
        mon.check(a.shape == s.shape and (np.allclose(a, s, rtol=1e-9, atol=0) or np.allclose(a, clip, rtol=1e-9, atol=0)), key + ":screen-surface", "the surface on the screen is not that of the result")
        ax = f["axes"][ai]
        for lab, lim, col in (("depths", ax["xlim"], s[:, 0]), ("Vp/Vs", ax["ylim"], s[:, 1])):
            mon.check(abs(min(lim) - col.min()) < 1e-6 and abs(max(lim) - col.max()) < 1e-6, key + ":screen-limits", "the screen shows %s %s, the grid spans %g to %g" % (lab, lim, col.min(), col.max()))
        pts = [l for l in ax["lines"]]
        mon.check(len(pts) == 1 and len(pts[0]["x"]) == 1 and abs(pts[0]["x"][0] - b[0]) < 1e-9 * (1 + abs(b[0])) and abs(pts[0]["y"][0] - b[1]) < 1e-9 * (1 + abs(b[1])), key + ":screen-marker",
                  "marker on the screen at %s, best model %s" % ([(list(p["x"]), list(p["y"])) for p in pts], list(b)))
        judge_legend(mon, key + ":screen-legend", ax, b, 0.0)
        judge_axes(mon, key + ":screen-axes", ax)
        mon.count("screen figures judged")

def judge_legend(mon, key, ax, best, slack, station=None, tied=None):
    text = " ".join(ax["legend"])
    got = numbers(text)
    cand = tied if tied is not None else [best]
    mon.count("legends judged")
    ok = len(got) == 2 and any(states(got[0], float(b[0])) and states(got[1], float(b[1]), slack) for b in cand)
    mon.check(ok, key, "legend %r, best model %s" % (text, [float(best[0]), float(best[1])]))
    if station is not None:
        mon.check(re.search(r"(?<!\w)%s(?!\w)" % re.escape(station), text) is not None, key + "-station", "legend %r does not name station %s" % (text, station))

def judge_axes(mon, key, ax):
    mon.check("vp/vs" in ax["ylabel"].lower().replace(" ", "") and "depth" in ax["xlabel"].lower(), key, "surface axes labelled %r, %r" % (ax["xlabel"], ax["ylabel"]))

def surface_axis(f):
    s3 = [(i, x) for i, x in f["surfaces"] if len(x) >= 3]
    return f["axes"][s3[0][0]] if len(s3) == 1 and s3[0][0] >= 0 else None

def judge_plot(mon, key, job, specs, cap, stacked):
    import os
    for s in specs:
        f = [f for f in cap.saved if os.path.basename(str(f["path"])).rsplit(".", 1)[0] == s["file"]]
        if not mon.check(len(f) == 1, key + ":file", "%d figures saved as %s" % (len(f), s["file"])):
            continue
        f = f[0]
        judge_names(mon, key, job, s, f, stacked)
        if s.get("surface") is None:
            t = " ".join(a["title"] for a in f["axes"]).lower()
            word = s["file"].replace("_", " ").lower().replace("rf filteredrf", "filtered rf")
            mon.check(word in t, key + ":title", "%s is titled %r" % (s["file"], t)); mon.count("titles judged")
            if job.station is not None:
                mon.check(re.search(r"(?<!\w)%s(?!\w)" % re.escape(job.station.lower()), t) is not None, key + ":title-station", "%s is titled %r, which does not name station %s" % (s["file"], t, job.station))
            continue
        ax = surface_axis(f)
        if not mon.check(ax is not None, key + ":surface", "%s shows no surface" % s["file"]):
            continue
        tied = None
        if job.kind in ("wf", "wfmp"):
            v = np.asarray(s["surface"], float)
            z = -v[:, 2] if s["note"].startswith("Root") else v[:, 2]
            tied = v[z >= z.max() - 1e-6 * (abs(z.max()) + 1e-300)]
            t = [a["title"] for a in f["axes"] if a["title"]]
            mon.check(any(s["note"].lower() in x.lower() for x in t) and not any(l.lower() in x.lower() for l in calls.WFLABELS if l != s["note"] for x in t),
                      key + ":title", "%s is titled %s" % (s["file"], t)); mon.count("titles judged")
        judge_legend(mon, key + ":legend", ax, s["best"], 0.0011, job.station, tied)
        judge_axes(mon, key + ":axes", ax)
        if job.kind in ("hk", "hkSeq"):
            labs = [a["ylabel"].lower() for a in f["axes"] if a is not ax and a["ylabel"]]
            want = [] if stacked else ["azimuth", "distance"]
            mon.check(all(any(w in l for l in labs) for w in want), key + ":panels", "%s: panels labelled %s" % (s["file"], labs))
            for a in f["axes"]:
                w = "azimuth" if "azimuth" in a["ylabel"].lower() else "distance" if "distance" in a["ylabel"].lower() else None
                if w and not stacked:
                    # the panel of that name is the one drawn at those back-azimuths or distances
                    p = s["panels"][0 if w == "azimuth" else 1]["curves"]
                    ok = all(any(len(l["x"]) == len(x) and np.allclose(l["y"], y, rtol=0, atol=1e-6 * (np.max(np.abs(y)) + 1e-300)) for l in a["lines"]) for x, y, _ in p)
                    mon.check(ok, key + ":panel-name", "%s: the panel labelled %r shows other curves" % (s["file"], a["ylabel"]))
                    mon.count("panel names judged")

def judge_names(mon, key, job, s, f, stacked):
    """Axes named after what they carry: time for RFs and filters, depth for velocities."""
    if job.kind not in ("filt", "filtSynth", "wf", "wfmp", "hkSynth") and (stacked or job.kind not in ("hk", "hkSeq")):
        return                                       # these panels carry no names
    for k, p in enumerate(s["panels"]):
        hit = [a for a in f["axes"] if all(any(len(l["x"]) == len(x) and np.allclose(l["x"], x, rtol=0, atol=2e-4) and np.allclose(l["y"], y, rtol=0, atol=1e-6 * (np.max(np.abs(y)) + 1e-300)) for l in a["lines"]) for x, y, _ in p["curves"])]
        if not hit:
            continue                                 # C17 judges the curves
        lab = (hit[0]["ylabel"] if s.get("note") and k == 1 else hit[0]["xlabel"]).lower()
        want = "depth" if s.get("note") and k == 1 else "time"
        mon.count("axis names judged")
        mon.check(want in lab, key + ":axis-name", "%s: the %s axis of panel %d is named %r" % (s["file"], want, k, lab))

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    kind = rng.choice(["wf", "wfmp"]) if i % 24 in (5, 18) else KINDS[(i + i // 8) % len(KINDS)]
    job = calls.make(rng, nr, kind)
    silent = kind in ("filt", "filtSynth") and rng.random() < .3
    if silent:                                       # a dead channel: nothing to find
        for d in ([tr.data for tr in job.args[0]] if kind == "filt" else [job.args[0]]):
            d[:] = 0
    mon.describe(kind=kind, job=job.desc, case=i)
    a = dict(zip(job.names, job.args))
    st = a.get("rfstreamMoho", a.get("rfstream"))
    job.station = st[0].stats.station if st is not None else None
    if kind == "hkSeq" and len({x[0].stats.station for x in (a["rfstreamSed"], st)}) > 1:
        job.station = None                           # streams of two stations: either name will do
    figs.plt.close("all")
    mine = rng.random() < .5
    if mine:                                         # a figure of the user's own is open, with a legend
        figs.plt.figure(); figs.plt.plot([0, 1, 2], [5, 6, 7], label="mine 3.25 km"); figs.plt.legend()
        mon.count("analyses with a figure open")
    with figs.Capture(write=False, shown=True) as cap:
        r = job.run(mon)
    text = mon.stdout
    figs.plt.close("all")
    if kind in ("filt", "filtSynth"):
        none = float(r["tlag"]) == 0
        mon.check(("no reverberation" in text.lower()) == none, kind + ":report", "lag %r, printed %r" % (r["tlag"], text[:200]))
        mon.count("reports judged"); mon.count("reverberation absent", none)
        if silent:
            mon.check(none, kind + ":report", "a reverberation at %r s found in a silent record" % r["tlag"])
            mon.nontriv()
            return
    elif kind not in ("wf", "wfmp"):
        judge_text(mon, kind, job, r, text)
        judge_screen(mon, kind, r, cap.shown)
    G = [75., 10., 15., 2.5]
    rm = rng.choice([True, False])
    specs = job.spec(r, G, rm and job.clips)
    fmt = rng.choice(["png", "jpg", "pdf"])
    if rng.random() < .4:
        figs.plt.figure(); figs.plt.plot([0, 1], [1, 0], label="mine 1.5"); figs.plt.legend()
    with figs.Capture(write=False) as cap:
        if job.clips:
            mon.call("plot " + kind, job.plot, r, mon.newdir(), G, rm, fmt)
        else:
            mon.call("plot " + kind, job.plot, r, mon.newdir(), fmt)
    figs.plt.close("all")
    stacked = bool(a.get("stack"))
    judge_plot(mon, kind, job, specs, cap, stacked)
    if kind in ("wf", "wfmp"):
        if kind == "wfmp":
            s = job.solutions(r)
            wf.check_report(mon, kind, mon.stdout, s, job.weights)
            mon.count("reports judged")
        else:
            wf.check_report(mon, kind, text, job.solutions(r), job.weights)
            mon.count("reports judged")
    mon.count("judged " + kind)
    mon.nontriv()
