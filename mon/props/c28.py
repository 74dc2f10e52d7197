"""The same values stored otherwise: results must not change."""
import copy, os, pickle
import numpy as np
import calls, figs, gen, ops, rec, wf
from common import close, maxdiff

def array(rng, x, ints=True):
    """The same numbers in another array, and how."""
    x = np.asarray(x)
    how = rng.choice(["read-only", "strided", "reversed view", "big-endian", "unaligned", "column", "memmap-like"])
    if ints and x.size and x.dtype.kind in "fi" and np.all(x == np.round(x)) and rng.random() < .6:
        if x.dtype.kind == "f":
            return x.astype(rng.choice([np.int64, np.int32])), "integers"
        return x.astype(float), "floats"
    if how == "read-only":
        y = x.copy(); y.flags.writeable = False
    elif how == "strided":
        y = np.repeat(x, 3)[1::3]
    elif how == "reversed view":
        y = x[::-1].copy()[::-1]
    elif how == "big-endian":
        y = x.astype(x.dtype.newbyteorder(">"))
    elif how == "unaligned":
        b = np.zeros(x.nbytes + 1, np.uint8)
        y = b[1:].view(x.dtype); y[:] = x
    elif how == "column":
        y = np.asfortranarray(np.stack([x, x * 0, x * 0], axis=1)).T.copy().T[:, 0]
    else:
        y = np.frombuffer(x.tobytes(), dtype=x.dtype)
    assert np.array_equal(np.asarray(y, x.dtype), x)
    return y, how

def scalar(rng, v, name=""):
    if name in ("itmax", "n", "ipha"):               # counts and codes stay integers
        f = rng.choice([int, np.int64, np.int32])
        return f(v), f.__name__
    if isinstance(v, bool):
        return v, "bool"
    if isinstance(v, str):
        return "".join(list(v)), "equal string"
    if float(v) == int(v) and rng.random() < .7:
        f = rng.choice([int, float, np.int64, np.float64])
    else:
        f = rng.choice([float, np.float64])
    return f(v), f.__name__

def stream(rng, st):
    how = rng.choice(["pickled", "other arrays", "extra headers", "sliced", "copied", "location spelled", "rebuilt"])
    s = st.copy()
    if how == "pickled":
        s = pickle.loads(pickle.dumps(st))
    elif how in ("other arrays", "rebuilt"):
        hs = []
        for t in s:
            t.data, h = array(rng, np.array(t.data)); hs.append(h)
        how = "%s (%s)" % (how, ", ".join(sorted(set(hs))))
        if how.startswith("rebuilt"):
            s = type(st)(traces=[t for t in s.traces])
    elif how == "extra headers":
        for t in s:
            t.stats.inclination = rng.uniform(10, 60); t.stats.moveout = "P"; t.stats.comment = "mine"
            t.stats.processing = ["a note"]
    elif how == "sliced":                            # cut from longer records
        for t in s:
            k = rng.randint(1, 40)
            d = np.concatenate([np.full(k, 9.0), t.data, np.full(7, 9.0)])
            t.data = d[k:k + len(t.data)]
    elif how == "location spelled":
        for t in s:
            t.stats.location = {"": "00", "00": ""}.get(t.stats.location, t.stats.location)
        if len({(t.stats.location) for t in s}) != len({(t.stats.location) for t in st}):
            s, how = st.copy(), "copied"
    return s, how

def other(rng, a, name):
    """(the same argument stored otherwise, how)"""
    if a is None or rng.random() < .25:
        return (a.copy() if hasattr(a, "traces") else copy.deepcopy(a)), None
    if hasattr(a, "traces"):
        return stream(rng, a)
    if isinstance(a, np.ndarray):
        return array(rng, a)
    if isinstance(a, dict):
        out, hs = {}, []
        keys = list(a); rng.shuffle(keys)
        for k in keys:
            out[k], h = other(rng, a[k], k); hs.append("%s: %s" % (k, h))
        return out, "dict"
    if isinstance(a, (list, tuple)):
        return type(a)(scalar(rng, x)[0] if np.isscalar(x) else other(rng, x, name)[0] for x in a), "list"
    if isinstance(a, (int, float, str, np.generic)):
        return scalar(rng, a, name)
    return a, None

def plain(x):
    """Values only: numbers as floats, arrays as float arrays."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "fiub":
        return np.array(x, float)
    if isinstance(x, (bool, str, bytes, type(None))):
        return x
    if isinstance(x, (int, float, np.generic)) and not isinstance(x, (complex, np.complexfloating)):
        return float(x)
    if hasattr(x, "traces"):                         # the samples: headers may name the same thing otherwise
        return [np.array(t.data, float) for t in x]
    if isinstance(x, dict) or hasattr(x, "items"):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x

class Same:
    """A job whose results are compared by value."""
    def __init__(self, job):
        self.kind, self.case = job.kind, getattr(job, "case", None)
        self.solutions = getattr(job, "solutions", None)

def draw_figures(mon, job, r, path):
    with figs.Capture(write=False) as cap:
        if job.clips:
            mon.call("plot " + job.kind, job.plot, r, path, [75., 10., 15., 2.5], True, "png")
        else:
            mon.call("plot " + job.kind, job.plot, r, path, "png")
    figs.plt.close("all")
    out = []
    for f in cap.saved:
        out.append((os.path.basename(str(f["path"])), [[(l["x"], l["y"]) for l in a["lines"]] for a in f["axes"]], [x for _, s in f["surfaces"] for x in s]))
    return out

def same_figures(a, b):
    if [x[0] for x in a] != [x[0] for x in b]:
        return "files %s became %s" % ([x[0] for x in a], [x[0] for x in b])
    for (n, p, s), (_, q, t) in zip(a, b):
        fa = [v for ax in p for l in ax for v in l] + list(s)
        fb = [v for ax in q for l in ax for v in l] + list(t)
        if len(fa) != len(fb):
            return "%s shows %d curves instead of %d" % (n, len(fb) // 2, len(fa) // 2)
        for x, y in zip(fa, fb):
            if len(x) != len(y) or (len(x) and not np.allclose(x, y, rtol=0, atol=1e-7 * (1e-300 + np.max(np.abs(x))))):
                return "%s shows another curve" % n
    return None

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    if i % 3 == 2:
        what = ["iter", "water", "trace", "forward", "synrf"][(i // 3 + i // 24) % 5]
        q = ops.draw(rng, nr, what, mon.newdir())
        if rng.random() < .4 and "preonset" in q:
            q["dt"] = rng.choice([0.1, 0.25, 0.5])
        if rng.random() < .5:                        # integer-valued requests
            for k in ("u", "w"):
                if k in q:
                    q[k] = np.round(10 * q[k] / np.max(np.abs(q[k])))
        if "mdl" in q and rng.random() < .5:
            q["mdl"][0] = np.round(q["mdl"][0]) + 1.0
            q["mdl"][1] = np.ceil(q["mdl"][1])
        first = mon.call(what, ops.OPS[what], **copy.deepcopy(q))
        for _ in range(2):
            p, hs = {}, {}
            for k, v in q.items():
                p[k], h = other(rng, v, k)
                if h:
                    hs[k] = h
            if "ps" in p and len(p["ps"]) and rng.random() < .5:
                p["ps"] = array(rng, np.array(p["ps"], float), ints=False)[0]
            mon.describe(op=what, hs=str(hs), n=len(q), case=i)
            again = mon.call(what, ops.OPS[what], **p)
            ok = len(first) == len(again) and all(close(a, b, 1e-9 * (1e-300 + np.max(np.abs(a)))) for a, b in zip(first, again))
            mon.check(ok, what + ":storage", "%s gives another result for %s" % (what, hs))
            mon.count("requests compared")
        mon.count("judged " + what); mon.nontriv()
        return
    kind = rng.choice(["wf", "wfmp"]) if i % 24 in (4, 15) else calls.LIGHT[(i + i // 8) % 7]
    job = calls.make(rng, nr, kind)
    if "H" in job.names and rng.random() < .5:       # whole kilometres
        k = job.names.index("H"); h = np.unique(np.round(job.args[k]).astype(float)); job.args[k] = h if len(h) > 1 else np.array([30.0, 35.0])
    if rng.random() < .35 and kind not in ("wf", "wfmp"):    # counts, as digitizers give
        for a in job.args:
            for x in ([t.data for t in a] if hasattr(a, "traces") else [a] if isinstance(a, np.ndarray) and len(a) > 100 else [a["filteredrf"], a["rf"]] if isinstance(a, dict) else []):
                if kind not in ("hkSynth", "hkSeqSynth", "filtSynth") or x is not job.arg("time"):
                    m = np.max(np.abs(x))
                    x[:] = np.round(rng.choice([30, 300, 5000]) * x / m) if m > 0 else x
        mon.count("integer-valued data")
    keep = [a.copy() if hasattr(a, "traces") else copy.deepcopy(a) for a in job.args]
    r = job.run(mon, keep)
    want = plain(r)
    fig = draw_figures(mon, job, r, mon.newdir()) if kind not in ("wf", "wfmp") and (i % 2 or "layer" in job.names) else None
    for _ in range(2 if kind not in ("wf", "wfmp") else 1):
        args, hs = [], {}
        for n, a in zip(job.names, job.args):
            if n == "stack" or n == "savepath":
                args.append(a); continue
            b, h = other(rng, a, n)
            args.append(b)
            if h:
                hs[n] = h; mon.count("stored as " + (h if "(" not in h else "other arrays"))
        mon.describe(kind=kind, job=job.desc, hs=str(hs), case=i)
        snaps = [calls.snap(a) for a in args]
        r2 = job.run(mon, args)
        s = Same(job)
        if kind in ("wf", "wfmp"):
            calls.same_result(mon, kind + ":storage", job, r, r2, "arguments stored as %s" % hs)
        else:
            calls.same_result(mon, kind + ":storage", s, want, plain(r2), "arguments stored as %s" % hs)
        mon.count("results compared")
        for n, a, b in zip(job.names, snaps, args):
            d = calls.diff(a, calls.snap(b), n)
            mon.check(d is None, kind + ":argument-changed", "%s" % d)
        if fig is not None:
            tied = any(k.startswith("bestmodel") and not np.allclose(np.asarray(plain(r)[k], float), np.asarray(plain(r2)[k], float)) for k in want) if isinstance(want, dict) else False
            if not tied:
                d = same_figures(fig, draw_figures(mon, job, r2, mon.newdir()))
                mon.check(d is None, kind + ":figures", "arguments stored as %s: %s" % (hs, d))
                mon.count("figures compared", len(fig))
                if "layer" in hs:
                    mon.count("figures compared, layer %s as an equal string" % job.arg("layer"))
    mon.count("judged " + kind)
    mon.nontriv()
