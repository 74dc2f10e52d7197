"""What surrounds a call - process state, files, descriptors - is neither changed by it nor decides its result."""
import contextlib, io, os, random, sys, time, warnings, zlib
import numpy as np
import ambient, calls, common, figs, ops, rec, sched

KIND = ["job", "job", "plot", "plot", "request", "serial", "parallel", "windows", "failing", "failing", "util"]

def setup(mon):
    if hasattr(mon, "files"):
        return
    import importlib, pkgutil, rfsed
    for m in ("hkZhu", "hkSeqYeck", "hkYu", "ReverbFilter", "SynthAnalysis", "WaveformFitting", "WaveformFittingMultiproc", "ExtractEq", "ExtractEqMultiproc", "synrf", "util"):
        importlib.import_module("rfsed." + m)
    figs.plt.figure(); figs.plt.plot([0, 1]); figs.plt.savefig(os.path.join(mon.scratch, "warm.png")); figs.plt.close("all")
    mon.files = ambient.Files(os.path.join(mon.scratch, "opened"))
    mon.libs = tuple(os.path.realpath(p) + os.sep for p in {sys.prefix, sys.base_prefix, "/usr", "/etc", "/proc", "/dev", "/opt/venv", "/lib", "/sys", os.path.join(os.getcwd(), "pyc"),
                     os.environ["MPLCONFIGDIR"], os.path.dirname(figs.matplotlib.__file__), common.SRC, os.path.dirname(os.path.abspath(common.__file__))})

class Fault:
    """One of the calls a figure is made by fails, the first time or later."""
    def __init__(self, rng, of=("savefig", "savefig", "show", "tricontourf", "legend", "close")):
        self.what, self.left = rng.choice(of), rng.choice([0, 0, 0, 1, 2])
        self.where = {"savefig": figs.Figure, "tricontourf": figs.Axes}.get(self.what, figs.plt)
    def __enter__(self):
        self.real = getattr(self.where, self.what)
        def f(*a, **k):
            self.left -= 1
            if self.left == -1:
                raise OSError(28, "No space left on device (injected)")
            return self.real(*a, **k)
        setattr(self.where, self.what, f)
        return self
    def __exit__(self, *a):
        setattr(self.where, self.what, self.real)

class World:
    """The surroundings of a call."""
    def __init__(self, rng, mon):
        self.d = mon.newdir()
        self.seed = rng.randrange(10 ** 6)
        self.rc = {k: v for k, v in {"figure.figsize": rng.choice([[4, 3], [9, 9]]), "lines.linewidth": rng.choice([0.3, 4]), "font.size": rng.choice([6, 20]), "image.cmap": "gray", "axes.grid": rng.random() < .5,
                   "axes.prop_cycle": figs.matplotlib.cycler(color=["r", "g"])}.items() if rng.random() < .6}
        self.err = rng.choice(["ignore", "warn"]); self.prec = rng.choice([2, 8, 17]); self.tz = rng.choice(["UTC", "Asia/Tokyo", "America/New_York"])
        self.warn = rng.choice(["ignore", "always", "default"])
        self.home = os.path.join(self.d, "home"); os.makedirs(self.home)
        self.tempt = ambient.Tempting([self.d], common.SRC, rng.choice(["1", "0", "true", "2"])) if rng.random() < .6 else None
        for f in rng.sample(["rf.h5", "result.pickle", "catalog.xml", "cache.npz", "rfstreams.h5", "out.pickle", "plots.txt", ".rfsed"], 3):
            with open(os.path.join(self.d, f), "wb") as g:
                g.write(b"not yours")
    def __enter__(self):
        self.s = os.getcwd(), np.random.get_state(), random.getstate(), np.geterr(), np.get_printoptions(), dict.copy(figs.matplotlib.rcParams), {k: os.environ.get(k) for k in ("TZ", "HOME")}, warnings.filters[:]
        os.chdir(self.d); np.random.seed(self.seed); random.seed(self.seed); np.seterr(all=self.err); np.set_printoptions(precision=self.prec)
        figs.matplotlib.rcParams.update(self.rc)
        os.environ["HOME"] = self.home; os.environ["TZ"] = self.tz; time.tzset(); warnings.simplefilter(self.warn); warnings.filterwarnings("ignore", module="nothing_of_this_name")
        if self.tempt: self.tempt.__enter__()
        return self
    def __exit__(self, *a):
        if self.tempt: self.tempt.__exit__()
        cwd, st, pst, err, po, rc, tz, wf = self.s
        os.chdir(cwd); np.random.set_state(st); random.setstate(pst); np.seterr(**err); np.set_printoptions(**po)
        dict.update(figs.matplotlib.rcParams, rc)
        for k, v in tz.items():
            if v is None: os.environ.pop(k, None)
            else: os.environ[k] = v
        time.tzset(); warnings.filters[:] = wf

def watched(mon, key, fn, outputs, inputs, fails=False):
    """Run fn; -> its result. The surroundings must be what they were, and only the outputs be written."""
    out = tuple(os.path.realpath(p) for p in outputs); inp = tuple(os.path.realpath(p) for p in inputs)
    inside = lambda p, ds: any(p == d or p.startswith(d.rstrip(os.sep) + os.sep) for d in ds)
    import tempfile
    tmp0 = set(os.listdir(tempfile.gettempdir())); cwd0 = set(os.listdir("."))
    sink = io.StringIO()
    so, se = sys.stdout, sys.stderr
    failed = None; r = None
    with contextlib.redirect_stdout(sink):
        a = ambient.snapshot()
        with mon.files as F:
            try:
                r = fn()
            except Exception as e:
                failed = e
        b = ambient.snapshot()
    ch = ambient.changes(a, b)
    if any("standard streams" in c for c in ch):
        sys.stdout, sys.stderr = so, se
    mon.count("calls watched"); mon.count("failed calls watched", failed is not None); mon.count("ambient values compared", len(a))
    mon.check(not ch, key + ":ambient", "the call%s changed: %s" % (" that failed" if failed else "", "; ".join(ch)))
    ambient.restore(a)
    if failed is not None and not fails:
        mon.violation("raises:" + key, "%s: %s" % (type(failed).__name__, failed)); raise common.Abandon()
    W = {os.path.realpath(p) for p in F.written if not os.path.realpath(p).startswith(("/dev/", "/proc/"))}
    mon.count("files seen written", len(W)); mon.count("files seen read", len(F.read))
    W -= {os.path.realpath(os.path.join(mon.scratch, "ev"))}
    stray = [p for p in W if not inside(p, out) and (os.path.exists(p) or not inside(p, [os.path.realpath(tempfile.gettempdir())]))
             and not inside(p, [os.path.realpath(os.environ["MPLCONFIGDIR"]), os.path.join(os.path.realpath(mon.scratch), "pyc")])]
    mon.check(not stray, key + ":written", "files opened for writing that nobody asked for: %s" % stray[:4])
    R = [os.path.realpath(p) for p in F.read]
    odd = [p for p in R if not p.startswith(mon.libs) and not inside(p, inp + out) and os.path.isfile(p) and p not in W]
    mon.check(not odd, key + ":read", "files read that are no input: %s" % odd[:4])
    left = [f for f in os.listdir(tempfile.gettempdir()) if f not in tmp0 and not inside(os.path.realpath(os.path.join(tempfile.gettempdir(), f)), out + (os.path.realpath(mon.scratch) + "/ev",))]
    left = [f for f in left if f not in ("pyc", "ev", "opened")]
    mon.check(not left, key + ":temporary", "left in the temporary folder: %s" % left[:4])
    left = [f for f in os.listdir(".") if f not in cwd0 and not inside(os.path.realpath(f), out) and f not in ("pyc", "ev", "opened")]
    mon.check(not left, key + ":cwd", "left in the working folder: %s" % left[:4])
    return r, sink.getvalue(), failed

def repeated(mon, key, fn):
    """Descriptors and threads must not grow with every call."""
    import threading
    def after(calls, collect=1):
        for _ in range(calls):
            with contextlib.redirect_stdout(io.StringIO()):
                fn()
        return len(ambient.descriptors(collect)), threading.active_count()
    n = [after(1), after(2)]
    mon.count("calls repeated for descriptors")
    if n[1][0] > n[0][0] or n[1][1] > n[0][1]:
        ambient.descriptors(6); n = [after(1, 6), after(1, 6), after(2, 6)]   # what only awaits finalizers is not kept
        mon.check(not (n[0][0] < n[1][0] < n[2][0]), key + ":descriptors", "open descriptors after one, two and four further calls: %s, e.g. %s" % ([x[0] for x in n], list(ambient.descriptors().values())[-3:]))
        mon.check(not (n[0][1] < n[1][1] < n[2][1]), key + ":threads", "threads after one, two and four further calls: %s" % [x[1] for x in n])

def arrays_equal(x, y):
    return len(x) == len(y) and all(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=1e-9 * (np.max(np.abs(b)) + 1e-300) if np.size(b) else 0) for a, b in zip(x, y))

def content(path):
    from obspy import read
    st = read(path)
    return [(t.id, str(t.stats.starttime), len(t.data), np.asarray(t.data, float).tolist(), str(t.stats.get("onset"))) for t in st]

def jobs(mon, rng, nr, plot):
    kind = rng.choice(calls.LIGHT) if rng.random() < (.93 if plot else .85) else rng.choice(["wf", "wfmp"])
    j = calls.make(rng, nr, kind)
    mon.describe(kind=kind, job=j.desc, plot=plot)
    d = mon.newdir(); there = [d] if kind == "wf" else []
    def run():
        a = list(j.args)
        if kind == "wf":
            a[j.names.index("savepath")] = d
        return j.fn(*a)
    r, text, _ = watched(mon, kind, run, there, [])
    w = World(rng, mon)
    if not plot:
        with w:
            r2, text2, _ = watched(mon, kind, run, there, [])
        calls.same_result(mon, kind + ":surroundings", j, r, r2, "the same call in other surroundings (%s)" % sorted(vars(w)))
        mon.check(text == text2, kind + ":report", "printed %r, in other surroundings %r" % (text[:200], text2[:200]))
        mon.count("results compared across surroundings")
        if kind not in ("wf", "wfmp") and rng.random() < .3:
            repeated(mon, kind, run)
        figs.plt.close("all")
        return
    fmt = rng.choice(["png", "pdf", "svg"])
    target = mon.newdir()
    p = (lambda: j.plot(r, target, fmt)) if not j.clips else (lambda: j.plot(r, target, None, rng.choice([True, False]), fmt))
    real = rng.random() < .2
    with figs.Capture(write=real, dpi=8) as c1:
        watched(mon, "plot " + kind, p, [target], [])
    if j.clips:
        p = lambda: j.plot(r, target, None, True, fmt)
        with figs.Capture(write=False) as c1:
            watched(mon, "plot " + kind, p, [target], [])
    with w, figs.Capture(write=False) as c2:
        watched(mon, "plot " + kind, p, [target], [])
    figs.plt.close("all")
    key = "plot %s:surroundings" % kind
    if mon.check(len(c1.saved) == len(c2.saved), key, "%d figures, in other surroundings %d" % (len(c1.saved), len(c2.saved))):
        for f, g in zip(c1.saved, c2.saved):
            same = os.path.basename(str(f["path"])) == os.path.basename(str(g["path"])) and len(f["axes"]) == len(g["axes"])
            if same:
                for x, y in zip(f["axes"], g["axes"]):
                    same &= len(x["lines"]) == len(y["lines"]) and x["legend"] == y["legend"] and x["title"] == y["title"] and all(
                        arrays_equal([l["x"], l["y"]], [m["x"], m["y"]]) for l, m in zip(x["lines"], y["lines"]))
                for (_, x), (_, y) in zip(f["surfaces"], g["surfaces"]):
                    same &= arrays_equal(x, y)
            mon.check(bool(same), key, "%s shows other data in other surroundings" % f["path"])
            mon.count("figures compared across surroundings")

def request(mon, rng, nr):
    what = rng.choice(["iter", "water", "trace", "forward", "synrf"])
    q = ops.draw(rng, nr, what, mon.scratch)
    mon.describe(what=what, q={k: (v if not isinstance(v, np.ndarray) else v.shape) for k, v in q.items() if k != "d"})
    fn = lambda: ops.OPS[what](**q)
    r, _, _ = watched(mon, what, fn, [], [])
    with World(rng, mon):
        r2, _, _ = watched(mon, what, fn, [], [])
    mon.check(arrays_equal(r2, r), what + ":surroundings", "another result in other surroundings")
    mon.count("results compared across surroundings")
    if rng.random() < .3:
        repeated(mon, what, fn)

def recorded(mon, rng):
    from obspy import UTCDateTime as UTC
    d = mon.newdir(); data = os.path.join(d, "rec"); os.makedirs(data)
    recs, notes = rec.make_files(rng, data, "a", UTC(2016, 2, 3), nfiles=rng.choice([1, 2, 3]), maxlen=2500)
    w = (5, 20)
    wins = []
    for _ in range(3):
        k, tr = rng.choice(rng.choice(recs)[1])
        a, b = rec.span(tr)
        if b - a > 26:
            s = UTC(a) + rng.uniform(0.1, b - a - 25.1)
            wins.append((s, s + 25, s + 5))
    return d, data, recs, notes, wins, w

def serial(mon, rng):
    from rfsed.ExtractEq import ExtractEq
    d, data, recs, notes, wins, w = recorded(mon, rng)
    if not wins:
        return
    sta, place = (52.1, 6.9), (10.0, 30.0, 33000.0)
    P = rec.first_arrival(33.0, rec.haversine_deg(*sta, 10.0, 30.0))
    cat = os.path.join(d, "cat.xml"); rec.save_catalog(cat, [rec.event(o - P, *place) for _, _, o in wins])
    mon.describe(notes=notes, nwin=len(wins))
    run = lambda p: (lambda: ExtractEq(os.path.join(data, ""), p, cat, sta[0], sta[1], [-5, 20]))
    o1, o2 = os.path.join(d, "o1.pickle"), os.path.join(d, "o2.pickle")
    with rec.CachedTauP():
        watched(mon, "ExtractEq", run(o1), [o1], [data, cat])
        with World(rng, mon):
            watched(mon, "ExtractEq", run(o2), [o2], [data, cat])
        mon.check(content(o1) == content(o2), "ExtractEq:surroundings", "another extraction in other surroundings")
        mon.count("results compared across surroundings")
        repeated(mon, "ExtractEq", run(o1))

def parallel(mon, rng):
    from rfsed import ExtractEqMultiproc as M
    d, data, recs, notes, wins, w = recorded(mon, rng)
    if not wins:
        return
    files = [p for p, _ in recs]; tw = [[{"eqstart": a, "eqend": b, "onset": o}] for a, b, o in wins]
    mon.describe(notes=notes, nwin=len(wins))
    run = lambda p: (lambda: M.ExtractEq_Multiproc(files, tw, 2, p))
    o1, o2 = os.path.join(d, "o1.pickle"), os.path.join(d, "o2.pickle")
    watched(mon, "ExtractEq_Multiproc", run(o1), [o1], [data])
    with World(rng, mon):
        watched(mon, "ExtractEq_Multiproc", run(o2), [o2], [data])
    mon.check(content(o1) == content(o2), "ExtractEq_Multiproc:surroundings", "another extraction in other surroundings")
    mon.count("results compared across surroundings")
    repeated(mon, "ExtractEq_Multiproc", run(o1))

def windows(mon, rng):
    from rfsed import ExtractEqMultiproc as M
    from obspy import UTCDateTime as UTC
    d = mon.newdir(); cat = os.path.join(d, "cat.xml")
    rec.save_catalog(cat, [rec.event(UTC(2015, 1, 1) + rng.uniform(0, 3e7), 10.0, 30.0, 33000.0) for _ in range(3)])
    n = rng.choice([1, 2])
    def run():
        C = M.Add_sta_time_2cat(cat, 52.1, 6.9, [-50, 150])
        w = M.Get_Eqtimes_multiproc(C, n) if n > 1 else [M.Eq_times(e) for e in C]
        return [float(x[0][k] - UTC(2015, 1, 1)) for x in w for k in ("eqstart", "onset", "eqend")]
    mon.describe(what="windows", n=n)
    with rec.CachedTauP():
        r, _, _ = watched(mon, "windows", run, [], [cat])
        with World(rng, mon):
            r2, _, _ = watched(mon, "windows", run, [], [cat])
        mon.check(np.allclose(r, r2, rtol=0, atol=1e-5), "windows:surroundings", "other windows in other surroundings")
        mon.count("results compared across surroundings")
        if rng.random() < .3:
            repeated(mon, "windows", run)

def failing(mon, rng, nr):
    """Calls that must fail leave the surroundings alone too."""
    from rfsed.ExtractEq import ExtractEq
    from rfsed import ExtractEqMultiproc as M, synrf as S
    d = mon.newdir()
    what = rng.choice(["plot", "plot", "plot", "analysis", "extract", "parallel", "deconvolution", "catalog", "arguments"])
    mon.describe(what=what)
    if what == "analysis":
        kind = rng.choice(calls.LIGHT); j = calls.make(rng, nr, kind)
        with Fault(rng, ("show", "tricontourf", "legend", "close")) as f:
            mon.describe(kind=kind, fault=f.what)
            watched(mon, kind, lambda: j.fn(*j.args), [], [], True)
        figs.plt.close("all")
    elif what == "plot":
        done = []
        for kind in rng.sample(calls.LIGHT, 4) if rng.random() < .9 else ["wf"]:
            j = calls.make(rng, nr, kind)
            r = j.run(mon); good = mon.newdir()
            how = rng.choice(["folder", "format", "fault", "fault", "fault"])
            t = os.path.join(good, "no", "such") if how == "folder" else good
            fmt = "nosuch" if how == "format" else "png"
            p = (lambda: j.plot(r, t, fmt)) if not j.clips else (lambda: j.plot(r, t, None, True, fmt))
            with figs.Capture(write=how == "format", dpi=8):
                if how == "fault":
                    with Fault(rng) as f:
                        done.append((kind, how, f.what)); mon.describe(done=done)
                        watched(mon, "plot " + kind, p, [t], [], True)
                else:
                    done.append((kind, how)); mon.describe(done=done)
                    watched(mon, "plot " + kind, p, [t], [], True)
            figs.plt.close("all")
    elif what == "arguments":
        kind = rng.choice(calls.LIGHT); j = calls.make(rng, nr, kind)
        k = rng.randrange(len(j.args)); mon.describe(kind=kind, spoiled=j.names[k])
        j.args[k] = rng.choice([object(), "x", {}])
        watched(mon, kind, lambda: j.fn(*j.args), [], [], True)
        figs.plt.close("all")
    elif what in ("extract", "catalog"):
        cat = os.path.join(d, "cat.xml")
        if what == "extract":
            rec.save_catalog(cat, [])
        watched(mon, "ExtractEq", lambda: ExtractEq(os.path.join(d, "none"), os.path.join(d, "o.pickle"), cat, 0, 0, [-5, 20]), [os.path.join(d, "o.pickle")], [d], True)
    elif what == "parallel":
        watched(mon, "ExtractEq_Multiproc", lambda: M.ExtractEq_Multiproc([os.path.join(d, "none")], [[{"eqstart": None, "eqend": None, "onset": None}]], 2, os.path.join(d, "o.pickle")),
                [os.path.join(d, "o.pickle")], [d], True)
    else:
        fn = rng.choice([S.deconv_iterative, S.deconv_waterlevel])
        watched(mon, fn.__name__, lambda: fn(nr.randn(50), nr.randn(60), 0.1), [], [], True)

def util(mon, rng):
    from rfsed import util as U
    pkg = os.path.join(common.SRC, "rfsed")
    name = rng.choice(["rfMoho_example", "rfSed_example", "read_raw_waveform_data", "catalog_example", "raw_data_example", "install_examples", "install_rfsed_tests", "save_plot", "save_tests"])
    mon.describe(what=name)
    f = getattr(U, name)
    d = mon.newdir(); t = os.path.join(d, "t")
    run = (lambda: f(t)) if name.startswith("install") else f
    watched(mon, name, run, [t], [pkg])
    with World(rng, mon):
        watched(mon, name, run, [t], [pkg])
    if not name.startswith("install"):
        repeated(mon, name, run)

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    setup(mon)
    what = KIND[(i + i // 8) % len(KIND)]
    figs.plt.close("all")
    if what in ("job", "plot"):
        jobs(mon, rng, nr, what == "plot")
    else:
        {"request": request, "failing": failing}.get(what, lambda *a: None)(mon, rng, nr) if what in ("request", "failing") else {
            "serial": serial, "parallel": parallel, "windows": windows, "util": util}[what](mon, rng)
    mon.count("cases " + what); mon.nontriv()
