"""Injected failures in readers, travel times, forward modelling and targets; what the caller sees, and what is left behind."""
import contextlib, hashlib, io, os, resource, signal, shutil
import numpy as np
from obspy import UTCDateTime as UTC, read
import gen, rec, sched, wf
from common import Abandon

class Odd(Exception):
    """An exception whose instances cannot be sent between processes as they are."""
    def __init__(self, a, b):
        super().__init__(a); self.b = lambda: b

class Hang(BaseException):
    pass

# No StopIteration: the pool itself takes one raised by a task for the end of that task's chunk.
EXC = [lambda: ValueError("injected"), lambda: OSError(5, "injected"), lambda: TypeError("injected"), lambda: KeyError("injected"), lambda: IndexError("injected"),
       lambda: RuntimeError("injected"), lambda: MemoryError("injected"), lambda: EOFError("injected"),
       lambda: FileNotFoundError("injected"), lambda: ZeroDivisionError("injected"), lambda: AssertionError("injected"), lambda: Odd("injected", 2)]

class Fault:
    """Raises at the n-th call per process and key; every firing goes to a file that all processes append to."""
    def __init__(self, mon, match, nth=0, once=False):
        self.path = os.path.join(mon.scratch, "fired"); self.match, self.nth, self.once = match, nth, once
        self.seen = {}; self.exc = mon.rng.choice(EXC)
        if os.path.exists(self.path):
            os.remove(self.path)
    def __call__(self, key):
        if not self.match(key):
            return
        k = (os.getpid(), key); n = self.seen[k] = self.seen.get(k, -1) + 1
        if n < self.nth or (self.once and os.path.exists(self.path)):
            return
        with open(self.path, "a") as f:
            f.write(".")
        raise self.exc()
    def fired(self):
        return os.path.exists(self.path)

def guarded(fn, *a, **k):
    """('ok', result) | ('raised', exception) | ('hangs', None)"""
    def alarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(120)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return "ok", fn(*a, **k)
    except Hang:
        return "hangs", None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return "raised", e
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)

def traces(p):
    return [(t.id, t.stats.starttime.ns, t.stats.delta, len(t.data), hashlib.sha1(np.ascontiguousarray(t.data).tobytes()).hexdigest(),
             UTC(t.stats.onset).ns if "onset" in t.stats else 0) for t in read(p)]

def content(p):
    if not os.path.isfile(p):
        return None
    with open(p, "rb") as f:
        return f.read()

class Runner:
    """Calls under one monitor: outcome, children left, completeness."""
    def __init__(self, mon, key, nproc):
        self.mon, self.key, self.before, self.nproc = mon, key, sched.children(), nproc
    def __call__(self, fn, *a):
        how, r = guarded(fn, *a)
        m = self.mon
        m.check(how != "hangs", self.key + ":hangs", "no answer within 120 s (nproc %s)" % self.nproc)
        left = sched.settled(self.before, 8.0)
        m.check(not left, self.key + ":workers", "%d worker processes left after a call that %s (nproc %s)" % (len(left), how, self.nproc))
        m.count("calls checked for workers left behind")
        if left or how == "hangs":
            m.stop = True                            # what is left would disturb every later case
            raise Abandon()
        return how, r

def judge_output(mon, key, how, r, fired, out, old, base, what):
    """An extraction call: error or full file; a fault that fired and was not reported is a silent loss."""
    mon.count("calls with a fault fired" if fired else "calls without fault")
    if how == "raised":
        mon.check(fired, key + ":raises", "%s raised %s: %s with no fault" % (what, type(r).__name__, r))
        now = content(out)
        if now is not None and now != old:
            try:
                t = traces(out)
            except Exception:
                t = None
            mon.check(t is None or t == base, key + ":partial", "%s raised but left a readable file with %d of %d traces" % (what, len(t or ()), len(base)))
        mon.count("faults reported" if fired else "unexpected errors")
        return
    if not mon.check(os.path.isfile(out), key + ":no-file", "%s returned without writing its file" % what):
        return
    t = traces(out)
    mon.check(t == base, key + (":silent" if fired else ":incomplete"), "%s returned normally with %d traces where %d are complete%s" % (what, len(t), len(base), ", after a failure" if fired else ""))

BAD = ["missing", "garbage", "empty", "directory"]

def spoil(rng, path, d, how):
    """Make a record unreadable; returns the undo."""
    keep = os.path.join(d, "keep")
    shutil.move(path, keep)
    if how == "garbage":
        with open(path, "wb") as f:
            f.write(bytes(rng.randrange(256) for _ in range(700)))
    elif how == "empty":
        open(path, "wb").close()
    elif how == "directory":
        os.makedirs(path)
    def undo():
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.exists(path):
            os.remove(path)
        shutil.move(keep, path)
    return undo

def extraction(mon, rng, parallel):
    import obspy.core.stream as S
    import obspy.taup
    from rfsed import ExtractEqMultiproc as M
    from rfsed.ExtractEq import ExtractEq
    d = mon.newdir(); data = os.path.join(d, "rec"); os.makedirs(data)
    recs, notes = rec.make_files(rng, data, "r", UTC(2016, 2, 3), nfiles=rng.choice([2, 3, 4]), maxlen=2500)
    files = [p for p, _ in recs]
    w = (5, 15)
    if not hasattr(mon, "places"):
        mon.places = [(rng.uniform(-60, 70), rng.uniform(-180, 180), 10000.0) for _ in range(2)]; mon.station = (52.1, 6.9)
    evs, tw = [], []
    for p, trs in recs:                              # one event or two inside every file
        for _ in range(rng.choice([1, 1, 2])):
            k, tr = max(trs, key=lambda x: x[1].stats.npts)
            a, b = rec.span(tr)
            if b - a < w[0] + w[1] + 3:
                continue
            s = a + rng.uniform(1, b - a - w[0] - w[1] - 1)
            lat, lon, dep = rng.choice(mon.places)
            P = rec.first_arrival(dep / 1000, rec.haversine_deg(mon.station[0], mon.station[1], lat, lon))
            t = UTC(round((s + w[0] - P).timestamp, 4))
            evs.append(rec.event(t, lat, lon, dep)); tw.append([{"eqstart": t + P - w[0], "eqend": t + P + w[1], "onset": t + P}])
    if len(evs) < 2:
        mon.count("too little recorded"); return
    cat = os.path.join(d, "cat.xml"); rec.save_catalog(cat, evs)
    nproc = rng.choice([1, 2, 3, len(files) + 1]) if parallel else None
    key = "parallel" if parallel else "serial"
    out = os.path.join(d, "out.pickle")
    run = Runner(mon, key, nproc)
    def call(out):
        if parallel:
            return run(M.ExtractEq_Multiproc, files, tw, nproc, out)
        with rec.CachedTauP():
            return run(ExtractEq, os.path.join(data, "r"), out, cat, mon.station[0], mon.station[1], [-w[0], w[1]])
    how, r = call(out)
    if not mon.check(how == "ok", key + ":raises", "extraction raised %s: %s on readable records" % (type(r).__name__, r)):
        raise Abandon()
    base = traces(out)
    mon.require(len(base) > 0, key + ":empty", "nothing extracted")
    faults = []
    for _ in range(rng.choice([2, 3])):
        kind = rng.choice(["reader", "reader", "file", "target", "event", "size"] + (["window"] if parallel else ["catalog"]))
        faults.append(kind); mon.describe(key=key, files=len(files), events=len(evs), nproc=nproc, faults=faults)
        if rng.random() < .5 and os.path.exists(out):
            os.remove(out)
        old = content(out)
        what = "%s with a failing %s" % (key, kind)
        if kind == "reader":
            bad = rng.choice(files)
            once = rng.random() < .3
            f = Fault(mon, lambda k: k == bad, nth=rng.choice([0, 0, 1, 2]), once=once)
            with sched.Sched(os.path.join(mon.scratch, "ev"), S, "_read", fault=lambda name, *a, **k: f(str(name)), delay=lambda *a, **k: rng.random() * 0.005):
                how, r = call(out)
            judge_output(mon, key, how, r, f.fired(), out, old, base, what + (" (once)" if once else ""))
            mon.count("reader faults fired", f.fired())
        elif kind == "file":
            bad = rng.choice(files); form = rng.choice(["garbage", "empty", "directory"] if not parallel else BAD)
            undo = spoil(rng, bad, d, form)
            try:
                read(bad); broken = False
            except Exception:
                broken = True
            if broken:
                how, r = call(out)
                judge_output(mon, key, how, r, True, out, old, base, what + " (%s)" % form)
                mon.count("unreadable files met")
            undo()
        elif kind == "event":
            if parallel:
                continue
            n = rng.randrange(len(evs))
            f = Fault(mon, lambda k: True, nth=n)
            with sched.Sched(os.path.join(mon.scratch, "ev"), obspy.taup.TauPyModel, "get_travel_times", fault=lambda *a, **k: f("tt")):
                how, r = run(ExtractEq, os.path.join(data, "r"), out, cat, mon.station[0], mon.station[1], [-w[0], w[1]])
            judge_output(mon, key, how, r, f.fired(), out, old, base, what)
            mon.count("travel time faults fired", f.fired())
        elif kind == "window":
            n = rng.randrange(len(tw)); bad = [list(x) for x in tw]
            bad[n] = rng.choice([[{k: v for k, v in tw[n][0].items() if k != "onset"}], [], [{"eqstart": tw[n][0]["eqstart"]}], None])
            how, r = run(M.ExtractEq_Multiproc, files, bad, nproc, out)
            judge_output(mon, key, how, r, True, out, old, base, what)
            mon.count("malformed windows met")
        elif kind == "catalog":
            p = os.path.join(d, "bad.xml")
            form = rng.choice(["missing", "garbage", "no origin"])
            if form == "garbage":
                with open(p, "w") as fh:
                    fh.write("<not a catalog")
            elif form == "no origin":
                e2 = list(evs); k = rng.randrange(len(evs)); e2[k] = e2[k].copy(); e2[k].origins = []
                rec.save_catalog(p, e2)
            with rec.CachedTauP():
                how, r = run(ExtractEq, os.path.join(data, "r"), out, p, mon.station[0], mon.station[1], [-w[0], w[1]])
            judge_output(mon, key, how, r, True, out, old, base, what + " (%s)" % form)
            mon.count("unusable catalogs met")
            if os.path.exists(p):
                os.remove(p)
        else:                                        # the output cannot be written
            if kind == "size":
                o2 = os.path.join(d, "big%d.pickle" % len(faults)); soft = resource.getrlimit(resource.RLIMIT_FSIZE)
                size = os.path.getsize(out) if os.path.exists(out) else 4000
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (max(300, size // 3), soft[1]))
                try:
                    how, r = call(o2)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, soft)
            else:
                form = rng.choice(["missing folder", "file as folder", "directory"])
                o2 = {"missing folder": os.path.join(d, "nowhere", "out.pickle"), "file as folder": os.path.join(cat, "out.pickle"), "directory": os.path.join(d, "odir.pickle")}[form]
                if form == "directory":
                    os.makedirs(o2, exist_ok=True)
                how, r = call(o2)
            ok = how == "raised"
            if not ok and os.path.isfile(o2):
                try:
                    ok = traces(o2) == base          # written after all (the folder made, say)
                except Exception:
                    ok = False
            mon.check(ok, key + ":unwritten", "%s returned normally though its output cannot be written" % what)
            mon.count("unwritable targets met")
    out2 = os.path.join(d, "again.pickle")
    how, r = call(out2)
    judge_output(mon, key, how, r, False, out2, None, base, key + " again after the faults")
    mon.count("retries after faults")
    mon.nontriv()

def windows(mon, rng):
    import obspy.taup
    from rfsed import ExtractEqMultiproc as M
    d = mon.newdir(); cat = os.path.join(d, "c.xml")
    deps = rng.sample([10000.0, 33000.0, 100000.0, 250000.0, 500000.0, 600000.0], 3)
    n = rng.choice([2, 3, 5, 9])
    evs = [rec.event(UTC(2015, 3, 4) + 1e5 * k, 10.0 + 5 * (k % 3), 20.0, deps[k % 3]) for k in range(n)]
    rec.save_catalog(cat, evs)
    C = mon.call("Add_sta_time_2cat", M.Add_sta_time_2cat, cat, 52.0, 6.0, [-50, 150])
    nproc = rng.choice([1, 2, 3, n + 1])
    run = Runner(mon, "times", nproc)
    flat = lambda T: [tuple(UTC(x[0][k]).ns for k in ("eqstart", "eqend", "onset")) for x in T]
    with rec.CachedTauP():
        for e in evs[:3]:
            M.Eq_times(C[evs.index(e)])              # warms the cache that the workers inherit
        how, r = run(M.Get_Eqtimes_multiproc, C, nproc)
        if not mon.check(how == "ok", "times:raises", "raised %r with no fault" % (r,)):
            raise Abandon()
        base = flat(r)
        faults = []
        for _ in range(rng.choice([1, 2, 3])):
            kind = rng.choice(["call", "call", "call", "empty", "event", "attribute"])
            faults.append(kind); mon.describe(key="times", events=n, nproc=nproc, faults=faults)
            if kind in ("call", "empty"):
                bad = rng.choice(deps[:min(n, 3)]) / 1000
                f = Fault(mon, lambda k: abs(k - bad) < 1e-6, nth=rng.choice([0, 0, 1]) if n > 3 else 0, once=rng.random() < .3)
                T = obspy.taup.TauPyModel
                depth = lambda a, k: k.get("source_depth_in_km", a[0] if a else 0)
                if kind == "call":
                    with sched.Sched(os.path.join(mon.scratch, "ev"), T, "get_travel_times", fault=lambda me, *a, **k: f(depth(a, k)), delay=lambda *a, **k: rng.random() * .02):
                        how, r = run(M.Get_Eqtimes_multiproc, C, nproc)
                else:                                # no arrival for that depth
                    orig = T.get_travel_times
                    def none(me, *a, **k):
                        try:
                            f(depth(a, k))
                        except BaseException:
                            return []
                        return orig(me, *a, **k)
                    T.get_travel_times = none
                    try:
                        how, r = run(M.Get_Eqtimes_multiproc, C, nproc)
                    finally:
                        T.get_travel_times = orig
                fired = f.fired()
            else:
                C2 = M.Add_sta_time_2cat(cat, 52.0, 6.0, [-50, 150]); j = rng.randrange(n); fired = True
                if kind == "event":
                    C2[j].origins = []
                else:
                    del C2[j].__dict__["stalat"]
                how, r = run(M.Get_Eqtimes_multiproc, C2, nproc)
            mon.count("calls with a fault fired" if fired else "calls without fault"); mon.count("travel time faults fired", fired)
            if how == "raised":
                mon.check(fired, "times:raises", "raised %r with no fault" % (r,)); mon.count("faults reported")
            else:
                try:
                    ok = flat(r) == base
                except Exception:
                    ok = False
                mon.check(ok, "times:silent", "returned %d windows of %d events normally%s" % (len(r), n, " after a failure" if fired else ""))
        how, r = run(M.Get_Eqtimes_multiproc, C, nproc)
        mon.check(how == "ok" and flat(r) == base, "times:retry", "the call without the fault gave %s" % (how,))
        mon.count("retries after faults")
    for form in ("missing", "garbage"):
        p = os.path.join(d, form + ".xml")
        if form == "garbage":
            with open(p, "w") as fh:
                fh.write("garbage")
        how, r = guarded(M.Add_sta_time_2cat, p, 52.0, 6.0, [-50, 150])
        mon.check(how == "raised", "catalog:silent", "a %s catalog gave %r" % (form, r)); mon.count("unusable catalogs met")
    mon.nontriv()

def fitting(mon, rng, nr):
    from rfsed import WaveformFittingMultiproc as M
    from rfsed.synrf import synrf
    c = wf.case(rng, nr, nmax=2)
    H = np.linspace(25, 45, rng.choice([2, 3, 5])); K = np.array(sorted(rng.uniform(1.6, 1.95) for _ in range(2)))
    a = list(c["args"]); a[6], a[7] = K, H
    par = mon.call("WaveformPara", M.WaveformPara, *a)
    nproc = rng.choice([1, 2, 3, len(H) + 1])
    run = Runner(mon, "fit", nproc)
    def depth(me):
        try:
            return float(me.depth[-2])
        except Exception:
            return 0.0
    flat = lambda R: np.array([[float(x) for x in s[:5]] for L in R for s in L])
    def full(R):
        try:
            if len(R) != len(H) or any(len(L) != len(K) for L in R):
                return False
            f = flat(R)
            return bool(np.allclose(f[:, 3], np.repeat(H, len(K))) and np.allclose(f[:, 4], np.tile(K, len(H))) and np.all(np.abs(f[:, :2] - base[:, :2]) <= 1e-8 * (1 + np.abs(base[:, :2]))))
        except Exception:
            return False
    how, r = run(M.run_waveformfitting, nproc, H, par)
    if not mon.check(how == "ok", "fit:raises", "raised %r with no fault" % (r,)):
        raise Abandon()
    base = flat(r)
    faults = []
    for _ in range(rng.choice([1, 2])):
        kind = rng.choice(["run_fwd", "run_fwd", "run_deconvolution", "filter", "parameters", "grid"])
        faults.append(kind); mon.describe(key="fit", H=H.tolist(), nproc=nproc, faults=faults)
        if kind in ("run_fwd", "run_deconvolution", "filter"):
            bad = float(rng.choice(list(H)))
            f = Fault(mon, lambda k: abs(k - bad) < 1e-6, nth=rng.choice([0, 1]), once=rng.random() < .3)
            with sched.Sched(os.path.join(mon.scratch, "ev"), synrf, kind, fault=lambda me, *a, **k: f(depth(me)), delay=lambda *a, **k: rng.random() * .02):
                how, r = run(M.run_waveformfitting, nproc, H, par)
            fired = f.fired()
        elif kind == "parameters":
            gone = rng.choice(["StackedData", "KMoho", "rayp", "VpCrust"])
            if not (isinstance(par, list) and len(par) == 1 and isinstance(par[0], dict) and gone in par[0]):
                continue
            how, r = run(M.run_waveformfitting, nproc, H, [{k: v for k, v in par[0].items() if k != gone}]); fired = True
        else:
            h2 = list(H); h2[rng.randrange(len(h2))] = rng.choice(["deep", None])
            how, r = run(M.run_waveformfitting, nproc, h2, par); fired = True
        mon.count("calls with a fault fired" if fired else "calls without fault"); mon.count("fitting faults fired", fired)
        if how == "raised":
            mon.check(fired, "fit:raises", "raised %r with no fault" % (r,)); mon.count("faults reported")
        else:
            mon.check(full(r), "fit:silent", "returned normally without the full result%s (%s)" % (" after a failure" if fired else "", kind))
    how, r = run(M.run_waveformfitting, nproc, H, par)
    mon.check(how == "ok" and full(r), "fit:retry", "the call without the fault gave %s" % how)
    mon.count("retries after faults")
    mon.nontriv()

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    k = i % 6
    which = ["parallel", "serial", "times", "parallel", "fit", "serial"][(k + i // 6) % 6]
    mon.count("case " + which)
    if which in ("parallel", "serial"):
        extraction(mon, rng, which == "parallel")
    elif which == "times":
        windows(mon, rng)
    else:
        fitting(mon, rng, nr)
