"""Histories of analysis, plot, modelling and deconvolution calls over shared objects."""
import copy
import numpy as np
from obspy import UTCDateTime as UTC
import calls, figs, gen, ops, pristine, rec
from common import close, maxdiff
from props import c17

pristine.start()                                     # before the package has been used

class World:
    """Everything alive in a history, with the snapshot each thing must keep."""
    def __init__(self, mon):
        self.mon, self.things = mon, []
    def add(self, name, obj):
        self.things.append([name, obj, calls.snap(obj)])
    def judge(self, op):
        for t in self.things:
            now = calls.snap(t[1])
            d = calls.diff(t[2], now, t[0])
            self.mon.count("objects compared with their snapshot")
            if not self.mon.check(d is None, op + ":changed", "after %s: %s" % (op, d)):
                t[2] = now

def deep(args):
    return [a.copy() if hasattr(a, "traces") else copy.deepcopy(a) for a in args]

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    figs.plt.close("all")
    W = World(mon)
    n, rate, pre = rng.choice([301, 400, 513]), rng.choice([10.0, 12.5, 20.0]), rng.choice([2, 5, 10])
    streams = []
    for k in range(2):
        st, _ = gen.stream(rng, nr, ntr=rng.choice([1, 2, 3]), n=n, rate=rate, preonset=pre, scale=1.0)
        streams.append((st, pre)); W.add("stream%d" % k, st)
    done, trail = [], []                             # done: [job, first result, times run]
    extra = []                                       # closures returning a comparable result, with their first result
    heavy = i % 6 == 2
    steps = rng.choice([6, 8, 10])
    def note(x):
        trail.append(x); mon.describe(trail=trail)
    def new(kind):
        if kind == "hkYu" and rng.random() < .6:
            f = [d for d in done if d[0].kind == "filt"]
            job = calls.make(rng, nr, kind)
            if f:                                    # work on a real filter result, shared with its own plots
                job.args[0] = rng.choice(f)[1]; job.spec = None
        else:
            job = calls.make(rng, nr, kind, streams if kind in ("hk", "hkSeq", "filt") else None)
        for nme, a in zip(job.names, job.args):
            W.add("%s.%s" % (kind, nme), a)
        job.fresh = deep(job.args)
        note("run " + kind)
        r = job.run(mon)
        W.judge(kind)
        if kind != "wfmp":
            W.add("result of " + kind, r)
        record(job, r)
        if rng.random() < (.5 if kind not in ("wf", "wfmp") else .25):
            against_pristine(job, r)
    def record(job, r):
        done.append([job, r, copy.deepcopy(r)])
    def against_pristine(job, r):
        if job.kind == "wfmp":
            return
        st, want = pristine.run(job.fn, *job.fresh)
        mon.count("calls compared with a pristine process")
        if mon.check(st == "ok", job.kind + ":pristine", "the call that ran here fails in a fresh process: %s" % (want,)):
            calls.same_result(mon, job.kind + ":pristine", job, want, r, "fresh process against this one")
    def twin(job):
        """One argument changed: a call that must not be answered from the earlier one."""
        args, name = twin_args(rng, nr, job)
        if args is None:
            return
        t = copy.copy(job)
        t.args, t.fresh, t.spec = args, deep(args), None
        note("%s with another %s" % (job.kind, name))
        r = t.run(mon)
        W.judge(job.kind)
        record(t, r)
        mon.count("calls with one argument changed")
        against_pristine(t, r)
    plan_ = [rng.choice(["new", "new", "plot", "plot", "again", "other", "other", "twin", "twin"]) for _ in range(steps)]
    plan_[0] = "new"
    if heavy:
        plan_[1:1] = ["heavy"]
    for op in plan_:
        if op == "new":
            new(rng.choice(calls.LIGHT))
        elif op == "heavy":
            new(rng.choice(["wf", "wf", "wfmp"]))
        elif op == "plot":
            job, r, _ = rng.choice(done)
            pos, kw, _g, _r, _f = c17.options(rng, job)
            note("plot " + job.kind)
            with figs.Capture(write=False, artists=False):
                mon.call("plot " + job.kind, job.plot, r, mon.scratch, *pos, **kw)
            figs.plt.close("all")
            W.judge("plot " + job.kind)
            mon.count("plots made")
        elif op == "again":
            job, r, keep = rng.choice(done)
            note("again " + job.kind)
            r2 = job.run(mon)
            calls.same_result(mon, job.kind + ":repeat", job, keep, r2, "repeated call")
            W.judge(job.kind)
            mon.count("calls repeated")
        elif op == "twin":
            light = [d[0] for d in done if d[0].kind in calls.LIGHT]
            if light:
                twin(rng.choice(light))
        else:
            other(mon, rng, nr, W, extra, note)
    for job, r, keep in reversed(done):              # the same requests on equal arguments, last first
        if job.kind == "wfmp" and rng.random() < .5:
            continue
        r2 = job.run(mon, job.fresh)
        calls.same_result(mon, job.kind + ":copy", job, keep, r2, "same call on equal arguments after %d other calls" % len(trail))
        mon.count("calls compared with equal arguments")
    for name, f, first in extra:
        again = f()
        mon.check(len(first) == len(again) and all(close(a, b, 1e-9 * (1e-300 + np.max(np.abs(a)))) for a, b in zip(first, again)), name + ":repeat",
                  "repeated call gives another result")
        mon.count("calls repeated")
    W.judge("repeats")
    mon.count("steps", len(trail))
    mon.nontriv(len(trail) > 4)

def other(mon, rng, nr, W, extra, note):
    what = rng.choice(list(ops.OPS))
    q = ops.draw(rng, nr, what, mon.newdir())
    for k in q:
        W.add("%s of %s" % (k, what), q[k])
    chain = [(what, q)]
    for _ in range(rng.choice([0, 1, 2, 2, 3])):
        p, changed = ops.twin(rng, nr, what, chain[-1][1])
        chain.append((what + " with another " + changed, p))
    for name, p in chain:
        note(name)
        if what == "synrf":                          # on an object that stays alive
            s = mon.call("run_fwd", ops._made, p["mdl"], p["ps"], p["dt"], p["n"], p["ipha"])
            W.add("stored seismograms R", s.rstream); W.add("stored seismograms Z", s.zstream)
            def f(s=s, p=p):
                return [np.array(t.data) for t in mon.call("run_deconvolution", s.run_deconvolution, **{k: p[k] for k in ("pre_filt", "preonset", "gaussian", "method")})]
        else:
            def f(p=p):
                with rec.CachedTauP():
                    return mon.call(what, ops.OPS[what], **p)
        first = f()
        W.judge(what)
        st, want = pristine.run(ops.OPS[what], **p)
        mon.count("calls compared with a pristine process")
        mon.check(st == "ok" and same_arrays(first, want), what + ":pristine", "%s differs from the same call in a fresh process (%s)" % (
            name, want if st != "ok" else [maxdiff(a, b) for a, b in zip(first, want)]))
        extra.append((what, f, [np.array(x) for x in first]))
        if rng.random() < .3:
            mon.check(same_arrays(first, f()), what + ":repeat", "repeated call gives another result")
            W.judge(what)

def same_arrays(a, b):
    return len(a) == len(b) and all(close(x, y, 1e-9 * (1e-300 + (np.max(np.abs(x)) if np.size(x) else 0))) for x, y in zip(a, b))

def twin_args(rng, nr, job):
    """Arguments of the same call with one thing changed."""
    args = deep(job.args)
    k = rng.choice([k for k, a in enumerate(args) if a is not None and not isinstance(a, str) and job.names[k] != "preonset"])
    a, name = args[k], job.names[k]
    if isinstance(a, bool):
        args[k] = not a
    elif hasattr(a, "traces"):
        how = rng.choice(["data", "data", "slowness", "roll", "ids"])
        for t in a:
            if how == "data":
                t.data = t.data + 0.3 * np.max(np.abs(t.data)) * gen.smooth(nr.randn(len(t.data)), 9)
            elif how == "roll":
                t.data = np.roll(t.data, 3)
            elif how == "slowness":
                t.stats.slowness = t.stats.slowness * 0.9 + 0.3
            else:
                t.stats.station = "Q1"
        name += " " + how
    elif isinstance(a, np.ndarray):
        if name == "time":
            args[k] = a
            return None, None
        args[k] = (a * 1.03 if a.dtype.kind == "f" else a + 1) if len(a) < 50 else a[::-1].copy()
    elif isinstance(a, dict):
        how = rng.choice(["tlag", "filteredrf"])
        a[how] = round(a[how] + 0.2, 3) if how == "tlag" else np.asarray(a[how])[::-1].copy()
        name += " " + how
    elif name == "rayp":
        args[k] = a * 0.95
    else:
        args[k] = a * 1.07 + 0.01
    return args, name
