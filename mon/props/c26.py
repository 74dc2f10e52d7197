"""Work done at the same time gives what it gives alone: threads, processes, simultaneous parallel runs."""
import contextlib, io, os, pickle, sys, threading, time, traceback
import numpy as np
import calls, figs, ops, rec, sched, wf

def eq(x, y):
    return len(x) == len(y) and all(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=1e-9 * (np.max(np.abs(b)) + 1e-300) if np.size(b) else 0) for a, b in zip(x, y))

def content(path):
    from obspy import read
    return [np.array([t.stats.starttime.timestamp - 1.4e9, t.stats.onset.timestamp - 1.4e9, len(t.data)] + [float(ord(c)) for c in t.id]) for t in read(path)] + [np.asarray(t.data, float) for t in read(path)]

def extraction(mon, rng, d):
    """(serial task, parallel task) over one set of records, each with an output of its own."""
    from obspy import UTCDateTime as UTC
    k = len(os.listdir(d)); data = os.path.join(d, "rec%d" % k); os.makedirs(data)
    recs, _ = rec.make_files(rng, data, "a", UTC(2016, 2, 3), nfiles=rng.choice([1, 2, 3]), maxlen=2500)
    wins = []
    for _ in range(4):
        _, tr = rng.choice(rng.choice(recs)[1]); a, b = rec.span(tr)
        if b - a > 26:
            s = UTC(a) + rng.uniform(0.1, b - a - 25.1); wins.append((s, s + 25, s + 5))
    if not wins:
        return None
    cat = os.path.join(d, "c%d.xml" % k)
    P = rec.first_arrival(33.0, rec.haversine_deg(52.1, 6.9, 10.0, 30.0))
    rec.save_catalog(cat, [rec.event(o - P, 10.0, 30.0, 33000.0) for _, _, o in wins])
    files = [p for p, _ in recs]; tw = [[{"eqstart": a, "eqend": b, "onset": o}] for a, b, o in wins]
    def ser(tag):
        from rfsed.ExtractEq import ExtractEq
        o = os.path.join(d, "%s-s%d.pickle" % (tag, k)); ExtractEq(os.path.join(data, ""), o, cat, 52.1, 6.9, [-5, 20]); return content(o)
    def par(tag):
        from rfsed.ExtractEqMultiproc import ExtractEq_Multiproc
        o = os.path.join(d, "%s-p%d.pickle" % (tag, k)); ExtractEq_Multiproc(files, tw, 2, o); return content(o)
    return ser, par

def light(mon, rng, nr, d, threads):
    """One task fn(tag) -> list of arrays, and its name."""
    what = rng.choice(["iter", "water", "trace", "forward", "synrf", "filt", "filtSynth"] + (["extract", "iter", "synrf"] if threads else ["hk", "hkSeq", "hkYu", "hkSynth", "hkSeqSynth", "extract", "pool", "pool", "fit", "plot", "plot"]))
    if what in ops.OPS:
        q = ops.draw(rng, nr, what, d)
        return what, lambda tag: ops.OPS[what](**q)
    if what in ("extract", "pool"):
        e = extraction(mon, rng, d)
        if e:
            return what, e[what == "pool"]
        what = "filt"
    if what == "fit":
        j = calls.make(rng, nr, "wfmp")
        def fit(tag):
            s = j.solutions(j.fn(*j.args)); return [s[:, [0, 1, 4, 5]]]
        return what, fit
    if what == "plot":
        j = calls.make(rng, nr, rng.choice(["hk", "hkSynth", "filt", "hkSeq"])); out = os.path.join(d, "plots"); os.makedirs(out, exist_ok=True)
        def plot(tag):
            r = j.fn(*j.args)
            with figs.Capture(write=False) as c:
                j.plot(r, os.path.join(out, tag) if os.makedirs(os.path.join(out, tag), exist_ok=True) is None else out, *([None, True, "png"] if j.clips else ["png"]))
            return [np.asarray(l[x], float) for f in c.saved for a in f["axes"] for l in a["lines"] for x in ("x", "y")]
        return what, plot
    j = calls.make(rng, nr, what)
    return what, lambda tag: numbers(j.fn(*j.args))

def numbers(r):
    return [np.asarray(r[k], float) if np.asarray(r[k]).dtype.kind in "fiu" else np.abs(np.asarray(r[k])) for k in sorted(r) if isinstance(r[k], (np.ndarray, float, int, np.floating)) and np.asarray(r[k]).dtype.kind in "fciu"]

def in_threads(mon, tasks, rounds):
    gate = threading.Barrier(len(tasks)); out = {}
    def body(k, fn):
        try:
            gate.wait(60)
            for r in range(rounds):
                out[k, r] = fn("t%d-%d" % (k, r))
        except BaseException as e:
            out[k, "error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-600:])
    old = sys.getswitchinterval()
    try:
        sys.setswitchinterval(1e-5)
        th = [threading.Thread(target=body, args=(k, fn), daemon=True) for k, (_, fn) in enumerate(tasks)]
        for t in th: t.start()
        for t in th: t.join(120)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in th):
        mon.violation("threads:hang", "threads running %s did not end in 120 s" % [w for w, _ in tasks]); mon.stop = True
    return out

def in_processes(mon, tasks, d):
    """Each task in a forked process; all start together."""
    go = os.pipe(); pids, out = [], {}
    for k, (_, fn) in enumerate(tasks):
        f = os.path.join(d, "answer%d" % k)
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(go[1]); os.read(go[0], 1)       # until the parent lets go
                with contextlib.redirect_stdout(io.StringIO()):
                    r = ("ok", fn("p%d" % k))
            except BaseException as e:
                r = ("err", "%s: %s" % (type(e).__name__, e))
            with open(f + ".tmp", "wb") as g:
                pickle.dump(r, g)
            os.replace(f + ".tmp", f)
            os._exit(0)
        pids.append(pid)
    os.close(go[0]); os.close(go[1])
    t0 = time.time(); left = set(pids)
    while left and time.time() - t0 < 150:
        for p in list(left):
            if os.waitpid(p, os.WNOHANG)[0]:
                left.discard(p)
        time.sleep(0.01)
    for p in left:
        import signal
        try: os.killpg(p, signal.SIGKILL)
        except OSError: pass
        os.waitpid(p, 0)
        mon.violation("processes:hang", "a process running beside others did not end in 150 s")
    for k in range(len(tasks)):
        f = os.path.join(d, "answer%d" % k)
        if os.path.exists(f):
            kind, r = pickle.load(open(f, "rb"))
            out[k, 0 if kind == "ok" else "error"] = r
            os.remove(f)
    return out

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    threads = (i + i // 8) % 3 != 2
    d = mon.newdir()
    n = rng.choice([2, 3, 4, 6]) if threads else rng.choice([2, 3])
    tasks = [light(mon, rng, nr, d, threads) for _ in range(n)]
    if rng.random() < .5:                            # the same kind of work with other data, the likeliest to collide
        w = tasks[0][0]
        for _ in range(20):
            t = light(mon, rng, nr, d, threads)
            if t[0] == w:
                tasks.append(t); break
    if rng.random() < .3:
        tasks.append(tasks[0])                       # the very same request twice
    mon.describe(mode="threads" if threads else "processes", tasks=[w for w, _ in tasks], case=i)
    with rec.CachedTauP():
        alone = []
        for k, (w, fn) in enumerate(tasks):
            alone.append(mon.call(w, fn, "alone%d" % k))
        figs.plt.close("all")
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            rounds = 2 if threads else 1
            got = in_threads(mon, tasks, rounds) if threads else in_processes(mon, tasks, d)
    mode = "threads" if threads else "processes"
    for k, (w, _) in enumerate(tasks):
        if (k, "error") in got:
            mon.violation(mode + ":raises:" + w, "%s fails beside %s: %s" % (w, [x for j, (x, _) in enumerate(tasks) if j != k], got[k, "error"])); continue
        for r in range(rounds):
            if (k, r) in got:
                mon.check(eq(got[k, r], alone[k]), mode + ":" + w, "%s gives another result beside %s than alone" % (w, [x for j, (x, _) in enumerate(tasks) if j != k]))
                mon.count("results compared in " + mode); mon.count("compared " + w)
            else:
                mon.check(mon.stop or (mode + ":hang") in [v["key"] for v in mon.violations], mode + ":lost", "%s gave no result" % w)
    mon.check(not sched.settled(before=mon.__dict__.setdefault("kids", sched.children())), mode + ":children", "worker processes remain")
    mon.count("runs in " + mode); mon.nontriv(len(tasks) > 1)
