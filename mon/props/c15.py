"""Parallel extraction against the recorded samples, for any worker count and completion order."""
import os
import numpy as np
from obspy import UTCDateTime as UTC, read
import rec, sched

def run_case(i, mon):
    import obspy.core.stream as S
    from rfsed import ExtractEqMultiproc as M
    rng = mon.rng
    d = mon.newdir(); data = os.path.join(d, "rec"); os.makedirs(data)
    recs, notes = rec.make_files(rng, data, "r", UTC(2016, 2, 3), nfiles=rng.choice([1, 2, 3, 4, 4, 9]) if i % 9 != 4 else rng.choice([17, 17, 24, 33]), maxlen=3000 if i % 9 != 4 else 1700, fmts=("MSEED", "MSEED", "MSEED", "SAC"))
    wins = []
    base = rng.choice([(5, 20), (10, 15), (2, 40), (0, 12)])
    mon.count("calls of over 16 files", len(recs) > 16)
    aims = [recs] * (rng.choice([1, 2, 3, 5, 8]) if i % 11 != 5 else rng.choice([20, 40]))
    if len(recs) > 16:                                   # in the first, the last and some other files
        aims = [[recs[0]], [recs[-1]]] + [[rng.choice(recs)] for _ in range(3)]
    for aim in aims:
        s, how = rec.pick_window(rng, aim, base)
        wins.append((UTC(s), UTC(s) + base[0] + base[1], UTC(s) + base[0] + len(wins) * 1e-3))
        if rng.random() < .3 and len(wins) > 1:          # overlapping windows of different lengths
            a = wins[-1]
            wins.append((a[0] - 3.3, a[1] + rng.choice([-4, 6.1]), a[2] + 0.4))
    if rng.random() < .15:
        wins.append(wins[0])                             # the same window asked for twice
    pairs = [(fi, wi) for fi in range(len(recs)) for wi in range(len(wins))]
    tw = [[{"eqstart": a, "eqend": b, "onset": o}] for a, b, o in wins]
    files = [p for p, _ in recs]
    order = list(range(len(files)))
    if rng.random() < .4:                                # the caller's file order, not the alphabetic one
        rng.shuffle(order)
        recs = [recs[k] for k in order]; files = [files[k] for k in order]
    orc = rec.Oracle(recs, wins, pairs)
    held = sum(len(rec.bounds(tr, w[0], w[1])[0]) > 0 for w in wins for _, trs in recs for _, tr in trs)
    if not held:
        mon.count("nothing recorded in any window"); return
    fmt = rng.choice(["PICKLE", "PICKLE", "PICKLE", "MSEED", "H5"])
    if fmt == "H5" and len(wins) > 1:
        fmt = "PICKLE"
    if fmt == "MSEED" and len({tr.data.dtype for _, t in recs for _, tr in t}) > 1:
        fmt = "PICKLE"
    nprocs = rng.sample([1, 2, 3, 5], 2) + ([min(len(files) + 2, 12)] if rng.random() < .3 else [])
    mon.describe(notes=notes, nwin=len(wins), windows=[(str(a), float(b - a)) for a, b, _ in wins], fmt=fmt, nprocs=nprocs, order=order, base=base)
    hash0 = rec.digest(files)
    where = {p: j for j, p in enumerate(files)}
    inv = False
    for nproc in nprocs:
        mode = rng.choice(["inverted", "inverted", "random"])
        step = rng.choice([0.005, 0.02]) if len(files) < 10 else 0.002
        def delay(name, *a, **k):
            j = where.get(str(name), 0)
            return step * (len(files) - j) if mode == "inverted" else rng.random() * step * (os.getpid() % 4)
        out = os.path.join(d, "out%d.%s" % (nproc, {"PICKLE": "pickle", "MSEED": "mseed", "H5": "h5"}[fmt]))
        with sched.Sched(os.path.join(mon.scratch, "ev"), S, "_read", delay=delay, key=lambda name, *a, **k: str(name)) as s:
            mon.call("ExtractEq_Multiproc", M.ExtractEq_Multiproc, files, tw, nproc, out)
            ev = s.events()
        last = {}
        for j, (p, k) in enumerate(ev):
            last[k] = j
        pos = [where[k] for k in sorted(last, key=last.get) if k in where]
        n = sched.inversions(pos); inv |= n > 0
        mon.count("schedules run"); mon.count("schedules finishing out of order", n > 0); mon.count("workers seen", len({p for p, _ in ev}))
        mon.require(os.path.exists(out), "extract:file", "no output file written (%s)" % os.listdir(d))
        st = read(out)
        if fmt == "MSEED":
            orc.multiset(mon, "extract-mseed", st)
        else:
            orc.structural(mon, "extract", st, ordered=fmt == "PICKLE")
        mon.count("outputs judged " + fmt)
    if i % 3 == 0:
        fi = rng.randrange(len(files))
        st = mon.call("Get_EqStream_multiproc", M.Get_EqStream_multiproc, ((files[fi],), tw))
        rec.Oracle(recs, wins, [(fi, wi) for wi in range(len(wins))]).structural(mon, "worker", st, True)
    mon.check(rec.digest(files) == hash0, "extract:records", "a record file was changed")
    mon.check(sorted(os.listdir(data)) == sorted(os.path.basename(f) for f in files), "extract:stray", "files appeared among the records: %s" % os.listdir(data))
    mon.nontriv(len(wins) > 1 and held > 1)
