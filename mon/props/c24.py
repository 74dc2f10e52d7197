"""The serial route and the parallel route extract the same seismograms."""
import os
import numpy as np
from obspy import UTCDateTime as UTC, read
import rec, sched

def listed(st, recs_by):
    """[(id, first sample's number, samples, start ns, onset ns, data)] of an output."""
    return [(t.id, float(t.data[0]), len(t.data), t.stats.starttime.ns, UTC(t.stats.onset).ns, np.asarray(t.data, float), float(t.stats.delta)) for t in st]

def alike(a, b):
    """Onsets of two routes may differ by rounding; everything else is copied from one record."""
    return (a[0] == b[0] and abs(a[4] - b[4]) <= 20000 and a[2] == b[2] and abs(a[3] - b[3]) <= 20000
            and abs(a[6] - b[6]) < 1e-12 and np.array_equal(a[5], b[5]))

def run_case(i, mon):
    from rfsed.ExtractEq import ExtractEq
    from rfsed import ExtractEqMultiproc as M
    rng = mon.rng
    if not hasattr(mon, "places"):
        mon.places = [(rng.uniform(-60, 70), rng.uniform(-180, 180), rng.choice([0.0, 10000.0, 33000.0, 550000.0, rng.uniform(1000, 650000), float(rng.randrange(1000, 90000))])) for _ in range(4)]
        mon.stations = [(52.1, 6.9), (rng.uniform(-60, 70), rng.uniform(-180, 180))]
    sta = rng.choice(mon.stations)
    d = mon.newdir(); data = os.path.join(d, "rec"); os.makedirs(data)
    prefix = rng.choice(["", "r", "sta_"])
    recs, notes = rec.make_files(rng, data, prefix + "a", UTC(2016, 2, 3), nfiles=rng.choice([1, 2, 3, 4, 5]), maxlen=3000, fmts=("MSEED", "MSEED", "MSEED", "SAC"))
    w = rng.choice([(5, 20), (10, 15), (2, 40), (0, 12), (3.5, 7.25), (25, 10), (30.5, 0.5), (20, 20)])
    win = rng.choice([[-w[0], w[1]], [w[0], w[1]], (-w[0], w[1]), [float(-w[0]), float(w[1])], [-w[0], -w[1]]])
    evs, wins, hows = [], [], []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        lat, lon, dep = rng.choice(mon.places)
        P = rec.first_arrival(dep / 1000, rec.haversine_deg(sta[0], sta[1], lat, lon))
        s, how = rec.pick_window(rng, recs, w)
        t = UTC(round((UTC(s) + w[0] - P).timestamp, 5))
        wins.append((t + P - w[0], t + P + w[1], t + P)); evs.append(rec.event(t, lat, lon, dep)); hows.append(how)
    if rng.random() < .25:
        k = rng.randrange(len(evs)); evs.append(evs[k]); wins.append(wins[k]); hows.append("twice")
    order = list(range(len(evs))); rng.shuffle(order)
    evs = [evs[k] for k in order]; wins = [wins[k] for k in order]; hows = [hows[k] for k in order]
    cat = os.path.join(d, "cat.xml"); rec.save_catalog(cat, evs)
    pairs, amb, partial = [], False, 0
    for fi, (p, trs) in enumerate(recs):
        for wi, (s, e, o) in enumerate(wins):
            c = rec.covered(trs, s, e)
            amb |= c is None
            if c:
                pairs.append((fi, wi))
            else:
                partial += any(len(rec.bounds(tr, s, e)[0]) for _, tr in trs)
    nproc = rng.choice([1, 2, 3, 4])
    mon.describe(notes=notes, hows=hows, window=win, prefix=prefix, nev=len(evs), pairs=pairs, partial=partial, nproc=nproc)
    if amb or not pairs:
        mon.count("ambiguous edges skipped" if amb else "no event covered"); return
    o1, o2 = os.path.join(d, "serial.pickle"), os.path.join(d, "parallel.pickle")
    files = [p for p, _ in recs]
    with rec.CachedTauP():
        mon.call("ExtractEq", ExtractEq, os.path.join(data, prefix), o1, cat, sta[0], sta[1], win)
        C = mon.call("Add_sta_time_2cat", M.Add_sta_time_2cat, cat, sta[0], sta[1], win)
        tw = mon.call("Get_Eqtimes_multiproc", M.Get_Eqtimes_multiproc, C, nproc)
        one = mon.call("Eq_times", lambda: [M.Eq_times(e) for e in C])
    key = lambda t: [(UTC(x[0]["eqstart"]).ns, UTC(x[0]["eqend"]).ns, UTC(x[0]["onset"]).ns) for x in t]
    mon.check(len(tw) == len(one) == len(evs) and np.max(np.abs(np.array(key(tw), float) - np.array(key(one), float))) <= 1000, "route:windows", "windows of the pool %s, of single calls %s" % (key(tw)[:2], key(one)[:2]))
    mon.call("ExtractEq_Multiproc", M.ExtractEq_Multiproc, files, tw, rng.choice([1, 2, 3]), o2)
    A, B = listed(read(o1), recs), listed(read(o2), recs)
    used = set()
    for a in A:
        k = [j for j, b in enumerate(B) if j not in used and alike(a, b)]
        mon.count("serial traces looked for in the parallel output")
        if mon.check(bool(k), "route:missing", "the serial route extracts %s from %s (%d samples, onset %s), the parallel route does not" % (a[0], UTC(ns=a[3]), a[2], UTC(ns=a[4]))):
            used.add(k[0])
    # what the parallel route has beyond that are the parts of windows no file holds in full
    by = {k: (fi, tr) for fi, (p, trs) in enumerate(recs) for k, tr in trs}
    for j, b in enumerate(B):
        if j in used:
            continue
        fi = by[int(b[1]) // rec.STEP][0] if int(b[1]) // rec.STEP in by else None
        near = [wi for wi, x in enumerate(wins) if abs(UTC(ns=b[4]) - x[2]) < 5e-5]
        mon.check(fi is not None and any((fi, wi) not in pairs for wi in near), "route:extra", "the parallel route extracts %s from %s (%d samples, onset %s) for an event that file covers; the serial route does not" %
                  (b[0], UTC(ns=b[3]), b[2], UTC(ns=b[4])))
        mon.count("partial windows set aside")
    if not partial:
        mon.check(len(A) == len(B), "route:number", "%d and %d traces" % (len(A), len(B))); mon.count("outputs equal in full")
    mon.count("pairs of outputs compared"); mon.nontriv(len(A) > 1)
