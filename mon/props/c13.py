"""Event windows against an independent arrival, in catalog order, for any schedule."""
import os
import numpy as np
from obspy import UTCDateTime as UTC, read_events
import rec, sched

TOL = 2e-5

def judge(mon, key, w, t, P, win, what):
    ok = isinstance(w, list) and len(w) == 1 and all(k in w[0] for k in ("eqstart", "eqend", "onset"))
    if not mon.check(ok, key + ":form", "window of %s is %r" % (what, w)):
        return
    w = w[0]
    mon.count("windows judged")
    mon.check(abs(UTC(w["onset"]) - (t + P)) <= TOL, key + ":onset", "%s: onset %s, expected %s" % (what, w["onset"], t + P))
    mon.check(abs(UTC(w["onset"]) - UTC(w["eqstart"]) - abs(win[0])) <= TOL, key + ":start", "%s: starts %.4f s before onset, asked %r" % (what, UTC(w["onset"]) - UTC(w["eqstart"]), win[0]))
    mon.check(abs(UTC(w["eqend"]) - UTC(w["onset"]) - abs(win[1])) <= TOL, key + ":end", "%s: ends %.4f s after onset, asked %r" % (what, UTC(w["eqend"]) - UTC(w["onset"]), win[1]))

def run_case(i, mon):
    import obspy.taup
    from rfsed import ExtractEqMultiproc as M
    rng = mon.rng
    sta = rng.choice([(52.1, 6.9), (0.0, 0.0), (-33.2, 179.5), (rng.uniform(-90, 90), rng.uniform(-180, 180))])
    win = rng.choice([[-50, 150], [50, 150], [-10.5, 20.25], [0, 30], [-30, 0.5], (-5, 90), [-150.0, 50], [60, 20], [-20, -40], [20.5, 20.5]])
    n = rng.choice([1, 2, 3, 4, 6])
    evs = []
    for _ in range(n):
        k = rng.random()
        dep = rng.choice([0.0, 5000.0, 10000.0, 33000.0, 120500.0, 410000.0, 600000.0, round(rng.uniform(0, 690000), 0)])
        if k < .6:
            lat, lon = rng.uniform(-88, 88), rng.uniform(-180, 180)
        elif k < .8:                              # near the station: crustal and regional phases
            lat, lon = max(-89, min(89, sta[0] + rng.uniform(-6, 6))), sta[1] + rng.uniform(-6, 6)
            lon = (lon + 180) % 360 - 180
        elif k < .9:                              # towards the antipode
            lat, lon = max(-89, min(89, -sta[0] + rng.uniform(-4, 4))), (sta[1] + 180 + 180) % 360 - 180
        else:
            lat, lon = rng.choice([(0.0, 0.0), (45.0, 180.0), (89.0, -180.0)])
        evs.append((UTC(round(UTC(2015, 1, 1).timestamp + rng.uniform(0, 3e7), 6)), lat, lon, dep))
    if n > 1 and rng.random() < .4:
        evs.append(evs[0])                        # the same event twice
    if rng.random() < .4:                         # a swarm: sources that differ by little, in depth, place or time
        t0, la, lo, dp = rng.choice(evs)
        for _ in range(rng.choice([2, 3, 4])):
            how = rng.choice(["depth", "place", "place", "both", "time"])
            ddep = rng.choice([-400.0, -90.0, 40.0, 300.0, 2500.0]) if how in ("depth", "both") else 0.0
            dla, dlo = ((rng.choice([-1, 1]) * rng.choice([0.02, 0.11, 0.3]), rng.uniform(-0.3, 0.3)) if how in ("place", "both") else (0.0, 0.0))
            evs.append((UTC(round(t0.timestamp + rng.choice([0.0, 0.4, 3600.0]), 6)), max(-89.5, min(89.5, la + dla)), (lo + dlo + 180) % 360 - 180, min(690000.0, max(0.0, dp + ddep))))
        mon.count("swarms")
    if rng.random() < .3 and n > 1:               # same source, other time
        evs.append((evs[1][0] + 1234.5,) + evs[1][1:])
    if rng.random() < .3:                         # a long catalog of few sources (several tasks per chunk)
        few = evs[:3]
        evs = [(e[0] + rng.uniform(0, 1e7),) + e[1:] for e in (rng.choice(few) for _ in range(rng.choice([15, 25, 40])))]
        evs = [(UTC(round(e[0].timestamp, 6)),) + e[1:] for e in evs]
    rng.shuffle(evs)                              # not in time order
    d = mon.newdir()
    cat = os.path.join(d, "cat" + rng.choice([".xml", ".quakeml"])); rec.save_catalog(cat, [rec.event(*e) for e in evs])
    h0 = rec.digest([cat])
    C = mon.call("Add_sta_time_2cat", M.Add_sta_time_2cat, cat, sta[0], sta[1], win)
    mon.describe(sta=sta, win=list(win), events=[(str(e[0]),) + e[1:] for e in evs])
    mon.require(len(C) == len(evs), "catalog:events", "%d events of %d kept" % (len(C), len(evs)))
    for e, ev in zip(C, evs):
        o = e.origins[0]
        mon.check(abs(o.time - ev[0]) < 1e-5 and abs(o.latitude - ev[1]) < 1e-9 and abs(o.longitude - ev[2]) < 1e-9 and o.depth == ev[3], "catalog:order",
                  "event %s where %s is expected" % (o.time, ev[0]))
        mon.check((e.stalat, e.stalon, e.Request_start, e.Request_end) == (sta[0], sta[1], win[0], win[1]), "catalog:station",
                  "station or window of an event is %r" % ((e.stalat, e.stalon, e.Request_start, e.Request_end),))
    Ps = [rec.first_arrival(e[3] / 1000, rec.haversine_deg(sta[0], sta[1], e[1], e[2])) for e in evs]
    ks = list(range(len(evs))); rng.shuffle(ks)
    for k in ks[:rng.choice([1, 2, 8])]:
        with rec.CachedTauP():                    # repeated requests answered from TauP's own earlier answers
            one = mon.call("Eq_times", M.Eq_times, C[k])
        judge(mon, "serial", one, evs[k][0], Ps[k], win, "event %d" % k)
    mon.nontriv(len(evs) > 1)
    nprocs = [rng.choice([1, 2, 3, 4, len(evs) + 1])] + ([rng.choice([2, 3])] if mon.tier == "thorough" else [])
    mon.describe(nprocs=nprocs)
    for nproc in nprocs:
        mode = rng.choice(["inverted", "inverted", "random"])
        step = rng.choice([0.05, 0.15]) if len(evs) < 10 else 0.004
        depths = [e[3] / 1000 for e in evs]
        mon.count("long catalogs", len(evs) > 10)
        def delay(self, *a, **kk):
            dep = kk.get("source_depth_in_km", a[0] if a else 0)
            j = int(np.argmin(np.abs(np.array(depths) - dep)))
            return step * (len(evs) - j) if mode == "inverted" else rng.random() * step * (os.getpid() % 4)
        def key(self, *a, **kk):
            return "%r" % (kk.get("source_depth_in_km", a[0] if a else 0),)
        with rec.CachedTauP():
            with sched.Sched(os.path.join(mon.scratch, "ev"), obspy.taup.TauPyModel, "get_travel_times", delay=delay, key=key) as s:
                tw = mon.call("Get_Eqtimes_multiproc", M.Get_Eqtimes_multiproc, C, nproc)
                ev = s.events()
        pos = [int(np.argmin(np.abs(np.array(depths) - float(x)))) for _, x in ev]
        mon.count("schedules run"); mon.count("schedules finishing out of order", sched.inversions(pos) > 0); mon.count("workers seen", len({p for p, _ in ev}))
        if not mon.check(len(tw) == len(evs), "parallel:count", "%d windows for %d events (nproc %d)" % (len(tw), len(evs), nproc)):
            continue
        for j, w in enumerate(tw):
            judge(mon, "parallel", w, evs[j][0], Ps[j], win, "event %d of %d, nproc %d" % (j, len(evs), nproc))
    mon.check(rec.digest([cat]) == h0, "catalog:file", "the catalog file was changed")
