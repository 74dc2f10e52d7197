"""Serial extraction: every covered event's recorded samples, nothing else."""
import os
import numpy as np
from obspy import UTCDateTime as UTC, read
import rec

def run_case(i, mon):
    from rfsed.ExtractEq import ExtractEq
    rng = mon.rng
    if not hasattr(mon, "places"):           # few places per shard: travel times are slow to compute
        mon.places = [(rng.uniform(-60, 70), rng.uniform(-180, 180), rng.choice([0.0, 10000.0, 33000.0, 550000.0])) for _ in range(4)]
        mon.stations = [(52.1, 6.9), (rng.uniform(-60, 70), rng.uniform(-180, 180))]
    sta = rng.choice(mon.stations)
    d = mon.newdir(); data = os.path.join(d, "rec"); os.makedirs(data)
    prefix = rng.choice(["", "", "r", "sta_"])
    recs, notes = rec.make_files(rng, data, prefix + "a", UTC(2016, 2, 3), fmts=("MSEED", "MSEED", "MSEED", "SAC"), nfiles=rng.choice([12, 20, 40]) if i % 12 == 5 else None)
    if prefix and rng.random() < .7:          # files the prefix does not select
        other, _ = rec.make_files(rng, data, "zz", recs[0][1][0][1].stats.starttime - 3600, nfiles=1)
    w = rng.choice([(5, 20), (10, 15), (2, 40), (0, 12), (3.5, 7.25)])
    win = rng.choice([[-w[0], w[1]], [w[0], w[1]], [-w[0], w[1]], [float(-w[0]), float(w[1])], (-w[0], w[1]), [-w[0], -w[1]]])
    evs, wins, hows = [], [], []
    mon.count("calls of over 10 files", len(recs) > 10)
    aims = [recs] * (rng.choice([1, 2, 3, 5, 7]) if i % 12 != 9 else rng.choice([15, 30]))
    if len(recs) > 10:                        # an event somewhere in most of the files
        aims = [[r] for k, r in enumerate(recs) if k in (0, len(recs) - 1) or rng.random() < .5]
    for aim in aims:
        lat, lon, dep = rng.choice(mon.places)
        P = rec.first_arrival(dep / 1000, rec.haversine_deg(sta[0], sta[1], lat, lon))
        s, how = rec.pick_window(rng, aim, w)
        t = UTC(round((UTC(s) + w[0] - P).timestamp, 5))
        on = t + P
        wins.append((on - w[0], on + w[1], on)); evs.append(rec.event(t, lat, lon, dep)); hows.append(how)
    if rng.random() < .25:                    # listed twice, or two events of one origin time
        k = rng.randrange(len(evs)); how = rng.choice(["twice", "same time"])
        evs.append(evs[k]); wins.append(wins[k])
        if how == "same time":
            lat, lon, dep = rng.choice(mon.places); P = rec.first_arrival(dep / 1000, rec.haversine_deg(sta[0], sta[1], lat, lon))
            t = evs[k].origins[0].time; on = t + P
            evs[-1], wins[-1] = rec.event(t, lat, lon, dep), (on - w[0], on + w[1], on)
        hows.append(how); mon.count("catalogs with events of one origin time")
    order = list(range(len(evs))); rng.shuffle(order)
    evs = [evs[k] for k in order]; wins = [wins[k] for k in order]; hows = [hows[k] for k in order]
    cat = os.path.join(d, "cat.xml"); rec.save_catalog(cat, evs)
    pairs, amb = [], False
    for fi, (p, trs) in enumerate(recs):
        for wi, (s, e, o) in enumerate(wins):
            c = rec.covered(trs, s, e)
            amb |= c is None
            if c:
                pairs.append((fi, wi))
            near = min(min(abs(s - tr.stats.starttime), abs(e - tr.stats.endtime)) for _, tr in trs)
            mon.count("window edges within 4 samples of a record edge", near < 4 * trs[0][1].stats.delta)
    later = sum(1 for fi, wi in pairs if rec.covered(recs[fi][1][:1], wins[wi][0], wins[wi][1]) is False)
    mon.count("events covered only by a later trace", later)
    mon.describe(notes=notes, hows=hows, window=win, prefix=prefix, nev=len(evs), pairs=pairs, later=later)
    if amb:
        mon.count("ambiguous edges skipped"); return
    if not pairs:
        mon.count("no event covered"); return
    fmt = rng.choice(["PICKLE", "PICKLE", "MSEED"])
    if fmt == "MSEED" and len({tr.data.dtype for _, t in recs for _, tr in t}) > 1:
        fmt = "PICKLE"
    out = os.path.join(d, "out." + fmt.lower())
    everything = [os.path.join(data, f) for f in os.listdir(data)] + [cat]
    h0 = rec.digest(everything)
    with rec.CachedTauP():
        mon.call("ExtractEq", ExtractEq, os.path.join(data, prefix), out, cat, sta[0], sta[1], win)
    mon.require(os.path.exists(out), "serial:file", "no output written")
    st = read(out)
    orc = rec.Oracle(recs, wins, pairs)
    if fmt == "MSEED":
        orc.multiset(mon, "serial-mseed", st)
    else:
        orc.structural(mon, "serial", st, ordered=False)
    mon.count("outputs judged " + fmt); mon.count("covered file-event pairs", len(pairs))
    mon.count("uncovered file-event pairs", len(recs) * len(wins) - len(pairs))
    mon.check(rec.digest(everything) == h0 and sorted(os.listdir(data)) == sorted(os.path.basename(p) for p in everything if p != cat), "serial:inputs", "data files or catalog changed")
    mon.nontriv(len(pairs) < len(recs) * len(wins))
