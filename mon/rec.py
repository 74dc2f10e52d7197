"""Waveform record files with self-identifying samples, event catalogs, and the oracle over extracted data.

Sample i of trace k of file f has the value (16 f + k) * STEP + i, so every sample found in an output
names the file, trace and position it came from."""
import hashlib, os
import numpy as np
from obspy import UTCDateTime as UTC, Stream, Trace, read
from obspy.core.event import Catalog, Event, Origin, Magnitude, read_events

STEP = 20000

def make_files(rng, d, prefix, t0, nfiles=None, maxlen=4000, fmts=("MSEED",)):
    """Record files d/prefix*; -> [(path, [(k, Trace as obspy reads it back)])] in sorted path order, and notes."""
    nfiles = nfiles or rng.choice([1, 2, 2, 3, 4])
    rate = rng.choice([10.0, 20.0, 12.5, 20.0, 40.0])
    cont = rng.random() < .4                       # consecutive files
    t = t0 + rng.uniform(0, 3600)
    out, notes = [], dict(nfiles=nfiles, rate=rate, contiguous=cont, layout=[])
    sta, net = rng.choice(["OPLO", "ST1", "X"]), rng.choice(["NL", "XX"])
    for f in range(nfiles):
        fmt = rng.choice(fmts)
        layout = rng.choice(["one", "gaps", "gaps", "channels", "channels", "both"]) if fmt == "MSEED" else "one"
        chans = ["BHZ"] if layout in ("one", "gaps") else rng.sample(["BHZ", "BHN", "BHE", "HHZ"], rng.choice([2, 3]))
        dtype = rng.choice([np.int32, np.float32, np.float64]) if fmt == "MSEED" else np.float32
        total = rng.randint(1500, maxlen)
        st, k = Stream(), 0
        for c in chans:
            cut = [0, total]
            if layout in ("gaps", "both") and rng.random() < .9:
                cut += [rng.randint(200, total - 200) for _ in range(rng.choice([1, 1, 2]))]
            cut = sorted(cut)
            for a, b in zip(cut, cut[1:]):
                gap = 0 if a == 0 else rng.randint(3, 150)
                if b - a - gap < 100:
                    continue
                base = (16 * f + k) * STEP
                tr = Trace((base + np.arange(b - a - gap)).astype(dtype))
                tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = net, sta, rng.choice(["", "", "00"]) if not st else st[0].stats.location, c
                tr.stats.sampling_rate = rate
                tr.stats.starttime = t + (a + gap) / rate
                st.append(tr); k += 1
        if not st:
            tr = Trace((16 * f * STEP + np.arange(total)).astype(dtype))
            tr.stats.network, tr.stats.station, tr.stats.channel, tr.stats.sampling_rate, tr.stats.starttime = net, sta, "BHZ", rate, t
            st.append(tr)
        path = os.path.join(d, "%s%02d%s" % (prefix, f, rng.choice([".mseed", ".dat", ""]) if fmt == "MSEED" else ".sac"))
        st.write(path, format=fmt)
        out.append(path)
        notes["layout"].append((fmt, layout, len(st), dtype.__name__))
        t = t + total / rate if cont else t + total / rate + rng.choice([-0.4 * total / rate, 30, 500])
    out.sort()
    recs = []
    for p in out:
        recs.append((p, [(int(tr.data[0]) // STEP, tr) for tr in read(p)]))
    return recs, notes

def span(tr):
    return tr.stats.starttime, tr.stats.endtime

def pick_window(rng, recs, w):
    """A target window [start, start + w0 + w1] placed inside, across an edge of, or off the recorded traces."""
    L = w[0] + w[1]
    p, trs = rng.choice(recs)
    k, tr = rng.choice(trs)
    a, b = span(tr)
    dt = tr.stats.delta
    how = rng.choice(["inside", "inside", "inside", "start", "end", "cross", "off", "any"])
    if how == "inside" and b - a > L + 2 * dt:
        return a + rng.uniform(0.5 * dt, (b - a) - L - 0.5 * dt), how
    off = rng.choice([-3, -1.3, -0.7, -0.3, 0.3, 0.7, 1.3, 3]) * dt
    if how == "start":
        return a + off, how
    if how == "end":
        return b - L + off, how
    if how == "cross":
        return rng.choice([a, b]) - rng.uniform(0.1, 0.9) * L, how
    if how == "off":
        return b + 1e5 + rng.uniform(0, 100), how
    return a + rng.uniform(-0.2, 1.0) * (b - a), how

def covered(trs, s, e):
    """Is [s, e] inside one of the traces? None when a margin is too close to zero to tell."""
    amb = False
    for _, tr in trs:
        m = min(s - tr.stats.starttime, tr.stats.endtime - e)
        if abs(m) < 1e-5:
            amb = True
        elif m > 0:
            return True
    return None if amb else False

def bounds(tr, s, e):
    """Index ranges: must = samples inside [s, e] by half a sample, may = samples within half a sample of it."""
    dt, n = tr.stats.delta, tr.stats.npts
    x = np.arange(n) * dt
    a, b = s - tr.stats.starttime, e - tr.stats.starttime
    must = np.nonzero((x >= a + 0.52 * dt) & (x <= b - 0.52 * dt))[0]
    may = np.nonzero((x >= a - 0.52 * dt) & (x <= b + 0.52 * dt))[0]
    return must, may

class Oracle:
    """Expected extraction: for (file, window) pairs the recorded samples inside the window."""
    def __init__(self, recs, wins, pairs):
        self.recs, self.wins, self.pairs = recs, wins, pairs      # wins: [(start, end, onset)]
        self.by = {}
        for fi, (p, trs) in enumerate(recs):
            for k, tr in trs:
                self.by[k] = (fi, tr)

    def locate(self, tr):
        """-> (file index, k, first index, last index) or None if the samples are not a recorded run."""
        v = np.asarray(tr.data, float)
        if not len(v):
            return None
        k = int(v[0]) // STEP
        if k not in self.by:
            return None
        fi, rec = self.by[k]
        i0 = int(v[0]) - k * STEP
        if i0 < 0 or i0 + len(v) > rec.stats.npts or not np.array_equal(v, np.asarray(rec.data[i0:i0 + len(v)], float)):
            return None
        return fi, k, i0, i0 + len(v) - 1

    def same_place(self, mon, key, tr, k, i0, ttol):
        rec = self.by[k][1]
        want = rec.stats.starttime + i0 * rec.stats.delta
        mon.check(tr.id == rec.id, key + ":id", "samples of %s written as %s" % (rec.id, tr.id))
        mon.check(abs(tr.stats.starttime - want) <= ttol, key + ":time", "written at %s, recorded at %s" % (tr.stats.starttime, want))
        mon.check(abs(tr.stats.sampling_rate - rec.stats.sampling_rate) < 1e-3 * rec.stats.sampling_rate, key + ":rate", "sampling rate %r" % tr.stats.sampling_rate)

    def structural(self, mon, key, st, ordered):
        """Traces with onsets: every trace one recorded run inside the window of its onset; nothing missing or twice."""
        need = {pr: [] for pr in self.pairs}
        seq = []
        for tr in st:
            loc = self.locate(tr)
            if not mon.check(loc is not None, key + ":samples", "a written trace (%s, %d samples from %r) is not a run of recorded samples" % (tr.id, len(tr.data), list(tr.data[:3]))):
                continue
            fi, k, i0, i1 = loc
            onset = tr.stats.get("onset")
            if not mon.check(onset is not None, key + ":onset", "a written trace has no onset"):
                continue
            near = [wi for wi, w in enumerate(self.wins) if abs(UTC(onset) - w[2]) < 2e-5]
            if not mon.check(bool(near), key + ":onset", "onset %s belongs to no window" % onset):
                continue
            self.same_place(mon, key, tr, k, i0, 2e-5)
            cand = [wi for wi in near if (fi, wi) in need]
            if not mon.check(bool(cand), key + ":extra", "data of file %d written for window %d, which it does not cover" % (fi, near[0])):
                continue
            wi = min(cand, key=lambda w: sum(1 for x in need[(fi, w)] if x[0] == k))
            need[(fi, wi)].append((k, i0, i1)); seq.append((fi, wi))
            mon.count("extracted traces judged")
        for (fi, wi), runs in need.items():
            s, e, _ = self.wins[wi]
            for k, rec in self.recs[fi][1]:
                must, may = bounds(rec, s, e)
                got = np.zeros(rec.stats.npts, int)
                for kk, a, b in runs:
                    if kk == k:
                        got[a:b + 1] += 1
                mon.check(np.all(got <= 1), key + ":duplicate", "samples of file %d written twice for window %d" % (fi, wi))
                mon.check(np.all(got[must] >= 1), key + ":missing", "%d of %d samples of file %d in window %d are missing" % (np.sum(got[must] == 0), len(must), fi, wi))
                out = np.nonzero(got)[0]
                mon.check(len(out) == 0 or (len(may) and out[0] >= may[0] and out[-1] <= may[-1]), key + ":outside", "samples outside window %d written from file %d" % (wi, fi))
                mon.count("file-window-trace triples judged", len(may) > 0)
        if ordered:
            # windows may share an onset, so an order by (file, onset) is what can be told
            o = [(fi, self.pairs.index((fi, wi))) for fi, wi in seq]
            mon.check(o == sorted(o), key + ":order", "traces not in the order of files and windows: %s" % seq[:20])

    def multiset(self, mon, key, st, ttol=2e-3):
        """Samples alone (formats without onsets; traces may have been joined): each as often as windows hold it."""
        count = {k: np.zeros(tr.stats.npts, int) for k, (fi, tr) in self.by.items()}
        for tr in st:
            v = np.asarray(tr.data, float)
            if not mon.check(np.all(v == np.floor(v)) and len(v), key + ":samples", "written samples are not recorded values"):
                continue
            ks = (v // STEP).astype(int); ix = (v - ks * STEP).astype(int)
            t = tr.stats.delta * np.arange(len(v))
            for k in np.unique(ks):
                if not mon.check(int(k) in self.by, key + ":samples", "a written sample was never recorded"):
                    continue
                rec = self.by[int(k)][1]; sel = ks == k
                if not mon.check(np.all(ix[sel] < rec.stats.npts), key + ":samples", "a written sample was never recorded"):
                    continue
                np.add.at(count[int(k)], ix[sel], 1)
                want = (rec.stats.starttime - tr.stats.starttime) + ix[sel] * rec.stats.delta
                mon.check(np.max(np.abs(want - t[sel])) <= max(ttol, 0.02 * rec.stats.delta), key + ":time", "samples written at times other than recorded")
                mon.check(tr.id == rec.id, key + ":id", "samples of %s written as %s" % (rec.id, tr.id))
            mon.count("extracted traces judged")
        for k, (fi, rec) in self.by.items():
            lo = np.zeros(rec.stats.npts, int); hi = lo.copy()
            for f2, wi in self.pairs:
                if f2 == fi:
                    must, may = bounds(rec, self.wins[wi][0], self.wins[wi][1])
                    lo[must] += 1; hi[may] += 1
            mon.check(np.all(count[k] >= lo), key + ":missing", "%d samples of file %d missing" % (np.sum(count[k] < lo), fi))
            mon.check(np.all(count[k] <= hi), key + ":extra", "%d samples of file %d written that no window holds, or too often" % (np.sum(count[k] > hi), fi))
            mon.count("file-window-trace triples judged", int(np.any(hi)))

def digest(paths):
    return {p: hashlib.sha1(open(p, "rb").read()).hexdigest() for p in paths}

# ---------------------------------------------------------------- events
def haversine_deg(a, b, c, d):
    p1, p2 = np.radians(a), np.radians(c)
    h = np.sin((p2 - p1) / 2) ** 2 + np.cos(p1) * np.cos(p2) * np.sin(np.radians(d - b) / 2) ** 2
    return float(np.degrees(2 * np.arctan2(np.sqrt(h), np.sqrt(max(0.0, 1 - h)))))

_model, _tt = None, {}
def first_arrival(depth_km, deg):
    """Earliest iasp91 arrival of the default phases, by obspy's TauP."""
    global _model
    key = (round(depth_km, 6), round(deg, 9))
    if key not in _tt:
        from obspy.taup import TauPyModel
        if _model is None:
            _model = TauPyModel(model="iasp91")
        with CachedTauP():
            _tt[key] = min(a.time for a in _model.get_travel_times(source_depth_in_km=depth_km, distance_in_degree=deg))
    return _tt[key]

def event(time, lat, lon, depth_m, mag=6.0):
    e = Event()
    e.origins = [Origin(time=time, latitude=lat, longitude=lon, depth=depth_m)]
    e.magnitudes = [Magnitude(mag=mag)]
    return e

def save_catalog(path, events):
    Catalog(events=list(events)).write(path, format="QUAKEML")

class CachedTauP:
    """Speeds up repeated travel time requests by remembering TauP's own answers."""
    def __enter__(self):
        import obspy.taup
        self.cls = obspy.taup.TauPyModel
        self.orig = self.cls.get_travel_times
        orig, memo = self.orig, _memo
        def cached(me, *a, **k):
            named = dict(zip(("source_depth_in_km", "distance_in_degree", "phase_list", "receiver_depth_in_km"), a), **k)
            key = (str(me.model.s_mod.v_mod.model_name),) + tuple(
                (n, round(float(v), 9) if isinstance(v, (int, float, np.floating)) else repr(v)) for n, v in sorted(named.items()))
            if key not in memo:
                memo[key] = orig(me, *a, **k)
            return memo[key]
        self.cls.get_travel_times = cached
        return self
    def __exit__(self, *a):
        self.cls.get_travel_times = self.orig
_memo = {}
