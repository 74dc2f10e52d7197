"""Seeded generators of receiver-function streams, grids and models."""
import numpy as np
from obspy import UTCDateTime as UTC
from rf.rfstream import RFStream, RFTrace

KM2DEG = 180.0 / (np.pi * 6371.0)      # degrees per km
RATES = [10.0, 12.5, 16.0, 20.0, 25.0, 40.0, 50.0, 100.0]
NETS = ["XX", "NL", "G"]
STAS = ["OPLO", "ABC", "ST1", "X"]

def smooth(x, k):
    if k < 2:
        return x
    w = np.hanning(k + 2)[1:-1]
    return np.convolve(x, w / w.sum(), mode="same")

def pulses(n, delta, preonset, times, amps, width):
    t = delta * np.arange(n) - preonset
    d = np.zeros(n)
    for tt, a in zip(times, amps):
        d += a * np.exp(-((t - tt) / width) ** 2)
    return d

def rfdata(rng, nr, n, delta, preonset, kind):
    if kind == "noise":
        return smooth(nr.randn(n), rng.choice([1, 1, 3, 9]))
    if kind == "pulses":
        k = rng.randint(2, 9)
        ts = [0.0] + [rng.uniform(-preonset, n * delta - preonset) for _ in range(k)]
        am = [1.0] + [rng.uniform(-0.6, 0.6) for _ in range(k)]
        return pulses(n, delta, preonset, ts, am, rng.uniform(1.5, 8) * delta + 0.05)
    if kind == "spikes":
        d = np.zeros(n)
        for _ in range(rng.randint(1, 12)):
            d[rng.randrange(n)] = rng.uniform(-1, 1)
        return d + 1e-3 * nr.randn(n)
    if kind == "negative":
        return -np.abs(smooth(nr.randn(n), 5)) - 0.1
    if kind == "ramp":
        return np.linspace(rng.uniform(-2, 0), rng.uniform(0.1, 3), n) + 0.01 * nr.randn(n)
    raise KeyError(kind)

KINDS = ["noise", "pulses", "spikes", "negative", "ramp"]

def make_trace(data, delta, preonset, slowness, baz, dist, net, sta, loc, cha, onset):
    tr = RFTrace(data=data)
    s = tr.stats
    s.network, s.station, s.location, s.channel = net, sta, loc, cha
    s.sampling_rate = 1.0 / delta
    s.starttime = onset - preonset
    s.onset = onset
    s.slowness = slowness
    s.back_azimuth = baz
    s.distance = dist
    s.phase = "P"
    s.station_latitude, s.station_longitude, s.station_elevation = 52.1, 6.1, 10.0
    s.event_latitude, s.event_longitude, s.event_depth = 10.0, 20.0, 30.0
    s.event_magnitude = 6.0
    s.event_time = onset - 500.0
    return tr

def stream(rng, nr, ntr=None, n=None, rate=None, preonset=None, kind=None, cha=None,
           scale=None, dtype=None, slow=(4.0, 8.8), locs=None, sta=None, datas=None, slows=None):
    """An RFStream plus a description. All traces share length and sampling."""
    ntr = ntr or rng.choice([1, 1, 2, 3, 4, 5, 7, 12])
    rate = rate or rng.choice(RATES)
    delta = 1.0 / rate
    if preonset is None:
        preonset = rng.choice([0, 2, 5, 5, 10, 10, 15, 20])
    n = n or rng.choice([301, 400, 513, 600, 777, 1001, 1200])
    kind = kind or rng.choice(KINDS)
    if scale is None:
        scale = rng.choice([1.0, 1.0, 1.0, 1e-6, 250.0])
    net, sta = rng.choice(NETS), sta or rng.choice(STAS)
    cha = cha or rng.choice(["BHR", "HHR", "BHQ"])
    if locs is None:
        locs = rng.choice([[""], [""], ["00"], ["", "01"], ["00", "10", ""]])
    base = UTC(2015, 1, 1) + rng.uniform(0, 3e7)
    trs = []
    few = rng.random()                        # events from the same place, or the same trace twice
    pool = [rng.uniform(*slow) for _ in range(rng.choice([1, 2, 3]))] if few < .25 else None
    twin = ntr > 1 and .2 < few < .3 and datas is None
    for k in range(ntr):
        d = datas[k] if datas is not None else scale * rfdata(rng, nr, n, delta, preonset, kind)
        if dtype:
            d = d.astype(dtype)
        p = slows[k] if slows is not None else rng.choice(pool) if pool else rng.uniform(*slow)
        if twin and k and rng.random() < .5:
            d = trs[0].data if rng.random() < .5 else d
            p = float(trs[0].stats.slowness) if slows is None else p
        trs.append(make_trace(np.array(d), delta, preonset, p, rng.uniform(0, 360),
                              rng.uniform(30, 100), net, sta, locs[k % len(locs)] if k < len(locs)
                              else rng.choice(locs), cha, base + 86400.0 * k))
    st = RFStream(traces=trs)
    desc = dict(ntr=ntr, n=n, rate=rate, preonset=preonset, kind=kind, scale=scale, locs=locs,
                station=sta, channel=cha, dtype=dtype or "float64", few=bool(pool), twin=twin)
    return st, desc

def grid(rng, lo, hi, nmin=2, nmax=9, dec=None):
    """A strictly monotone or shuffled axis of distinct values."""
    m = rng.randint(nmin, nmax)
    how = rng.choice(["lin", "lin", "lin", "rand", "desc", "shuffle", "int"])
    a, b = sorted([rng.uniform(lo, hi), rng.uniform(lo, hi)])
    if b - a < 0.05 * (hi - lo):
        a, b = lo, hi
    if how == "rand":
        v = np.array(sorted(rng.uniform(lo, hi) for _ in range(m)))
    elif how == "int" and hi - lo > 2 * m:
        v = np.array(sorted(rng.sample(range(int(np.ceil(lo)), int(hi)), m)), dtype=rng.choice([int, float]))
    else:
        v = np.linspace(a, b, m)
        if how == "desc":
            v = v[::-1].copy()
        if how == "shuffle":
            v = list(v); rng.shuffle(v); v = np.array(v)
    return v

def weights(rng):
    k = rng.random()
    if k < 0.35:
        return (0.6, 0.3, 0.1)
    if k < 0.5:
        return (0.7, 0.2, 0.1)
    if k < 0.6:
        return (1, 0, 0)
    if k < 0.7:
        return (0, 1.0, 0.0)
    if k < 0.8:
        return (0.0, 0.0, 1.0)
    return tuple(round(rng.uniform(0, 1), 3) for _ in range(3))
