"""ResonanceFilt: filter definition, autocorrelation, first trough, linearity."""
import numpy as np
import gen, ref
from common import close, maxdiff

def kernel(D, delta):
    """Reference: (demeaned+detrended, autocorrelation, candidates [(lag index, strength)])."""
    D = np.asarray(D, float)
    n = len(D)
    x = np.arange(n) - (n - 1) / 2.0
    y = D - D.mean()
    y = y - x * (x @ y) / (x @ x)
    y = y - y.mean()
    m = 1
    while m < 2 * n:
        m *= 2
    F = np.fft.rfft(y, m)
    ac = np.fft.irfft(F * F.conj(), m)[:n]
    return y, ac / ac[0]

def first_trough(ac, e=1e-9):
    """(definite index or None, earliest possible index): a local minimum interior to the record."""
    d = np.diff(ac)
    pos = None; k = 0
    # exact definition with plateaus: last fall followed by rise
    n = len(ac); i = 1
    sure = maybe = None
    while i < n - 1:
        if ac[i - 1] > ac[i]:
            j = i
            while j + 1 < n and ac[j + 1] == ac[i]:
                j += 1
            if j + 1 < n and ac[j + 1] > ac[i]:
                mid = (i + j) // 2
                depth = min(ac[i - 1] - ac[i], ac[j + 1] - ac[i])
                if maybe is None:
                    maybe = mid
                if depth > e:
                    sure = mid
                    break
            i = j + 1
        else:
            i += 1
    return sure, maybe

def shift_filter(y, r, lag, delta):
    n = len(y)
    f = np.fft.fftfreq(n, delta)
    f = np.where((n % 2 == 0) & (np.arange(n) == n // 2), 0.5 / delta, f)
    H = 1 + r * np.exp(-2j * np.pi * f * lag)
    return np.real(np.fft.ifft(np.fft.fft(y) * H)), H

def check_filter(mon, res, data, delta, n, taxis, key, tol_rel=1e-8):
    y, ac = kernel(data, delta)
    scale = np.max(np.abs(data)) + 1e-300
    good = mon.check(close(res["rf"], data, tol_rel * scale), key + ":rf", "rf is not the (mean) RF, off by %s" % maxdiff(res["rf"], data))
    mon.check(close(res["time"], taxis, 1e-7), key + ":time", "time axis")
    mon.check(close(res["delta"], delta, 1e-9), key + ":delta", "delta")
    flat = np.max(np.abs(y)) < 1e-10 * scale
    if flat:
        mon.count("degenerate (linear) input skipped")
        return None
    at = 1e-7 if tol_rel < 1e-6 else 1e-3
    good &= mon.check(close(res["autoc"], ac, at), key + ":autocorrelation",
                      "autocorrelation off by %s" % maxdiff(res["autoc"], ac))
    r, lag = float(res["r"]), float(res["tlag"])
    sure, maybe = first_trough(ac, 1e-6 if tol_rel < 1e-6 else 1e-2)
    if sure is None and maybe is None:
        mon.count("inputs without trough")
        good &= mon.check(r == 0 and lag == 0, key + ":no-trough", "no trough, yet r=%r tlag=%r" % (r, lag))
    elif sure is not None and sure == maybe:
        mon.count("inputs with a trough")
        good &= mon.check(abs(lag - sure * delta) < 0.01 * delta, key + ":lag", "first trough at %g s, reported %g s" % (sure * delta, lag))
        good &= mon.check(abs(r - abs(ac[sure])) < at, key + ":strength", "strength %g, autocorrelation there %g" % (r, ac[sure]))
    else:
        mon.count("ambiguous trough, lag not judged")
    if good:
        want, H = shift_filter(y, r, lag, delta)
        mon.check(close(res["filteredrf"], want, tol_rel * 100 * scale), key + ":filtered",
                  "filtered RF differs from D + r*D(t-lag) by %s" % maxdiff(res["filteredrf"], want))
        mon.check(close(res["resonancefilter"], H, 1e-6), key + ":filter", "resonance filter is not 1 + r exp(-i w tlag)")
    return sure

def signal(rng, nr, n, delta, pre):
    kind = rng.choice(["echo", "echo", "echo", "noise", "pulses", "hump", "cosine", "spikes", "ramp"])
    lag = None
    if kind == "echo":
        lag = rng.randint(3, max(4, n // 8)); r0 = rng.uniform(0.2, 0.9)
        d = np.zeros(n); i0 = int(round(pre / delta)); a = 1.0; k = i0
        while k < n and abs(a) > 1e-3:
            d[k] += a; a *= -r0; k += lag
        w = rng.choice([1, 3, 5])
        d = gen.smooth(d, w)
        if rng.random() < 0.5:
            d = d + 0.002 * nr.randn(n)
    elif kind == "hump":     # detrended residue has long-period troughs only
        t = np.linspace(0, 1, n); d = np.exp(-((t - 0.5) / rng.uniform(0.1, 0.5)) ** 2)
    elif kind == "cosine":
        t = np.arange(n); d = np.cos(2 * np.pi * t / rng.uniform(6, n / 2))
    else:
        d = gen.rfdata(rng, nr, n, delta, pre, kind)
    return d, kind, lag

def run_case(i, mon):
    from rfsed.ReverbFilter import ResonanceFilt
    from rf.rfstream import RFStream
    rng, nr = mon.rng, mon.np
    rate = rng.choice(gen.RATES); delta = 1 / rate
    pre = rng.choice([0, 2, 5, 10, 10, 2.5])
    n = rng.choice([200, 301, 400, 513, 777, 1000, 1024, 2001]) if i % 17 else rng.choice([3600, 6001])
    if i % 25 == 7:
        n = rng.choice([3, 4, 5, 7])         # too short for a trough in many cases
    ntr = rng.choice([1, 1, 2, 3, 7]) if i % 14 else rng.choice([25, 60])
    base, kind, lag = signal(rng, nr, max(n, 8), delta, pre if pre < n * delta else 0)
    base = base[:n]
    if n < 8:
        base = np.array([rng.uniform(-1, 1) for _ in range(n)])
    amp = rng.choice([1.0, 1.0, 1e-5, 300.0])
    datas = []
    for k in range(ntr):
        datas.append(amp * (base * rng.uniform(0.5, 1.5) + (0.01 * nr.randn(n) if rng.random() < 0.3 else 0)))
    f32 = i % 11 == 4
    st, d = gen.stream(rng, nr, ntr=ntr, n=n, rate=rate, preonset=pre, datas=datas, kind=kind, dtype="float32" if f32 else None, scale=amp)
    delta = st[0].stats.delta
    mon.describe(stream=d, lag=lag)
    data = np.mean([t.data for t in st], axis=0)
    before = [t.data.copy() for t in st]
    r = mon.call("ResonanceFilt", ResonanceFilt, st, pre)
    sure = check_filter(mon, r, data, delta, n, ref.taxis(n, delta, pre), "ResonanceFilt", 1e-3 if f32 else 1e-8)
    mon.check(r["staname"] == st[0].stats.station, "ResonanceFilt:names", "station name")
    mon.check(all(np.array_equal(a.data, b) for a, b in zip(st, before)), "ResonanceFilt:input", "input stream changed")
    mon.count("odd length" if n % 2 else "even length")
    mon.count("several location codes", len(set(t.id for t in st)) > 1)
    if i % 4 == 0 and not f32 and sure is not None:
        c = rng.choice([1e-4, 0.5, 2.0, 1e3])
        st2 = RFStream(traces=[t.copy() for t in st])
        for t in st2:
            t.data = t.data * c
        r2 = mon.call("ResonanceFilt", ResonanceFilt, st2, pre)
        mon.count("scaling checks")
        s = np.max(np.abs(data))
        mon.check(close(r2["filteredrf"], c * np.asarray(r["filteredrf"]), 1e-7 * c * s) and
                  abs(float(r2["tlag"]) - float(r["tlag"])) < 1e-9 and abs(float(r2["r"]) - float(r["r"])) < 1e-6,
                  "ResonanceFilt:linear", "scaling the input by %g does not scale the result" % c)
    mon.nontriv(sure is not None)
