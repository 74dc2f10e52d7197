"""Iterative deconvolution: self-deconvolution, sparse recovery, rms bookkeeping, invariances."""
import numpy as np
import gen
from common import close, maxdiff

def npow2(n):
    m = 1
    while m < n:
        m *= 2
    return m

def gauss_pulse(t, a):
    return a / np.sqrt(np.pi) * np.exp(-(a * t) ** 2)

def wavelet(rng, nr, m, dt):
    """Decaying broadband source of m samples with a clear onset."""
    kind = rng.choice(["decay", "decay", "two", "spike"])
    if kind == "spike":
        w = np.zeros(m); w[0] = rng.choice([1.0, -2.0]); return w, kind
    if kind == "two":
        w = np.zeros(m); w[0] = 1; w[rng.randrange(1, m)] = rng.uniform(-.7, .7); return w, kind
    w = nr.randn(m) * np.exp(-np.arange(m) / (0.2 * m)) * 0.25
    w[0] = rng.choice([1.0, -1.0]) * rng.uniform(1, 2)
    return w, kind

def expected(t, spikes, a, pre, dt):
    """The spike train, Gaussian filtered and delayed by preonset, for each way of rounding preonset to samples."""
    out = []
    k = pre / dt
    for s in {k, np.floor(k + 0.5 - 1e-9), np.floor(k + 0.5 + 1e-9)}:
        # the delay is circular over the transform length
        T = npow2(len(t)) * dt
        out.append(sum(x * gauss_pulse(t - s * dt - ts + j * T, a) for ts, x in spikes for j in (-1, 0, 1)))
    return out

def rms_rules(mon, key, rms, it, itmax, minderr):
    rms = np.asarray(rms, float)
    mon.check(len(rms) == it and 1 <= it <= itmax, key + ":rms-count", "%d rms values for %r iterations (limit %d)" % (len(rms), it, itmax))
    mon.count("iterations observed", len(rms))
    if not len(rms):
        return
    mon.check(np.all(np.isfinite(rms)) and np.all(rms >= -1e-12), key + ":rms-range", "rms not a finite misfit")
    full = np.concatenate([[1.0], rms])
    d = np.diff(full)
    mon.check(np.all(d <= 1e-9), key + ":rms-monotone", "rms increases by %g" % d.max())
    drop = -100 * d
    if it < itmax:
        mon.count("stopped by convergence")
        mon.check(drop[-1] <= minderr * (1 + 1e-6) + 1e-10, key + ":stop", "stopped although the last change was %g %% > %g" % (drop[-1], minderr))
    else:
        mon.count("stopped by the iteration limit")
    mon.check(np.all(drop[:-1] > minderr * (1 - 1e-6) - 1e-10), key + ":late-stop", "went on after a change below %g %%" % minderr)

def run_case(i, mon):
    from rfsed import synrf as S
    rng, nr = mon.rng, mon.np
    rate = rng.choice([8.0, 10.0, 12.5, 20.0, 25.0, 40.0, 50.0]); dt = 1 / rate
    a = rng.choice([0.8, 1.0, 1.25, 2.0, 2.5])
    n = rng.choice([256, 300, 400, 512, 513, 700, 1024]) if i % 13 else rng.choice([2048, 2500, 4096])
    pre = rng.choice([0, 2, 5, 5, 10, 2.5, 3.3, 7.77])
    pre = min(pre, 0.3 * n * dt)
    phase = rng.choice(["P", "P", "P", "S"])
    itmax = rng.choice([400, 400, 200, 50, 10, 1]); minderr = rng.choice([0.001, 0.001, 0.0001, 0.01, 0.5])
    what = ["self", "sparse", "sparse", "noise", "scale", "misfit", "wrap", "reject"][i % 8]
    amp = rng.choice([1.0, 1.0, 1e-7, 1e5, 1e-10])
    t = np.arange(n) * dt
    m = rng.randint(8, max(9, n // 6))
    w, wk = wavelet(rng, nr, m, dt)
    win = np.zeros(n); win[:m] = w * amp
    kw = dict(preonset=pre, gaussian=a, itmax=itmax, minderr=minderr, phase=phase)
    mon.describe(what=what, n=n, dt=dt, a=a, amp=amp, wavelet=wk, m=m, **kw)
    uw = None
    unit = a / np.sqrt(np.pi)
    if what == "self":
        off = rng.randrange(0, n // 8)
        win = np.roll(win, off)
        rf, rms, it = mon.call("deconv_iterative", S.deconv_iterative, win.copy(), win.copy(), dt, **kw)
        rms_rules(mon, "self", rms, it, itmax, minderr)
        ok = any(close(rf, e, 0.02 * unit) for e in expected(t, [(0.0, 1.0)], a, pre, dt))
        mon.check(len(rf) == n, "self:length", "RF has %d samples, input %d" % (len(rf), n))
        mon.check(ok, "self:pulse", "self-deconvolution is not the unit Gaussian at preonset (peak %g at %g s, expected %g at %g s)" %
                  (np.max(rf), t[int(np.argmax(rf))], unit, pre))
        mon.count("self-deconvolutions"); mon.nontriv()
    elif what == "sparse":
        # well separated spikes, inside the lags searched, nothing wraps
        lo, hi = (0.0, (n - m) * dt - 3 / a - 2 * dt)
        hi = min(hi, 0.5 * npow2(n) * dt - 3 * dt, n * dt - pre - 3 / a)
        sep = 4.5 / a
        spikes, tt = [], lo + rng.choice([0.0, rng.uniform(0, 2)])
        while tt < hi and len(spikes) < 5:
            x = rng.uniform(0.25, 1) * rng.choice([1, 1, -1])
            spikes.append((round(tt / dt) * dt, x if spikes else abs(x) + 0.3))
            tt += sep + rng.uniform(0, 4)
        if not spikes:
            mon.count("record too short for a spike train")
            return
        uin = np.zeros(n)
        for ts, x in spikes:
            k = int(round(ts / dt)); uin[k:k + m] += x * w[:n - k] * amp
        kw.update(itmax=400, minderr=1e-4)
        rf, rms, it = mon.call("deconv_iterative", S.deconv_iterative, uin, win, dt, **kw)
        rms_rules(mon, "sparse", rms, it, 400, 1e-4)
        if phase == "S":
            # acausal lags: the same train moved before the source
            back = rng.randint(0, int(0.5 * pre / dt))
            win2 = np.roll(win, back)
            rf, rms, it = mon.call("deconv_iterative", S.deconv_iterative, uin, win2, dt, **kw)
            spikes = [(ts - back * dt, x) for ts, x in spikes]
            if back + m > n:
                return
            mon.count("acausal recoveries", back > 0)
        big = max(abs(x) for _, x in spikes) * unit
        errs = [float(np.max(np.abs(rf - e))) if len(rf) == n else np.inf for e in expected(t, spikes, a, pre, dt)]
        mon.check(min(errs) < 0.06 * big, "sparse:recovery", "spike train %r not recovered, off by %.3g of the largest pulse" % (spikes, min(errs) / big))
        mon.count("spike trains recovered"); mon.count("spikes planted", len(spikes)); mon.nontriv(len(spikes) > 1)
    elif what == "noise":
        uin, win = gen.smooth(nr.randn(n), 3) * amp, gen.smooth(nr.randn(n), 3) * amp
        rf, rms, it = mon.call("deconv_iterative", S.deconv_iterative, uin, win, dt, **kw)
        rms_rules(mon, "noise", rms, it, itmax, minderr)
        mon.check(len(rf) == n and np.all(np.isfinite(rf)), "noise:shape", "RF shape or values")
        # wrappers deliver the same
        r2, s2, i2 = mon.call("deconvolve", S.deconvolve, uin, win, dt, method=rng.choice(["iter", "ITER", "Iter"]), **kw)
        mon.check(np.array_equal(rf, r2) and np.array_equal(rms, s2) and it == i2, "deconvolve:same", "deconvolve differs from deconv_iterative")
        from obspy import Trace
        ta, tb = Trace(data=uin.copy()), Trace(data=win.copy())
        ta.stats.delta = tb.stats.delta = dt; ta.stats.station = "QQ"
        d0 = ta.stats.delta
        tr = mon.call("RFTrace.deconvolve", S.RFTrace.deconvolve, ta, tb, method="iter", **kw)
        rr = mon.call("deconv_iterative", S.deconv_iterative, uin, win, d0, **kw)[0]
        mon.check(close(tr.data, rr, 1e-9 * (np.max(np.abs(rr)) + 1e-300)) and abs(tr.stats.delta - d0) < 1e-12 and tr.stats.station == "QQ",
                  "RFTrace:same", "RFTrace.deconvolve differs from deconv_iterative")
        mon.check(len(tr.stats.rms) == tr.stats.iter, "RFTrace:rms", "rms/iter header")
        mon.check(np.array_equal(ta.data, uin) and np.array_equal(tb.data, win), "RFTrace:input", "input traces changed")
        mon.nontriv()
    elif what == "scale":
        uin, win = nr.randn(n), nr.randn(n)
        c = 2.0 ** rng.choice([-40, -20, -3, 5, 30])
        r1, s1, i1 = mon.call("deconv_iterative", S.deconv_iterative, uin, win, dt, **kw)
        r2, s2, i2 = mon.call("deconv_iterative", S.deconv_iterative, c * uin, c * win, dt, **kw)
        mon.check(i1 == i2 and close(r1, r2, 1e-8 * np.max(np.abs(r1))) and close(s1, s2, 1e-9), "scale:invariant",
                  "scaling both inputs by %g changes the RF by %s (%d vs %d iterations)" % (c, maxdiff(r1, r2), i1, i2))
        r3, s3, i3 = mon.call("deconv_iterative", S.deconv_iterative, c * uin, win, dt, **kw)
        mon.check(i1 == i3 and close(c * r1, r3, 1e-8 * c * np.max(np.abs(r1))), "scale:linear", "scaling the numerator does not scale the RF")
        mon.count("scalings compared", 2); mon.nontriv()
    elif what == "misfit":
        # full-length RF: the final rms is the misfit of the RF against the filtered numerator
        n = rng.choice([256, 512]); uin, win = nr.randn(n), np.zeros(n); win[:min(m, n)] = w[:n]
        kw["preonset"] = pre = rng.choice([0, 5, 3.3]) if n * dt > 20 else 0
        rf, rms, it = mon.call("deconv_iterative", S.deconv_iterative, uin, win, dt, **kw)
        rms_rules(mon, "misfit", rms, it, itmax, minderr)
        f = 2 * np.pi * np.fft.fftfreq(n, dt); G = np.exp(-(f / a) ** 2 / 4)
        best = None
        for s in {int(np.floor(pre / dt + 0.5 - 1e-9)), int(np.floor(pre / dt + 0.5 + 1e-9))}:
            p = np.fft.fft(np.roll(rf, -s)) * np.fft.fft(win) * dt        # unit: RF is per second
            u = np.fft.fft(uin) * G
            got = np.sum(np.abs(u - p) ** 2) / np.sum(np.abs(u) ** 2)
            best = got if best is None or abs(got - rms[-1]) < abs(best - rms[-1]) else best
        mon.check(abs(best - rms[-1]) < 1e-6 * max(1, rms[-1]), "misfit:rms", "last rms %g, the returned RF has misfit %g" % (rms[-1], best))
        mon.count("misfits recomputed"); mon.nontriv()
    elif what == "wrap":
        # delaying the numerator by whole samples delays the RF by as much
        k = rng.randint(1, n // 8); uin = np.zeros(n); uin[:m] = win[:m]; u2 = np.roll(uin, k)
        r1 = mon.call("deconv_iterative", S.deconv_iterative, uin, win, dt, **kw)[0]
        r2 = mon.call("deconv_iterative", S.deconv_iterative, u2, win, dt, **kw)[0]
        mon.check(close(r2[k:], r1[:-k], 0.02 * unit), "wrap:delay", "delaying the numerator by %d samples does not delay the RF (%s)" % (k, maxdiff(r2[k:], r1[:-k])))
        mon.count("delays compared"); mon.nontriv()
    else:
        m2 = rng.choice([n - 1, n + 1, n // 2, 1])
        for fn, kw2 in ((S.deconv_iterative, {}), (S.deconvolve, {"method": "iter"})):
            try:
                fn(nr.randn(n), nr.randn(m2), dt, preonset=pre, gaussian=a, **kw2)
                mon.violation("reject:length", "%s accepts %d and %d samples" % (fn.__name__, n, m2))
            except ValueError:
                mon.count("length mismatches rejected")
            except Exception as e:
                mon.violation("reject:type", "%s raises %s for inputs of different length" % (fn.__name__, type(e).__name__))
        z = mon.call("deconv_iterative", S.deconv_iterative, np.zeros(n), win, dt, **kw)
        mon.check(np.all(z[0] == 0) and len(z[1]) == z[2], "zero:rf", "a zero numerator gives a non-zero RF")
        mon.nontriv()
