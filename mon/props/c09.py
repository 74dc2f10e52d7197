"""Water-level deconvolution against the regularised spectral quotient."""
import numpy as np
import gen
from props.c08 import npow2, wavelet
from common import close, maxdiff

def reference(u, w, dt, pre, wl, a, normalize):
    n = len(u); m = npow2(n)
    f = 2 * np.pi * np.fft.rfftfreq(m, dt)
    U, W = np.fft.rfft(u, m), np.fft.rfft(w, m)
    P = np.abs(W) ** 2
    G = np.exp(-(f / a) ** 2 / 4) / dt
    floor = wl * P.max()
    D = np.maximum(P, floor)
    Q = G * U * W.conj() / D
    rf = np.fft.irfft(Q * np.exp(-1j * f * pre), m)[:n]
    ut, pt = np.fft.irfft(G * U, m)[:n], np.fft.irfft(Q * W, m)[:n]
    rms = np.sum((ut - pt) ** 2) / np.sum(ut ** 2)
    if normalize:
        full = np.concatenate([G, G[1:-1]])
        rf = rf / (full.sum() / m)
    return rf, rms, P.min() >= floor

def run_case(i, mon):
    from rfsed import synrf as S
    rng, nr = mon.rng, mon.np
    rate = rng.choice([10.0, 12.5, 20.0, 25.0, 40.0, 50.0]); dt = 1 / rate
    a = rng.choice([0.8, 1.0, 1.25, 2.0, 2.5, 4.0]); a = min(a, 0.4 * rate)
    n = rng.choice([200, 256, 300, 400, 512, 513, 700, 1024, 2001]) if i % 12 else rng.choice([4096, 5000, 9001])
    pre = min(rng.choice([0, 2, 5, 5, 10, 2.5, 3.3, 7.77]), 0.3 * n * dt)
    wl = rng.choice([0.05, 0.05, 0.01, 0.001, 1e-6, 0.5, 1.0, 0.2])
    normalize = rng.choice([False, True])
    amp = rng.choice([1.0, 1.0, 1e-7, 1e5])
    what = ["pair", "self", "linear", "wrappers", "reject"][i % 5]
    t = np.arange(n) * dt
    m = rng.randint(8, max(9, n // 6)); w, wk = wavelet(rng, nr, m, dt)
    if rng.random() < 0.4:
        win = gen.smooth(nr.randn(n), rng.choice([1, 3])) * amp; wk = "noise"
    else:
        win = np.zeros(n); win[:m] = w * amp
    uin = gen.rfdata(rng, nr, n, dt, pre, rng.choice(["noise", "pulses", "spikes"])) * amp
    kw = dict(preonset=pre, wlevel=wl, gaussian=a, normalize=normalize)
    mon.describe(what=what, n=n, dt=dt, wavelet=wk, m=m, amp=amp, **kw)
    keep = uin.copy(), win.copy()
    if what == "pair":
        rf, rms = mon.call("deconv_waterlevel", S.deconv_waterlevel, uin, win, dt, **kw)
        want, wr, above = reference(keep[0], keep[1], dt, pre, wl, a, normalize)
        s = np.max(np.abs(want)) + 1e-300
        mon.check(close(rf, want, 2e-6 * s), "water:rf", "RF differs from the regularised quotient by %s (scale %g)" % (maxdiff(rf, want), s))
        mon.check(abs(float(np.real(rms)) - wr) < 1e-6 * max(1, wr), "water:rms", "misfit %r, expected %g" % (rms, wr))
        mon.count("quotients compared"); mon.count("water level active", not above); mon.count("water level inactive", above)
        mon.nontriv(not above)
    elif what == "self":
        rf, rms = mon.call("deconv_waterlevel", S.deconv_waterlevel, win.copy(), win, dt, **kw)
        want, wr, above = reference(keep[1], keep[1], dt, pre, wl, a, normalize)
        mon.check(len(rf) == n and abs(t[int(np.argmax(rf))] - pre) <= dt * 1.001, "water:self-peak", "self-deconvolution peaks at %g s, preonset %g" % (t[int(np.argmax(rf))], pre))
        if above and normalize and abs(pre / dt - round(pre / dt)) < 1e-6:
            mon.check(abs(np.max(rf) - 1) < 1e-6, "water:normalised", "normalised self-deconvolution peaks at %g" % np.max(rf))
            mon.count("normalised peaks judged")
        mon.count("self-deconvolutions"); mon.nontriv()
    elif what == "linear":
        u2 = nr.randn(n) * amp; c1, c2 = rng.uniform(-2, 2), rng.uniform(-2, 2)
        f = lambda u: mon.call("deconv_waterlevel", S.deconv_waterlevel, u, win, dt, **kw)[0]
        r1, r2, r3 = f(uin), f(u2), f(c1 * uin + c2 * u2)
        s = np.max(np.abs(r1)) + np.max(np.abs(r2)) + 1e-300
        mon.check(close(r3, c1 * r1 + c2 * r2, 1e-7 * s), "water:linear", "not linear in the numerator (%s)" % maxdiff(r3, c1 * r1 + c2 * r2))
        mon.check(close(mon.call("deconv_waterlevel", S.deconv_waterlevel, 8 * uin, 8 * win, dt, **kw)[0], r1, 1e-7 * s), "water:scale", "scaling both inputs changes the RF")
        mon.count("linear combinations compared"); mon.nontriv()
    elif what == "wrappers":
        rf, rms = mon.call("deconv_waterlevel", S.deconv_waterlevel, uin, win, dt, **kw)
        r2, s2 = mon.call("deconvolve", S.deconvolve, uin, win, dt, method=rng.choice(["water", "WATER", "Water"]), **kw)
        mon.check(close(r2, rf, 0) and close(s2, rms, 0), "water:deconvolve", "deconvolve differs from deconv_waterlevel")
        from obspy import Trace
        ta, tb = Trace(data=uin.copy()), Trace(data=win.copy())
        ta.stats.delta = tb.stats.delta = dt; ta.stats.station = "QQ"; d0 = ta.stats.delta
        tr = mon.call("RFTrace.deconvolve", S.RFTrace.deconvolve, ta, tb, method="water", **kw)
        r3 = S.deconv_waterlevel(uin, win, d0, **kw)[0]
        mon.check(close(tr.data, r3, 1e-9 * (np.max(np.abs(r3)) + 1e-300)) and tr.stats.station == "QQ" and abs(tr.stats.delta - d0) < 1e-12,
                  "water:RFTrace", "RFTrace.deconvolve differs from deconv_waterlevel")
        mon.check(np.array_equal(ta.data, uin) and np.array_equal(tb.data, win), "water:RFTrace-input", "input traces changed")
        mon.count("wrappers compared"); mon.nontriv()
    else:
        from obspy import Trace
        m2 = rng.choice([n - 1, n + 1, n // 2])
        ta, tb = Trace(data=uin), Trace(data=win)
        bad = rng.choice(["foo", "waterlevel", "", "it"])
        for key, fn in (("length", lambda: S.deconv_waterlevel(uin, nr.randn(m2), dt, **kw)),
                        ("length", lambda: S.deconvolve(uin, nr.randn(m2), dt, method="water", **kw)),
                        ("method", lambda: S.deconvolve(uin, win, dt, method=bad, preonset=pre)),
                        ("method", lambda: S.RFTrace.deconvolve(ta, tb, method=bad, preonset=pre))):
            try:
                fn()
                mon.violation("reject:" + key, "bad %s accepted (%r)" % (key, bad if key == "method" else (n, m2)))
            except ValueError:
                mon.count("bad inputs rejected")
            except Exception as e:
                mon.violation("reject:" + key + "-type", "bad %s raises %s: %s" % (key, type(e).__name__, e))
        mon.nontriv()
    mon.check(np.array_equal(uin, keep[0]) and np.array_equal(win, keep[1]), "water:input", "input arrays changed")
