"""Independent reference models and surface oracles."""
import numpy as np

# degrees per kilometre on the 6371 km sphere (slowness in s/deg -> ray parameter in s/km)
DEG = 1.0 / (6371.0 * np.pi / 180.0)

def rayp(slowness_s_per_deg):
    return slowness_s_per_deg * DEG

def taxis(n, delta, preonset):
    return np.arange(n) * delta - preonset

def nearest(data, x):
    """Bounds on the sample nearest to fractional index x (both neighbours at a tie)."""
    n = len(data)
    e = 1e-6
    i0 = np.clip(np.floor(x + 0.5 - e), 0, n - 1).astype(int)
    i1 = np.clip(np.floor(x + 0.5 + e), 0, n - 1).astype(int)
    return data[i0], data[i1]

def vert(v, p):
    return np.sqrt(1.0 / (v * v) - p * p)

def phases_one(H, K, Vp, p):
    """tPs, tPpPs, tPsPs of one layer; arrays over (K, H)."""
    H = np.asarray(H, float)[None, :]; K = np.asarray(K, float)[:, None]
    qs, qp = vert(Vp / K, p), vert(Vp, p)
    return H * (qs - qp), H * (qs + qp), 2 * H * qs

def phases_two(H, K, Vp, p, H1, K1, Vp1):
    a, b, c = phases_one(H, K, Vp, p)
    qs, qp = vert(Vp1 / K1, p), vert(Vp1, p)
    return a + H1 * (qs - qp), b + H1 * (qs + qp), c + 2 * H1 * qs

def phases_yu(H, K, Vp, p, tlag, delay):
    a, b, c = phases_one(H, K, Vp, p)
    return a + delay, b + tlag - delay, c + tlag

def surface(rfs, delta, preonset, w, phase_fn):
    """rfs: [(data, p)]; bounds of the stack over (K, H)."""
    lo = hi = 0.0
    amp = 0.0
    for data, p in rfs:
        data = np.asarray(data, float)
        for sign, wk, tt in zip((1, 1, -1), w, phase_fn(p)):
            a, b = nearest(data, (tt + preonset) / delta)
            a, b = sign * wk * a, sign * wk * b
            lo = lo + np.minimum(a, b); hi = hi + np.maximum(a, b)
        amp += float(np.max(np.abs(data))) * sum(abs(x) for x in w)
    return lo, hi, amp

def check_surface(mon, key, stk, H, K, lo, hi, tol):
    """Every grid pair exactly once, with a value inside the reference bounds."""
    stk = np.asarray(stk)
    if not mon.check(stk.shape == (len(H) * len(K), 3), key + ":shape",
                     "surface has shape %s for a %d x %d grid" % (stk.shape, len(H), len(K))):
        return False
    if not mon.check(np.all(np.isfinite(stk.astype(float))), key + ":finite", "non-finite values on the surface"):
        return False
    H = np.asarray(H, float); K = np.asarray(K, float)
    ih = np.argmin(np.abs(stk[:, 0][:, None] - H[None, :]), axis=1)
    ik = np.argmin(np.abs(stk[:, 1][:, None] - K[None, :]), axis=1)
    ok = (np.abs(stk[:, 0] - H[ih]) < 1e-9 * (1 + np.abs(H[ih]))) & (np.abs(stk[:, 1] - K[ik]) < 1e-9 * (1 + np.abs(K[ik])))
    code = ih * len(K) + ik
    if not mon.check(ok.all() and len(np.unique(code)) == len(code), key + ":grid",
                     "grid pairs not each present exactly once"):
        return False
    mon.count("grid points checked", len(code))
    s = stk[:, 2]
    l, h = lo[ik, ih], hi[ik, ih]
    bad = (s < l - tol) | (s > h + tol)
    if bad.any():
        j = int(np.argmax(np.maximum(l - s, s - h)))
        mon.check(False, key + ":value", "stack at H=%r K=%r is %r, expected %r..%r (%d of %d points wrong)" %
                  (stk[j, 0], stk[j, 1], s[j], l[j], h[j], int(bad.sum()), len(bad)))
        return False
    mon.count("checks")
    return True

def check_best(mon, key, bmod, stk, tol):
    b = np.asarray(bmod, float)
    stk = np.asarray(stk, float)
    if not mon.check(b.shape == (3,), key + ":best-shape", "best model is %r" % (bmod,)):
        return False
    row = np.all(np.abs(stk - b[None, :]) <= tol + 1e-9 * np.abs(b[None, :]), axis=1).any()
    ok = mon.check(row, key + ":best-row", "best model %r is not a row of the surface" % (b,))
    ok &= mon.check(b[2] >= stk[:, 2].max() - tol, key + ":best-max",
                    "best model has stack %r, the surface reaches %r" % (b[2], stk[:, 2].max()))
    return ok
