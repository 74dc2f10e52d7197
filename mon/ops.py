"""Deconvolution, modelling and travel-time requests as plain functions of plain values (they travel to the pristine process)."""
import copy
import numpy as np

def iter_(u, w, dt, preonset, gaussian, itmax):
    from rfsed import synrf as S
    return [np.array(S.deconv_iterative(u, w, dt, preonset=preonset, gaussian=gaussian, itmax=itmax)[0])]

def water(u, w, dt, preonset, gaussian, wlevel):
    from rfsed import synrf as S
    return [np.array(S.deconv_waterlevel(u, w, dt, preonset=preonset, gaussian=gaussian, wlevel=wlevel)[0])]

def trace(u, w, dt, method, preonset, gaussian):
    from rfsed import synrf as S
    a, b = S.RFTrace(u.copy()), S.RFTrace(w.copy())
    a.stats.delta = b.stats.delta = dt
    return [np.array(S.RFTrace.deconvolve(a, b, method=method, preonset=preonset, gaussian=gaussian).data)]

def _made(mdl, ps, dt, n, ipha):
    from rfsed import synrf as S
    s = S.synrf(mdl[0], mdl[1], mdl[2], mdl[3], ps, dt=dt, npts=n, ipha=ipha)
    s.run_fwd()
    return s

def forward(mdl, ps, dt, n, ipha):
    s = _made(mdl, ps, dt, n, ipha)
    return [np.array(t.data) for t in s.rstream] + [np.array(t.data) for t in s.zstream]

def synrf(mdl, ps, dt, n, ipha, pre_filt, preonset, gaussian, method):
    s = _made(mdl, ps, dt, n, ipha)
    return [np.array(t.data) for t in s.run_deconvolution(pre_filt=pre_filt, preonset=preonset, gaussian=gaussian, method=method)]

def times(events, sta, window, d):
    from obspy import UTCDateTime as UTC
    from rfsed import ExtractEqMultiproc as M
    import os, rec
    p = os.path.join(d, "c%d.xml" % os.getpid())
    rec.save_catalog(p, [rec.event(UTC(e[0]), *e[1:]) for e in events])
    C = M.Add_sta_time_2cat(p, sta[0], sta[1], list(window))
    out = []
    for e in C:
        w = M.Eq_times(e)
        out += [float(UTC(w[0][k]).timestamp - 1.4e9) for k in ("eqstart", "onset", "eqend")]
    return [np.array(out)]

OPS = dict(iter=iter_, water=water, trace=trace, forward=forward, synrf=synrf, times=times)

def draw(rng, nr, what, d):
    """Random parameters of a request."""
    import gen
    from props import c10
    n, dt = rng.choice([200, 256, 301]), rng.choice([0.1, 0.05])
    if what in ("iter", "water", "trace"):
        q = dict(u=gen.smooth(nr.randn(n), 5), w=gen.smooth(nr.randn(n), 5), dt=dt, preonset=5, gaussian=2.0)
        q.update({"iter": dict(itmax=15), "water": dict(wlevel=0.05), "trace": dict(method=rng.choice(["iter", "water"]))}[what])
        return q
    if what in ("forward", "synrf"):
        mdl, _ = c10.build(rng)
        q = dict(mdl=[np.array(x, float) for x in mdl], ps=[round(rng.uniform(0.04, 0.075), 4) for _ in range(rng.choice([1, 2]))], dt=0.1, n=256, ipha=1)
        if what == "synrf":
            q.update(pre_filt=[0.05, 1.25], preonset=5, gaussian=1.5, method=rng.choice(["iter", "water"]))
        return q
    t0 = 1.42e9 + rng.randrange(10 ** 7)
    return dict(events=[(t0 + 5e5 * k, 10.0 * k - 20, 30.0, 1e4) for k in range(2)], sta=[52.0, 6.0], window=[-50, 150], d=d)

def twin(rng, nr, what, q):
    """The same request with one parameter changed."""
    q = copy.deepcopy(q)
    if what == "times":
        k = rng.choice(["lat", "lon", "depth", "sta", "window", "time"])
        if k == "sta":
            q["sta"][rng.randrange(2)] += rng.choice([0.3, -0.2])
        elif k == "window":
            q["window"][rng.randrange(2)] += rng.choice([0.25, -7])
        else:
            e = [list(x) for x in q["events"]]
            j = {"time": 0, "lat": 1, "lon": 2, "depth": 3}[k]
            e[rng.randrange(2)][j] += {"time": 0.5, "lat": 0.2, "lon": 0.2, "depth": 300.0}[k]
            q["events"] = [tuple(x) for x in e]
        return q, k
    k = rng.choice([k for k in q] + ["dt", "gaussian"] * ("gaussian" in q))
    if k in ("u", "w"):
        j = rng.choice(["scale", "one", "flip", "new"])
        x = q[k]
        if j == "scale":
            q[k] = x * 2.0
        elif j == "one":
            x[rng.randrange(len(x))] += 1.0
        else:
            q[k] = x[::-1].copy() if j == "flip" else nr.permutation(x)
    elif k == "dt":
        q[k] = q[k] * rng.choice([2, 0.5, 1.25])
    elif k == "preonset":
        q[k] = rng.choice([4, 6, 5.35, 0])
    elif k == "gaussian":
        q[k] = q[k] * rng.choice([1.25, 0.8])
    elif k == "itmax":
        q[k] = rng.choice([3, 30])
    elif k == "wlevel":
        q[k] = rng.choice([0.01, 0.2])
    elif k == "method":
        q[k] = {"iter": "water", "water": "iter"}[q[k]]
    elif k == "ps":
        j = rng.randrange(len(q[k])); q[k][j] = round(q[k][j] + rng.choice([0.004, -0.003, 0.0004]), 4)
    elif k == "n":
        q[k] = rng.choice([250, 240, 200, 300])
    elif k == "ipha":
        q[k] = -q[k]
    elif k == "pre_filt":
        q[k] = rng.choice([[0.1, 1.25], [0.05, 2.0], None])
    elif k == "mdl":
        j, l = rng.randrange(4), rng.randrange(len(q[k][0]))
        q[k][j][l] *= rng.choice([1.02, 0.98])
        k = "mdl%d.%d" % (j, l)
    return q, k
