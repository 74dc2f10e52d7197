"""Forward modelling against an independent boundary-value solution of the layered half-space."""
import numpy as np

def modes(omega, p, a, b, rho):
    """Columns: P down, S down, P up, S up; rows: ux, uz, szz/omega, sxz/omega (z down, exp(-i omega t))."""
    xi, eta = np.sqrt(1 / a ** 2 - p * p), np.sqrt(1 / b ** 2 - p * p)
    mu = rho * b * b; lam = rho * a * a - 2 * mu
    cols = []
    for q, pol in ((xi, (p, xi)), (eta, (eta, -p)), (-xi, (p, -xi)), (-eta, (eta, p))):
        ux, uz = pol
        szz = 1j * (lam * p * ux + (lam + 2 * mu) * q * uz)
        sxz = 1j * mu * (q * ux + p * uz)
        cols.append((ux, uz, szz, sxz))
    return np.array(cols, complex).T, np.array([xi, eta, -xi, -eta])

def reference(omega, p, thick, a, b, rho, ipha):
    """Surface (ux, uz) for a unit upgoing wave at the reference depth (bottom of the last layer given)."""
    N = len(a)
    A = np.zeros((4 * N, 4 * N), complex); rhs = np.zeros(4 * N, complex)
    E = [modes(omega, p, a[k], b[k], rho[k]) for k in range(N)]
    row = 0
    # every wave is referenced to the top of its layer, those of the last one too
    A[0:2, 0:4] = E[0][0][2:4]
    row = 2
    for k in range(N - 1):
        A[row:row + 4, 4 * k:4 * k + 4] = E[k][0] * np.exp(1j * omega * E[k][1] * thick[k])
        A[row:row + 4, 4 * k + 4:4 * k + 8] = -E[k + 1][0]
        row += 4
    up = (2, 3)                       # P up, S up in the half-space
    A[row, 4 * (N - 1) + up[0]] = 1; A[row + 1, 4 * (N - 1) + up[1]] = 1
    if ipha >= 0:
        rhs[row] = 1
    else:
        rhs[row + 1] = 1
    x = np.linalg.solve(A, rhs)
    u = E[0][0][0:2] @ x[0:4]
    return u[0], u[1]

def model(rng, nl):
    """nl layers over a half-space."""
    vp, vs, rho, th = [], [], [], []
    for k in range(nl):
        v = rng.uniform(1.8, 4.5) if (k == 0 and nl > 1) else rng.uniform(4.8, 7.4)
        vp.append(v); vs.append(v / rng.uniform(1.6, 2.5 if k == 0 else 1.9)); rho.append(rng.uniform(1.9, 3.0))
        th.append(rng.uniform(0.3, 5) if k == 0 and nl > 1 else rng.uniform(4, 30))
    if nl > 1 and rng.random() < .5:                 # layers that share some of their values
        for _ in range(rng.choice([1, 2])):
            j, k = rng.sample(range(nl), 2)
            for x in rng.choice([(vp, vs), (vp, vs), (vp, vs, th), (vp, vs, th), (rho, th), (vp, th), (vp, vs, rho), (vp, vs, rho, th)]):
                x[j] = x[k]
            if vp[j] / vs[j] < 1.45:
                vs[j] = vp[j] / 1.7
    vp.append(rng.uniform(7.5, 8.4)); vs.append(vp[-1] / rng.uniform(1.7, 1.85)); rho.append(3.3); th.append(rng.uniform(5, 40))
    return [np.array(x) for x in (vp, vs, rho, th)]

def spectra(r, z):
    return np.fft.fft(np.asarray(r, float)), np.fft.fft(np.asarray(z, float))

def run(mon, what, th, vp, vs, rho, rayp, dt, n, ipha):
    from rfsed.synrf import synrf
    s = synrf(np.cumsum(th), vp, vs, rho, rayp, dt=dt, npts=n, ipha=ipha)
    mon.call(what, s.run_fwd)
    return s

def common_delay(mon, key, q, what, flat=True):
    """q[k] must be c * exp(i k tau) over the bins given in order."""
    step = np.sum(q[1:] * np.conj(q[:-1]))
    tau = np.angle(step)
    g = q * np.exp(-1j * tau * np.arange(len(q)))
    c = g.mean()
    err = np.max(np.abs(g - c)) / abs(c) if abs(c) > 0 else np.inf
    mon.check(err < 1e-5, key, "%s differ by more than a common factor and delay (%.2e)" % (what, err))
    return c

def run_case(i, mon):
    rng, nr = mon.rng, mon.np
    n2 = rng.choice([128, 256, 256]) if i % 11 else rng.choice([512, 512, 1024])
    dt = rng.choice([0.025, 0.05, 0.1, 0.2, 0.25, 0.5])
    nl = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 9, 14, 22] if n2 < 512 else [1, 2, 3])
    vp, vs, rho, th = model(rng, nl)
    ipha = rng.choice([1, 1, 1, 0, -1, -1])
    pmax = 0.98 / vp.max()
    np_ = rng.choice([1, 1, 2, 3, 4, 9] if n2 < 512 else [1, 2])
    ps = [rng.uniform(0.01, pmax) for _ in range(np_)]
    if rng.random() < 0.1:
        ps[0] = 1e-4
    kind = rng.choice(["list", "array", "array"]) if np_ > 1 else rng.choice(["float", "list", "array"])
    rayp = ps[0] if kind == "float" else (list(ps) if kind == "list" else np.array(ps))
    what = ["reference", "split", "halfspace", "rayps", "length"][i % 5]
    mon.describe(what=what, n=n2, dt=dt, vp=vp.tolist(), vs=vs.tolist(), rho=rho.tolist(), th=th.tolist(), ps=ps, kind=kind, ipha=ipha)
    mon.count("layers over the half-space", nl)
    mon.count("P incidence" if ipha >= 0 else "SV incidence")
    s = run(mon, "run_fwd", th, vp, vs, rho, rayp, dt, n2, ipha)
    if not mon.check(len(s.rstream) == len(ps) and len(s.zstream) == len(ps), "run_fwd:count", "%d/%d seismograms for %d ray parameters" % (len(s.rstream), len(s.zstream), len(ps))):
        return
    for tr in list(s.rstream) + list(s.zstream):
        mon.check(len(tr.data) == n2 and abs(tr.stats.delta - dt) < 1e-9 and np.all(np.isfinite(tr.data)), "run_fwd:shape",
                  "length %d delta %r" % (len(tr.data), tr.stats.delta))
    bins = np.arange(1, n2 // 2)
    if what == "reference":
        for k, p in enumerate(ps):
            R, Z = spectra(s.rstream[k].data, s.zstream[k].data)
            sol = np.array([reference(2 * np.pi * j / (n2 * dt), p, th, vp, vs, rho, ipha) for j in bins])
            # exp(-i omega t) solution, z down -> FFT convention; Z is reported with the sign that makes
            # P move R and Z alike
            ur, uz = np.conj(sol[:, 0]), np.conj(sol[:, 1])
            s2 = -1.0
            num = np.abs(R[bins] * (s2 * uz) - Z[bins] * ur)
            den = np.abs(R[bins] * uz) + np.abs(Z[bins] * ur)
            floor = 1e-9 * np.max(den)
            err = np.max(num / (den + floor))
            mon.count("frequencies compared with the reference", len(bins))
            mon.check(err < 1e-5, "reference:ratio", "R/Z spectral ratio differs from the layered-half-space solution by %.2e" % err)
            a = ur if np.min(np.abs(ur)) / np.max(np.abs(ur)) > 1e-3 else uz * s2
            A = R if a is ur else Z
            if np.min(np.abs(a)) > 1e-6 * np.max(np.abs(a)):
                mon.count("source spectra judged flat")
                common_delay(mon, "reference:flat", A[bins] / a, "response and reference")
        mon.nontriv(nl > 0)
    elif what == "split":
        k = rng.randrange(len(vp)); parts = rng.choice([2, 2, 3])
        f = np.array([rng.uniform(0.2, 1) for _ in range(parts)]); f /= f.sum()
        th2 = np.concatenate([th[:k], th[k] * f, th[k + 1:]])
        rep = lambda x: np.concatenate([x[:k], [x[k]] * parts, x[k + 1:]])
        s2 = run(mon, "run_fwd", th2, rep(vp), rep(vs), rep(rho), rayp, dt, n2, ipha)
        same(mon, "split", s, s2, bins, ps)
        mon.count("layer splits compared"); mon.nontriv()
    elif what == "halfspace":
        th2 = th.copy(); th2[-1] = rng.choice([0.0, rng.uniform(0.1, 90)])
        s2 = run(mon, "run_fwd", th2, vp, vs, rho, rayp, dt, n2, ipha)
        same(mon, "halfspace", s, s2, bins, ps)
        mon.count("half-space depths compared"); mon.nontriv()
    elif what == "rayps":
        order = list(range(len(ps))); rng.shuffle(order)
        s2 = run(mon, "run_fwd", th, vp, vs, rho, [ps[j] for j in order] + [0.5 * pmax], dt, n2, ipha)
        for pos, j in enumerate(order):
            alone = run(mon, "run_fwd", th, vp, vs, rho, float(ps[j]), dt, n2, ipha)
            for a, b, c in ((s.rstream[j], s2.rstream[pos], alone.rstream[0]), (s.zstream[j], s2.zstream[pos], alone.zstream[0])):
                m = 1e-9 * np.max(np.abs(a.data)) + 1e-300
                mon.check(np.allclose(a.data, b.data, rtol=0, atol=m) and np.allclose(a.data, c.data, rtol=0, atol=m), "rayps:independent",
                          "the seismogram of ray parameter %g depends on the other ray parameters" % ps[j])
        mon.count("ray parameter lists compared"); mon.nontriv(np_ > 1)
    else:
        n = rng.randint(n2 // 2 + 1, n2 - 1)
        s2 = run(mon, "run_fwd", th, vp, vs, rho, rayp, dt, n, ipha)
        for a, b in zip(list(s.rstream) + list(s.zstream), list(s2.rstream) + list(s2.zstream)):
            mon.check(len(b.data) == n and np.allclose(a.data[:n], b.data, rtol=0, atol=1e-9 * np.max(np.abs(a.data)) + 1e-300), "length:prefix",
                      "%d samples are not the first %d of the response" % (n, n))
        mon.count("lengths compared"); mon.nontriv()

def same(mon, key, s, s2, bins, ps):
    for k in range(len(ps)):
        R, Z = spectra(s.rstream[k].data, s.zstream[k].data)
        R2, Z2 = spectra(s2.rstream[k].data, s2.zstream[k].data)
        num = np.abs(R[bins] * Z2[bins] - Z[bins] * R2[bins]); den = np.abs(R[bins] * Z2[bins]) + np.abs(Z[bins] * R2[bins])
        mon.check(np.max(num / (den + 1e-9 * np.max(den))) < 1e-5, key + ":ratio", "R/Z ratio changes (%.2e)" % np.max(num / (den + 1e-9 * np.max(den))))
        A, B = (R, R2) if np.min(np.abs(R[bins])) > np.min(np.abs(Z[bins])) else (Z, Z2)
        if np.min(np.abs(A[bins])) > 1e-6 * np.max(np.abs(A[bins])):
            c = common_delay(mon, key + ":delay", B[bins] / A[bins], "the two responses")
            mon.check(abs(abs(c) - 1) < 1e-6, key + ":amplitude", "amplitude changes by %g" % abs(c))
