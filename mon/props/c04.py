"""hkYu: delays, thickness, surface, best model."""
import numpy as np
import gen, ref
from common import close

def check_yu(mon, r, flt, t, tlag, rayp, H, K, VpM, VpS, VsS, w, key="hkYu"):
    n = len(flt); delta = t[1] - t[0]; pre = -t[0]
    thick = tlag * VsS / 2.0
    delay = thick * (1.0 / VsS - 1.0 / VpS)
    mon.check(close(r["SedThick"], thick, 1e-9 * (1 + abs(thick))), key + ":thickness", "thickness %r, expected %r" % (r["SedThick"], thick))
    mon.check(close(r["Pdelay"], delay, 1e-9 * (1 + abs(delay))), key + ":delay", "P delay %r, expected %r" % (r["Pdelay"], delay))
    lo, hi, amp = ref.surface([(flt, rayp)], delta, pre, w, lambda p: ref.phases_yu(H, K, VpM, p, tlag, delay))
    tol = 1e-9 * (amp + 1e-300)
    stk = r["stackvaluesSubSed"]
    ref.check_surface(mon, key, stk, H, K, lo, hi, tol)
    ref.check_best(mon, key, r["bestmodelSubSed"], stk, tol)
    b = r["bestmodelSubSed"]
    mon.check(r["SubSedThick"] == b[0] and r["SubSedVpVs"] == b[1], key + ":report", "SubSedThick/SubSedVpVs are not the best model")
    mon.check(close(r["tlag"], tlag, 0) and close(r["rayp"], rayp, 0) and close(r["VpMoho"], VpM, 0) and close(r["VpSed"], VpS, 0)
              and close(r["HMoho"], H, 0) and close(r["KMoho"], K, 0) and close(r["time"], t, 0) and close(r["FltRF"], flt, 0),
              key + ":inputs", "inputs in the result are not those given")
    return lo

def run_case(i, mon):
    from rfsed.hkYu import hkYu
    rng, nr = mon.rng, mon.np
    rate = rng.choice(gen.RATES); delta = 1 / rate
    pre = rng.choice([0, 2, 5, 5, 10, 10, 15, 2.5])
    n = rng.choice([301, 400, 513, 777, 1001, 2001])
    kind = rng.choice(gen.KINDS)
    scale = rng.choice([1.0, 1.0, 1e-6, 250.0])
    flt = scale * gen.rfdata(rng, nr, n, delta, pre, kind)
    t = ref.taxis(n, delta, pre)
    tlag = rng.choice([0, round(rng.uniform(0.1, 4), 3), rng.randint(1, 80) * delta, rng.uniform(0.05, 6)])
    fl = {"filteredrf": flt.copy(), "time": t.copy(), "tlag": tlag, "rf": flt * 0.5, "autoc": flt * 0, "r": 0.3,
          "staname": "ST", "delta": delta, "resonancefilter": flt * 0 + 1}
    src = "made"
    if i % 5 == 2:                      # through the real filter
        from rfsed.ReverbFilter import ResonanceFilt
        st, d = gen.stream(rng, nr, n=n, rate=rate, preonset=pre, scale=scale)
        fl = mon.call("ResonanceFilt", ResonanceFilt, st, pre)
        flt, t, tlag, src = np.array(fl["filteredrf"]), np.array(fl["time"]), fl["tlag"], "ResonanceFilt"
    H, K = gen.grid(rng, 10, 60, 2, 12 if i % 10 == 9 else 7), gen.grid(rng, 1.5, 2.1, 2, 12 if i % 10 == 9 else 7)
    if i % 10 == 6:                     # the grids used in practice
        H, K = np.linspace(20, 60, rng.randint(30, 60)), np.linspace(1.5, 2.1, rng.randint(25, 45))
        mon.count("grids of over 700 models")
    VpM, VpS = round(rng.uniform(5.5, 7.5), 2), round(rng.uniform(1.6, 4.5), 2)
    VsS = round(VpS / rng.uniform(1.5, 3.5), 3)
    w = gen.weights(rng)
    rayp = round(rng.uniform(0.035, 0.08), 5)
    mon.describe(n=n, rate=rate, pre=pre, kind=kind, scale=scale, tlag=tlag, H=H.tolist(), K=K.tolist(), VpM=VpM, VpS=VpS,
                 VsS=VsS, w=w, rayp=rayp, src=src)
    r = mon.call("hkYu", hkYu, fl, rayp, H, K, VpM, VpS, VsS, *w)
    lo = check_yu(mon, r, flt, t, tlag, rayp, H, K, VpM, VpS, VsS, w)
    mon.count("zero lag", tlag == 0)
    mon.count("positive lag", tlag > 0)
    mon.nontriv(tlag > 0 and np.ptp(lo) > 0)
