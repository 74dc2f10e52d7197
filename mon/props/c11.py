"""WaveformFitting: one row per model, scores against an independent computation, best models."""
import numpy as np
import wf
from common import close

def run_case(i, mon):
    from rfsed.WaveformFitting import WaveformFitting
    rng, nr = mon.rng, mon.np
    sf = i % 3 == 0
    c = wf.case(rng, nr, self_fit=sf, long=mon.tier == "thorough" and i % 7 == 0)
    w = wf.weights(rng)
    mon.describe(w=w, **c["desc"])
    d0 = [t.data.copy() for t in c["st"]]
    res = mon.call("WaveformFitting", WaveformFitting, *c["args"], *w, mon.scratch, "png")
    out = mon.stdout
    sol = np.asarray(res["WaveformSolutions"], float)
    mon.check(all(np.array_equal(a, t.data) for a, t in zip(d0, c["st"])), "fit:input", "the RFs were changed")
    H, K = np.asarray(c["H"], float), np.asarray(c["K"], float)
    mon.require(sol.shape == (len(H) * len(K), 6), "fit:shape", "solutions of shape %s for %d models" % (sol.shape, len(H) * len(K)))
    want = sorted((h, k) for h in H for k in K)
    got = sorted((r[4], r[5]) for r in sol)
    mon.check(close(got, want, 1e-12), "fit:models", "the grid models are not each there exactly once", got=got, want=want)
    mon.check(np.all(np.isfinite(sol)), "fit:finite", "scores that are not numbers")
    pick = list(range(len(sol)))
    rng.shuffle(pick)
    for r in sol[pick[:3]]:
        cc, rms, plo, phi = wf.scores(c["mean"], r[4], r[5], c["par"], c["delta"], c["pre"])
        mon.count("models scored independently")
        mon.check(abs(r[0] - cc) <= 1e-6, "fit:correlation", "correlation %r, expected %r" % (r[0], cc))
        mon.check(abs(r[1] - rms) <= 1e-6 * (rms + np.max(np.abs(c["mean"]))), "fit:rmse", "RMSE %r, expected %r" % (r[1], rms))
        mon.check(plo - 1e-5 <= r[2] <= phi + 1e-5, "fit:phase", "PG %r, expected %r..%r" % (r[2], plo, phi))
        mon.count("phase fits determined exactly", phi - plo < 1e-6)
    g = wf.gof(sol, w)
    mon.check(close(sol[:, 3], g, 1e-9 * (1 + np.max(np.abs(g)))), "fit:overall", "overall fit %s, expected %s" % (sol[:4, 3], g[:4]))
    wf.check_report(mon, "fit", out, sol, w)
    if sf:
        k = int(np.argmin(np.abs(sol[:, 4] - c["truth"][0]) + np.abs(sol[:, 5] - c["truth"][1])))
        mon.count("data made from a grid model")
        mon.check(abs(sol[k, 0] - 1) < 1e-6 and sol[k, 1] < 1e-6 * np.max(np.abs(c["mean"])), "fit:truth", "the true model has correlation %r and RMSE %r" % (sol[k, 0], sol[k, 1]))
        mon.check(np.argmax(sol[:, 0]) == k and np.argmin(sol[:, 1]) == k, "fit:truth-best", "the true model is not the best")
    mon.nontriv(np.ptp(sol[:, 0]) > 1e-6)
