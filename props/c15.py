"""C15 HuberCovariance: the documented weighting; an outlier of any size has bounded influence."""
import copy

import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng

RULE = ("a case is (stream kind, cutoff, rate, repetition): followed against the specification, then "
        "outliers of 1e0..1e290 standard deviations are injected and each step judged from location_ and "
        "covariance_ before and after; non-trivial: at least one observation was down-weighted")
CLAUSES = ["covariance", "location", "count", "inlier-is-ewa", "location-influence", "cov-influence",
           "magnitude-free", "direction"]


def cases(tier, seed):
    return against.cases(["HuberCovariance"], gen.WELL + ["outliers"], 50 if tier == "quick" else 150)


def run(case, mon):
    rng = case_rng(case)
    p = [1, 2, 3, 5, 8][int(rng.integers(5))]
    spec, p, n, nb = against.setup(case, rng, stable=True, p=p, diff_ok=False)
    r, c = spec["kw"].get("r", 0.05), spec["kw"].get("c", 2.5)
    X = gen.stream("gauss" if case["kind"] == "outliers" else case["kind"], rng, n, p)
    if case["kind"] == "outliers":
        for i in np.flatnonzero(rng.random(n) < 0.06):
            if i > nb:
                X[i] *= rng.choice([5.0, 20.0, 100.0])
    est = against.follow(mon, ("covariance", "location"), spec, X, rng, 1e-7, nb)
    if est.n_samples_ <= nb or p > 0.4 / r:
        return
    down = 0
    for _ in range(6):
        m, C = est.location_, est.covariance_
        w = np.linalg.eigvalsh(C)
        if w[0] <= 1e-7 * w[-1]:
            return
        L = np.linalg.cholesky(C)
        u = rng.standard_normal(p)
        u /= np.linalg.norm(u)
        k = float(rng.choice([0.3, 0.9, 1.1, 3, 1e2, 1e5, 1e9, 1e90, 1e158, 1e200, 1e290])) * c * np.sqrt(p)
        x = m + k * (L @ u)
        what = f"{grid.describe(spec)} p={p}: observation at {k:.3g} Mahalanobis units (cutoff " \
               f"{c * np.sqrt(p):.3g})"
        twin = copy.deepcopy(est)
        est.partial_fit(x)
        m2, C2 = est.location_, est.covariance_
        d = x - m
        mon.see("judged steps")
        step = np.linalg.solve(L, m2 - m)
        cut = c * np.sqrt(p)
        mon.ok("location-influence", np.linalg.norm(step) <= r * min(k, cut) * (1 + 1e-6) + 1e-15 * min(k, 1e9),
               f"{what}: location moved {np.linalg.norm(step):.6g} units, bound {r * min(k, cut):.6g}")
        Li = np.linalg.inv(L)
        G = Li @ C2 @ Li.T
        top = np.linalg.eigvalsh(G)[-1]
        mon.ok("cov-influence", top <= (1 - r + r * min(k, cut) ** 2) * (1 + 1e-6) + 1e-9,
               f"{what}: covariance inflated {top:.6g} times, bound {1 - r + r * min(k, cut) ** 2:.6g}")
        if k < cut:
            mon.close("inlier-is-ewa", m2, (1 - r) * m + r * x, 1e-9, what, scale=np.abs(m).max() +
                      np.abs(d).max())
            mon.close("inlier-is-ewa", C2, (1 - r) * C + r * np.outer(d, d), 1e-9, what)
        else:
            down += 1
            mon.close("direction", m2 - m, r * cut / k * d, 1e-6, what + ": weight cutoff/distance",
                      scale=np.abs(r * cut / k * d).max() + 1e-9 * np.abs(m).max())
            W = (1 - r) * C + r * np.outer(cut / k * d, cut / k * d)
            mon.close("direction", C2, W, 1e-6, what + ": weight cutoff/distance")
            big = m + 37.0 * (x - m)
            twin.partial_fit(big)
            mon.close("magnitude-free", twin.covariance_, C2, 1e-6, what + ": 37 times as far")
            mon.close("magnitude-free", twin.location_, m2, 1e-6, what + ": 37 times as far",
                      scale=np.abs(m2).max() + np.sqrt(np.diag(C2)).max())
    if down:
        mon.keys.add((grid.describe(spec), case["kind"], p, case["rep"]))
        mon.sample = {"estimator": grid.describe(spec), "p": p, "down_weighted": down}
