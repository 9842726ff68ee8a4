"""C36 data descriptors: formulas, invariances, ranges, on any window."""
import json

import numpy as np

from lib import gen
from lib.util import case_rng

RULE = ("a case is (stream kind, repetition): every descriptor recomputed from its definition with loops or "
        "another formula, plus ranges and invariances; non-trivial: p > 1 and n > p")
CLAUSES = ["counts", "effective-rank", "sphericity", "condition", "offdiag", "kurtosis", "finite", "ranges",
           "translation", "permutation", "rescaling", "rotation", "row-order", "inputs-kept", "plain-types",
           "one-row", "gaussian-limits"]


def cases(tier, seed):
    n = 100 if tier == "quick" else 360
    return [dict(kind=k, rep=j) for k in gen.ALL for j in range(n)] + [
        dict(kind=k, rep=j, size=s) for s in ([90, 130], [60, 260], [20000, 3], [400, 130])
        for k in ("gauss", "outliers") for j in range(n // 12)]


def spec(X):
    X = np.asarray(X, np.longdouble)
    n, p = X.shape
    D = X - X.mean(axis=0)
    S = np.asarray(D.T @ D / n, float)
    w = np.clip(np.linalg.eigvalsh(S), 1e-12, None)
    v = np.clip(np.diag(S), 1e-12, None)
    er = w.sum() ** 2 / (w ** 2).sum()
    cs = [abs(S[i, j]) / np.sqrt(v[i] * v[j]) for i in range(p) for j in range(p) if i != j]
    m4 = np.asarray((D ** 4).mean(axis=0), float)
    return {"n": n, "p": p, "p_over_n": p / n, "effective_rank": er, "sphericity": er / p,
            "condition_number": w[-1] / w[0], "mean_abs_offdiag_corr": float(np.mean(cs)) if cs else 0.0,
            "avg_excess_kurtosis": float(np.mean(m4 / v ** 2 - 3.0))}, S, v


def run(case, mon):
    from precise import covariance_features

    rng = case_rng(case)
    p = int(rng.choice([1, 2, 3, 5, 8, 15, 30]))
    n = int(rng.choice([1, 2, 5, 20, 80, 200]))
    if rng.random() < 0.06:
        n, p = (int(rng.choice([1500, 5000])), min(p, 5)) if rng.random() < 0.5 else (200, 80)
    if "size" in case:
        n, p = case["size"]
    X = gen.stream(case["kind"], rng, n, p)
    if "size" in case:  # the variables (and rows) at one end are not like those at the other
        lo = p // 3 if rng.random() < 0.5 else p - p // 3
        cols = slice(0, lo) if rng.random() < 0.5 else slice(lo, p)
        X[:, cols] += 2 * rng.standard_normal((n, 1)) * np.abs(X).mean()
        X[n // 2:] *= rng.choice([0.5, 2.0])
    elif p > 1 and rng.random() < 0.1:  # nothing at all in one variable, whatever the units of the rest
        X = X * 10.0 ** rng.uniform(-5, 5)
        X[:, int(rng.integers(p))] = 0.0
    n = len(X)
    what = f"{case['kind']} n={n} p={p}"
    keep = X.copy()
    X.setflags(write=False)
    f = covariance_features(X)
    mon.same("inputs-kept", X, keep, what)
    want, S, v = spec(X)
    mon.ok("counts", f["n"] == n and f["p"] == p and f["p_over_n"] == p / n, f"{what}: {f}")
    mon.ok("plain-types", set(f) >= set(want) and all(type(x) in (int, float) for x in f.values()), f"{f}")
    mon.ok("finite", all(np.isfinite(x) for x in f.values()), f"{what}: {f}")
    json.dumps(f, allow_nan=False)
    # a variance that is rounding noise of a constant column is not judged
    lev = np.abs(X).max(axis=0)
    clean = bool(np.all((np.diag(S) > 1e-18 * lev ** 2) | (np.ptp(X, axis=0) == 0) & (lev == 0)))
    tol = 1e-6
    if clean:
        mon.close("effective-rank", f["effective_rank"], want["effective_rank"], tol, what)
        mon.close("sphericity", f["sphericity"], want["sphericity"], tol, what)
        mon.close("offdiag", f["mean_abs_offdiag_corr"], want["mean_abs_offdiag_corr"], tol, what, scale=1.0)
        mon.close("kurtosis", f["avg_excess_kurtosis"], want["avg_excess_kurtosis"], tol, what,
                  scale=abs(want["avg_excess_kurtosis"]) + 3)
        k = want["condition_number"]
        if k < 1e9:
            mon.close("condition", f["condition_number"], k, 1e-12 * k + 1e-9, what)
        # the smallest eigenvalue of a (nearly) singular window is known to rounding only
        ev = np.linalg.eigvalsh(S)
        top, slack = max(ev[-1], 1e-12), 1e-14 * p * ev[-1]
        lo, hi = (top / max(ev[0] + d, 1e-12) for d in (slack, -slack))
        mon.ok("condition", lo * (1 - 1e-9) <= f["condition_number"] <= hi * (1 + 1e-9),
               f"{what}: condition {f['condition_number']:.6g}, by definition {lo:.6g}..{hi:.6g}")
        mon.ok("ranges", 0 <= f["mean_abs_offdiag_corr"] <= 1 + 1e-9, what)
        mon.ok("ranges", f["avg_excess_kurtosis"] >= -3 - 1e-9 and
               (v.min() <= 1e-12 or f["avg_excess_kurtosis"] >= -2 - 1e-6), f"{what}: {f}")
    mon.ok("ranges", 1 - 1e-9 <= f["effective_rank"] <= p + 1e-9 and f["condition_number"] >= 1 - 1e-12 and
           1 / p - 1e-9 <= f["sphericity"] <= 1 + 1e-9, f"{what}: {f}")
    nice = clean and v.min() > 1e-6 and want["condition_number"] < 1e6 and n > 1
    if nice:
        def same(cl, Y, skip=(), note=""):
            g = covariance_features(Y)
            for kx in f:
                if kx in skip:
                    continue
                mon.close(cl, g[kx], f[kx], 1e-6, f"{what} {note}: {kx}", scale=abs(f[kx]) + 1)
        same("translation", X + rng.choice([1.0, 10.0]) * rng.standard_normal(p) * np.sqrt(v), note="translated")
        same("permutation", X[:, rng.permutation(p)], note="columns permuted")
        same("row-order", X[rng.permutation(n)], note="rows reordered")
        same("rescaling", X * 4.0, note="x4")
        s = 2.0 ** rng.integers(0, 5, p)
        same("rescaling", X * s, ("effective_rank", "sphericity", "condition_number"), "columns rescaled")
        Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
        same("rotation", X @ Q, ("mean_abs_offdiag_corr", "avg_excess_kurtosis"), "rotated")
        same("row-order", X.tolist(), note="as lists")
    g = covariance_features(X[0])
    mon.ok("one-row", g["n"] == 1 and g["p"] == p and all(np.isfinite(x) for x in g.values()), f"{what}: {g}")
    if case["rep"] == 0:
        Z = rng.standard_normal((20000, 3))
        a = covariance_features(Z)
        b = covariance_features(Z / np.sqrt(rng.chisquare(5, (20000, 1)) / 5))
        one = covariance_features(Z[:, :1] + 0.01 * Z)
        mon.ok("gaussian-limits", abs(a["avg_excess_kurtosis"]) < 0.3 and a["sphericity"] > 0.98 and
               a["mean_abs_offdiag_corr"] < 0.04 and b["avg_excess_kurtosis"] > 1.0 and
               one["sphericity"] < 0.4 and one["mean_abs_offdiag_corr"] > 0.95, f"{a} {b} {one}")
    if p > 1 and n > p and clean:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"window": what, "features": f}
