"""C22 FactorCovariance: low rank plus diagonal, matching the tracked total variances."""
import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng, feed

RULE = ("a case is (stream kind, k, rate, repetition): followed against the published CCIPCA recursion; "
        "structure judged directly; a planted factor must be found; non-trivial: p > k, two or more "
        "components or a planted factor")
CLAUSES = ["covariance", "location", "count", "rank", "diagonal", "psd", "finds-factor", "k-clipped"]


def cases(tier, seed):
    n = 28 if tier == "quick" else 110
    return against.cases(["FactorCovariance"], gen.WELL + ["ticks", "walk", "outliers"], n) \
        + [dict(cls="FactorCovariance", kind="planted", rep=j) for j in range(n)]


def run(case, mon):
    rng = case_rng(case)
    if case["kind"] == "planted":
        return planted(mon, rng)
    p = [1, 2, 3, 5, 8, 12][int(rng.integers(6))]
    spec, p, n, nb = against.setup(case, rng, p=p, rs=[0.05, 0.1, 0.02, 0.2, 0.5])
    k = min(spec["kw"].get("k", 2), p)
    r, diff = spec["kw"].get("r", 0.05), spec["kw"].get("diff")
    X = gen.stream(case["kind"], rng, n if case.get("big") else min(n, 140), p)
    D = np.diff(X, axis=0) if diff else X

    def extra(est, t, what):
        C = est.covariance_
        m, W, L, var = ref.FactorCovariance(D[: t - (1 if diff else 0)], spec["kw"].get("k", 2), r,
                                            parts=True)
        s = np.abs(C).max() + 1e-300
        dg = np.maximum(var, np.diag(L))
        mon.ok("diagonal", np.max(np.abs(np.diag(C) - dg)) <= 1e-7 * s,
               f"{what}: diagonal is not the tracked total variance (or what the factors explain)")
        rest = C - np.diag(np.diag(C)) + np.diag(np.diag(L))
        w = np.linalg.eigvalsh(rest / s)
        mon.ok("rank", np.sum(np.abs(w) > 1e-6) <= k, f"{what}: off-diagonal part has rank above k={k}")
        mon.ok("psd", np.linalg.eigvalsh(C / s)[0] >= -1e-9 * p, what + ": not PSD")

    against.follow(mon, ("covariance", "location"), spec, X, rng, 1e-6, k + 1, extra=extra,
                   loc_tol=1e-10)
    if not diff:
        a = feed(grid.build({"cls": "FactorCovariance", "kw": {"k": p, "r": r}}), X).covariance_
        b = feed(grid.build({"cls": "FactorCovariance", "kw": {"k": p + 9, "r": r}}), X).covariance_
        mon.same("k-clipped", a, b, f"k above the dimension, p={p}")
    if p > k and k > 1:
        mon.keys.add((grid.describe(spec), case["kind"], p, n, case["rep"]))
        mon.sample = {"estimator": grid.describe(spec), "kind": case["kind"], "p": p, "n": n}


def planted(mon, rng):
    import precise

    p, n = int(rng.integers(5, 40)), 500
    b = rng.standard_normal(p)
    b /= np.linalg.norm(b)
    X = 6 * rng.standard_normal((n, 1)) * b + 0.5 * rng.standard_normal((n, p)) + rng.standard_normal(p)
    e = feed(precise.FactorCovariance(k=int(rng.integers(1, 4)), r=0.01), X)
    C = e.covariance_
    v = np.linalg.eigh(C)[1][:, -1]
    mon.ok("finds-factor", abs(v @ b) > 0.95, f"p={p}: leading direction off, cosine {abs(v @ b):.3f}")
    T = 36 * np.outer(b, b) + 0.25 * np.eye(p)
    err = np.linalg.norm(C - T) / np.linalg.norm(T)
    mon.ok("finds-factor", err < 0.6, f"p={p}: covariance off by {err:.2f}")
    mon.keys.add(("planted", p, float(b[0])))
