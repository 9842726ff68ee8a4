"""C23 PartialMomentsCovariance: the sum of the four quadrant scatters, positive definite."""
import numpy as np

from lib import against, gen, grid, ref
from lib.core import brief
from lib.util import case_rng, feed

RULE = ("a case is (stream kind, rate, repetition): read at many prefixes against the sum of the four "
        "quadrant scatters; where that is singular, the result must be the nearest positive "
        "(semi-)definite matrix; non-trivial: p > 1 and judged beyond the warm-up")
CLAUSES = ["covariance", "location", "count", "positive-definite", "nearest"]


def cases(tier, seed):
    return against.cases(["PartialMomentsCovariance"], gen.WELL + against.ROUGH + ["zeros", "all_constant"],
                         35 if tier == "quick" else 80)


def run(case, mon):
    rng = case_rng(case)
    spec, p, n, nb = against.setup(case, rng)
    r, diff = spec["kw"].get("r", 0.05), spec["kw"].get("diff")
    X = gen.stream(case["kind"], rng, n, p)
    big = max(1.0, np.abs(X).max() / max(X.std(), 1e-9))
    D = np.diff(X, axis=0) if diff else X
    lag = 1 if diff else 0
    if len(D) < 1:
        return
    mon.floor = 1e-26 * float(np.abs(X).max()) ** 2
    est = grid.build(spec)
    at = set(against.stops(rng, len(X), nb))
    for t, x in enumerate(X, 1):
        est.partial_fit(x)
        if t not in at or t <= lag:
            continue
        what = f"{grid.describe(spec)} p={p} after {t} of {case['kind']}"
        m, S = ref.PartialMomentsCovariance(D[: t - lag], r)
        C = est.covariance_
        mon.ok("count", est.n_samples_ == t - lag, what)
        against.loc_close(mon, "location", est.location_, m, X, 1e-11, what)
        s = np.abs(S).max()
        against.cov_close(mon, "covariance", C, S, 1e-9 * big, what, eig=1e-12 * p * p)
        try:
            np.linalg.cholesky(C)
            pd = True
        except np.linalg.LinAlgError:
            pd = s < 1e-290
        mon.ok("positive-definite", pd, f"{what}: not positive definite, {brief(np.linalg.eigvalsh(C))}")
        w = np.linalg.eigvalsh(S / s)[0] if s > 1e-290 else 0
        if w < 1e-9:
            mon.ok("nearest", np.abs(C - S).max() <= 1e-12 * p * p * s * big + mon.floor + 1e-300,
                   f"{what}: moved {np.abs(C - S).max():.3g} from a singular but valid matrix")
        mon.see("prefixes judged")
    if p > 1 and len(X) > nb:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "kind": case["kind"], "p": p, "n": n}
