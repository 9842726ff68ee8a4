"""C14 linear shrinkage members: OAS, Ledoit-Wolf and fixed intensity."""
import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng, feed

RULE = ("a case is (estimator, stream kind, repetition): read at many prefixes against the published "
        "formula, plus structural monitors (trace kept, correlations towards the target, conditioning "
        "not worse, end points); non-trivial: intensity strictly between 0 and 1")
CLAUSES = ["covariance", "location", "count", "trace", "between", "conditioning", "end-points",
           "variances-kept"]
NAMES = ["OASCovariance", "LedoitWolfCovariance", "ShrunkCovariance"]


def cases(tier, seed):
    n = 4 if tier == "quick" else 40
    return against.cases(NAMES, gen.WELL + against.ROUGH, n)


def run(case, mon):
    rng = case_rng(case)
    name = case["cls"]
    spec, p, n, nb = against.setup(case, rng)
    kw = spec["kw"]
    X = gen.stream(case["kind"], rng, n, p)
    if case["rep"] % 4 == 3 and case["kind"] in gen.WELL:  # the units of the data do not matter
        X = X * 10.0 ** rng.uniform(-7, 7)
    big = max(1.0, np.abs(X).max() / max(X.std(), 1e-9 * np.abs(X).max(), 1e-300))
    r, diff = kw.get("r", 0.05), kw.get("diff")
    D = np.diff(X, axis=0) if diff else X
    inner = [False]

    def extra(est, t, what):
        k = t - (1 if diff else 0)
        m, S = ref.ewa(D[:k], r)
        C = est.covariance_
        s = np.trace(S) + 1e-300
        mon.ok("trace", abs(np.trace(C) - np.trace(S)) <= 1e-9 * big * s + p * mon.floor,
               f"{what}: trace {np.trace(C):.9g}, unshrunk {np.trace(S):.9g}")
        if name == "ShrunkCovariance" and kw.get("target", "constant_correlation") != "identity":
            against.cov_close(mon, "variances-kept", np.diag(np.diag(C)), np.diag(np.diag(S)),
                              1e-9 * big, what + ": variances under the constant-correlation target")
            return
        # towards mu I: every entry between S and mu I with one common intensity
        T = np.trace(S) / p * np.eye(p)
        den = float(((T - S) ** 2).sum())
        if den <= 1e-12 * s * s:
            return
        k_ = float(((C - S) * (T - S)).sum()) / den
        mon.ok("between", -1e-9 * big <= k_ <= 1 + 1e-9 * big, f"{what}: intensity {k_:.6g}")
        mon.close("between", C, (1 - k_) * S + k_ * T, 1e-9 * big, what + ": one common intensity")
        inner[0] |= 1e-6 < k_ < 1 - 1e-6
        w, v = np.linalg.eigvalsh(C), np.linalg.eigvalsh(S)
        mon.ok("conditioning", w[0] >= v[0] - 1e-9 * s * big and w[-1] <= v[-1] + 1e-9 * s * big,
               f"{what}: shrinkage widened the spectrum {v[0]:.4g}..{v[-1]:.4g} -> {w[0]:.4g}..{w[-1]:.4g}")

    # one-variable and rank-one corner values sit on a 0/0 of the published formulas
    def skip(t):
        if name == "ShrunkCovariance":  # correlations of a variance that is pure rounding noise
            return against.noise(D, t - (1 if diff else 0))
        return t <= 2 + (1 if diff else 0)

    sing = name == "LedoitWolfCovariance" and case["kind"] in ("short", "one_nonzero")
    if sing and p == 1:
        return
    against.follow(mon, ("covariance", "location"), spec, X, rng, 1e-8 * big, nb, skip=skip, extra=extra)
    if name == "ShrunkCovariance" and not diff:
        m, S = ref.ewa(X, r)
        for tgt in ("identity", "constant_correlation"):
            e0 = feed(grid.build({"cls": name, "kw": {"r": r, "delta": 0.0, "target": tgt}}), X)
            against.cov_close(mon, "end-points", e0.covariance_, S, 1e-9 * big, "delta=0 is no shrinkage")
            e1 = feed(grid.build({"cls": name, "kw": {"r": r, "delta": 1.0, "target": tgt}}), X)
            C = e1.covariance_
            if tgt == "identity":
                mon.close("end-points", C, np.trace(S) / p * np.eye(p), 1e-9 * big, "delta=1, identity")
            elif p > 1 and np.diag(S).min() > 1e-9 * np.trace(S):
                R = e1.correlation_[~np.eye(p, dtype=bool)]
                mon.ok("end-points", np.ptp(R) <= 1e-9 * big,
                       f"delta=1: correlations differ: {R.min():.6g}..{R.max():.6g}")
                mon.close("end-points", R.mean(), ref.to_corr(S)[~np.eye(p, dtype=bool)].mean(),
                          1e-9 * big, "delta=1: the average correlation", scale=1.0)
        inner[0] |= 0 < kw.get("delta", 0.1) < 1
    if inner[0]:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "kind": case["kind"], "p": p, "n": n}
