"""C13 EwaCovariance and DiagonalCovariance: exact recency weights after an empirical warm-up."""
import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng, feed

RULE = ("a case is (estimator, stream kind, repetition): read at many prefixes around and beyond the "
        "warm-up against the extended-precision recursion, and against explicit weights; non-trivial: "
        "judged beyond the warm-up")
CLAUSES = ["covariance", "location", "count", "weights", "warm-up", "r=1", "diagonal", "bounds"]
KINDS = gen.WELL + against.ROUGH


def cases(tier, seed):
    n = 24 if tier == "quick" else 60
    return against.cases(["EwaCovariance", "DiagonalCovariance"], KINDS, n)


def run(case, mon):
    rng = case_rng(case)
    name = case["cls"]
    spec, p, n, nb = against.setup(case, rng)
    X = gen.stream(case["kind"], rng, n, p)
    big = max(1.0, np.abs(X).max() / max(X.std(), 1e-9))
    diff = spec["kw"].get("diff")

    def extra(est, t, what):
        C = est.covariance_
        if name == "DiagonalCovariance":
            mon.ok("diagonal", not np.any(C - np.diag(np.diag(C))), what + ": off-diagonal entries")
        lo, hi = X[:t].min(axis=0), X[:t].max(axis=0)
        if not diff:  # weighted averages stay within the data
            e = 1e-9 * (np.abs(X).max() + 1)
            m = est.location_
            mon.ok("bounds", np.all(m >= lo - e) and np.all(m <= hi + e), what + ": mean outside data")
            mon.ok("bounds", np.all(np.diag(C) <= (hi - lo) ** 2 * (1 + 1e-9) + e ** 2),
                   what + ": variance exceeds the squared range")

    est = against.follow(mon, ("covariance", "location"), spec, X, rng, 1e-10 * big, nb, extra=extra)
    r = spec["kw"].get("r", 0.05)
    if diff or len(X) < nb:
        return
    e = feed(grid.build(spec), X[:nb])
    what = grid.describe(spec)
    if name == "EwaCovariance":
        against.cov_close(mon, "warm-up", e.covariance_, ref.empirical(X[:nb])[1], 1e-10 * big,
                          what + ": end of the warm-up")
    else:
        mon.evals["warm-up"] += 1
    # explicit weights: cov = sum_k w_k d_k d_k' with w = r (1-r)^(T-k), (1-r)^(T) on the warm-up
    T = len(X) - nb
    m, C0 = ref.empirical(X[:nb])
    if name == "DiagonalCovariance":
        C0 = np.diag(ref.DiagonalCovariance(X[:nb], r)[1])
    w = r * (1 - r) ** np.arange(T - 1, -1, -1.0)
    ws = (1 - r) ** T
    want_m = ws * m + w @ X[nb:]
    mk, devs = m, []
    for x in X[nb:]:
        devs.append(x - mk)
        mk = mk + r * (x - mk)
    devs = np.array(devs).reshape(T, X.shape[1])
    want = ws * (C0 if C0.ndim == 2 else np.diag(C0)) + (devs * w[:, None]).T @ devs
    if name == "DiagonalCovariance":
        want = np.diag(np.diag(want))
    against.cov_close(mon, "weights", est.covariance_, want, 1e-9 * big, what + ": explicit weights")
    against.loc_close(mon, "weights", est.location_, want_m, X, 1e-10, what + ": explicit weights")
    one = feed(grid.build({"cls": name, "kw": {"r": 1.0}}), X)
    if len(X) > 6:
        mon.close("r=1", one.location_, X[-1], 1e-12, what + ": r=1 location is the last observation",
                  scale=np.abs(X).max() + 1e-300)
        d = X[-1] - X[-2]
        D = np.diag(d * d) if name == "DiagonalCovariance" else np.outer(d, d)
        mon.close("r=1", one.covariance_, D, 1e-9 * big, what + ": r=1 covariance",
                  scale=np.abs(X).max() ** 2 + 1e-300)
    if T > 0:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "kind": case["kind"], "p": p, "n": n}
