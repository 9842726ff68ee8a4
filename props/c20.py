"""C20 DCCCovariance: separate volatility and correlation, recombined as D R D."""
import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng, feed

RULE = ("a case is (stream kind, two rates, repetition): followed against the specification; variances, "
        "correlations and timescales judged separately; non-trivial: two different rates and p > 1")
CLAUSES = ["covariance", "location", "count", "variances", "correlations", "vol-rate", "scale-split"]


def cases(tier, seed):
    n = 48 if tier == "quick" else 100
    return against.cases(["DCCCovariance"], gen.WELL + ["constant_col", "sparse", "ticks", "walk",
                                                        "outliers", "zeros_then_data"], n)


def run(case, mon):
    rng = case_rng(case)
    spec, p, n, nb = against.setup(case, rng)
    kw = spec["kw"]
    for k in ("r", "vol_r"):  # at rate 1 a variance is one squared residual: nothing but its floor
        top = 0.6 if case["kind"] in gen.WELL else 0.2  # quiet series decay to the floor likewise
        if kw.get(k):
            kw[k] = min(kw[k], top)
    r, diff = kw.get("r", 0.05), kw.get("diff")
    rv = r if kw.get("vol_r") is None else kw["vol_r"]
    nb = grid.burn(min(r, rv))
    n = min(400, max(n, nb + 30))
    X = gen.stream(case["kind"], rng, n, p)
    big = max(1.0, np.abs(X).max() / max(X.std(), 1e-9)) ** 2
    D = np.diff(X, axis=0) if diff else X

    def extra(est, t, what):
        k = t - (1 if diff else 0)
        m, H, R, d = ref.DCCCovariance(D[:k], r, kw.get("vol_r"), parts=True)
        C = est.covariance_
        v = np.diag(C)
        # the variances follow the volatility rate alone
        v2 = np.diag(ref.DCCCovariance(D[:k], 0.5 * (r + rv), rv, parts=True)[1]) if k > 2 else v
        if k <= nb and k > 1 or 0.5 * (r + rv) >= rv:
            live = (v > 1e-10) & (np.diag(R) > 0)
            if grid.burn(min(0.5 * (r + rv), rv)) == nb:
                mon.ok("vol-rate", np.all(np.abs(v - v2)[live] <= 1e-7 * big * np.maximum(v, 1e-300)[live]),
                       f"{what}: variances depend on the correlation rate")
        live = np.diag(R) > 0
        mon.ok("variances", np.all(np.abs(v - d ** 2)[live] <= 1e-7 * big * (d ** 2)[live] + 1e-15),
               f"{what}: variances are not the exponentially weighted squared residuals")
        if np.all(v > 1e-9):
            s = np.sqrt(v)
            mon.close("correlations", C / np.outer(s, s), R, 1e-7 * big, what, scale=1.0)

    est = against.follow(mon, ("covariance", "location"), spec, X, rng, 1e-7 * big, nb, extra=extra,
                         loc_tol=1e-10, floor=1e-11, skip=lambda t: against.noise(D, t - (1 if diff else 0)))
    # rescaling one series rescales its row and column, nothing else
    if X.std(axis=0).min() > 1e-3 and case["kind"] in gen.WELL:
        s = 2.0 ** rng.integers(-4, 12, p)
        g = feed(grid.build(spec), X * s)
        mon.close("scale-split", g.covariance_ / np.outer(s, s), est.covariance_, 1e-7 * big,
                  f"{grid.describe(spec)}: per-series rescaling")
    if r != rv and p > 1:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "kind": case["kind"], "p": p, "n": n}
