"""C19 SchurConditionalCovariance: damped, ridged block conditionals."""
import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng, feed

RULE = ("a case is (stream kind, parameters, repetition): followed against the specification built from "
        "the published recursion; reliability judged for range and limits; non-trivial: at least two "
        "blocks with reliability strictly between 0 and 1")
CLAUSES = ["covariance", "location", "count", "gamma_", "one-block", "reliable", "noise", "first-block"]
NAME = "SchurConditionalCovariance"


def cases(tier, seed):
    n = 24 if tier == "quick" else 112
    return against.cases([NAME], gen.WELL + ["sparse", "ticks", "walk", "zeros_then_data", "outliers"], n) \
        + [dict(cls=NAME, kind="limits", rep=j) for j in range(n)]


def run(case, mon):
    rng = case_rng(case)
    if case["kind"] == "limits":
        return limits(mon, rng)
    spec, p, n, nb = against.setup(case, rng)
    kw = spec["kw"]
    r, diff, nbk = kw.get("r", 0.05), kw.get("diff"), kw.get("n_blocks", 4)
    X = gen.stream(case["kind"], rng, n, p)
    D = np.diff(X, axis=0) if diff else X
    big = max(1.0, np.abs(X).max() / max(X.std(), 1e-9))
    inner = [False]

    def extra(est, t, what):
        k = t - (1 if diff else 0)
        m, C, g = ref.SchurConditionalCovariance(D[:k], r, nbk, with_gamma=True)
        mon.ok("gamma_", 0 <= est.gamma_ <= 1, f"{what}: gamma_ {est.gamma_}")
        mon.close("gamma_", est.gamma_, g, 1e-7 * big, what, scale=1.0)
        inner[0] |= 1e-3 < g < 0.999 and ref.cross_mask(p, nbk).any()
        b = ref.blocks(p, nbk)[0][1]
        S = ref.ewa(D[:k], r)[1]
        if np.linalg.eigvalsh(C)[0] > 1e-6:
            against.cov_close(mon, "first-block", est.covariance_[:b, :b], S[:b, :b], 1e-6 * big,
                              what + ": the first block is the undamped estimate")

    def skip(t):
        return against.noise(D, t - (1 if diff else 0))  # no correlation to speak of

    est = against.follow(mon, ("covariance", "location"), spec, X, rng, 1e-5 * big, nb, extra=extra,
                         loc_tol=1e-10, skip=skip)
    if case["kind"] in gen.WELL and not diff and len(X) > 2 * p:
        one = feed(grid.build({"cls": NAME, "kw": {"r": r, "n_blocks": 1}}), X)
        S = ref.ewa(X, r)[1]
        if np.linalg.eigvalsh(ref.to_corr(S))[0] > 1e-6:
            against.cov_close(mon, "one-block", one.covariance_, S, 1e-6 * big, "one block is plain EWA")
            mon.ok("one-block", one.gamma_ == 1.0, f"one block: gamma_ {one.gamma_}")
    if inner[0]:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "p": p, "n": n, "gamma_": est.gamma_}


def limits(mon, rng):
    import precise

    p = int(rng.integers(4, 9))
    n = 1200
    f = rng.standard_normal((n, 1))
    X = f + 0.35 * rng.standard_normal((n, p))
    e = feed(precise.SchurConditionalCovariance(r=0.004, n_blocks=2), X)
    e.covariance_
    mon.ok("reliable", e.gamma_ > 0.95, f"strong coupling, long window: gamma_ {e.gamma_:.3f}")
    Z = rng.standard_normal((n, p))
    e = feed(precise.SchurConditionalCovariance(r=0.05, n_blocks=2), Z)
    C = e.covariance_
    mon.ok("noise", e.gamma_ < 0.85, f"independent data, short window: gamma_ {e.gamma_:.3f}")
    S = ref.ewa(Z, 0.05)[1]
    x = ref.cross_mask(p, 2)
    mon.ok("noise", np.linalg.norm(C[x]) <= np.linalg.norm(S[x]) * (1 + 1e-9),
           "independent data: damping increased the cross-block coupling")
    mon.keys.add(("limits", p, float(X[0, 0])))
