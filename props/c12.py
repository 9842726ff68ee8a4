"""C12 EmpiricalCovariance is exactly the population covariance of everything seen."""
import numpy as np

from lib import against, gen, ref

RULE = ("a case is (stream kind, repetition): read at many prefixes against two-pass extended-precision "
        "moments, plus numpy.cov; long and far-from-zero histories; non-trivial: three or more "
        "observations")
CLAUSES = ["covariance", "location", "count", "numpy", "long", "offset"]


def cases(tier, seed):
    n = 36 if tier == "quick" else 100
    out = against.cases(["EmpiricalCovariance"], gen.WELL + against.ROUGH + ["short", "repeat_rows"], n)
    return out + [dict(cls="EmpiricalCovariance", kind="long", rep=j) for j in range(n)]


def run(case, mon):
    from lib.util import case_rng, feed
    import precise

    rng = case_rng(case)
    if case["kind"] == "long":
        p, n = int(rng.integers(1, 6)), 4000
        off = float(rng.choice([0, 1e3, 1e5, -1e6]))
        X = off + gen.stream("corr", rng, n, p)
        e = precise.EmpiricalCovariance()
        if case["rep"] % 2:  # in stretches of every length
            i = 0
            while i < n:
                k = int(np.exp(rng.uniform(0, np.log(1500))))
                e.partial_fit(X[i:i + k])
                i += k
        else:
            feed(e, X)
        m, C = ref.empirical(X)
        tol = 1e-11 + 1e-14 * abs(off)
        against.cov_close(mon, "long", e.covariance_, C, tol, f"n={n} offset {off:g}")
        against.loc_close(mon, "long", e.location_, m, X, 1e-12, f"n={n} offset {off:g}")
        if off:
            mon.evals["offset"] += 1
        mon.keys.add(("long", p, off))
        return
    spec, p, n, nb = against.setup(case, rng)
    X = gen.stream(case["kind"], rng, n, p)
    if case["rep"] % 3 == 2:  # the units of the data do not matter
        X = X * 10.0 ** rng.uniform(-12, 12)
    big = max(1.0, np.abs(X).max() / max(X.std(), 1e-9 * np.abs(X).max(), 1e-300))
    e = against.follow(mon, ("covariance", "location"), spec, X, rng, 1e-11 * big)
    if not spec["kw"].get("diff") and len(X) > 1:
        mon.close("numpy", e.covariance_, np.atleast_2d(np.cov(X.T, bias=True)), 1e-10 * big, "numpy.cov")
        mon.close("numpy", e.location_, X.mean(axis=0), 1e-10, "mean", scale=np.abs(X).max() + 1e-300)
    if len(X) >= 3:
        mon.keys.add((case["kind"], p, n, case["rep"]))
        mon.sample = {"kind": case["kind"], "p": p, "n": n}
