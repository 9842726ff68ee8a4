"""C17 TylerCovariance: a unit-diagonal shape that depends on directions only."""
import copy

import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng, feed

RULE = ("a case is (stream kind, rate, repetition): followed against the specification; at random "
        "moments the next observation is replaced by one in the same direction from the current "
        "location at 1e-2..1e280 times the distance; non-trivial: p > 1 and judged beyond the warm-up")
CLAUSES = ["covariance", "location", "count", "unit-diagonal", "direction-only", "bounded-step",
           "scale-free", "elliptical"]


def cases(tier, seed):
    n = 28 if tier == "quick" else 120
    out = against.cases(["TylerCovariance"], gen.WELL + ["outliers", "zeros_then_data"], n)
    return out + [dict(cls="TylerCovariance", kind=k, rep=j) for k in ("elliptical", "released") for j in range(n)]


def run(case, mon):
    rng = case_rng(case)
    p = [1, 2, 3, 5, 8][int(rng.integers(5))]
    if case["kind"] == "elliptical":
        return elliptical(mon, rng)
    if case["kind"] == "released":
        return released(mon, rng)
    spec, p, n, nb = against.setup(case, rng, stable=True, p=p)
    r = spec["kw"].get("r", 0.05)
    X = gen.stream(case["kind"], rng, n, p)

    def extra(est, t, what):
        mon.ok("unit-diagonal", np.max(np.abs(np.diag(est.covariance_) - 1)) <= 1e-9, what)

    tol = 1e-7 if case["kind"] not in ("scaled",) else 1e-5
    est = against.follow(mon, ("covariance", "location"), spec, X, rng, tol, nb, extra=extra)
    # per-step monitor
    e = grid.build(spec)
    for t, x in enumerate(X):
        if t > p + 3 and rng.random() < 0.15 and e.n_samples_ > 1:
            m, R = e.location_, e.covariance_
            if spec["kw"].get("diff"):
                break
            d = x - m
            if np.abs(d).max() > 1e-3 and np.linalg.eigvalsh(R)[0] > 1e-5:
                k = float(rng.choice([1e-2, 0.3, 7.0, 1e3, 1e6, 1e90, 1e158, 1e200, 1e280]))
                a = copy.deepcopy(e).partial_fit(x).covariance_
                b = copy.deepcopy(e).partial_fit(m + k * d).covariance_
                mon.close("direction-only", b, a, 1e-6, f"{grid.describe(spec)} p={p} after {t}: the same "
                          f"direction at {k:g} times the distance", scale=1.0)
                f = copy.deepcopy(e).partial_fit(m - d).covariance_
                mon.close("direction-only", f, a, 1e-6, f"{grid.describe(spec)}: the opposite direction",
                          scale=1.0)
                if p > 1:  # some coordinates exactly where they were expected, against nearly so
                    z = d * (rng.permutation(p) < rng.integers(1, p))
                    if np.abs(z).max() > 1e-3:
                        a = copy.deepcopy(e).partial_fit(m + z).covariance_
                        b = copy.deepcopy(e).partial_fit(m + z + 1e-10 * np.abs(z).max() * (z == 0)).covariance_
                        mon.close("direction-only", b, a, 1e-6, f"{grid.describe(spec)} p={p} after {t}: coordinates "
                                  "with no deviation against an immaterial one", scale=1.0)
                mon.see("replaced observations")
        e.partial_fit(x)
    s = 2.0 ** int(rng.integers(-8, 20))
    g = feed(grid.build(spec), X * s)
    mon.close("scale-free", g.covariance_, est.covariance_, 1e-6, f"data times {s:g}", scale=1.0)
    # one gross outlier cannot move the shape by more than one step's worth
    if est.n_samples_ > nb and not spec["kw"].get("diff"):
        R = est.covariance_
        w = np.linalg.eigvalsh(R)
        if w[0] > 1e-3:
            for _ in range(3):
                x = est.location_ + 10.0 ** rng.choice([rng.uniform(0, 9), rng.uniform(9, 300)]) * rng.standard_normal(p)
                R2 = copy.deepcopy(est).partial_fit(x).covariance_
                # new shape = (1-r) C + r p d d'/q with d'C^-1 d = q: d d'/q <= C, so factor <= 1-r+r p
                lim = (1 - r + r * p) / (1 - r) - 1
                mon.ok("bounded-step", np.max(np.abs(R2 - R)) <= lim + 1e-9,
                       f"{grid.describe(spec)} p={p}: one outlier moved a correlation by "
                       f"{np.max(np.abs(R2 - R)):.4g}, bound {lim:.4g}")
    if p > 1 and len(X) > nb:
        mon.keys.add((grid.describe(spec), case["kind"], p, case["rep"]))
        mon.sample = {"estimator": grid.describe(spec), "p": p, "kind": case["kind"]}


def released(mon, rng):
    """Series that move as one until the shape is nearly singular, and then apart: every direction counts again."""
    import precise

    r = float(rng.uniform(0.04, 0.3))
    p, flat = int(rng.integers(2, 5)), 10.0 ** rng.uniform(-9, -3)
    n0, thin = 1, 1.0  # each step along one direction thins the others
    while thin > flat:
        n0 += 1
        g = 1.0 / (n0 + 1) if n0 <= ref.burn(r) else r
        thin *= (1 - g) / (1 - g + g * p)
    X = np.vstack([np.outer(rng.standard_normal(n0), rng.choice([-2.0, 1.0, 1.0, 3.0], p)), rng.standard_normal((int(12 / r), p))])
    X *= 10.0 ** rng.uniform(0, 4)
    what = f"r={r:.3f} p={p} moving as one for {n0}"
    e = precise.TylerCovariance(r=r)
    look = {n0 + 1, n0 + 2, len(X)} | {n0 + int(k) for k in rng.integers(3, int(10 / r), 3)}
    for t, x in enumerate(X, 1):
        e.partial_fit(x)
        if t in look:
            m, R = ref.TylerCovariance(X[:t], r)
            mon.close("covariance", e.covariance_, R, 1e-6, f"{what}, {t - n0} apart", scale=1.0)
            mon.close("location", e.location_, m, 1e-8, what, scale=float(np.abs(X).max()))
            mon.see("released shapes judged")
    mon.keys.add((what, "released"))


def elliptical(mon, rng):
    """Directions fixed, radii redrawn from any distribution (location pinned by symmetric pairs at
    equal radius): nearly the same shape, where a sample covariance is swamped."""
    import precise

    p, n = int(rng.integers(2, 5)), 1500
    R = gen.corr_matrix(rng, p, 0.8)
    L = np.linalg.cholesky(R)
    u = rng.standard_normal((n, p)) @ L.T
    rad = np.abs(rng.standard_cauchy((n, 1))) + 0.1
    rad = np.minimum(rad, 1e3)
    pair = lambda z: np.vstack([z, -z]).reshape(2, n, p).transpose(1, 0, 2).reshape(-1, p)
    e = precise.TylerCovariance(r=0.004)
    for x in pair(u * rad):
        e.partial_fit(x)
    err = np.abs(e.covariance_ - R).max()
    mon.ok("elliptical", err < 0.45, f"p={p}: shape off by {err:.3f} under Cauchy radii")
    mon.see("elliptical error x1000", int(1000 * err))
    mon.keys.add(("elliptical", p, float(R[0, 1])))
