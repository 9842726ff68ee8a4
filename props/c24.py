"""C24 GeodesicEwaCovariance: every step moves a fraction r along the affine-invariant geodesic."""
import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng

RULE = ("a case is (stream kind, rate, repetition): the warm-up against the empirical covariance, then "
        "each step judged from covariance_ before and after: geodesic identity, determinant law, strict "
        "positive definiteness; non-trivial: at least ten steps judged with p > 1")
CLAUSES = ["warm-up", "location", "step", "log-det", "positive-definite", "geodesic_step", "distance",
           "end-points", "midpoint"]


def cases(tier, seed):
    n = 36 if tier == "quick" else 100
    kinds = ["gauss", "corr", "factor", "t4", "uniform", "regime", "ar"]
    return against.cases(["GeodesicEwaCovariance"], kinds, n) + [
        dict(cls="GeodesicEwaCovariance", kind="helper", rep=j) for j in range(3 * n)]


def run(case, mon):
    rng = case_rng(case)
    if case["kind"] == "helper":
        return helper(mon, rng)
    p = [1, 2, 3, 4, 6][int(rng.integers(5))]
    r = float(rng.choice([0.02, 0.05, 0.1, 0.008]))
    nb = grid.burn(r)
    s = float(rng.choice([1.0, 10.0 ** rng.uniform(-1.5, 2.5)]))
    X = s * gen.stream(case["kind"], rng, nb + 25, p)
    est = grid.build({"cls": "GeodesicEwaCovariance", "kw": {"r": r}})
    steps = 0
    what = f"Geodesic(r={r}) p={p} {case['kind']}"
    for t, x in enumerate(X):
        if t >= nb:
            m, C = est.location_, est.covariance_
        est.partial_fit(x)
        if t < nb:
            if t in (1, nb // 2, nb - 1):
                em, eC = ref.empirical(X[: t + 1])
                mon.close("warm-up", est.covariance_, eC, 1e-10, f"{what} after {t + 1}")
                mon.close("location", est.location_, em, 1e-10, what, scale=np.abs(X).max())
            continue
        m2, C2 = est.location_, est.covariance_
        mon.close("location", m2, (1 - r) * m + r * x, 1e-10, what, scale=np.abs(X).max())
        if p >= nb - 1:
            continue
        w = np.linalg.eigvalsh(C)
        mon.ok("positive-definite", np.linalg.eigvalsh(C2)[0] > 0, what + ": lost positive definiteness")
        if w[0] < 1e-5:
            break
        T = ref.floor_pd(np.outer(x - m, x - m))
        # rounding of the outer product, as a fraction of the absolute floor 1e-8 that regularises it
        noise = 10 * r * np.finfo(float).eps * float(np.trace(T)) / 1e-8 * w[-1] / w[0]
        if noise > 0.02:
            break
        mon.close("step", C2, ref.geodesic(C, T, r), 1e-4 + noise, f"{what}: step {t} is not the geodesic step")
        ld = (1 - r) * np.linalg.slogdet(C)[1] + r * np.linalg.slogdet(T)[1]
        mon.close("log-det", np.linalg.slogdet(C2)[1], ld, 1e-3 * r + noise, what + ": log-determinant law",
                  scale=1 + abs(ld) / r)
        steps += 1
        mon.see("steps judged")
    if steps >= 10 and p > 1:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"what": what, "steps": steps}


def dist(A, B):
    import scipy.linalg as sl

    return float(np.sqrt((np.log(sl.eigh(B, A, eigvals_only=True)) ** 2).sum()))


def helper(mon, rng):
    from precise._linalg import geodesic_step

    p = int(rng.integers(1, 8))
    s = 10.0 ** rng.uniform(-3, 4)
    u = s * float(rng.choice([1.0, 10.0 ** rng.uniform(-4, 4)]))
    A, B = s * gen.spd(rng, p), u * gen.spd(rng, p, 0.1, 9)
    k = 10.0 ** rng.uniform(-5, 0)  # ill-conditioned ends, well above the floors
    if rng.random() < 0.5 and p > 1:
        B = B + u / k * np.outer(*[rng.standard_normal(p)] * 2) / p
    g = float(rng.uniform(0, 1))
    G = geodesic_step(A, B, g)
    what = f"geodesic p={p} scale {s:.3g} gamma={g:.3f}"
    mon.close("geodesic_step", G, ref.geodesic(A, B, g), 1e-8, what)
    d = dist(A, B)
    mon.close("distance", [dist(A, G), dist(G, B)], [g * d, (1 - g) * d], 1e-6, what + ": arc length",
              scale=1 + d)
    mon.close("end-points", geodesic_step(A, B, 0.0), A, 1e-9, what)
    mon.close("end-points", geodesic_step(A, B, 1.0), B, 1e-9, what)
    mon.close("midpoint", geodesic_step(A, B, g), geodesic_step(B, A, 1 - g), 1e-8, what + ": reversal")
    M = geodesic_step(A, B, 0.5)
    mon.close("midpoint", M @ np.linalg.solve(A, M), B, 1e-7, what + ": M A^-1 M = B")
    mon.keys.add(("helper", p, round(g, 6)))
