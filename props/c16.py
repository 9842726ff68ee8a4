"""C16 AdaptiveEwaCovariance: rate within [r, max_r], raised by sustained surprise, then relaxed."""
import copy

import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng

RULE = ("a case is (stream kind, parameters, repetition): followed against the specification; the rate "
        "of every step is inferred from location_ before and after, and checked for range, common use "
        "in the covariance, monotonicity in surprise and relaxation; non-trivial: a rate strictly "
        "above r was inferred")
CLAUSES = ["covariance", "location", "count", "rate-range", "rate-common", "monotone", "relaxes",
           "reacts", "calm-is-ewa", "calm"]


def cases(tier, seed):
    k = 2 if tier == "quick" else 4
    return against.cases(["AdaptiveEwaCovariance"], gen.WELL + ["shift"], 40 if tier == "quick" else 130) + [
        dict(calm=p, rep=j) for p in (1, 2, 4, 7, 15, 25) for j in range(2 * k)] + [
        dict(capped=p, rep=j) for p in (1, 2, 3, 6) for j in range(3 * k)]


def rate(m, m2, x):
    d = x - m
    return float((m2 - m) @ d / (d @ d))


def calm(case, mon):
    """Nothing ever changes: in the long run the rate is near the base rate, not near the maximum."""
    from precise import AdaptiveEwaCovariance

    rng = case_rng(case)
    p = case["calm"]
    e = AdaptiveEwaCovariance()
    base, mx = e.get_params()["r"], e.get_params()["max_r"]
    A = np.linalg.cholesky(gen.corr_matrix(rng, p)) * 10.0 ** rng.uniform(-3, 3)
    got = []
    for t in range(900):
        m = e.location_ if t else None
        x = A @ rng.standard_normal(p)
        e.partial_fit(x)
        if t > 300:
            got.append(rate(m, e.location_, x))
    g = float(np.mean(got))
    mon.ok("rate-range", min(got) >= base * (1 - 1e-6) and max(got) <= mx * (1 + 1e-6), f"calm p={p}: {min(got)}..{max(got)}")
    # known: in many dimensions a short window misjudges ordinary observations as surprising, which shortens it further
    mon.ok("calm", g <= 2.5 * base, f"mean rate {g:.4g} on stationary Gaussian data, p={p}, default parameters (base rate {base})",
           mechanism="adaptive-runaway" if p * base > 0.6 else None)
    mon.keys.add(("calm", p, case["rep"]))


def capped(case, mon):
    """The maximum at, or below, the base rate: no observation, however surprising, is forgotten at more than it."""
    from precise import AdaptiveEwaCovariance

    rng = case_rng(case)
    p = case["capped"]
    r = float(rng.uniform(0.05, 0.3))
    mx = r * float(rng.choice([1.0, rng.uniform(0.2, 0.95)]))
    e = AdaptiveEwaCovariance(r=r, max_r=mx)
    A = np.linalg.cholesky(gen.corr_matrix(rng, p)) * 10.0 ** rng.uniform(-3, 3)
    nb = grid.burn(r)
    top = 0.0
    for t in range(nb + 60):
        m = e.location_ if t else None
        x = A @ rng.standard_normal(p) * (4.0 if t > nb + 30 else 1.0)
        e.partial_fit(x)
        if t > nb + 2:
            top = max(top, rate(m, e.location_, x))
    mon.ok("rate-range", 0 < top <= mx * (1 + 1e-6), f"r={r} max_r={mx} p={p}: a rate of {top:.6g}")
    mon.keys.add(("capped", p, case["rep"]))


def run(case, mon):
    if "calm" in case:
        return calm(case, mon)
    if "capped" in case:
        return capped(case, mon)
    rng = case_rng(case)
    p = [1, 2, 3, 5][int(rng.integers(4))]
    spec, p, n, nb = against.setup(case, rng, stable=True, p=p, diff_ok=False)
    r, mx = spec["kw"].get("r", 0.05), spec["kw"].get("max_r", 0.5)
    r_ = spec["kw"]["r"] = min(r, 0.4 / p)
    nb = grid.burn(r_)
    X = gen.stream("gauss" if case["kind"] == "shift" else case["kind"], rng, n, p)
    if case["kind"] == "shift" and n > nb + 10:
        X[nb + 8:] *= 3
    # with a rate this high the window can shrink to a few observations: judge while it stays full rank
    fast = mx > 0.6 / p
    if fast:
        spec["kw"]["max_r"] = mx = max(r_, 0.5 / p)
    r = r_
    est = against.follow(mon, ("covariance", "location"), spec, X, rng, 1e-6, nb)
    if est.n_samples_ <= nb:
        return
    above = 0
    what = f"{grid.describe(spec)} p={p}"
    e = copy.deepcopy(est)
    for i in range(25):
        m, C = e.location_, e.covariance_
        w = np.linalg.eigvalsh(C)
        if w[0] <= 1e-7 * w[-1]:
            return
        L = np.linalg.cholesky(C)
        u = rng.standard_normal(p)
        k = float(rng.choice([0.2, 1, 1, 2.5, 6]))
        u *= k * np.sqrt(p) / np.linalg.norm(u)
        x = m + L @ u
        less, more = copy.deepcopy(e), copy.deepcopy(e)
        e.partial_fit(x)
        g = rate(m, e.location_, x)
        mon.ok("rate-range", r * (1 - 1e-6) <= g <= mx * (1 + 1e-6), f"{what}: rate {g:.6g} outside "
                                                                     f"[{r}, {mx}]")
        mon.close("rate-common", e.covariance_, (1 - g) * C + g * np.outer(x - m, x - m), 1e-7, what)
        xm, xl = m + 3 * (x - m), m + 0.3 * (x - m)
        gm, gl = rate(m, more.partial_fit(xm).location_, xm), rate(m, less.partial_fit(xl).location_, xl)
        mon.ok("monotone", gl - 1e-7 <= g <= gm + 1e-7, f"{what}: rates {gl:.6g} {g:.6g} {gm:.6g} for "
                                                        "growing surprise")
        above += g > r * (1 + 1e-4)
        mon.see("rates inferred")
    # sustained surprise drives the rate up; sustained calm brings it back to r
    def run_at(k, steps):
        for _ in range(steps):
            m, C = e.location_, e.covariance_
            L = np.linalg.cholesky(C)
            u = rng.standard_normal(p)
            u *= k * np.sqrt(p) / np.linalg.norm(u)
            x = m + L @ u
            e.partial_fit(x)
        return rate(m, e.location_, x)

    g = run_at(0.5, 60)
    mon.ok("relaxes", g <= r * (1 + 1e-4), f"{what}: rate {g:.6g} after 60 calm observations")
    m, C = e.location_, e.covariance_
    x = m + 0.5 * np.linalg.cholesky(C) @ np.ones(p)
    e.partial_fit(x)
    mon.close("calm-is-ewa", e.covariance_, (1 - r) * C + r * np.outer(x - m, x - m), 1e-7, what)
    if mx > 1.5 * r:
        g2 = run_at(3.0, 4)
        mon.ok("reacts", g2 > 1.3 * r or g2 >= mx * (1 - 1e-6),
               f"{what}: rate {g2:.6g} after sustained surprise")
    else:
        mon.evals["reacts"] += 0
    if above:
        mon.keys.add((grid.describe(spec), case["kind"], p, case["rep"]))
        mon.sample = {"estimator": grid.describe(spec), "p": p, "raised_rates": int(above)}
