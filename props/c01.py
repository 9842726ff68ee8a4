"""C01 valid covariance after every observation, on ordinary and hostile streams."""
import numpy as np

from lib import gen, grid
from lib.core import brief
from lib.util import case_rng, estimator_cases, is_cov, pick_dim

RULE = ("a case is (estimator class, stream kind, repetition) with parameters, dimension and length "
        "drawn from the seed; read after every early observation, then every few; non-trivial: at "
        "least two observations and a covariance that is not identically zero")
CLAUSES = ["covariance", "location", "n_samples", "fresh-read"]


def cases(tier, seed):
    return estimator_cases(tier, gen.ALL, 10 if tier == "quick" else 60)


def run(case, mon):
    rng = case_rng(case)
    name, kind, rep = case["cls"], case["kind"], case["rep"]
    spec = grid.default(name) if rep == 0 else grid.config(name, rng, diff=(
        name != "ConditionalCovariance" and rng.random() < 0.15))
    for part in ("vol", "corr"):  # nothing is remembered at r = 1: the composite is rounding noise
        kw = spec.get(part, {}).get("kw", {})
        if "r" in kw:
            kw["r"] = min(kw["r"], 0.5)
    p = pick_dim(rng, big=rep >= 1 and rng.random() < 0.4)
    n = int(rng.choice([40, 90, 300])) if p <= 12 else 60
    if rep == 3:  # thousands of observations, or a wide matrix
        p, n = (min(p, 4), 1500) if rng.random() < 0.5 else (60, 90)
    X = gen.stream(kind, rng, n, p)
    est = grid.build(spec)
    lag = 1 if spec.get("kw", {}).get("diff") else 0
    nz = False
    for t in range(len(X)):
        est.partial_fit(X[t])
        if t < lag:
            continue
        if t > 30 and t % 7 and t != len(X) - 1 and t % 50 > 2:
            continue
        what = f"{grid.describe(spec)} p={p} after {t + 1} observations of {kind!r}"
        C = est.covariance_
        # at r near 1 the estimate is the last few rows: rounding of the ones before it still shows
        slack = 1e-15 * float(np.abs(X[:t + 1]).max()) ** 2 / max(float(np.abs(C).max()), 1e-290) \
            if spec.get("kw", {}).get("r", 0) > 0.9 else 0.0
        lo, hi = is_cov(mon, "covariance", C, p, what, 1e-9 + slack)
        nz = nz or hi > 0
        m = np.asarray(est.location_)
        mon.ok("location", m.shape == (p,) and np.all(np.isfinite(m)),
               lambda: f"{what}: location_ {brief(m)}")
        mon.ok("n_samples", est.n_samples_ == t + 1 - lag and est.n_features_in_ == p,
               lambda: f"{what}: n_samples_={est.n_samples_} n_features_in_={est.n_features_in_}")
        mon.see("reads")
        if t == len(X) - 1:
            mon.same("fresh-read", est.covariance_, C, what + ": second read")
    if nz and len(X) > 1:
        mon.keys.add((grid.describe(spec), kind, p, rep))
        mon.sample = {"estimator": grid.describe(spec), "stream": kind, "p": p, "n": len(X),
                      "final_diag": np.diag(C)[:4].tolist()}
