from __future__ import annotations

import numpy as np

from lib import gen, grid
from lib.core import brief, rng_for


def is_cov(mon, clause, C, p, what, tol=1e-9):
    """Symmetric, finite, p x p, non-negative diagonal, PSD up to rounding. Returns eig range."""
    C = np.asarray(C)
    mon.ok(clause, C.shape == (p, p), lambda: f"{what}: shape {C.shape}, expected {(p, p)}")
    mon.ok(clause, C.dtype.kind == "f" and np.all(np.isfinite(C)),
           lambda: f"{what}: not finite: {brief(C)}")
    s = float(np.max(np.abs(C))) if C.size else 0.0
    mon.ok(clause, np.max(np.abs(C - C.T), initial=0) <= 1e-12 * s,
           lambda: f"{what}: not symmetric by {np.max(np.abs(C - C.T)):.3g}")
    if s == 0 or s < 1e-290:
        return 0.0, 0.0
    w = np.linalg.eigvalsh(C / s)
    mon.ok(clause, w[0] >= -tol * max(1.0, p),
           lambda: f"{what}: not positive semi-definite: eigenvalues {w[0]:.3g}..{w[-1]:.3g} "
                   f"(relative to the largest entry)")
    return float(w[0]), float(w[-1])


def case_rng(case, *extra):
    return rng_for(case["seed"], {k: v for k, v in case.items() if k != "id"}, *extra)


def pick_dim(rng, big=False):
    dims = [1, 2, 3, 4, 5, 7, 9, 12] + ([24, 40] if big else [])
    return int(dims[int(rng.integers(len(dims)))])


def estimator_cases(tier, kinds, per, classes=None, conditional=True, **extra):
    """One case per (class, stream kind, repetition)."""
    names = classes or (grid.class_names() + (["ConditionalCovariance"] if conditional else []))
    return [dict(cls=c, kind=k, rep=j, **extra) for c in names for k in kinds for j in range(per)]


def feed(est, X):
    for x in X:
        est.partial_fit(x)
    return est


INVERSE_BASED = {"HuberCovariance", "AdaptiveEwaCovariance", "TylerCovariance"}


def stable_config(name, rng, p, **kw):
    """A configuration under which rounding is not amplified on well-conditioned streams of
    dimension p (estimators that invert the running covariance need a window well above p)."""
    rs = None
    if name in INVERSE_BASED or name == "ConditionalCovariance":
        rs = [r for r in (0.1, 0.05, 0.02, 0.008) if p <= 0.4 / r]
    elif name == "GeodesicEwaCovariance":
        rs = [0.02, 0.008]
    return grid.config(name, rng, rs=rs, **kw)


def snapshot(est):
    """Everything a user can read from a fitted positional estimator."""
    return {
        "n_samples_": est.n_samples_,
        "n_features_in_": est.n_features_in_,
        "location_": np.array(est.location_),
        "covariance_": np.array(est.covariance_),
        "correlation_": np.array(est.correlation_),
    }


def everything(est):
    """snapshot() and what is derived from it on demand (or remembered from an earlier reading)."""
    s = snapshot(est)
    Y = np.linspace(-1, 1, 2 * est.n_features_in_).reshape(2, -1)
    return {**s, "precision_": est.precision_, "get_precision": est.get_precision(),
            "mahalanobis": np.asarray(est.mahalanobis(Y)), "score": est.score(Y)}


def same_snapshot(mon, clause, a, b, what):
    for k in b:
        mon.same(clause, a[k], b[k], f"{what}: {k}")


def close_snapshot(mon, clause, a, b, tol, what):
    for k in ("n_samples_", "n_features_in_"):
        mon.ok(clause, a[k] == b[k], f"{what}: {k} {a[k]} != {b[k]}")
    for k in ("location_", "covariance_"):
        mon.close(clause, a[k], b[k], tol, f"{what}: {k}")
    # correlations only for variances that are not rounding noise
    d = np.diag(b["covariance_"])
    if d.size and d.min() > 1e-9 * max(d.max(), 1e-300):
        mon.close(clause, a["correlation_"], b["correlation_"], tol * 1e3, f"{what}: correlation_",
                  scale=1.0)


def all_names():
    return grid.class_names() + ["ConditionalCovariance"]
