"""Workload generators: observation streams (ordinary, hostile, degenerate)."""
from __future__ import annotations

import numpy as np

# Streams on which every estimator is numerically well conditioned once n >> p.
WELL = ["gauss", "corr", "factor", "t4", "offset", "scaled", "regime", "ar", "uniform", "tiny"]
# Degenerate, extreme or adversarial but finite streams.
HOSTILE = ["constant_col", "all_constant", "duplicate_col", "collinear", "zeros_then_data", "sparse",
           "outliers", "huge_outlier", "ticks", "walk", "big_offset", "mixed_scales", "repeat_rows",
           "alternate", "short", "one_nonzero", "ramp", "zeros", "small", "large"]
ALL = WELL + HOSTILE


def spd(rng, p, lo=0.3, hi=3.0):
    Q, _ = np.linalg.qr(rng.standard_normal((p, p)))
    return (Q * rng.uniform(lo, hi, p)) @ Q.T


def corr_matrix(rng, p, strength=0.5):
    B = rng.standard_normal((p, 2)) * strength
    S = B @ B.T + np.diag(rng.uniform(0.4, 1.2, p))
    d = 1 / np.sqrt(np.diag(S))
    return S * np.outer(d, d)


def stream(kind, rng, n, p):
    z = rng.standard_normal((n, p))
    if kind == "gauss":
        return z
    if kind == "corr":
        return z @ np.linalg.cholesky(spd(rng, p)).T + rng.standard_normal(p)
    if kind == "factor":
        return rng.standard_normal((n, 1)) @ rng.uniform(0.5, 1.5, (1, p)) + 0.7 * z
    if kind == "t4":
        return z / np.sqrt(rng.chisquare(4, (n, 1)) / 4)
    if kind == "uniform":
        return rng.uniform(-1, 1, (n, p)) + 0.3 * rng.uniform(-1, 1, (n, 1))
    if kind == "offset":
        return z @ np.linalg.cholesky(spd(rng, p)).T + rng.uniform(-50, 50, p)
    if kind == "scaled":
        return z @ np.linalg.cholesky(corr_matrix(rng, p)).T * 10.0 ** rng.uniform(-1.5, 1.5, p)
    if kind == "tiny":  # e.g. daily returns
        return z @ np.linalg.cholesky(corr_matrix(rng, p)).T * 0.01
    if kind == "regime":
        h = n // 2
        a = z[:h] @ np.linalg.cholesky(spd(rng, p)).T
        b = 3 * z[h:] @ np.linalg.cholesky(corr_matrix(rng, p, 1.0)).T + 2
        return np.vstack([a, b])
    if kind == "ar":
        x = np.zeros((n, p))
        for t in range(n):
            x[t] = (0.6 * x[t - 1] if t else 0) + z[t]
        return x
    # ------------------------------------------------------------ hostile
    if kind == "constant_col":
        x = z.copy()
        x[:, rng.integers(p)] = rng.choice([0.0, 1.0, -7.3, 1e4])
        return x
    if kind == "all_constant":
        return np.tile(rng.choice([0.0, 3.7, -1e3], p), (n, 1))
    if kind == "zeros":
        return np.zeros((n, p))
    if kind == "duplicate_col":
        x = z.copy()
        x[:, -1] = x[:, 0]
        return x
    if kind == "collinear":
        k = max(1, p // 3)
        return rng.standard_normal((n, k)) @ rng.standard_normal((k, p))
    if kind == "zeros_then_data":
        x = z.copy()
        x[: max(1, n // 5)] = 0.0
        return x
    if kind == "sparse":
        return z * (rng.random((n, p)) < 0.1)
    if kind == "outliers":
        x = z.copy()
        m = rng.random(n) < 0.05
        x[m] = 50 * rng.standard_normal((int(m.sum()), p))
        return x
    if kind == "huge_outlier":
        x = z.copy()
        x[rng.integers(n)] *= 1e6
        return x
    if kind == "ticks":
        return np.round(2 * z)
    if kind == "walk":
        return 100 + np.cumsum(z, axis=0)
    if kind == "big_offset":
        return z + rng.choice([1e4, -1e5, 1e6], p)
    if kind == "mixed_scales":
        return z * 10.0 ** rng.integers(-4, 5, p)
    if kind == "repeat_rows":
        return z[rng.integers(0, max(1, n // 10), n)]
    if kind == "alternate":
        s = np.where(np.arange(n) % 2, 1.0, -1.0)[:, None]
        return s * rng.standard_normal(p)
    if kind == "short":
        return z[: max(1, min(n, rng.integers(1, 2 * p + 2)))]
    if kind == "one_nonzero":
        x = np.zeros((n, p))
        x[np.arange(n), rng.integers(0, p, n)] = rng.standard_normal(n)
        return x
    if kind == "ramp":
        return np.arange(n)[:, None] * rng.standard_normal(p) + 0.01 * z
    if kind == "small":
        return z * 1e-5
    if kind == "large":
        return z * 1e6
    raise KeyError(kind)
