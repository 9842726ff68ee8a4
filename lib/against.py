"""Drive an estimator over a random history, reading it at many prefixes against its executable
specification in lib/ref.py."""
from __future__ import annotations

import numpy as np

from lib import gen, grid, ref
from lib.core import brief
from lib.util import pick_dim, stable_config

ROUGH = ["constant_col", "sparse", "ticks", "outliers", "walk", "zeros_then_data", "duplicate_col",
         "repeat_rows", "mixed_scales", "short", "collinear", "one_nonzero"]


EPS = float(np.finfo(float).eps)


def cov_close(mon, clause, C, W, tol, what, eig=0.0):
    """Entrywise against sqrt(w_ii w_jj), so that small-variance variables are judged too."""
    C, W = np.asarray(C, float), np.asarray(W, float)
    mon.ok(clause, C.shape == W.shape and np.all(np.isfinite(C)),
           lambda: f"{what}: {brief(C)} where {brief(W)} is expected")
    d = np.diag(W)
    s = float(np.max(np.abs(W), initial=0))
    dd = np.sqrt(np.maximum(d, 1e-9 * s))
    allow = tol * np.outer(dd, dd) + mon.floor + eig * s + 1e-300
    a = getattr(mon, "colmax", None)
    if a is not None and a.shape == dd.shape:  # a deviation from a level is rounded at that level
        allow = allow + 50 * EPS * (np.outer(a, dd) + np.outer(dd, a))
    bad = np.abs(C - W) - allow
    if bad.size and not bad.max() <= 0:
        i, j = np.unravel_index(np.argmax(np.abs(C - W) / allow), C.shape)
        mon.ok(clause, False, f"{what}: entry ({i},{j}) is {C[i, j]:.9g}, specification {W[i, j]:.9g} "
                              f"(allowed {allow[i, j]:.2g})")


def loc_close(mon, clause, m, w, X, tol, what):
    m, w = np.asarray(m, float), np.asarray(w, float)
    mon.ok(clause, m.shape == w.shape, lambda: f"{what}: {brief(m)}")
    allow = tol * (np.abs(X).max(axis=0) + 1e-300)
    mon.ok(clause, np.all(np.abs(m - w) <= allow),
           lambda: f"{what}: location {brief(m)}, specification {brief(w)}")


def stops(rng, n, nb, k=5):
    s = {1, 2, 3, nb - 1, nb, nb + 1, nb + 2, n} | set(rng.integers(1, n + 1, k).tolist())
    return sorted(t for t in s if 1 <= t <= n)


def cases(names, kinds, per):
    out = [dict(cls=c, kind=k, rep=j) for c in names for k in kinds for j in range(per)]
    # thousands of observations, or dozens of variables: where an implementation may take a shortcut
    return out + [dict(cls=c, kind=k, rep=j, big=b) for c in names for k, b in BIG for j in range(2 + per // 20)] + [
        dict(cls=c, kind=k, rep=1, big=b) for c in names for k, b in (("gauss", "eon"), ("scaled", "vast"))]


BIG = [("corr", "long"), ("gauss", "long"), ("factor", "wide"), ("scaled", "wide")]


def noise(D, k):
    """Some variable has been constant at a non-zero level so far: its variance is rounding noise."""
    D = D[:k]
    return len(D) == 0 or bool(np.any((np.ptp(D, axis=0) == 0) & (D[0] != 0)))


def setup(case, rng, diff_ok=True, spec=None, stable=False, p=None, n=None, rs=None):
    name = case["cls"]
    p = p or pick_dim(rng, big=rng.random() < 0.1)
    big = case.get("big")
    if big:
        p = int(rng.choice([33, 50, 65])) if big == "wide" else 130 if big == "vast" else min(p, 3 if big == "long" else 2)
        kw = dict(stable_config(name, rng, p)["kw"] if stable else grid.config(name, rng)["kw"])
        if "r" in kw:
            kw["r"] = float(rng.choice([0.004, 0.01] if big == "wide" else [0.004] if big == "vast" else [0.004, 0.001, 0.0005]))
        spec = dict(cls=name, kw=kw)
        nb = grid.burn(kw.get("r", 0.05))
        return spec, p, dict(long=int(rng.choice([1100, 2300])), wide=nb + 12, vast=nb + 6, eon=12500)[big], nb
    diff = bool(diff_ok and rng.random() < 0.15)
    if spec is None:
        if case["rep"] == 0:
            spec = grid.default(name)
        elif stable:
            spec = stable_config(name, rng, p, diff=diff)
        else:
            spec = grid.config(name, rng, diff=diff, rs=rs)
    r = spec["kw"].get("r", 0.05)
    nb = grid.burn(r)
    n = n or int(rng.choice([nb + 3, nb + 40, 2 * nb + 60]))
    return spec, p, min(n, 400), nb


def follow(mon, clause, spec, X, rng, tol, nb=20, skip=None, extra=None, loc_tol=None,
           eig=0.0, floor=0.0):
    """Stream X, compare at the stops; extra(est, t, what) may judge more. Returns the estimator."""
    est = grid.build(spec)
    mon.floor = floor + 1e-26 * float(np.abs(X).max()) ** 2
    mon.colmax = np.abs(X).max(axis=0)
    name, kw = spec["cls"], dict(spec["kw"])
    lag = 1 if kw.get("diff") else 0
    at = set(stops(rng, len(X), nb)) if len(X) < 10 ** 4 else {len(X) // 2, len(X)}
    for t, x in enumerate(X, 1):
        est.partial_fit(x)
        if t not in at or t <= lag or (skip and skip(t)):
            continue
        what = f"{grid.describe(spec)} p={X.shape[1]} after {t}"
        m, C = ref.reference(name, X[:t], **kw)
        loc_close(mon, clause[1], est.location_, m, X, loc_tol or max(tol, 1e-11), what)
        cov_close(mon, clause[0], est.covariance_, C, tol, what, eig)
        mon.ok("count", est.n_samples_ == t - lag, what)
        mon.see("prefixes judged")
        if t > nb:
            mon.see("prefixes judged beyond the warm-up")
        if extra:
            extra(est, t, what)
    return est
