"""Executable specifications of the keyed (named) views. Each feeds real positional estimators with
rows prepared by the harness, so only the bookkeeping of the views is specified here."""
from __future__ import annotations

import numpy as np


class Fixed:
    def __init__(self, make, keys=None, impute="ffill"):
        self.est, self.keys, self.impute = make(), keys, impute
        self.last = {}

    def update(self, x):
        if self.keys is None:
            self.keys = list(x)
        row = []
        for i, k in enumerate(self.keys):
            if k in x:
                row.append(float(x[k]))
            elif self.impute == "zero":
                row.append(0.0)
            elif self.impute == "mean" and self.est.n_samples_ > 0:
                # of a series learned in differences the running mean is one of the differences
                level = self.row[i] if getattr(self.est, "diff", False) else 0.0
                row.append(level + float(self.est.location_[i]))
            else:
                row.append(self.last.get(k, 0.0))
        for k in self.keys:
            if k in x:
                self.last[k] = float(x[k])
        self.row = row
        self.est.partial_fit(np.array(row))

    def cov(self, keys=None):
        keys = self.keys if keys is None else list(keys)
        C = self.est.covariance_
        at = {k: i for i, k in enumerate(self.keys)}
        return np.array([[C[at[a], at[b]] for b in keys] for a in keys]), keys


class _U:
    def __init__(self, keys, make, born):
        self.keys, self.est, self.born = list(keys), make(), born
        self.longevity = self.staleness = 0

    def learn(self, x):
        self.est.partial_fit(np.array([float(x[k]) for k in self.keys]))
        self.longevity += 1
        self.staleness = 0


class Dynamic:
    """One estimator per distinct key-set; learned whenever an observation contains all its keys."""

    def __init__(self, make, max_universes=10, max_staleness=50):
        self.make, self.max_u, self.max_s = make, max_universes, max_staleness
        self.us, self.t, self.x = [], 0, None
        self.evicted = self.dropped = 0

    def update(self, x):
        self.t += 1
        self.x = x
        for u in self.us:
            if set(u.keys) <= set(x):
                u.learn(x)
            else:
                u.staleness += 1
        keep = [u for u in self.us if u.staleness <= self.max_s]
        self.dropped += len(self.us) - len(keep)
        self.us = keep
        if not any(set(u.keys) == set(x) for u in self.us):
            fresh = _U(x, self.make, self.t)
            fresh.learn(x)
            self.us.append(fresh)
            if len(self.us) > self.max_u and len(self.us) > 1:
                # the stalest goes, the shortest-lived of these, the oldest of these
                gone = min(self.us[:-1], key=lambda u: (-u.staleness, u.longevity, u.born))
                self.us.remove(gone)
                self.evicted += 1

    def pair(self, a, b):
        """The universe a pair is read from, or None."""
        c = [u for u in self.us if a in u.keys and b in u.keys and u.est.n_samples_ > 0]
        return min(c, key=lambda u: (-u.longevity, u.staleness, u.born)) if c else None

    def assemble(self, keys=None):
        """(matrix before repair, keys, filled pairs, sources, ambiguous)"""
        keys = list(self.x) if keys is None else list(keys)
        p = len(keys)
        M = np.full((p, p), np.nan)
        src, tie = set(), False
        for i, a in enumerate(keys):
            for j, b in enumerate(keys):
                u = self.pair(a, b)
                if u is None:
                    continue
                src.add(u.born)
                rivals = [v for v in self.us if v is not u and a in v.keys and b in v.keys
                          and v.est.n_samples_ > 0
                          and (v.longevity, v.staleness) == (u.longevity, u.staleness)]
                tie = tie or bool(rivals)
                C = u.est.covariance_
                M[i, j] = C[u.keys.index(a), u.keys.index(b)]
        off = M[~np.eye(p, dtype=bool)]
        off = off[~np.isnan(off)]
        fill = float(off.mean()) if off.size else 0.0
        holes = int(np.isnan(M).sum())
        return np.where(np.isnan(M), fill, M), keys, holes, len(src), tie


def judge_repair(mon, clause, got, M, what, tol=1e-7):
    """got must be M when M is positive definite, else (within rounding) the nearest PSD matrix."""
    from lib.core import brief

    p = len(M)
    mon.ok(clause, got.shape == M.shape and np.all(np.isfinite(got)), lambda: f"{what}: {brief(got)}")
    if p == 0:
        return "empty"
    s = float(np.abs(M).max())
    mon.ok(clause, np.abs(got - got.T).max() <= 1e-12 * s, what + ": not symmetric")
    S = (M + M.T) / 2
    w = np.linalg.eigvalsh(S)
    mon.ok(clause, np.linalg.eigvalsh(got)[0] >= -1e-10 * p * s - 1e-290,
           lambda: f"{what}: eigenvalue {np.linalg.eigvalsh(got)[0]:.3g}")
    u = s or 1.0  # squares of very small entries would underflow
    opt = u * float(np.linalg.norm(np.minimum(w / u, 0)))
    d = u * float(np.linalg.norm((got - S) / u))
    mon.ok(clause, d <= opt * (1 + 1e-6) + tol * s + mon.floor + 1e-290,
           lambda: f"{what}: {brief(got)} is {d:.4g} away from the assembled matrix {brief(S)}; "
                   f"the nearest positive semi-definite matrix is {opt:.4g} away")
    return "repaired" if opt > 1e-9 * s else "as assembled"
