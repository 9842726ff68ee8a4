"""Executable specifications: what each estimator's covariance_ / location_ must be, computed from
the raw observation history. Written from the documented definitions, not from the library code;
accumulated in extended precision where that matters. Nothing here imports precise.
"""
from __future__ import annotations

import numpy as np

from lib.grid import burn

LD = np.longdouble


def sym(a):
    return (a + a.T) / 2


def floor_pd(a, eps=1e-8):
    w, V = np.linalg.eigh(sym(np.asarray(a, dtype=float)))
    if w[0] >= eps:
        return sym(np.asarray(a, dtype=float))
    return sym((V * np.maximum(w, eps)) @ V.T)


def blocks(p, n_blocks):
    """Contiguous, near-equal blocks, the longer ones first (as numpy.array_split)."""
    nb = min(max(1, n_blocks), p)
    base, extra = divmod(p, nb)
    out, a = [], 0
    for i in range(nb):
        b = a + base + (1 if i < extra else 0)
        out.append((a, b))
        a = b
    return out


def cross_mask(p, n_blocks):
    m = np.ones((p, p), dtype=bool)
    for a, b in blocks(p, n_blocks):
        m[a:b, a:b] = False
    return m


def to_corr(C):
    C = np.asarray(C, dtype=float)
    s = np.sqrt(np.diag(C))
    inv = np.array([1 / v if v > 0 else 0.0 for v in s])
    return C * np.outer(inv, inv)


# ------------------------------------------------------------------ raw second-moment engines
def empirical(X):
    X = np.asarray(X, dtype=LD)
    m = X.mean(axis=0)
    Z = X - m
    return np.asarray(m, float), np.asarray(Z.T @ Z / len(X), float)


def ewa_path(X, r, burn_n=None):
    """Per-step (mean, cov, innovation): sample moments for ~1/r observations, then exponential."""
    X = np.asarray(X, dtype=LD)
    nb = burn(r) if burn_n is None else burn_n
    m = C = None
    r_ = LD(r)
    for t in range(len(X)):
        if t < nb:
            dev = X[t] - m if m is not None else X[t] * 0
            H = X[: t + 1]
            m = H.mean(axis=0)
            C = (H - m).T @ (H - m) / (t + 1)
        else:
            dev = X[t] - m
            C = C + r_ * (np.multiply.outer(dev, dev) - C)
            m = m + r_ * dev
        yield m, C, dev


def ewa(X, r):
    for m, C, _ in ewa_path(X, r):
        pass
    return np.asarray(m, float), np.asarray(C, float)


# ------------------------------------------------------------------ the estimators
def EmpiricalCovariance(X):
    m, C = empirical(X)
    return m, C


def EwaCovariance(X, r=0.05):
    return ewa(X, r)


def DiagonalCovariance(X, r=0.05):
    nb = burn(r)
    X = np.asarray(X, dtype=LD)
    m = np.zeros(X.shape[1], dtype=LD)
    v = np.zeros(X.shape[1], dtype=LD)
    for t, x in enumerate(X, 1):
        if t == 1:
            m = x
            continue
        g = LD(1) / t if t <= nb else LD(r)
        dev = x - m
        m = m + g * dev
        v = v + g * (dev ** 2 - v)
    return np.asarray(m, float), np.diag(np.asarray(v, float))


def BlockCovariance(X, r=0.05, n_blocks=4):
    m, C = ewa(X, r)
    p = len(m)
    out = np.zeros((p, p))
    for a, b in blocks(p, n_blocks):
        out[a:b, a:b] = floor_pd(C[a:b, a:b])
    return m, out


def LedoitWolfCovariance(X, r=0.05, with_intensity=False):
    nb = burn(r)
    pi = LD(0)
    prev = None
    for t, (m, C, dev) in enumerate(ewa_path(X, r)):
        p = len(m)
        if t >= nb:
            q = ((np.multiply.outer(dev, dev) - prev) ** 2).sum() / p
            pi = (1 - LD(r)) * pi + LD(r) * q
        prev = C
    S = np.asarray(C, float)
    p = len(S)
    mu = np.trace(S) / p
    d2 = float(((S - mu * np.eye(p)) ** 2).sum() / p)
    k = min(max(float(pi) * r / d2, 0.0), 1.0) if d2 > 0 else 0.0
    out = (1 - k) * S + k * mu * np.eye(p)
    m = np.asarray(m, float)
    return (m, out, k) if with_intensity else (m, out)


def OASCovariance(X, r=0.05, with_intensity=False):
    m, S = ewa(X, r)
    p = len(m)
    n = max(1.0 / r, 2.0)
    tr, tr2 = np.trace(S), float((S * S).sum())
    num = (1 - 2.0 / p) * tr2 + tr ** 2
    den = (n + 1 - 2.0 / p) * (tr2 - tr ** 2 / p)
    rho = 1.0 if den <= 1e-13 * tr ** 2 else min(max(num / den, 0.0), 1.0)
    out = (1 - rho) * S + rho * tr / p * np.eye(p)
    return (m, out, rho) if with_intensity else (m, out)


def ShrunkCovariance(X, r=0.05, delta=0.1, target="constant_correlation"):
    m, S = ewa(X, r)
    p = len(m)
    if target == "identity":
        T = np.trace(S) / p * np.eye(p)
    else:
        R = to_corr(S)
        rbar = (R.sum() - np.trace(R)) / (p * (p - 1)) if p > 1 else 0.0
        s = np.sqrt(np.diag(S))
        T = rbar * np.outer(s, s)
        T[np.diag_indices(p)] = np.diag(S)
    return m, (1 - delta) * S + delta * T


def geodesic(A, B, t):
    """A #_t B for SPD A, B via the generalized eigenproblem B v = w A v."""
    import scipy.linalg as sl

    w, V = sl.eigh(B, A)
    AV = A @ V
    return sym((AV * np.maximum(w, 0.0) ** t) @ AV.T)


def SchurCovariance(X, r=0.05, n_blocks=4, gamma=0.5, interpolation="linear"):
    m, S = ewa(X, r)
    x = cross_mask(len(m), n_blocks)
    if interpolation == "geodesic":
        return m, geodesic(floor_pd(np.where(x, 0, S)), floor_pd(S), gamma)
    return m, floor_pd(np.where(x, gamma * S, S))


def SchurLedoitWolfCovariance(X, r=0.05, n_blocks=4, with_gamma=False):
    nb = burn(r)
    pi = LD(0)
    prev = None
    x = None
    for t, (m, C, dev) in enumerate(ewa_path(X, r)):
        if x is None:
            x = cross_mask(len(m), n_blocks)
        if t >= nb:
            q = ((np.multiply.outer(dev, dev) - prev)[x] ** 2).sum()
            pi = (1 - LD(r)) * pi + LD(r) * q
        prev = C
    S = np.asarray(C, float)
    m2 = float((S[x] ** 2).sum())
    g = min(max(1 - float(pi) * r / m2, 0.0), 1.0) if m2 > 0 else 1.0
    out = floor_pd(np.where(x, g * S, S))
    m = np.asarray(m, float)
    return (m, out, g) if with_gamma else (m, out)


def SchurConditionalCovariance(X, r=0.05, n_blocks=4, with_gamma=False):
    m, S = ewa(X, r)
    p = len(m)
    d = np.sqrt(np.maximum(np.diag(S), 1e-12))
    R = to_corr(S)
    n_eff = max(2.0, min(float(len(X)), (2 - r) / r))
    x = cross_mask(p, n_blocks)
    rr = R[x] ** 2
    if rr.size == 0:
        g = 1.0
    elif rr.sum() <= 0:
        g = 0.0
    else:
        g = min(max(np.maximum(rr - (1 + rr) / n_eff, 0).sum() / rr.sum(), 0.0), 1.0)
    bl = blocks(p, n_blocks)
    G = np.zeros((p, p))
    G[: bl[0][1], : bl[0][1]] = R[: bl[0][1], : bl[0][1]]
    for a, b in bl[1:]:
        Rcc, Rck, Rkk = R[:a, :a], R[:a, a:b], R[a:b, a:b]
        ridge = min(max(a / n_eff, 0.0), 0.9)
        A = (1 - ridge) * Rcc + ridge * np.diag(np.diag(Rcc)) + 1e-10 * np.eye(a)
        h = np.linalg.solve(A, Rck)
        Sk = floor_pd(Rkk - Rck.T @ h)
        hg = g * h
        G[:a, a:b] = G[:a, :a] @ hg
        G[a:b, :a] = G[:a, a:b].T
        G[a:b, a:b] = (1 - g) * Rkk + g * Sk + hg.T @ G[:a, :a] @ hg
    out = floor_pd(G) * np.outer(d, d)
    return (m, out, g) if with_gamma else (m, out)


def PartialMomentsCovariance(X, r=0.05):
    """Sum of the four sign-quadrant scatters about the running mean."""
    nb = burn(r)
    X = np.asarray(X, dtype=LD)
    p = X.shape[1]
    m = np.zeros(p, dtype=LD)
    S = np.zeros((p, p), dtype=LD)
    for t, x in enumerate(X, 1):
        if t == 1:
            m = x
            continue
        g = LD(1) / t if t <= nb else LD(r)
        dev = x - m
        up, dn = np.maximum(dev, 0), np.minimum(dev, 0)
        sc = sum(np.multiply.outer(a, b) for a in (up, dn) for b in (up, dn))
        S = S + g * (sc - S)
        m = m + g * dev
    return np.asarray(m, float), np.asarray(S, float)


def _maha2(C, dev):
    return float(dev @ np.linalg.solve(np.asarray(C, float), dev))


def HuberCovariance(X, r=0.05, c=2.5, weights=None):
    nb = burn(r)
    m, C = empirical(X[:nb])
    for x in np.asarray(X, float)[nb:]:
        dev = x - m
        q, thr = _maha2(C, dev), c ** 2 * len(m)
        w = 1.0 if q <= thr else float(np.sqrt(thr / q))
        if weights is not None:
            weights.append(w)
        m = m + r * w * dev
        C = (1 - r) * C + r * w ** 2 * np.outer(dev, dev)
    return m, C


def AdaptiveEwaCovariance(X, r=0.05, max_r=0.5, rates=None):
    nb = burn(r)
    m, C = empirical(X[:nb])
    sbar = 1.0
    for x in np.asarray(X, float)[nb:]:
        dev = x - m
        sbar = 0.9 * sbar + 0.1 * _maha2(C, dev) / len(m)
        g = min(max(r * sbar, r), max_r)
        if rates is not None:
            rates.append(g)
        m = (1 - g) * m + g * x
        C = (1 - g) * C + g * np.outer(dev, dev)
    return m, C


def TylerCovariance(X, r=0.05):
    nb = burn(r)
    X = np.asarray(X, float)
    p = X.shape[1]
    m, C = np.zeros(p), np.eye(p)
    for t, x in enumerate(X, 1):
        if t == 1:
            m = x
            continue
        dev = x - m
        m = m + (1.0 / t if t <= nb else r) * dev
        g = 1.0 / (t + 1) if t <= nb else r  # the identity start counts as one observation
        if not dev.any():
            continue
        q = float(dev @ np.linalg.solve(C, dev))
        C = (1 - g) * C + g * p * np.outer(dev, dev) / max(q, 1e-12)
        C = C * p / np.trace(C)
    return m, to_corr(C)


def GeodesicEwaCovariance(X, r=0.05):
    nb = burn(r)
    m, C = empirical(X[:nb])
    for x in np.asarray(X, float)[nb:]:
        dev = x - m
        m = (1 - r) * m + r * x
        C = geodesic(floor_pd(C), floor_pd(np.outer(dev, dev)), r)
    return m, C


def DCCCovariance(X, r=0.05, vol_r=None, parts=False):
    rv = r if vol_r is None else vol_r
    nb = burn(min(r, rv))
    X = np.asarray(X, dtype=LD)
    p = X.shape[1]
    m, h, Q = np.zeros(p, dtype=LD), np.ones(p, dtype=LD), np.eye(p, dtype=LD)
    for t, x in enumerate(X, 1):
        if t == 1:
            m, h, Q = x, h * 0, Q * 0
            continue
        gv, gc = (LD(1) / t, LD(1) / t) if t <= nb else (LD(rv), LD(r))
        dev = x - m
        m = m + gv * dev
        h = h + gv * (dev ** 2 - h)
        e = dev / np.sqrt(np.maximum(h, LD(1e-12)))
        Q = Q + gc * (np.multiply.outer(e, e) - Q)
    R = to_corr(Q)
    d = np.sqrt(np.maximum(np.asarray(h, float), 1e-12))
    H = R * np.outer(d, d)
    return (np.asarray(m, float), H, R, d) if parts else (np.asarray(m, float), H)


def FactorCovariance(X, k=2, r=0.05, parts=False):
    """CCIPCA (Weng, Zhang & Hwang 2003) for the leading k directions + diagonal residual."""
    X = np.asarray(X, float)
    p = X.shape[1]
    k = min(k, p)
    m, var = np.zeros(p), np.zeros(p)
    V = []
    for t, x in enumerate(X, 1):
        if t == 1:
            m = x
            continue
        g = 1.0 / t if t <= k + 1 else r
        u = x - m
        m = m + g * u
        var = var + g * (u ** 2 - var)
        tiny = 1e-12 * var.sum()
        for j in range(k):
            if j >= len(V) or np.linalg.norm(V[j]) <= tiny:
                seed = g * np.linalg.norm(u) * u
                if j >= len(V):
                    V.append(seed)
                else:
                    V[j] = seed
                break
            e = V[j] / np.linalg.norm(V[j])
            c = float(u @ e)
            V[j] = (1 - g) * V[j] + g * c * u
            u = u - c * e
    L = np.zeros((p, p))
    for v in V:
        n = np.linalg.norm(v)
        if n > 1e-12 * var.sum():
            L += np.outer(v, v) / n
    out = L + np.diag(np.maximum(var - np.diag(L), 0.0))
    return (m, out, L, var) if parts else (m, out)


def reference(name, X, **kw):
    diff = kw.pop("diff", False)
    X = np.asarray(X, float)
    if diff:
        X = np.diff(X, axis=0)
    return globals()[name](X, **kw)
