"""C34 Frobenius, minimum-variance and variogram judges equal their definitions."""
import numpy as np
from scipy.linalg import cho_factor, cho_solve

from lib import gen
from lib.util import case_rng
from props.c33 import FAMS, matrix

RULE = ("a case is (covariance family, repetition) judged against explicit formulas (loops over pairs for "
        "the variogram) and the invariances that follow from them; non-trivial: p > 1")
CLAUSES = ["frobenius", "frobenius-zero", "frobenius-scale", "gmv", "gmv-scale", "gmv-weights", "variogram",
           "variogram-shift", "variogram-two", "permutation"]


def cases(tier, seed):
    n = 80 if tier == "quick" else 400
    return [dict(fam=f, rep=j) for f in FAMS for j in range(n)]


def run(case, mon):
    from precise.assessment import FrobeniusToTruth, GMVVariance, VariogramScore

    rng = case_rng(case)
    p = int(rng.integers(1, 9))
    C, T = matrix(case["fam"], rng, p), matrix(case["fam"], rng, p)
    n = int(rng.integers(1, 25))
    if case["rep"] % 8 == 7:  # many rows, or many variables
        p, n = (p, int(rng.choice([1100, 2600]))) if rng.random() < 0.6 else (int(rng.choice([20, 45, 120])), 30)
        C, T = matrix(case["fam"], rng, p), matrix(case["fam"], rng, p)
    X = rng.standard_normal((n, p)) @ np.linalg.cholesky(T).T
    what = f"{case['fam']} p={p} n={n}"
    F, G, V = FrobeniusToTruth(), GMVVariance(), VariogramScore()
    mon.floor = 1e-14
    f = F.score(C, true_cov=T)
    want = -np.sqrt(sum((C[i, j] - T[i, j]) ** 2 for i in range(p) for j in range(p))) / np.sqrt((T ** 2).sum())
    mon.close("frobenius", f, want, 1e-10, what)
    mon.ok("frobenius", isinstance(f, float), what)
    mon.close("frobenius", F.score(C.tolist(), true_cov=T.tolist()), want, 1e-10, what + " lists")
    mon.ok("frobenius-zero", F.score(T, true_cov=T) == 0.0 and f <= 0.0, what)
    mon.close("frobenius-scale", F.score(7 * C, true_cov=7 * T), f, 1e-10, what)
    u = 10.0 ** rng.uniform(-16, 16)
    mon.close("frobenius-scale", F.score(u * C, true_cov=u * T), f, 1e-9, what + f" units of {u:.3g}")
    eps = 10.0 ** rng.uniform(-6, 2)
    mon.close("frobenius-scale", F.score(T * (1 + eps), true_cov=T), -eps, 1e-6, what + f" eps={eps:.3g}")
    mon.floor = 0.0
    # minimum variance
    w = cho_solve(cho_factor(C), np.ones(p))
    w /= w.sum()
    g = G.score(C, X_test=X)
    tol = 1e-9 + 1e-12 * np.linalg.cond(C)
    sc = np.abs(w).sum() ** 2 * np.mean(X ** 2) + 1e-300
    mon.close("gmv", g, -np.mean((X @ w) ** 2), tol, what, scale=sc)
    mon.ok("gmv", isinstance(g, float) and g <= 0, what)
    mon.close("gmv-scale", G.score(C * 13.0, X_test=X), g, tol, what + " covariance rescaled", scale=sc)
    mon.close("gmv-scale", G.score(C, X_test=3 * X), 9 * g, tol, what + " data rescaled", scale=9 * sc)
    mon.close("gmv-scale", G.score(C * u, X_test=X), g, tol, f"{what} covariance times {u:.3g}", scale=sc)
    mon.close("gmv-scale", G.score(C, X_test=u * X) / u / u, g, tol, f"{what} data times {u:.3g}", scale=sc)
    d = np.diag(np.diag(C))
    v = 1 / np.diag(C)
    v /= v.sum()
    mon.close("gmv-weights", G.score(d, X_test=X), -np.mean((X @ v) ** 2), 1e-9, what + " inverse variance",
              scale=np.mean(X ** 2))
    mon.close("gmv-weights", G.score(np.eye(p), X_test=X), -np.mean(X.mean(axis=1) ** 2), 1e-9,
              what + " equal weights", scale=np.mean(X ** 2))
    # variogram
    s = V.score(C, X_test=X)
    want = 0.0
    for i in range(p):
        for j in range(p):
            e = np.sqrt(2 / np.pi * max(C[i, i] + C[j, j] - 2 * C[i, j], 0.0))
            want -= float(np.mean((np.abs(X[:, i] - X[:, j]) - e) ** 2))
    mon.close("variogram", s, want, 1e-9, what)
    mon.ok("variogram", isinstance(s, float) and s <= 0, what)
    if p > 1:  # twins: what is zero by definition may round to either side
        B = rng.standard_normal((p, int(rng.integers(1, 3)))) * np.sqrt(np.diag(C))[:, None]
        B[1:1 + int(rng.integers(1, p))] = B[0]
        sd = np.sqrt(np.einsum("ij,ij->i", B, B))
        D = (B @ B.T / np.outer(sd, sd)) * np.outer(sd, sd)
        D = (D + D.T) / 2
        D *= 1 + 1e-15 * (1 - np.eye(p))
        e = np.sqrt(2 / np.pi * ((B[:, None, :] - B[None, :, :]) ** 2).sum(axis=2))
        want = -np.mean(((np.abs(X[:, :, None] - X[:, None, :]) - e) ** 2).sum(axis=(1, 2)))
        with np.errstate(all="ignore"):
            mon.close("variogram", V.score(D, X_test=X), want, 1e-5, what + " twins", scale=abs(want) + np.trace(D))
    mon.close("variogram", V.score(C * u, X_test=np.sqrt(u) * X) / u, s, 1e-9, f"{what} units of {u:.3g}", scale=abs(s))
    mon.close("variogram-shift", V.score(C, X_test=X + 5.0 * np.sqrt(C[0, 0])), s, 1e-7, what + " common shift")
    mon.close("variogram", V.score(C, X_test=X[0]), V.score(C, X_test=X[:1]), 1e-12, what + " one row")
    if p == 2:
        ed = np.mean(np.abs(X[:, 0] - X[:, 1]))
        a = np.pi / 2 * ed ** 2  # the variance of the difference that fits the mean absolute difference
        B = np.diag([a / 2, a / 2])
        best = V.score(B, X_test=X)
        mon.ok("variogram-two", best >= s - 1e-9 * abs(s), f"{what}: {s} beats the optimum {best}")
    elif p == 1:
        mon.ok("variogram-two", s == 0.0, what)
    q = rng.permutation(p)
    Cq = C[np.ix_(q, q)]
    mon.close("permutation", F.score(Cq, true_cov=T[np.ix_(q, q)]), f, 1e-9, what)
    mon.close("permutation", G.score(Cq, X_test=X[:, q]), g, tol, what, scale=sc)
    mon.close("permutation", V.score(Cq, X_test=X[:, q]), s, 1e-9, what)
    o = rng.permutation(n)
    mon.close("permutation", V.score(C, X_test=X[o]), s, 1e-9, what + " rows reordered")
    mon.close("permutation", G.score(C, X_test=X[o]), g, tol, what + " rows reordered", scale=sc)
    if p > 1:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"case": what, "frobenius": f, "gmv": g, "variogram": s}
