"""C33 likelihood judges: full, block, Schur and Stein scores equal their definitions."""
import numpy as np
from scipy.stats import multivariate_normal

from lib import gen, ref
from lib.util import case_rng

RULE = ("a case is (judge, covariance family, repetition): scored on random held-out rows and compared "
        "with SciPy's zero-mean Gaussian density of the block / damped / full matrix; non-trivial: p > 1 "
        "and, for blocked judges, at least two blocks")
CLAUSES = ["full", "block", "block-full", "block-ignores-cross", "schur", "schur-ends", "schur-geodesic",
           "stein", "stein-kl", "additive", "per-row"]
FAMS = ["spd", "corr", "tiny", "large", "scaled", "ill"]


def cases(tier, seed):
    n = 50 if tier == "quick" else 250
    return [dict(fam=f, rep=j) for f in FAMS for j in range(n)]


def matrix(fam, rng, p):
    if fam == "spd":
        return gen.spd(rng, p)
    if fam == "corr":
        return gen.corr_matrix(rng, p, 1.0)
    if fam == "tiny":
        return 1e-3 * gen.spd(rng, p)
    if fam == "large":
        return 1e5 * gen.spd(rng, p)
    if fam == "scaled":
        d = 10.0 ** rng.uniform(-1, 2, p)
        return gen.corr_matrix(rng, p) * np.outer(d, d)
    return gen.spd(rng, p, 1e-4, 10.0)


def ll(C, X):
    C, X = np.atleast_2d(C), np.atleast_2d(X)
    return float(np.mean(multivariate_normal(np.zeros(len(C)), C).logpdf(X)))


def run(case, mon):
    from precise.assessment import BlockPseudoLikelihood, LogLikelihood, SchurLikelihood, SteinLoss

    rng = case_rng(case)
    p = int(rng.integers(1, 14))
    C = matrix(case["fam"], rng, p)
    T = matrix(case["fam"], rng, p)
    n = int(rng.integers(1, 60))
    if case["rep"] % 8 == 7:  # many rows, or many variables in other units
        if rng.random() < 0.4:
            n = int(rng.choice([700, 2500]))
        else:
            p, n = int(rng.choice([30, 80, 150])), 170
            u = 10.0 ** rng.uniform(-8, 8)
            C, T = matrix(case["fam"], rng, p) * u, matrix(case["fam"], rng, p) * u
    X = rng.standard_normal((n, p)) @ np.linalg.cholesky(T).T + (rng.random() < 0.3) * rng.standard_normal(p)
    what = f"{case['fam']} p={p} n={n}"
    cond = np.linalg.cond(C)
    q = float(np.mean(np.einsum("ij,ij->i", X @ np.linalg.inv(C), X)))
    scale = p + q + abs(np.linalg.slogdet(C)[1])
    tol = 1e-9 + 1e-13 * cond

    def close(cl, got, want, note="", k=1.0):
        mon.ok(cl, isinstance(got, float), f"{what}: {type(got)}")
        mon.close(cl, got, want, tol * k, f"{what} {note}", scale=scale)

    full = LogLikelihood().score(C, X_test=X)
    close("full", full, ll(C, X))
    close("per-row", full, np.mean([LogLikelihood().score(C, X_test=X[i:i + 1]) for i in range(n)]), "rows one by one")
    for b in {1, 2, 3, 10, p, p + 5, int(rng.integers(1, p + 1))}:
        want = sum(ll(C[s:s + b, s:s + b], X[:, s:s + b]) for s in range(0, p, b))
        got = BlockPseudoLikelihood(b).score(C, X_test=X)
        close("block", got, want, f"block_size={b}")
        if b >= p:
            close("block-full", got, full, f"block_size={b}")
        else:
            blk = np.arange(p) // b
            D = np.where(blk[:, None] == blk, C, 0.0)
            close("block-ignores-cross", BlockPseudoLikelihood(b).score(D, X_test=X), want, f"block_size={b}")
            close("additive", LogLikelihood().score(D, X_test=X), want, "block-diagonal matrix")
    close("block", BlockPseudoLikelihood().score(C, X_test=X),
          sum(ll(C[s:s + 10, s:s + 10], X[:, s:s + 10]) for s in range(0, p, 10)), "default")
    lo = float(np.linalg.eigvalsh(C)[0])  # below 1e-8 the damped matrix is floored on purpose
    for _ in range(4 if lo > 1e-6 else 0):
        nb = int(rng.choice([1, 2, 3, 4, 5, 50]))
        g = float(rng.choice([0.0, 1.0, rng.random(), 0.5]))
        kw = {} if rng.random() < 0.2 else dict(gamma=g, n_blocks=nb)
        g, nb = kw.get("gamma", 0.5), kw.get("n_blocks", 4)
        bl = ref.blocks(p, nb)
        same = np.zeros((p, p), bool)
        for a, b in bl:
            same[a:b, a:b] = True
        G = np.where(same, C, g * C)
        note = f"gamma={g:.3g} n_blocks={nb}"
        got = SchurLikelihood(**kw).score(C, X_test=X)
        close("schur", got, ll(G, X), note)
        if g == 1.0:
            close("schur-ends", got, full, note)
        if g == 0.0:
            close("schur-ends", got, sum(ll(C[a:b, a:b], X[:, a:b]) for a, b in bl), note)
        got = SchurLikelihood(g, nb, interpolation="geodesic").score(C, X_test=X)
        W = ref.geodesic(np.where(same, C, 0.0), C, g)
        close("schur-geodesic", got, ll(W, X), note + " geodesic", 1e3)
        if g in (0.0, 1.0):
            close("schur-ends", got, ll(np.where(same, C, 0.0) if g == 0 else C, X), note + " geodesic", 1e3)
    if n > p + 2:
        S = np.atleast_2d(np.cov(X.T, bias=True))
        M = np.linalg.solve(C, S)
        want = -(np.trace(M) - np.linalg.slogdet(M)[1] - p)
        got = SteinLoss().score(C, X_test=X)
        k = np.linalg.cond(S)
        close("stein", got, want, "Stein", 1 + k * 1e-4)
        mon.ok("stein-kl", got <= 1e-9 * scale * (1 + k * 1e-4), f"{what}: positive Stein score {got}")
        z = SteinLoss().score(S, X_test=X)
        mon.ok("stein-kl", abs(z) <= 1e-9 * p * max(1.0, k * 1e-4), f"{what}: Stein score of the sample "
                                                                    f"covariance itself is {z}")
        A = gen.spd(rng, p) + 0.2 * rng.standard_normal((p, p))
        if np.linalg.cond(A) < 100:
            close("stein-kl", SteinLoss().score(A @ C @ A.T, X_test=X @ A.T), got, "mapped linearly", 1e3 + k)
    if p > 1:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"case": what, "log_likelihood": full}
