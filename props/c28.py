"""C28 matrix repair and inversion helpers on any finite matrix."""
import signal

import numpy as np

from lib import gen, ref
from lib.core import brief
from lib.util import case_rng

RULE = ("a case is (matrix family, dimension, scale, repetition) passed to every helper and judged by "
        "spectral definitions; non-trivial: the matrix was indefinite, singular or badly scaled")
CLAUSES = ["symmetrise", "normalise", "floor", "floor-identity", "nearest", "nearest-identity", "inverse",
           "pseudo-inverse", "pd-test", "ridge", "inputs-kept"]
FAMS = ["spd", "indefinite", "rank1", "low_rank", "zeros", "near_singular", "negative", "asymmetric",
        "corr_missing", "identity", "diag_mixed", "binary"]


def cases(tier, seed):
    n = 120 if tier == "quick" else 500
    return [dict(fam=f, rep=j) for f in FAMS for j in range(5 * n if f == "binary" else n)]


def matrix(fam, rng, p):
    if fam == "spd":
        return gen.spd(rng, p)
    if fam == "indefinite":
        a = rng.standard_normal((p, p))
        return (a + a.T) / 2
    if fam == "rank1":
        v = rng.standard_normal(p)
        return np.outer(v, v)
    if fam == "low_rank":
        v = rng.standard_normal((p, max(1, p // 2)))
        return v @ v.T
    if fam == "zeros":
        return np.zeros((p, p))
    if fam == "near_singular":
        return gen.spd(rng, p, 1e-13, 1.0)
    if fam == "negative":
        return -gen.spd(rng, p)
    if fam == "asymmetric":
        return gen.spd(rng, p) + 0.2 * rng.standard_normal((p, p))
    if fam == "corr_missing":  # what pairwise assembly produces
        R = gen.corr_matrix(rng, p, 1.2)
        M = np.triu(rng.random((p, p)) < 0.3, 1)
        R[M | M.T] = R.mean()
        return R
    if fam == "identity":
        return np.eye(p)
    if fam == "binary":  # singular, entries on or next to powers of two: rounding can swallow small increments
        near = lambda k: np.nextafter(np.nextafter(2.0 ** k, rng.choice([0, np.inf])), rng.choice([0.0, 2.0 ** k]))
        v = np.where(rng.random(p) < 0.5, 1.0, -1.0) * 2.0 ** (rng.integers(-3, 4, p) * rng.integers(2))
        A = np.outer(v, v) * near(0)
        if rng.random() < 0.3:
            A = np.kron(np.eye(2), A)
        if rng.random() < 0.3:
            A[0, -1] = A[-1, 0] = near(0)
        return A
    return np.diag(10.0 ** rng.uniform(-8, 8, p))


def run(case, mon):
    from precise import _linalg as L

    rng = case_rng(case)
    fam = case["fam"]
    p = int(rng.integers(1, 13)) if rng.random() < 0.95 else int(rng.choice([30, 64]))
    s = 10.0 ** float(rng.choice([0, 0, 0, -9, -4, 4, 8, -170, 130]))
    if fam == "binary":
        s = 2.0 ** float(rng.choice([0, 0, 0, -30, 30, -500, 400]))
    A = s * matrix(fam, rng, p)
    p = len(A)
    signal.setitimer(signal.ITIMER_VIRTUAL, 15)
    keep = A.copy()
    A.setflags(write=False)
    what = f"{fam} p={p} scale {s:g}"
    S = (A + A.T) / 2
    big = np.abs(A).max() + 1e-300
    mon.same("symmetrise", L.to_symmetric(A), S, what)
    # eigenvalue floor
    eps = float(rng.choice([1e-8, 1e-3 * big, 0.5 * big, 0.0, 1e-12 * big]))
    F = L.make_pos_def(A, eps=eps)
    w, V = np.linalg.eigh(S)
    mon.same("floor", F, F.T, what + ": floored matrix not symmetric")
    mon.ok("floor", np.linalg.eigvalsh(F)[0] >= eps - 1e-13 * p * max(big, eps), f"{what}: eigenvalue "
           f"{np.linalg.eigvalsh(F)[0]:.3g} below the floor {eps:.3g}")
    mon.close("floor", F, (V * np.maximum(w, eps)) @ V.T, 1e-12 * p, what + ": floor",
              scale=max(big, eps))
    if w[0] >= eps:
        mon.close("floor-identity", F, S, 1e-12 * p, what + ": a matrix above the floor moved")
    else:
        mon.evals["floor-identity"] += 0
    # nearest positive definite
    N = L.nearest_pos_def(A)
    mon.ok("nearest", np.all(np.isfinite(N)) and np.array_equal(N, N.T), f"{what}: {brief(N)}")
    if fam == "zeros":
        mon.ok("nearest", np.abs(N).max() <= 1e-290, what)
    else:
        try:
            np.linalg.cholesky(N)
        except np.linalg.LinAlgError:
            mon.ok("nearest", False, f"{what}: not positive definite: {np.linalg.eigvalsh(N)[0]:.3g}")
        opt = big * np.linalg.norm(np.minimum(w / big, 0))  # distance of S from the PSD cone
        d = big * np.linalg.norm((N - S) / big)
        mon.ok("nearest", d <= opt * (1 + 1e-8) + 1e-11 * p * big, f"{what}: moved {d:.6g}, the nearest is "
                                                                   f"{opt:.6g} away")
        if w[0] > 1e-10 * big:
            mon.close("nearest-identity", N, S, 1e-12 * p, what + ": a definite matrix moved")
    # Cholesky test
    if w[0] > 1e-9 * big:
        mon.ok("pd-test", L.is_positive_def(S) is True, what + ": definite matrix refused")
    if w[0] < -1e-9 * big:
        mon.ok("pd-test", L.is_positive_def(S) is False, what + ": indefinite matrix accepted")
    # inversion
    P = L.try_invert(A)
    sv = np.linalg.svd(A, compute_uv=False)
    cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
    if cond < 1e8:
        mon.close("inverse", A @ P, np.eye(p), 1e-14 * cond * p + 1e-12, what, scale=1.0)
    if fam == "zeros" or (fam == "rank1" and p > 1 and case["rep"] % 2):
        Z = A.copy() if fam == "zeros" else np.zeros((p, p))
        if fam == "rank1":
            Z[0, 0] = s  # exactly singular
        Q = L.try_invert(Z)
        mon.close("pseudo-inverse", Q, np.linalg.pinv(Z), 1e-9, what + ": exactly singular")
    if p > 2:  # exactly singular, the rest well determined although spread over many magnitudes
        k = int(rng.integers(1, p))
        b = 10.0 ** rng.uniform(-4, 0, k)
        G = gen.spd(rng, k)
        Z = np.zeros((p, p))
        at = rng.permutation(p)[:k]
        Z[np.ix_(at, at)] = s * (G * b).T * b
        Q = L.try_invert(Z)
        W = np.zeros((p, p))
        W[np.ix_(at, at)] = (np.linalg.inv(G) / b).T / b
        mon.close("pseudo-inverse", Q * s, W, 1e-4, what + ": exactly singular, wide spectrum")
    R = L.affine_shrink(A, phi=1.01, lmbd=0.01)
    D = A + 0.01 * np.diag(np.diag(A))
    mon.close("ridge", R, 0.99 * D + 0.01 * np.trace(D) / p * np.eye(p), 1e-12, what, scale=big)
    # correlation
    d = np.diag(S)
    if np.all(d > 0):
        C = L.cov_to_corrcoef(S)
        mon.close("normalise", C, S / np.outer(np.sqrt(d), np.sqrt(d)), 1e-12, what)
        z = S.copy()
        z[0, :] = z[:, 0] = 0
        C = L.cov_to_corrcoef(z)
        mon.ok("normalise", np.all(np.isfinite(C)) and not C[0].any() and not C[:, 0].any(),
               what + ": a zero-variance row is not zero")
    mon.same("inputs-kept", A, keep, what + ": a helper changed its input")
    if w[0] <= 1e-9 * big or s != 1:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"family": fam, "p": p, "scale": s, "min_eig": float(w[0])}
