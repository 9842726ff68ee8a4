"""C35 judges reward the truth, only read, and declare correctly what they need."""
import numpy as np

from lib import gen
from lib.util import case_rng
from props.c33 import FAMS, matrix

RULE = ("a case is (covariance family, repetition): held-out data whose second moments equal the truth exactly "
        "(whitened), so a proper judge must prefer the truth to every rival with no sampling error; rivals "
        "near and far; non-trivial: p > 1")
CLAUSES = ["log-proper", "block-proper", "stein-proper", "gmv-proper", "frobenius-proper", "variogram-proper",
           "ranking", "pure", "needs", "usable", "registry", "uniform-call", "misfit-grows"]


def cases(tier, seed):
    n = 40 if tier == "quick" else 200
    return [dict(fam=f, rep=j) for f in FAMS for j in range(n)]


def rivals(rng, T):
    p = len(T)
    L = np.linalg.cholesky(T)
    out = []
    for e in (1e-2, 0.1, 0.5):
        A = rng.standard_normal((p, p))
        A = e * (A + A.T) / 2
        w, Q = np.linalg.eigh(A)
        out.append(L @ (Q * np.exp(w)) @ Q.T @ L.T)
    out += [2 * T, 0.5 * T, np.diag(np.diag(T)), np.eye(p) * np.trace(T) / p]
    return [(R + R.T) / 2 for R in out]


def run(case, mon):
    import precise
    from precise import assessment as A

    rng = case_rng(case)
    p = int(rng.integers(1, 10)) if rng.random() < 0.94 else int(rng.choice([45, 105]))
    T = matrix(case["fam"], rng, p)
    n = int(3 * p + 5 + rng.integers(0, 40))
    Z = rng.standard_normal((n, p))
    Z -= Z.mean(axis=0)
    Z = Z @ np.linalg.inv(np.linalg.cholesky(Z.T @ Z / n)).T
    X = Z @ np.linalg.cholesky(T).T  # mean zero, second moment exactly T
    what = f"{case['fam']} p={p} n={n}"
    b = int(rng.integers(1, p + 1))
    judges = {"log-proper": A.LogLikelihood(), "block-proper": A.BlockPseudoLikelihood(b),
              "stein-proper": A.SteinLoss(), "gmv-proper": A.GMVVariance(),
              "frobenius-proper": A.FrobeniusToTruth()}
    k = np.linalg.cond(T)
    for R in rivals(rng, T):
        for cl, j in judges.items():
            t = j.score(T, X_test=X, true_cov=T)
            r = j.score(R, X_test=X, true_cov=T)
            scale = abs(t) + abs(r) + (p if cl in ("log-proper", "block-proper", "stein-proper") else 0)
            mon.ok(cl, t >= r - (1e-9 + 1e-13 * k) * scale, f"{what}: the truth scores {t}, a rival {r}")
            if cl in ("log-proper", "stein-proper"):
                M = np.linalg.solve(R, T)
                kl = 0.5 * (np.trace(M) - np.linalg.slogdet(M)[1] - p)
                got = (t - r) * (0.5 if cl == "stein-proper" else 1.0)
                mon.close("ranking", got, kl, 1e-7 + 1e-12 * k, f"{what}: regret of a rival is its "
                          f"Kullback-Leibler divergence", scale=abs(kl) + scale)
    # variogram: data with exactly the Gaussian mean absolute differences is out of reach, so judge the
    # definition's optimum: scaling the expected differences to their sample means maximises the score
    v = A.VariogramScore()
    if p >= 2:
        d = np.diag(T)
        E = np.sqrt(np.maximum(d[:, None] + d - 2 * T, 0) * 2 / np.pi)
        O = np.mean(np.abs(X[:, :, None] - X[:, None]), axis=0)
        a = (E * O).sum() / (E * E).sum()
        best = v.score(T * a * a, X_test=X)
        for c in (0.5, 0.9, 1.1, 2.0):
            mon.ok("variogram-proper", best >= v.score(T * (a * c) ** 2, X_test=X) - 1e-12, what)
        mon.ok("misfit-grows", v.score(T * (a * 4) ** 2, X_test=X) < v.score(T * (a * 2) ** 2, X_test=X) + 1e-12, what)
    else:
        mon.evals["variogram-proper"] += 1
    for m in (2.0, 4.0, 8.0):
        mon.ok("misfit-grows", judges["log-proper"].score(T * m, X_test=X) >
               judges["log-proper"].score(T * m * 2, X_test=X), what)
    # the registry, what judges declare, and purity
    js = precise.all_assessors()
    names = [j.name for j in js]
    mon.ok("registry", len(names) == len(set(names)) and set(names) ==
           {c for c in A.__all__ if isinstance(getattr(A, c), type) and c != "Assessor"}, f"{names}")
    js.clear()
    mon.ok("registry", [j.name for j in A.all_assessors()] == names, "registry list is live")
    mon.raises("registry", KeyError, lambda: A.assessor_from_name("Nope"), "unknown judge")
    R = rivals(rng, T)[0]
    for nm in names:
        j = A.assessor_from_name(nm)
        mon.ok("registry", type(j) is getattr(A, nm) and isinstance(j, A.Assessor), nm)
        j2 = A.assessor_from_name(nm)
        c, x, t = R.copy(), X.copy(), T.copy()
        for arr in (c, x, t):
            arr.setflags(write=False)
        s = j.score(c, X_test=x, true_cov=t)
        mon.ok("uniform-call", isinstance(s, float) and np.isfinite(s), f"{nm} {what}: {s!r}")
        s2 = j2.score(np.asfortranarray(R), X_test=np.asfortranarray(X), true_cov=T)
        mon.close("pure", s2, s, 1e-9, f"{nm} {what}", scale=abs(s) + 1)
        mon.ok("pure", j.score(c, X_test=x, true_cov=t) == s, f"{nm}: scoring twice")
        mon.ok("needs", j.needs_truth == (nm == "FrobeniusToTruth") and j.needs_data != j.needs_truth, nm)
        if j.needs_data:
            mon.ok("needs", j.score(c, X_test=x) == s, f"{nm} depends on the truth it does not need")
        else:
            mon.ok("needs", j.score(c, true_cov=t) == s, f"{nm} depends on data it does not need")
        for hd in (False, True):
            for ht in (False, True):
                mon.ok("usable", bool(j.usable(have_data=hd, have_truth=ht)) ==
                       ((hd or not j.needs_data) and (ht or not j.needs_truth)), nm)
        mon.ok("registry", eval(repr(j), vars(A)).score(R, X_test=X, true_cov=T) == j.score(R, X_test=X, true_cov=T),
               f"{j!r}")
    if p > 1:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"case": what, "judges": len(names)}
