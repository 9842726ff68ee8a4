"""C03 precision_, mahalanobis and score agree with covariance_ and location_."""
import numpy as np

from lib import gen, grid
from lib.core import brief
from lib.util import all_names, case_rng, pick_dim

RULE = ("a case is (estimator, stream kind, repetition): fitted on a random stream, scored on fresh "
        "rows against SciPy's Cholesky solve and Gaussian density; non-trivial: a covariance with "
        "condition number below 1e9 was inverted, p > 1")
CLAUSES = ["inverse", "symmetric", "get_precision", "mahalanobis", "score", "single-row",
           "singular", "purity", "readable", "up-to-date"]
KINDS = gen.WELL
SING = ["zeros", "all_constant", "constant_col0"]


def cases(tier, seed):
    n = 4 if tier == "quick" else 30
    out = [dict(cls=c, kind=k, rep=j) for c in all_names() for k in KINDS for j in range(n)]
    out += [dict(cls=c, kind=k, rep=j) for c in all_names() for k in SING for j in range(n)]
    m = 1 if tier == "quick" else 8
    return out + [dict(cls=c, kind=k, rep=j, early=1) for c in all_names() for k in gen.ALL
                  for j in range(m)]


def readable(case, mon):
    """However few or odd the rows: the precision and the distances are numbers, never an error."""
    rng = case_rng(case)
    p = pick_dim(rng)
    spec = grid.config(case["cls"], rng)
    est = grid.build(spec)
    X = gen.stream(case["kind"], rng, 2 * p + 6, p)
    for t, x in enumerate(X):
        est.partial_fit(x)
        what = f"{grid.describe(spec)} p={p} {case['kind']} after {t + 1} rows"
        P = est.precision_
        mon.ok("readable", P.shape == (p, p) and np.all(np.isfinite(P)), f"{what}: precision {brief(P)}")
        Y = np.vstack([x, X[int(rng.integers(len(X)))], est.location_])
        d2 = np.asarray(est.mahalanobis(Y))
        mon.ok("readable", d2.shape == (3,) and not np.any(np.isnan(d2)), f"{what}: mahalanobis {brief(d2)}")
        s = est.score(Y)
        mon.ok("readable", isinstance(s, float) and not np.isnan(s) and s < np.inf, f"{what}: score {s}")


def run(case, mon):
    import scipy.linalg as sl

    if case.get("early"):
        return readable(case, mon)
    rng = case_rng(case)
    p = pick_dim(rng, big=rng.random() < 0.3)
    n = int(rng.choice([3 * p + 5, 80, 250]))
    spec = grid.default(case["cls"]) if case["rep"] == 0 else grid.config(
        case["cls"], rng, rs=[0.05, 0.02, 0.008, 0.2])
    est = grid.build(spec)
    if case["kind"] == "constant_col0":
        X = gen.stream("gauss", rng, n, p)
        X *= 10.0 ** rng.uniform(-4, 0, p)
        X[:, int(rng.integers(p))] = 0.0
    else:
        X = gen.stream(case["kind"], rng, n, p)
    est.partial_fit(X)
    C, m, P = est.covariance_, est.location_, est.precision_
    what = f"{grid.describe(spec)} p={p} n={n} {case['kind']}"
    mon.ok("inverse", P.shape == (p, p) and np.all(np.isfinite(P)), f"{what}: precision {brief(P)}")
    mon.same("get_precision", est.get_precision(), P, what)
    if case["kind"] in SING:
        if not C.any() or np.any(~C.any(axis=0)):
            s = max(float(np.abs(C).max()), 1e-30)
            sub = C.any(axis=0)
            cond = np.linalg.cond(C[np.ix_(sub, sub)]) if sub.any() else 1
            if cond < 1e11:
                mon.close("singular", C @ P @ C, C, 1e-8, what + ": C P C = C", scale=s)
                if sub.any():  # along every variable, however small its variance
                    d = np.sqrt(np.diag(C)[sub])
                    mon.close("singular", (C @ P @ C)[np.ix_(sub, sub)] / np.outer(d, d),
                              C[np.ix_(sub, sub)] / np.outer(d, d), 1e-3, what + ": C P C = C, normalised")
        s = est.score(np.vstack([X, m]))
        mon.ok("singular", not np.isnan(s) and s < np.inf, f"{what}: score {s}")
        return
    s = np.abs(C).max()
    w = np.linalg.eigvalsh(C / s)
    if w[0] <= 1e-9:
        return
    cond = w[-1] / w[0]
    mon.close("inverse", P @ C, np.eye(p), 1e-13 * cond * p + 1e-10, what + ": P C = I", scale=1.0)
    mon.close("symmetric", P, P.T, 1e-13 * cond + 1e-10, what)
    n2 = int(rng.integers(1, 30)) if rng.random() < 0.9 else int(rng.choice([130, 700, 1500, 5001]))
    Y = m + gen.stream("gauss", rng, n2, p) * np.sqrt(np.diag(C)) * rng.choice([0.1, 1, 5])
    L = np.linalg.cholesky(C)
    z = sl.solve_triangular(L, (Y - m).T, lower=True)
    d2 = (z ** 2).sum(axis=0)
    ll = -0.5 * (d2 + p * np.log(2 * np.pi) + 2 * np.log(np.diag(L)).sum())
    tol = 1e-12 * cond + 1e-9
    got = np.asarray(est.mahalanobis(Y))
    mon.close("mahalanobis", got, d2, tol, what + ": mahalanobis")
    mon.ok("mahalanobis", np.all(got >= -tol * np.abs(d2).max()), what + ": negative distance")
    mon.close("score", est.score(Y), ll.mean(), tol, what + ": score",
              scale=1 + np.abs(ll).max())
    i = int(rng.integers(n2))
    mon.close("single-row", est.mahalanobis(Y[i]), d2[i:i + 1], tol, what, scale=1 + d2.max())
    mon.close("single-row", est.score(Y[i]), ll[i], tol, what, scale=1 + np.abs(ll).max())
    mon.ok("score", isinstance(est.score(Y), float), what + ": score is not a float")
    mon.same("purity", est.covariance_, C, what)
    mon.same("purity", est.location_, m, what)
    # another estimate from as many rows: nothing remembered
    Z = gen.stream("gauss", rng, n, p) * np.sqrt(np.diag(C)) * rng.choice([0.2, 4.0])
    if case["cls"] == "ConditionalCovariance" or rng.random() < 0.5:
        est.fit(Z)
    else:
        est.set_state(grid.build(spec).partial_fit(Z).get_state())
    C2, m2, P2 = est.covariance_, est.location_, est.precision_
    w = np.linalg.eigvalsh(C2 / np.abs(C2).max())
    if w[0] > 1e-9:
        cond = w[-1] / w[0]
        mon.close("up-to-date", P2 @ C2, np.eye(p), 1e-13 * cond * p + 1e-10, what + ": P C = I after another fit", scale=1.0)
        z2 = sl.solve_triangular(np.linalg.cholesky(C2), (Y - m2).T, lower=True)
        mon.close("up-to-date", est.mahalanobis(Y), (z2 ** 2).sum(axis=0), 1e-12 * cond + 1e-9, what + ": after another fit")
    if p > 1:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "p": p, "n": n, "cond": float(cond),
                      "score": float(ll.mean())}
