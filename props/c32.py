"""C32 every reading of a keyed view is the same matrix."""
import numpy as np

from lib import gen, grid
from lib.core import brief
from lib.util import all_names, case_rng, is_cov
from props.c30 import CHURN, key_sets

RULE = ("a case is (estimator, view, repetition): all readings taken at several moments and compared with "
        "each other; non-trivial: three or more names and a non-zero matrix")
CLAUSES = ["dict", "alias", "get_cov", "get_corr", "corr-dict", "to_frame", "valid", "python-floats",
           "not-live", "iterables", "repr"]


def cases(tier, seed):
    n = 12 if tier == "quick" else 48
    return [dict(cls=c, dyn=d, rep=j) for c in all_names() for d in (False, True) for j in range(n)]


def run(case, mon):
    from precise import keyed

    rng = case_rng(case)
    name = case["cls"]
    spec = grid.config(name, rng)
    wide = rng.random() < 0.05
    p = int(rng.integers(1, 7)) if not wide else 12
    names = [f"k{i}" for i in range(p)]
    n = int(rng.integers(2, 60)) if not wide else 12
    kind = ["gauss", "corr", "scaled", "constant_col", "tiny", "sparse"][int(rng.integers(6))]
    X = gen.stream(kind, rng, n, p)
    k = keyed(grid.build(spec), dynamic=case["dyn"])
    what = f"{grid.describe(spec)} dynamic={case['dyn']} {kind} p={p}"
    gone = rng.random() < 0.4 and p > 1 and case["dyn"]
    ks = list(key_sets(CHURN[int(rng.integers(len(CHURN)))], rng, names, n)) if gone else [names] * n
    for t, x in enumerate(X):
        k.learn_one({key: float(x[names.index(key)]) for key in ks[t]})
        if t < n - 1 and (wide or rng.random() > 0.15):
            continue
        C, keys = k.cov_array()
        C = np.array(C)
        p1 = len(keys)
        is_cov(mon, "valid", C, p1, what, tol=1e-8)
        D = k.covariance_
        mon.ok("dict", list(D) == list(keys) and all(list(r) == list(keys) for r in D.values()),
               f"{what}: {list(D)} for {keys}")
        mon.same("dict", [[D[a][b] for b in keys] for a in keys], C, what)
        mon.ok("python-floats", all(type(v) is float for r in D.values() for v in r.values()), what)
        mon.ok("alias", k.covariance == D, what)
        mon.same("get_cov", k.get_cov(), C, what)
        q = [keys[i] for i in rng.permutation(p1)]
        A, got = k.cov_array(q)
        mon.same("get_cov", k.get_cov(q), A, what)
        mon.ok("get_cov", list(got) == q, what)
        for it in (tuple(q), iter(q), (c for c in q), dict.fromkeys(q)):
            B, got = k.cov_array(it)
            mon.ok("iterables", list(got) == q, f"{what}: {type(it).__name__} gave keys {got}")
            mon.same("iterables", B, A, f"{what}: {type(it).__name__}")
        R = k.get_corr(q)
        for make in (tuple, iter, lambda c: (x for x in c), dict.fromkeys):
            mon.same("iterables", k.get_cov(make(q)), A, f"{what}: get_cov")
            mon.same("iterables", k.get_corr(make(q)), R, f"{what}: get_corr")
        d = np.sqrt(np.diag(C))
        big = float(np.abs(C).max())
        for R, W, cl in ((k.get_corr(), C, "get_corr"),
                         (np.array([[k.correlation_[a][b] for b in keys] for a in keys]), C, "corr-dict"),
                         (k.get_corr(q), A, "get_corr")):
            s = np.sqrt(np.diag(W))
            pos = s > 0
            mon.ok(cl, R.shape == W.shape and np.all(np.diag(R) == 1.0), lambda: f"{what}: {brief(R)}")
            if big > 1e-280 and pos.all():
                mon.close(cl, R - np.eye(p1), W / np.outer(s, s) - np.eye(p1), 1e-9, what, scale=1.0)
        try:
            import pandas  # noqa: F401

            F = k.to_frame()
            mon.ok("to_frame", list(F.index) == list(keys) and list(F.columns) == list(keys), what)
            mon.same("to_frame", F.to_numpy(), C, what)
            F = k.to_frame(q)
            mon.ok("to_frame", list(F.index) == q and list(F.columns) == q, what)
            mon.same("to_frame", F.to_numpy(), A, what)
            for it in (tuple(q), iter(q), (c for c in q), dict.fromkeys(q)):
                F = k.to_frame(it)
                mon.ok("iterables", list(F.index) == q and list(F.columns) == q, f"{what}: frame for a {type(it).__name__}")
                mon.same("iterables", F.to_numpy(), A, f"{what}: frame for a {type(it).__name__}")
        except ImportError:
            mon.evals["to_frame"] += 1
            mon.see("pandas missing: frames not judged")
        E, ke = k.cov_array()
        E[...] = 7.0
        ke.append("junk")
        D[keys[0]][keys[0]] = -1.0
        C2, k2 = k.cov_array()
        mon.same("not-live", C2, C, what + ": edited result")
        mon.ok("not-live", list(k2) == list(keys), what + ": edited key list")
        mon.ok("repr", isinstance(repr(k), str) and repr(k).startswith(type(k).__name__), what)
        if p1 >= 3 and big > 0:
            mon.keys.add((what, t))
            mon.sample = {"view": what, "at": t + 1, "names": p1}
