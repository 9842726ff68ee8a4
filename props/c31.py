"""C31 assembling a matrix across key-sets: which source, which fill, which repair, which order."""
import numpy as np

from lib.refkeyed import judge_repair
from lib.util import all_names, case_rng
from props.c30 import key_sets, make, naming, rows, shuffled

RULE = ("a case is (estimator, churn pattern, repetition): after a history of changing key-sets, random "
        "queries (any order, any subset, across key-sets never seen together) are judged against the "
        "documented pair rule, the off-diagonal mean for pairs never co-observed, and a spectral "
        "definition of nearest positive semi-definite; non-trivial: a query fed from two or more "
        "key-sets, or with a hole")
CLAUSES = ["assembled", "repaired", "holes", "multi-source", "order", "pair", "single", "stable"]
CHURN = ["join-leave", "alternate", "nested", "disjoint", "random", "rotate", "pairs"]


def cases(tier, seed):
    n = 3 if tier == "quick" else 30
    return [dict(cls=c, churn=k, rep=j) for c in all_names() for k in CHURN for j in range(n)]


def sets(kind, rng, names, n):
    if kind != "pairs":
        yield from key_sets(kind, rng, names, n)
        return
    p = len(names)  # only pairs are ever observed: the assembled matrix is often indefinite
    while True:
        i, j = rng.choice(p, 2, replace=False)
        for _ in range(int(rng.integers(1, 12))):
            yield [names[i], names[j]]


def run(case, mon):
    rng = case_rng(case)
    spec, view, model, mu, ms = make(case, rng)
    if case["churn"] == "pairs" or rng.random() < 0.5:
        mu, ms = 30, 400
        from precise import DynamicUniverse

        from lib import grid

        view = DynamicUniverse(grid.build(spec), max_universes=mu, max_staleness=ms)
        model.max_u, model.max_s = mu, ms
    p = int(rng.integers(2, 8))
    names = naming(rng, p)
    n = int(rng.choice([8, 30, 90]))
    rate = 0.1
    if rng.random() < 0.08:  # hundreds of observations, or dozens of names
        p, n, rate = (min(p, 4), 700, 0.015) if rng.random() < 0.6 else (20, 40, 0.05)
        names = naming(rng, p)
        mu, ms = 30, 10 ** 6
        from precise import DynamicUniverse

        from lib import grid

        view = DynamicUniverse(grid.build(spec), max_universes=mu, max_staleness=ms)
        model.max_u, model.max_s = mu, ms
    X = rows(rng, ["gauss", "corr", "factor", "scaled"], n, p)
    what = f"{spec['cls']} {case['churn']} capacity={mu} staleness={ms} p={p} n={n}"
    interesting = 0
    for t, (x, ks) in enumerate(zip(X, sets(case["churn"], rng, names, n))):
        d = {k: float(x[names.index(k)]) for k in shuffled(rng, ks)}
        view.update(d)
        model.update(d)
        if t < n - 1 and rng.random() > rate:
            continue
        for _ in range(4):
            q = [names[i] for i in rng.permutation(p)[: int(rng.integers(1, p + 1))]]
            M, keys, holes, nsrc, tie = model.assemble(q)
            C, got = view.cov_array(q)
            mon.ok("order", list(got) == q, f"{what}: asked {q}, answered {got}")
            if tie:
                mon.see("ambiguous queries (two equally long-lived sources) left out")
                continue
            note = f"{what}: query {q} after {t + 1} ({nsrc} sources, {holes} missing entries)"
            how = judge_repair(mon, "assembled", C, M, note)
            if how == "repaired":
                mon.evals["repaired"] += 1
            if holes:
                mon.evals["holes"] += 1
            if nsrc > 1:
                mon.evals["multi-source"] += 1
            interesting += bool(holes or nsrc > 1)
            again = view.cov_array(q)[0]
            mon.same("stable", again, C, note + ": asked twice")
            if how == "as assembled":
                o = rng.permutation(len(q))
                D = view.cov_array([q[i] for i in o])[0]
                mon.close("order", D, C[np.ix_(o, o)], 1e-7, note + ": same names in another order",
                          scale=np.abs(M).max())
            if len(q) >= 2:
                a, b = q[:2]
                u = model.pair(a, b)
                if u is not None and how == "as assembled":
                    E = u.est.covariance_
                    mon.close("pair", C[0, 1], E[u.keys.index(a), u.keys.index(b)], 1e-7,
                              f"{note}: pair {a},{b}", scale=np.abs(M).max())
            u = model.pair(q[0], q[0])
            if u is not None and u.est.n_samples_:
                v = u.est.covariance_[u.keys.index(q[0]), u.keys.index(q[0])]
                mon.close("single", view.cov_array([q[0]])[0], [[v]], 1e-9, f"{note}: {q[0]} alone")
    if interesting:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"view": what, "interesting_queries": interesting, "key_sets_kept": len(model.us)}
