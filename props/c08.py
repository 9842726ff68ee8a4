"""C08 diff=True is exactly the plain estimator on first differences."""
import json

import numpy as np

from lib import gen, grid
from lib.util import case_rng, pick_dim, same_snapshot, snapshot

RULE = ("a case is (estimator, stream, delivery): an estimator with diff on is fed the levels, its twin "
        "with diff off the first differences, compared bitwise after every delivery; non-trivial: at "
        "least two differences and a batch boundary")
CLAUSES = ["same", "first-level-only", "boundary", "fit-resets", "resumed", "keyed"]


def cases(tier, seed):
    n = 12 if tier == "quick" else 30
    return [dict(cls=c, kind=k, rep=j) for c in grid.class_names() for j in range(n)
            for k in ("walk", "gauss", "ramp", "offset", "scaled", "constant_col")]


def run(case, mon):
    rng = case_rng(case)
    spec = grid.config(case["cls"], rng, diff=True)
    plain = {"cls": spec["cls"], "kw": {**spec["kw"], "diff": False}}
    p = pick_dim(rng)
    n = int(rng.choice([2, 5, 30, 120]))
    if rng.random() < 0.05:
        n = 700
    X = gen.stream(case["kind"], rng, n, p)
    D = np.array([X[i + 1] - X[i] for i in range(n - 1)])
    what = f"{grid.describe(spec)} p={p} n={n} {case['kind']}"
    a, b = grid.build(spec), grid.build(plain)
    a.partial_fit(X[0])
    mon.ok("first-level-only", a.n_samples_ == 0, what + ": one level already counts")
    mon.raises("first-level-only", ValueError, lambda: a.covariance_, what + ": read after one level")
    t = 1
    while t < n:
        s = int(rng.integers(1, 6 if n < 700 else 400))
        chunk = X[t:t + s]
        # buffers are reused by the caller between deliveries
        buf = chunk[0].copy() if len(chunk) == 1 and rng.random() < 0.5 else chunk.copy()
        a.partial_fit(buf)
        buf[...] = 777.0
        for d in D[t - 1:t - 1 + s]:
            b.partial_fit(d)
        t += s
        mon.see("boundaries")
        same_snapshot(mon, "boundary" if t < n else "same", snapshot(a), snapshot(b), f"{what} at {t}")
        if rng.random() < 0.15:
            a = grid.build(spec).set_state(json.loads(json.dumps(a.get_state())))
            mon.see("restores")
    if n < 3:
        mon.evals["boundary"] += 0
    same_snapshot(mon, "same", snapshot(a), snapshot(b), what)
    # fit forgets the previous level
    a.fit(X)
    b.fit(D)
    same_snapshot(mon, "fit-resets", snapshot(a), snapshot(b), what + ": refit")
    # resumed from a checkpoint in the middle, including right after the first level
    for cut in {1, n // 2, n}:
        if cut < 1:
            continue
        e = grid.build(spec).partial_fit(X[:cut])
        e = grid.build(spec).set_state(json.loads(json.dumps(e.get_state())))
        e.partial_fit(X[cut:])
        same_snapshot(mon, "resumed", snapshot(e), snapshot(b), f"{what}: resumed at {cut}")
    if case["rep"] == 0:
        from precise import keyed

        names = [f"n{i}" for i in range(p)]
        k = keyed(grid.build(spec))
        d = {}
        for x in X.tolist():
            d.update(zip(names, x))
            k.learn_one(d)
        mon.same("keyed", k.get_cov(names), b.covariance_, what + ": through the keyed adapter")
    if n > 2:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "n": n, "p": p}
