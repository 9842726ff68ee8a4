"""C04 the way a history is delivered does not matter; fit() starts afresh."""
import numpy as np

from lib import gen, grid
from lib.util import (all_names, case_rng, close_snapshot, everything, feed, pick_dim, same_snapshot, snapshot, stable_config)

RULE = ("a case is (estimator, stream kind, repetition): the same history delivered row by row, as "
        "one batch, in random chunks (empty ones included), and by fit() on a fresh, a used and a "
        "twice-fitted instance; non-trivial: at least three observations and two chunks")
CLAUSES = ["batch", "chunks", "fit", "refit", "returns-self", "count", "keyed-many"]
KINDS = gen.WELL + ["constant_col", "sparse", "ticks", "zeros_then_data", "walk", "outliers"]
LINEAR = {"EmpiricalCovariance", "EwaCovariance", "DiagonalCovariance", "BlockCovariance",
          "ShrunkCovariance", "OASCovariance", "LedoitWolfCovariance", "PartialMomentsCovariance",
          "DCCCovariance"}


def cases(tier, seed):
    n = 3 if tier == "quick" else 25
    return [dict(cls=c, kind=k, rep=j) for c in all_names() for k in KINDS
            if k in gen.WELL or c in LINEAR for j in range(n)] + [
                dict(cls=c, kind="gauss", rep=int(c != "EwaCovariance"), long=12500) for c in all_names()]


def chunks(rng, n):
    cuts = np.sort(rng.integers(0, n + 1, int(rng.integers(1, 8))))
    return [0, *cuts.tolist(), n]


def run(case, mon):
    rng = case_rng(case)
    p = pick_dim(rng)
    n = int(rng.choice([3, 6, 25, 70, 300]))
    if rng.random() < 0.08:
        p, n = min(p, 4), int(rng.choice([1100, 2100]))
    if "long" in case:
        p, n = 2, case["long"]
    diff = case["cls"] != "ConditionalCovariance" and rng.random() < 0.25
    kw = {} if case["cls"] == "ConditionalCovariance" else {"diff": diff}
    spec = stable_config(case["cls"], rng, p, **kw)
    if case["cls"] in LINEAR and rng.random() < 0.5:
        spec = grid.config(case["cls"], rng, **kw)
    X = gen.stream(case["kind"], rng, n, p)
    what = f"{grid.describe(spec)} p={p} n={n} {case['kind']}"
    new = grid.factory(spec)
    base = feed(new(), X)
    want = snapshot(base)
    mon.ok("count", want["n_samples_"] == n - (1 if diff else 0), f"{what}: {want['n_samples_']}")
    e = new()
    mon.ok("returns-self", e.partial_fit(X) is e, what)
    close_snapshot(mon, "batch", snapshot(e), want, 1e-9, what + ": one batch")
    e = new()
    cuts = chunks(rng, n)
    for a, b in zip(cuts, cuts[1:]):
        if b - a == 1 and rng.random() < 0.5:
            e.partial_fit(X[a])
        else:
            e.partial_fit(X[a:b] if rng.random() < 0.7 else X[a:b].copy(order="F"))
        mon.see("chunks")
    close_snapshot(mon, "chunks", snapshot(e), want, 1e-9, f"{what}: chunks at {cuts}")
    e = new()
    mon.ok("returns-self", e.fit(X) is e, what)
    close_snapshot(mon, "fit", snapshot(e), want, 1e-9, what + ": fit")
    # fit must forget any earlier history, of the same or of another dimension
    other = gen.stream("corr", rng, int(rng.choice([1, 2, 40])), p if rng.random() < 0.5 else p + 1)
    e = new().partial_fit(other * 7 + 3)
    e.fit(X)
    close_snapshot(mon, "refit", snapshot(e), want, 1e-9, what + ": fit on a used instance")
    e = new().fit(gen.stream("corr", rng, n, p) * 7 + 3)  # as long, and looked at
    if e.n_samples_:
        everything(e)
    e.fit(X)
    if e.n_samples_:
        same_snapshot(mon, "refit", everything(e), everything(new().fit(X)), what + ": fit on an instance that was read")
    Y = gen.stream("gauss", rng, 10, p)
    e.fit(X)
    e.partial_fit(Y)
    base2 = feed(new(), np.vstack([X, Y]))
    close_snapshot(mon, "refit", snapshot(e), snapshot(base2), 1e-9, what + ": refit, then stream")
    if case["rep"] == 0:
        from precise import keyed

        names = [f"v{i}" for i in range(p)]
        rows = [dict(zip(names, x.tolist())) for x in X]
        for dyn in (False, True):
            a, b, c = (keyed(new(), dynamic=dyn) for _ in range(3))
            mon.ok("keyed-many", a.learn_many(rows) is a, what)
            for r in rows:
                mon.ok("keyed-many", b.learn_one(r) is b, what)
                c.update(r)
            mon.close("keyed-many", a.get_cov(names), b.get_cov(names), 1e-9, what)
            mon.close("keyed-many", c.get_cov(names), b.get_cov(names), 1e-9, what)
            if not dyn:
                mon.close("keyed-many", b.get_cov(names), want["covariance_"], 1e-9, what)
    if n >= 3 and len(cuts) > 2:
        mon.keys.add((grid.describe(spec), case["kind"], p, n, tuple(cuts)))
        mon.sample = {"estimator": grid.describe(spec), "n": n, "p": p, "cuts": cuts}
