"""C30 DynamicUniverse: every key-set is learned while it is present; stale and surplus ones go."""
import numpy as np

from lib import gen, grid
from lib.refkeyed import Dynamic, judge_repair
from lib.util import all_names, case_rng

RULE = ("a case is (estimator, churn pattern, capacity, staleness, repetition): a long history of changing "
        "key-sets is learned by the view and by an executable specification; the whole current key-set is "
        "read after many observations; non-trivial: at least one eviction or staleness drop and three "
        "distinct key-sets")
CLAUSES = ["current-key-set", "learned-alone", "capacity", "survivor", "forgotten", "chained", "superset", "few-of-many"]
CHURN = ["join-leave", "alternate", "nested", "disjoint", "random", "rotate", "few-of-many"]


def cases(tier, seed):
    n = 8 if tier == "quick" else 60
    return [dict(cls=c, churn=k, rep=j) for c in all_names() for k in CHURN for j in range(n)
            if tier != "quick" or j < 2 or c in ("EwaCovariance", "EmpiricalCovariance",
                                                 "LedoitWolfCovariance", "HuberCovariance")]


def naming(rng, p):
    """Names of several kinds (the integer 0 and the empty string are names too)."""
    return [[f"k{i}" for i in range(p)], list(range(p)), (["", "b", "ca", "d", "e", "fff", "g", "h"] + [f"v{i}" for i in range(p)])[:p],
            [("x", i) for i in range(p)]][int(rng.choice([0, 0, 1, 2, 3]))]


def shuffled(rng, xs):
    return [xs[i] for i in rng.permutation(len(xs))]


def rows(rng, kinds, n, p):
    k = int(rng.integers(len(kinds) + 1))
    return gen.stream(kinds[k], rng, n, p) if k < len(kinds) else rng.integers(-2, 3, (n, p)).astype(float)


def key_sets(kind, rng, names, n):
    p = len(names)
    cur = [k for k in names if rng.random() < 0.6] or [names[0]]
    pool = [[k for k in names if rng.random() < 0.6] or [names[1]] for _ in range(int(rng.integers(2, 6)))]
    hold = 0
    for t in range(n):
        if kind == "join-leave":
            if rng.random() < 0.15:
                k = names[int(rng.integers(p))]
                cur = [c for c in cur if c != k] if k in cur and len(cur) > 1 else cur + [k] * (k not in cur)
        elif kind == "alternate":
            if hold == 0:
                cur, hold = pool[int(rng.integers(len(pool)))], int(rng.integers(1, 6))
            hold -= 1
        elif kind == "nested":
            if rng.random() < 0.2:
                cur = names[: int(rng.integers(1, p + 1))]
        elif kind == "disjoint":
            if rng.random() < 0.2:
                h = p // 2
                cur = [names[:h], names[h:], names][int(rng.integers(3))]
        elif kind == "few-of-many":
            if hold == 0:
                k = int(rng.integers(1, 3))
                cur, hold = (names[:k] if rng.random() < 0.4 else list(names)), int(rng.integers(2, 9))
            hold -= 1
        elif kind == "rotate":
            w = max(1, p // 2)
            s = (t // 4) % p
            cur = [names[(s + i) % p] for i in range(w)]
        else:
            cur = [k for k in names if rng.random() < 0.7] or [names[0]]
        yield list(cur)


def make(case, rng):
    from precise import DynamicUniverse, estimator_from_name, keyed

    name = case["cls"]
    diff = name != "ConditionalCovariance" and rng.random() < 0.15
    spec = grid.config(name, rng, **({} if name == "ConditionalCovariance" else {"diff": diff}))
    mu = int(rng.choice([1, 2, 3, 5, 10, 30]))
    ms = int(rng.choice([0, 1, 3, 10, 50]))
    kw = dict(max_universes=mu, max_staleness=ms)
    if rng.random() < 0.25:
        kw, mu, ms = {}, 10, 50
    how = int(rng.integers(3))
    if how == 0 and name != "ConditionalCovariance":
        view = DynamicUniverse(estimator_from_name(name), **kw, **spec["kw"])
    elif how == 1:
        view = DynamicUniverse(grid.build(spec), **kw)
    else:
        view = keyed(grid.build(spec), dynamic=True, **kw)
    return spec, view, Dynamic(lambda: grid.build(spec), mu, ms), mu, ms


def run(case, mon):
    rng = case_rng(case)
    spec, view, model, mu, ms = make(case, rng)
    p = int(rng.integers(2, 7))
    names = naming(rng, p)
    n = int(rng.choice([15, 60, 140]))
    rate = 0.25
    if rng.random() < 0.05:  # hundreds of observations, or dozens of names
        p, n, rate = (min(p, 4), 900, 0.01) if rng.random() < 0.6 else (20, 40, 0.05)
        names = naming(rng, p)
    elif case["churn"] == "few-of-many":
        p, n = int(rng.choice([9, 13, 17, 25])), min(n, 60)
        names = naming(rng, p)
    X = rows(rng, ["gauss", "corr", "factor"], n, p)
    what = f"{grid.describe(spec)} {case['churn']} capacity={mu} staleness={ms} p={p}"
    lag = 1 if spec.get("kw", {}).get("diff") else 0
    sets, one = set(), {} if rng.random() < 0.4 else None
    for t, (x, ks) in enumerate(zip(X, key_sets(case["churn"], rng, names, n))):
        d = {k: float(x[names.index(k)]) for k in (ks if rng.random() < 0.5 else shuffled(rng, ks))}
        sets.add(frozenset(d))
        how = rng.random()
        if one is not None:  # the caller fills one dict again and again
            one.clear()
            one.update(d)
        given = d if one is None else one
        out = view.learn_one(given) if how < 0.4 else view.update(given) if how < 0.8 else view.learn_many(iter([given]))
        mon.ok("chained", out is view, what)
        model.update(d)
        if t == n - 1 or rng.random() < rate or t < 4:
            M, keys, holes, nsrc, tie = model.assemble()
            C, got = view.cov_array()
            mon.ok("current-key-set", list(got) == list(d), f"{what}: {got} for {list(d)}")
            if not tie:
                judge_repair(mon, "current-key-set", C, M, f"{what} after {t + 1} observations, key-set "
                                                           f"{list(d)}, {nsrc} sources, {holes} holes")
            mon.see("readings judged")
            # the present key-set is always being learned, whatever else is kept
            u = [u for u in model.us if set(u.keys) == set(d)]
            mon.ok("capacity", len(model.us) <= max(mu, 1), "specification")
            if len(model.us) == 1 and u[0].est.n_samples_ > 0:
                E = u[0].est.covariance_
                at = [u[0].keys.index(k) for k in got]
                judge_repair(mon, "learned-alone", C, E[np.ix_(at, at)], f"{what} after {t + 1}")
            if len(model.us) > 1:
                s = max(model.us, key=lambda u: u.staleness)
                if s.staleness and s.est.n_samples_ > 0:  # not yet evicted: still answers
                    M, keys, holes, nsrc, tie = model.assemble(s.keys)
                    if not tie:
                        judge_repair(mon, "survivor", view.get_cov(s.keys), M,
                                     f"{what} after {t + 1}: key-set absent for {s.staleness}")
                big = max(model.us, key=lambda u: len(u.keys))
                sub = big.keys[: max(1, len(big.keys) - 1)]
                if big.est.n_samples_ > 0:
                    M, keys, holes, nsrc, tie = model.assemble(sub)
                    if not tie:
                        judge_repair(mon, "superset", view.get_cov(sub), M, f"{what}: subset {sub}")
                few = min(model.us, key=lambda u: len(u.keys))
                if len(few.keys) < len(d) and few.est.n_samples_ > 0:  # present within a larger one
                    M, keys, holes, nsrc, tie = model.assemble(few.keys)
                    if not tie:
                        judge_repair(mon, "few-of-many", view.get_cov(few.keys), M,
                                     f"{what} after {t + 1}: {few.keys} of {len(d)}")
            if model.dropped or model.evicted:
                M, keys, holes, nsrc, tie = model.assemble(names)
                if not tie:
                    judge_repair(mon, "forgotten", view.get_cov(names), M,
                                 f"{what} after {t + 1}: all names, {holes} holes")
    mon.see("evictions", model.evicted)
    mon.see("staleness drops", model.dropped)
    if (model.evicted or model.dropped) and len(sets) >= 3:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"view": what, "n": n, "key_sets": len(sets), "evicted": model.evicted,
                      "dropped_stale": model.dropped}
