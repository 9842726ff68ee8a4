"""C29 FixedUniverse: a fixed named universe fed to one positional estimator, with imputation."""
import numpy as np

from lib import gen, grid
from lib.refkeyed import Fixed
from lib.util import all_names, case_rng, pick_dim

RULE = ("a case is (estimator, imputation mode, repetition): dicts with random missing and new names, in "
        "random order, are learned by the view and, as rows prepared by the harness, by a positional twin; "
        "queries in random order compared; non-trivial: a missing name was imputed and a new one ignored")
CLAUSES = ["learned", "query", "keys", "default-keys", "explicit-keys", "class-factory", "new-ignored",
           "complete-is-positional", "chained", "unknown-key"]


def cases(tier, seed):
    n = 24 if tier == "quick" else 60
    return [dict(cls=c, impute=m, rep=j) for c in all_names() for m in ("ffill", "mean", "zero")
            for j in range(n)]


def whole(v):
    return int(v) if v == int(v) else float(v)


def run(case, mon):
    from precise import FixedUniverse, estimator_from_name, keyed

    rng = case_rng(case)
    name = case["cls"]
    p = int(rng.integers(1, 8))
    diff = name != "ConditionalCovariance" and rng.random() < 0.2
    spec = grid.config(name, rng, **({} if name == "ConditionalCovariance" else {"diff": diff}))
    if rng.random() < 0.2:
        spec = grid.default(name)
        diff = False
    n = int(rng.integers(3, 70))
    if rng.random() < 0.06:
        p, n = (p, 600) if rng.random() < 0.5 else (int(rng.choice([27, 45])), 60)
    kind = ["gauss", "corr", "offset", "tiny", "walk", "sparse", "counts"][int(rng.integers(7))]
    X = rng.integers(-2, 3, (n, p)).astype(float) if kind == "counts" else gen.stream(kind, rng, n, p)
    X = X + 0.0  # no negative zeros: an integer has none, and the sign of a zero reaches an eigendecomposition
    kind = int(rng.integers(4))
    names = [[f"k{i}" for i in range(p)], [f"{chr(122 - i % 26)}{'x' * (i // 26)}" for i in range(p)],
             [("asset", i) for i in range(p)], list(range(p))][kind]
    miss = float(rng.choice([0.0, 0.1, 0.4]))
    given = rng.random() < 0.5
    kw = dict(impute=case["impute"])
    if case["impute"] == "ffill" and rng.random() < 0.5:
        kw = {}
    if given:
        kw["keys"] = [list(names), tuple(names), (k for k in names), dict.fromkeys(names)][int(rng.integers(4))]
    how = int(rng.integers(3))
    if how == 0 and name != "ConditionalCovariance":
        view = FixedUniverse(estimator_from_name(name), **kw, **spec["kw"])
        mon.evals["class-factory"] += 1
    elif how == 1:
        view = FixedUniverse(grid.build(spec), **kw)
    else:
        view = keyed(grid.build(spec), **kw)
    twin = Fixed(lambda: grid.build(spec), names if given else None, case["impute"])
    what = f"{grid.describe(spec)} impute={case['impute']} p={p}"
    imputed = extra = 0
    one, past = ({} if rng.random() < 0.5 else None), []
    for t, x in enumerate(X):
        order = rng.permutation(p)
        if not t and not given:
            order = np.arange(p)
        d = {names[i]: [float, np.float64, whole][int(rng.integers(3))](x[i]) for i in order
             if (not t and not given) or rng.random() >= miss}
        imputed += p - len(d)
        if (t or given) and rng.random() < 0.3:
            d[["zz", "other", 70][int(rng.integers(3))]] = 1e3 * float(rng.standard_normal())
            extra += 1
        keep = dict(d)
        past.append(keep)
        if one is not None:  # the caller fills one dict again and again
            one.clear()
            one.update(d)
            d = one
        out = view.learn_one(d) if rng.random() < 0.5 else view.update(d)
        mon.ok("chained", out is view, what)
        mon.ok("chained", d == keep and list(d) == list(keep), what + ": the dict was changed")
        twin.update(keep)
        if twin.est.n_samples_ and (t == n - 1 or rng.random() < 0.3):
            W, keys = twin.cov()
            tol = 1e-12
            C, got = view.cov_array()
            mon.ok("keys", got == names, f"{what}: keys {got}, universe {names}")
            mon.close("learned", C, W, tol, f"{what} after {t + 1}")
            q = [names[i] for i in rng.permutation(p)[: int(rng.integers(1, p + 1))]]
            C, got = view.cov_array(iter(q) if rng.random() < 0.3 else q)
            mon.ok("query", list(got) == q, f"{what}: asked for {q}, got {got}")
            mon.close("query", C, twin.cov(q)[0], tol, f"{what} query {q}", scale=np.abs(W).max())
            mon.see("queries")
    if twin.est.n_samples_:  # the whole history through learn_many, from a generator that reuses its dict
        def history():
            d = {}
            for k in past:
                d.clear()
                d.update(k)
                yield d if one is not None else dict(k)
        again = keyed(grid.build(spec), impute=case["impute"], keys=names if given else None)
        mon.ok("chained", again.learn_many(history()) is again, what)
        mon.close("learned", again.get_cov(), twin.cov()[0], 1e-12, what + " through learn_many")
    mon.ok("default-keys" if not given else "explicit-keys", list(view.keys) == list(names), what)
    mon.raises("unknown-key", (ValueError, KeyError), lambda: view.cov_array(["never-seen"]), what)
    if extra:
        mon.evals["new-ignored"] += extra
    if miss == 0 and not imputed and twin.est.n_samples_:
        e = grid.build(spec)
        for x in X:
            e.partial_fit(x)
        mon.close("complete-is-positional", view.get_cov(), e.covariance_, 1e-12, what)
    if imputed and extra:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"view": what, "n": n, "imputed": imputed, "new_ignored": extra}
