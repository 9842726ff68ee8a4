"""C42 floating-point sanitizer: finite data never cause a division by zero, an invalid operation, an overflow
or a warning, whatever the estimator, view, judge or descriptor."""
import warnings

import numpy as np

from lib import gen, grid
from lib.core import Violation
from lib.util import all_names, case_rng, pick_dim

RULE = ("a case is (component, stream kind, repetition) driven and read at every prefix with the hardware "
        "floating-point flags turned into exceptions (divide, invalid, overflow) and every warning into an error, "
        "then again with both ignored: no exception, and bitwise the same readings; non-trivial: more than one "
        "reading was compared")
CLAUSES = ["estimator", "keyed-fixed", "keyed-dynamic", "judges", "features", "same-readings", "errstate-kept"]


def cases(tier, seed):
    n = 2 if tier == "quick" else 16
    out = [dict(what="estimator", cls=c, kind=k, rep=j) for c in all_names() for k in gen.ALL for j in range(n)]
    kk = ["gauss", "corr", "tiny", "zeros_then_data", "sparse", "outliers", "constant_col", "duplicate_col", "large"]
    out += [dict(what=w, cls=c, kind=k, rep=j) for w in ("keyed-fixed", "keyed-dynamic")
            for c in all_names() for k in kk for j in range(max(1, n // 4))]
    return out + [dict(what=w, cls="-", kind=k, rep=j) for w in ("judges", "features") for k in gen.ALL
                  for j in range(2 * n)]


def estimator(case, rng, X, p):
    import precise  # noqa: F401

    spec = grid.config(case["cls"], rng)
    diff = case["cls"] != "ConditionalCovariance" and grid.accepts(case["cls"], "diff") and rng.random() < 0.15
    if diff:
        spec["kw"]["diff"] = True

    def go():
        e = grid.build(spec)
        for x in X:
            e.partial_fit(x)
            if e.n_samples_:
                P, m = e.precision_, e.location_
                yield from (e.covariance_, e.correlation_, P, m)
                # a vanishing covariance (the repair of an all-zero one) puts other rows beyond the largest number away
                if np.abs(P).max() < 1e290 / (1.0 + p * np.abs(x - m).max() ** 2):
                    yield from (e.mahalanobis(x), e.score(x))

    return go, grid.describe(spec)


def view(case, rng, X, p):
    import precise

    spec = grid.config(case["cls"], rng)
    names = [f"k{j}" for j in range(p)]
    dyn = case["what"] == "keyed-dynamic"
    kw = dict(max_universes=int(rng.integers(1, 5)), max_staleness=int(rng.integers(0, 6))) if dyn else dict(
        impute=str(rng.choice(["ffill", "mean", "zero"])))
    obs = []
    present = set(range(p))
    for t, x in enumerate(X):
        if t and rng.random() < 0.3:
            present = set(rng.permutation(p)[:int(rng.integers(1, p + 1))].tolist())
        obs.append({names[j]: float(x[j]) for j in range(p) if j in present})

    def go():
        v = precise.keyed(grid.build(spec), dynamic=dyn, **kw)
        for t, o in enumerate(obs):
            v.update(o)
            if t % 7 == 0 or t < 4:
                yield from (v.get_cov(), v.get_corr())

    return go, f"{grid.describe(spec)} {kw}"


def judges(case, rng, X, p):
    import precise

    how = rng.random()
    A = gen.spd(rng, p) if how < 0.4 else gen.corr_matrix(rng, p) * 10.0 ** rng.uniform(-4, 4)
    if how > 0.7 and p > 1:  # singular: few factors, twins; put together again from its correlations, so only just
        B = rng.standard_normal((p, int(rng.integers(1, p))))
        B[int(rng.integers(1, p)):] = B[0] * rng.choice([1.0, 1.0, 3.0])
        d = np.sqrt(np.einsum("ij,ij->i", B, B))
        A = B @ B.T if how > 0.9 else (B @ B.T / np.outer(d, d)) * np.outer(d, d)
    T = gen.spd(rng, p)

    def go():
        for a in precise.all_assessors():
            if type(a).__name__ == "SteinLoss" and len(X) <= 2 * p:
                continue  # singular held-out covariance: the loss is infinite by definition
            yield a.score(A, X_test=X, true_cov=T)

    return go, "all judges"


def features(case, rng, X, p):
    import precise

    def go():
        if len(X) < 2:
            return
        yield list(precise.covariance_features(X).values())
        yield [precise.estimator_names().index(c.__name__) for c in precise.suggest(X, top=99)]

    return go, "features"


def run(case, mon):
    rng = case_rng(case)
    p = pick_dim(rng)
    n = int(rng.choice([5, 30, 90]))
    X = gen.stream(case["kind"], rng, n, p)
    make = {"estimator": estimator, "judges": judges, "features": features}.get(case["what"], view)
    go, desc = make(case, rng, X, p)
    what = f"{desc} p={p} n={len(X)} {case['kind']}"
    strict = []
    with warnings.catch_warnings(), np.errstate(divide="raise", invalid="raise", over="raise"):
        warnings.simplefilter("error")
        try:
            for a in go():
                strict.append(np.array(a))
        except (FloatingPointError, Warning) as e:
            raise Violation(case["what"], f"{what}: {type(e).__name__}: {e} (reading {len(strict) + 1})")
        g = np.geterr()
        mon.ok("errstate-kept", g["divide"] == g["invalid"] == g["over"] == "raise", f"{what}: {g}")
    mon.ok(case["what"], True)
    lax = [np.array(a) for a in go()]
    mon.ok("same-readings", len(lax) == len(strict), what)
    for a, b in zip(strict, lax):
        mon.same("same-readings", a, b, what)
    mon.see("readings", len(strict))
    if len(strict) > 1:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"workload": what, "readings": len(strict)}
