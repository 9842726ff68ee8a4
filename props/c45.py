"""C45 Each estimator is better at what it is for: paired races on the conditions its documentation names."""
import numpy as np

from lib import gen
from lib.util import case_rng

RULE = ("a case is a series of paired races: two estimators are fed the same observations, drawn from a known covariance "
        "under the condition one of them is documented for, and their errors against the truth are compared by the geometric "
        "mean of the ratios; non-trivial: more than two variables")
CLAUSES = ["robust", "shrinkage", "constant-correlation", "recency", "stationary", "adaptive", "calm", "factor", "blocks",
           "volatility", "differences", "keyed", "fit"]
PAIRS = 30  # bounds: six standard deviations of the mean of this many, measured over sixty seeds


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    return [dict(what=w, rep=j) for w in SCENES for j in range(2 * n)]


def rows(rng, T, n):
    return rng.standard_normal((n, len(T))) @ np.linalg.cholesky(T).T


def corr(C):
    d = np.sqrt(np.diag(C))
    return C / np.outer(d, d)


def frob(C, T):
    return np.linalg.norm(C - T) / np.linalg.norm(T)


def shape(C, T):
    return frob(corr(C), corr(T))


def kl(C, T):
    s, l = np.linalg.slogdet(C)
    return 0.5 * (np.trace(np.linalg.solve(C, T)) - len(T) + l - np.linalg.slogdet(T)[1]) if s > 0 else np.inf


def robust(rng):
    p, r, n = int(rng.integers(3, 9)), float(rng.uniform(0.006, 0.015)), 600
    T = gen.spd(rng, p, 0.3, 3.0)
    X = rows(rng, T, n)
    bad = rng.random(n) < rng.uniform(0.04, 0.1)
    bad[:200] = False
    bad[rng.integers(n - 40, n, 4)] = True
    X[bad] = rng.uniform(8, 25) * rows(rng, gen.spd(rng, p, 0.3, 3.0), int(bad.sum()))
    return X, T, [("robust", ("HuberCovariance", dict(r=r)), ("EwaCovariance", dict(r=r)), shape, 0.65),
                  ("robust", ("HuberCovariance", dict(r=r)), ("EwaCovariance", dict(r=r)), frob, 0.1),
                  ("robust", ("TylerCovariance", dict(r=r)), ("EwaCovariance", dict(r=r)), shape, 0.48)]


def shrinkage(rng):
    p = int(rng.integers(8, 20))
    r = min(0.2, 1 / p / rng.uniform(0.5, 2))
    T = gen.spd(rng, p, 0.6, 1.6)
    ewa = ("EwaCovariance", dict(r=r))
    return rows(rng, T, 200), T, [
        ("shrinkage", ("LedoitWolfCovariance", dict(r=r)), ewa, frob, 0.52),
        ("shrinkage", ("OASCovariance", dict(r=r)), ewa, frob, 0.52),
        ("shrinkage", ("ShrunkCovariance", dict(r=r, delta=0.5, target="identity")), ewa, frob, 0.66),
        ("shrinkage", ("LedoitWolfCovariance", dict(r=r)), ewa, kl, 0.21),
        ("shrinkage", ("OASCovariance", dict(r=r)), ewa, kl, 0.21)]


def constant(rng):
    p = int(rng.integers(8, 20))
    r, rho = min(0.2, 1 / p), rng.uniform(0.3, 0.7)
    d = np.exp(rng.uniform(-1, 1, p))
    T = np.outer(d, d) * ((1 - rho) * np.eye(p) + rho)
    kw = dict(r=r, delta=0.8)
    cc = ("ShrunkCovariance", dict(kw, target="constant_correlation"))
    return rows(rng, T, 200), T, [("constant-correlation", cc, ("EwaCovariance", dict(r=r)), shape, 0.62),
                                  ("constant-correlation", cc, ("ShrunkCovariance", dict(kw, target="identity")), shape, 0.25)]


def regime(rng):
    p, r = int(rng.integers(3, 9)), float(rng.uniform(0.007, 0.015))
    T = gen.spd(rng, p, 0.3, 3.0) * rng.uniform(9, 30)
    X = np.vstack([rows(rng, gen.spd(rng, p, 0.3, 3.0), 400), rows(rng, T, int(rng.integers(20, 40)))])
    return X, T, [("recency", ("EwaCovariance", dict(r=r)), ("EmpiricalCovariance", {}), frob, 0.9),
                  ("adaptive", ("AdaptiveEwaCovariance", dict(r=r)), ("EwaCovariance", dict(r=r)), frob, 0.85)]


def later(rng):
    p, r = int(rng.integers(3, 9)), float(rng.uniform(0.02, 0.05))
    T = gen.spd(rng, p, 0.3, 3.0)
    S = gen.spd(rng, p, 0.3, 3.0) * rng.choice([0.2, 5.0])
    return np.vstack([rows(rng, S, 500), rows(rng, T, int(4 / r))]), T, [
        ("recency", ("EwaCovariance", dict(r=r)), ("EmpiricalCovariance", {}), frob, 0.48)]


def calm(rng):
    p, r = int(rng.integers(3, 9)), float(rng.uniform(0.01, 0.02))
    T = gen.spd(rng, p, 0.3, 3.0)
    return rows(rng, T, 900), T, [("stationary", ("EmpiricalCovariance", {}), ("EwaCovariance", dict(r=r)), frob, 0.58),
                                  ("calm", ("AdaptiveEwaCovariance", dict(r=r)), ("EwaCovariance", dict(r=r)), frob, 1.35)]


def factor(rng):
    p, k, r = int(rng.integers(15, 30)), int(rng.integers(1, 4)), float(rng.uniform(0.04, 0.07))
    B = rng.standard_normal((p, k))
    T = B @ B.T + np.diag(rng.uniform(0.5, 1.5, p))
    return rows(rng, T, 300), T, [("factor", ("FactorCovariance", dict(r=r, k=k)), ("EwaCovariance", dict(r=r)), kl, 0.29),
                                  ("factor", ("FactorCovariance", dict(r=r, k=k)), ("FactorCovariance", dict(r=r, k=p)), kl, 0.16)]


def blocks(rng):
    m, b = int(rng.integers(2, 5)), int(rng.integers(3, 6))
    T = np.kron(np.eye(m), 0.6 * np.ones((b, b)) + 0.4 * np.eye(b))
    r = float(rng.uniform(0.03, 0.05))
    ewa, kw = ("EwaCovariance", dict(r=r)), dict(r=r, n_blocks=m)
    return rows(rng, T, 300), T, [("blocks", (c, dict(kw, **x)), ewa, frob, t) for c, x, t in (
        ("BlockCovariance", {}, 0.83), ("SchurCovariance", dict(gamma=0.4), 0.87), ("SchurLedoitWolfCovariance", {}, 0.85),
        ("SchurConditionalCovariance", {}, 0.9))]


def volatility(rng):
    p, n, r, fast = int(rng.integers(3, 8)), 600, 0.01, 0.08
    R = corr(gen.spd(rng, p, 0.2, 4.0))
    f = np.exp(rng.choice([-1, 1], p) * rng.uniform(1, 1.8, p))
    X = rows(rng, R, n)
    X[-60:] *= f
    T = R * np.outer(f, f)
    ewa = lambda q: ("EwaCovariance", dict(r=q))
    both = ("ConditionalCovariance", dict(vol=ewa(fast), corr=ewa(r)))
    return X, T, [("volatility", ("DCCCovariance", dict(r=r, vol_r=fast)), ewa(r), kl, 0.15),
                  ("volatility", ("DCCCovariance", dict(r=r, vol_r=fast)), ewa(fast), kl, 0.82),
                  ("volatility", both, ewa(r), kl, 0.15), ("volatility", both, ewa(fast), kl, 0.92)]


def differences(rng):
    p, r = int(rng.integers(2, 8)), float(rng.uniform(0.015, 0.03))
    T = gen.spd(rng, p, 0.3, 3.0)
    X = np.cumsum(rows(rng, T, 400), axis=0) + rng.uniform(-1000, 1000)
    return X, T, [("differences", ("EwaCovariance", dict(r=r, diff=True)), ("EwaCovariance", dict(r=r)), frob, 0.03),
                  ("differences", ("EmpiricalCovariance", dict(diff=True)), ("EmpiricalCovariance", {}), frob, 0.01)]


SCENES = {f.__name__: f for f in (robust, shrinkage, constant, regime, later, calm, factor, blocks, volatility, differences)}


def build(spec):
    import precise

    name, kw = spec
    return getattr(precise, name)(**{k: build(v) if isinstance(v, tuple) else v for k, v in kw.items()})


def read(spec, X, how, mon):
    """The estimate after X, delivered one of the documented ways."""
    import precise

    est = build(spec)
    if how == "fit":
        mon.evals["fit"] += 1
        return np.array(est.fit(X).covariance_)
    if how in ("fixed", "dynamic"):
        mon.evals["keyed"] += 1
        names = [f"v{i:02d}" for i in range(X.shape[1])]
        view = precise.keyed(est, dynamic=how == "dynamic")
        for x in X:
            view.update(dict(zip(names, x)))
        D = view.covariance_
        return np.array([[D[a][b] for b in names] for a in names])
    for x in X:
        est.partial_fit(x)
    return np.array(est.covariance_)


def run(case, mon):
    rng = case_rng(case)
    hows = ["stream", "fit", "fixed", "dynamic"]
    ratios = {}
    for i in range(PAIRS):
        X, T, races = SCENES[case["what"]](rng)
        s = 10.0 ** rng.uniform(-2, 2)
        X, T = X * s, T * s * s
        how = hows[int(rng.integers(4))] if i % 2 else "stream"
        done = {}
        for j, (clause, a, b, err, bound) in enumerate(races):
            for spec in (a, b):
                if repr(spec) not in done:
                    done[repr(spec)] = read(spec, X, how, mon)
            ea, eb = err(done[repr(a)], T), err(done[repr(b)], T)
            ratios.setdefault(j, []).append((clause, a, b, err.__name__, bound, np.log(max(ea, 1e-12) / max(eb, 1e-12))))
        mon.see("observations", len(X))
        if X.shape[1] > 2:
            mon.keys.add((case["what"], case["rep"], i))
    for rs in ratios.values():
        clause, a, b, err, bound, _ = rs[0]
        g = float(np.exp(np.mean([x[-1] for x in rs])))
        mon.ok(clause, g <= bound, f"{a} against {b} where the first is at home ({case['what']}): {err} errors are in the "
               f"ratio {g:.3f} over {len(rs)} paired series, at most {bound} expected")
        mon.see("races", len(rs))
        mon.sample = {"scene": case["what"], "first": repr(a), "second": repr(b), "error": err, "ratio": g, "bound": bound}
