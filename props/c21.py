"""C21 ConditionalCovariance: honest one-step-ahead standardisation, recombined as D R D."""
import copy

import numpy as np

from lib import gen, grid
from lib.core import brief
from lib.util import case_rng, feed

RULE = ("a case composes random volatility and correlation models, with recording stand-ins for either; "
        "an offline checker judges the event log (who saw what, in which order, with which forecast) and "
        "the recombined covariance; non-trivial: at least ten residuals judged on two or more series")
CLAUSES = ["recombined", "location", "residuals", "one-call-per-series", "no-look-ahead", "causal",
           "first-neutral", "state-threading", "dcc-like", "rejects-vol"]


def cases(tier, seed):
    n = 20 if tier == "quick" else 80
    return ([dict(kind=k, mode=m, rep=j) for k in gen.WELL for m in ("skater", "estimator") for j in range(n)]
            + [dict(kind=k, mode="package", rep=j) for k in gen.WELL for j in range(n // 3)])


def make_spy():
    """A positional estimator that records the rows it learns (class-level log: clones share it)."""
    import precise

    class Spy(precise.EwaCovariance):
        log = []

        def __init__(self, r=0.05):
            super().__init__(r=r)

        def partial_fit(self, X, y=None):
            for row in np.atleast_2d(np.asarray(X, float)):
                Spy.log.append(("corr", row.copy()))
            return super().partial_fit(X)

    return Spy


def run(case, mon):
    rng = case_rng(case)
    p = int(rng.integers(1, 6))
    n = int(rng.choice([8, 30, 60]))
    if rng.random() < 0.06:  # hundreds of observations, or dozens of variables
        p, n = (min(p, 3), 600) if rng.random() < 0.5 else (int(rng.choice([12, 40])), 30)
    elif case["rep"] == 1 and case["kind"] == gen.WELL[case["seed"] % len(gen.WELL)]:  # hundreds of series
        p, n = int(rng.integers(150, 400)), 12
    X = gen.stream(case["kind"], rng, n, p)
    if case["rep"] % 4 == 2:  # every series in its own units
        X = X * 10.0 ** rng.uniform(-3, 4, p)
    dict(skater=skater, estimator=estimator, package=package)[case["mode"]](case, mon, rng, X)


def deliver(rng, est, X):
    t = 0
    while t < len(X):
        s = int(rng.integers(1, 5))
        est.partial_fit(X[t] if s == 1 else X[t:t + s])
        t += s


def skater(case, mon, rng, X):
    """Volatility by a recording univariate model, correlation by a recording estimator."""
    import precise

    n, p = X.shape
    Spy = make_spy()
    log = Spy.log
    a = float(rng.choice([0.05, 0.2, 0.4]))

    def f(y, state):
        state = dict(k=0, m=0.1, v=2.0, sid=None) if state is None else state
        sid = len([e for e in log if e[0] == "new"]) if state["sid"] is None else state["sid"]
        if state["sid"] is None:
            log.append(("new", sid))
        log.append(("vol", sid, state["k"], y))
        d = y - state["m"]
        st = dict(k=state["k"] + 1, m=state["m"] + a * d, v=(1 - a) * state["v"] + a * d * d, sid=sid)
        far = grid._Dist(1e9, 1e9)  # horizons beyond the next observation must not be used
        return [grid._Dist(st["m"], np.sqrt(st["v"])), far], st

    est = precise.ConditionalCovariance(vol=precise.from_skater(f), corr=Spy(r=0.1))
    deliver(rng, est, X)
    what = f"Conditional(skater, spy) p={p} n={n} {case['kind']}"
    vols = [e for e in log if e[0] == "vol"]
    rows = [e[1] for e in log if e[0] == "corr"]
    mon.see("events", len(log))
    mon.ok("one-call-per-series", len(vols) == n * p and len(rows) == n,
           f"{what}: {len(vols)} volatility updates and {len(rows)} residual rows for {n} observations")
    # map state identity -> series through the values it saw
    seen = {}
    for _, sid, k, y in vols:
        seen.setdefault(sid, []).append((k, y))
    mon.ok("state-threading", len(seen) == p and all([k for k, _ in v] == list(range(n))
                                                     for v in seen.values()), what + ": states mixed up")
    cols = {sid: [y for _, y in v] for sid, v in seen.items()}
    used = sorted(cols[s] for s in cols)
    mon.ok("state-threading", used == sorted(X.T.tolist()), what + ": a series fed another's values")
    # forecasts made before each observation
    M, V = np.full(p, 0.1), np.full(p, 2.0)
    want = np.zeros((n, p))
    for t in range(n):
        if t:
            want[t] = (X[t] - M) / np.sqrt(V)
        d = X[t] - M
        M, V = M + a * d, (1 - a) * V + a * d * d
    mon.ok("first-neutral", not np.any(rows[0]), f"{what}: first residual {brief(rows[0])}")
    mon.close("residuals", np.array(rows)[1:], want[1:], 1e-9, what + ": one-step-ahead residuals")
    # no look-ahead: residuals up to t are the same whatever comes later, in one batch or row by row
    t = int(rng.integers(1, n))
    Y = X.copy()
    Y[t:] = 100 * rng.standard_normal(Y[t:].shape) - 7
    log.clear()
    precise.ConditionalCovariance(vol=precise.from_skater(f), corr=Spy(r=0.1)).partial_fit(Y)
    early = [e[1] for e in log if e[0] == "corr"][:t]
    mon.close("no-look-ahead", early, want[:t], 1e-9, f"{what}: residuals before a change at {t}")
    R = feed(precise.EwaCovariance(r=0.1), want).correlation_
    mon.close("location", est.location_, M, 1e-9, what + ": location is the next forecast",
              scale=1 + np.abs(M).max())
    if np.diag(R).all() and n > 2:
        mon.close("recombined", est.covariance_, R * np.outer(np.sqrt(V), np.sqrt(V)), 1e-8,
                  what + ": covariance is D R D")
    if p > 1 and n >= 10:
        mon.keys.add((what, a, case["rep"]))
        mon.sample = {"composition": what, "events": len(log), "residuals": n}


def estimator(case, mon, rng, X):
    import precise

    n, p = X.shape
    spec = grid.conditional(rng, [0.1, 0.05])
    what = f"{grid.describe(spec)} p={p} n={n} {case['kind']}"
    est = grid.build(spec)
    prefix, means = [], []
    for x in X:
        est.partial_fit(x)
        prefix.append(est.covariance_)
        means.append(np.array(est.location_))
    mon.ok("residuals", est.n_samples_ == n, what)
    # the same composition by hand, from freshly built parts
    vols = [hand_vol(spec["vol"]) for _ in range(p)]
    corr = grid.build(spec["corr"])
    for t, x in enumerate(X):
        fm = np.array([v.mean for v in vols])
        fv = np.array([v.var for v in vols])
        e = np.zeros(p)
        for i in range(p):
            if t and fv[i] > 0:
                e[i] = (x[i] - fm[i]) / np.sqrt(fv[i])
        corr.partial_fit(e)
        for v, xi in zip(vols, x):
            v.push(xi)
        mon.close("location", means[t], [v.mean for v in vols], 1e-9, f"{what} after {t + 1}", scale=1e-300 + np.abs(X).max())
    d = np.sqrt([max(v.var, 1e-12) for v in vols])
    W = corr.correlation_ * np.outer(d, d)
    mon.close("recombined", est.covariance_, W, 1e-7, what + ": covariance is D R D")
    mon.close("location", est.location_, [v.mean for v in vols], 1e-9, what,
              scale=1e-300 + np.abs(X).max())
    # causality: what was reported after t cannot depend on anything after t
    t = int(rng.integers(1, n))
    e2 = grid.build(spec)
    Y = X.copy()
    Y[t:] = rng.standard_normal(Y[t:].shape) * 50
    for k, y in enumerate(Y[:t]):
        e2.partial_fit(y)
    mon.same("causal", e2.covariance_, prefix[t - 1], what + ": prefix")
    e3 = grid.build(spec)
    deliver(rng, e3, X)
    mon.close("causal", e3.covariance_, prefix[-1], 1e-9, what + ": delivery in chunks")
    mon.raises("rejects-vol", TypeError, lambda: precise.ConditionalCovariance(vol=3.0).partial_fit(X[0]),
               "a volatility model that is neither an estimator nor a factory")
    # EWA x EWA is the DCC family: same variances, correlation of one-step-ahead residuals
    r = 0.1
    c = feed(precise.ConditionalCovariance(precise.EwaCovariance(r=r), precise.EwaCovariance(r=r)), X)
    v = [float(feed(precise.EwaCovariance(r=r), X[:, [i]]).covariance_[0, 0]) for i in range(p)]
    mon.close("dcc-like", np.diag(c.covariance_), v, 1e-7, what + ": variances of the EWA composition",
              scale=max(v)) if n > 2 else None
    if p > 1 and n >= 10:
        mon.keys.add((what, case["rep"]))


def package(case, mon, rng, X):
    """The univariate models of the skaters package itself, where it is installed."""
    import precise

    try:
        import skaters
    except ImportError:
        return
    names = [m for m in ("ema", "leaf", "crps_leaf", "scale_mixture_leaf", "garch_leaf", "laplace") if hasattr(skaters, m)]
    if not names:
        return
    name = names[int(rng.integers(len(names)))]
    p, X = X.shape[1], X[:30]
    f = getattr(skaters, name)()
    r = float(rng.uniform(0.05, 0.2))
    est = precise.ConditionalCovariance(vol=precise.from_skater(f), corr=precise.LedoitWolfCovariance(r=r))
    deliver(rng, est, X)
    corr, states, M, V = precise.LedoitWolfCovariance(r=r), [None] * p, np.zeros(p), np.ones(p)
    for t, x in enumerate(X):
        corr.partial_fit((x - M) / np.sqrt(np.maximum(V, 1e-12)) * (V > 0) if t else np.zeros(p))
        for i in range(p):
            d, states[i] = f(float(x[i]), states[i])
            M[i], V[i] = d[0].mean, d[0].std ** 2
    what = f"skaters.{name} with Ledoit-Wolf p={p} n={len(X)} {case['kind']}"
    mon.close("location", est.location_, M, 1e-9, what, scale=1e-300 + np.abs(X).max())
    d = np.sqrt(np.maximum(V, 1e-12))
    mon.close("recombined", est.covariance_, corr.correlation_ * np.outer(d, d), 1e-8, what)
    mon.see("package models", p)
    if p > 1 and len(X) >= 10:
        mon.keys.add((what, r, case["rep"]))


class hand_vol:
    def __init__(self, spec):
        self.sk = grid.Skater(spec["skater"]) if "skater" in spec else None
        self.est = None if self.sk else grid.build(spec)
        self.state, self.mean, self.var = None, 0.0, 1.0

    def push(self, y):
        if self.sk:
            d, self.state = self.sk(float(y), self.state)
            self.mean, self.var = d[0].mean, d[0].std ** 2
        else:
            self.est.partial_fit([float(y)])
            self.mean, self.var = float(self.est.location_[0]), float(self.est.covariance_[0, 0])
