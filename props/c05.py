"""C05 checkpoint / restore at any crash point resumes bit for bit."""
import copy
import json
import pickle

import numpy as np

from lib import gen, grid
from lib.util import all_names, case_rng, feed, same_snapshot, snapshot

RULE = ("a case is (estimator, stream, repetition): at every prefix length (crash point) the state is "
        "taken through JSON text, pickle or deepcopy into a fresh or used instance, the stream is "
        "resumed and compared bitwise with an uninterrupted twin; non-trivial: a crash point with "
        "observations before and after it")
CLAUSES = ["json-resume", "pickle-resume", "deepcopy-resume", "chained", "strict-json", "at-restore",
           "snapshot-not-live", "restore-none", "params-kept", "conditional-refuses", "keyed-deepcopy",
           "original-unaffected", "rate-travels", "reconfigured"]


def cases(tier, seed):
    n = 10 if tier == "quick" else 60
    out = [dict(cls=c, kind=k, rep=j) for c in all_names() for j in range(n)
           for k in ("gauss", "factor", "regime")]
    return out + [dict(cls="keyed", kind="gauss", rep=j) for j in range(3 * n)]


def full(est):
    s = snapshot(est)
    s["precision_"] = est.precision_
    s["score"] = est.score(np.linspace(-1, 1, est.n_features_in_))
    return s


def via(how, est, new, rng, mon, what):
    """A restored twin of est, by the given route."""
    if how == "json":
        state = est.get_state()
        text = json.dumps(state, allow_nan=False)
        mon.ok("strict-json", json.dumps(json.loads(text), allow_nan=False) == text, what)
        tgt = new()
        if rng.random() < 0.5:  # a used instance, possibly of another dimension
            q = int(rng.integers(1, 6))
            tgt.partial_fit(rng.standard_normal((int(rng.integers(1, 12)), q)))
            if tgt.n_samples_ and rng.random() < 0.3:
                full(tgt)
        elif est.n_samples_ and rng.random() < 0.5:  # or one that has seen, and shown, as many others
            full(tgt.partial_fit(rng.standard_normal((est.n_samples_ + bool(est.get_params().get("diff")), est.n_features_in_)) * 3))
        loaded = json.loads(text)
        r = tgt.set_state(loaded)
        mon.ok("json-resume", r is tgt, what + ": set_state does not return self")
        mon.ok("snapshot-not-live", json.dumps(loaded) == text, what + ": set_state changed its input")
        return tgt
    if how == "pickle":
        return pickle.loads(pickle.dumps(est, protocol=int(rng.integers(2, 6))))
    return copy.deepcopy(est)


def run(case, mon):
    rng = case_rng(case)
    if case["cls"] == "keyed":
        return keyed_case(case, mon, rng)
    name = case["cls"]
    cond = name == "ConditionalCovariance"
    diff = not cond and rng.random() < 0.4
    rs = [0.2, 0.15, 0.5, 0.05]
    spec = grid.conditional(rng, rs) if cond else grid.config(name, rng, diff=diff, rs=rs)
    new = grid.factory(spec)
    p = int(rng.integers(1, 7))
    n = int(rng.choice([14, 26, 40]))
    X = gen.stream(case["kind"], rng, n, p)
    whole = new()
    routes = ["pickle", "deepcopy"] if cond else ["json", "pickle", "deepcopy"]
    prefix, finals = new(), {}
    for x in X:
        whole.partial_fit(x)
    want = full(whole)
    for t in range(n + 1):
        how = routes[(t + case["rep"]) % len(routes)]
        what = f"{grid.describe(spec)} p={p} crash after {t} of {n}, via {how}"
        tw = via(how, prefix, new, rng, mon, what)
        mon.see(f"crash points via {how}")
        mon.ok("params-kept", repr(tw.get_params().keys()) == repr(prefix.get_params().keys()) and
               (cond or tw.get_params() == prefix.get_params()), what)
        if t > (1 if diff else 0):
            same_snapshot(mon, "at-restore", full(tw), full(prefix), what)
        else:
            mon.ok("at-restore", tw.n_samples_ == prefix.n_samples_, what)
        before = None if cond else json.dumps(prefix.get_state())
        for x in X[t:]:
            tw.partial_fit(x)
            if rng.random() < 0.1 and tw.n_samples_:
                tw.covariance_
        same_snapshot(mon, how + "-resume", full(tw), want, what)
        if not cond:
            mon.ok("original-unaffected", json.dumps(prefix.get_state()) == before, what)
        if 0 < t < n:
            mon.keys.add((grid.describe(spec), how, t, p))
        if t < n:
            prefix.partial_fit(X[t])
    same_snapshot(mon, "original-unaffected", full(prefix), want,
                  f"{grid.describe(spec)}: original after all its copies ran on")
    # the state carries the learning rate: a restored instance resumes whatever rate it was built with
    if not cond and "r" in new().get_params():
        t = int(rng.integers(1 + diff, n))
        other = new().set_params(r=0.07)
        tw = other.set_state(json.loads(json.dumps(feed(new(), X[:t]).get_state())))
        feed(tw, X[t:])
        same_snapshot(mon, "rate-travels", full(tw), want,
                      f"{grid.describe(spec)} p={p}: crash after {t}, restored into r=0.07")
    # parameters changed mid-stream: what counts then is the same before and after a checkpoint
    if not cond:
        for how in routes:
            t = int(rng.integers(1 + diff, n))
            late = grid.config(name, rng, diff=diff, rs=rs)
            src = feed(new(), X[:t])
            text = json.dumps(src.get_state())
            live = src.set_params(**late["kw"])
            if how == "json":  # the state as saved, into an instance built with the later parameters
                if rng.random() < 0.5:
                    text = json.dumps(live.get_state())
                tw = grid.build(late).set_state(json.loads(text))
            else:
                tw = via(how, live, None, rng, mon, "")
            if rng.random() < 0.5:
                live.covariance_
            feed(live, X[t:])
            feed(tw, X[t:])
            same_snapshot(mon, "reconfigured", full(tw), full(live),
                          f"{grid.describe(spec)} p={p}: set to {grid.describe(late)} after {t}, then via {how}")
    # checkpoint after every single observation
    e = new()
    for t, x in enumerate(X):
        e = via(routes[int(rng.integers(len(routes)))], e, new, rng, mon,
                f"{grid.describe(spec)} chained at {t}")
        e.partial_fit(x)
    same_snapshot(mon, "chained", full(e), want, f"{grid.describe(spec)} p={p}: chained restores")
    if cond:
        e = new().partial_fit(X)
        mon.raises("conditional-refuses", NotImplementedError, e.get_state, "Conditional.get_state")
        mon.raises("conditional-refuses", NotImplementedError, lambda: e.set_state({}),
                   "Conditional.set_state")
        return
    # the snapshot is a plain value: later learning does not change it, nor it the estimator
    e = feed(new(), X[: n // 2])
    s = e.get_state()
    text = json.dumps(s)
    tgt = new().set_state(s)
    ref = snapshot(e)
    e.partial_fit(X)
    tgt.partial_fit(X)
    mon.ok("snapshot-not-live", json.dumps(s) == text, grid.describe(spec) + ": the snapshot changed")
    tgt = new().set_state(s)
    scramble(s)
    same_snapshot(mon, "snapshot-not-live", snapshot(tgt), ref,
                  grid.describe(spec) + ": editing the snapshot after restore")
    tgt.set_state(None)
    mon.ok("restore-none", tgt.n_samples_ == 0 and tgt.get_state() is None, grid.describe(spec))
    mon.raises("restore-none", ValueError, lambda: tgt.covariance_, "read after set_state(None)")
    tgt.partial_fit(X)
    same_snapshot(mon, "restore-none", full(tgt), want, grid.describe(spec) + ": restart after None")
    mon.ok("restore-none", new().get_state() is None, "unfitted get_state")
    mon.sample = {"estimator": grid.describe(spec), "p": p, "crash_points": n + 1}


def scramble(o):
    it = o.items() if isinstance(o, dict) else enumerate(o)
    for k, v in list(it):
        if isinstance(v, (dict, list)):
            scramble(v)
        elif isinstance(v, float):
            o[k] = 1e9


def keyed_case(case, mon, rng):
    from precise import keyed

    names = [f"n{i}" for i in range(5)]
    spec = grid.config(["EwaCovariance", "ShrunkCovariance", "DCCCovariance"][case["rep"] % 3], rng)
    dyn = case["rep"] % 2 == 0
    kw = dict(max_universes=3, max_staleness=4) if dyn else {"keys": names}
    rows = [{k: float(rng.standard_normal()) for k in names if rng.random() < 0.8} or {names[0]: 1.0}
            for _ in range(25)]
    whole = keyed(grid.build(spec), dynamic=dyn, **kw)
    pre = copy.deepcopy(whole)
    whole.learn_many(rows)
    want = whole.get_cov()
    for t in range(len(rows) + 1):
        tw = copy.deepcopy(pre)
        for r in rows[t:]:
            tw.update(r)
        mon.same("keyed-deepcopy", tw.get_cov(), want,
                 f"keyed({grid.describe(spec)}, dynamic={dyn}) copied after {t}")
        if t < len(rows):
            pre.update(rows[t])
    mon.same("keyed-deepcopy", pre.get_cov(), want, "keyed original after its copies ran on")
    mon.keys.add(("keyed", dyn, grid.describe(spec)))
