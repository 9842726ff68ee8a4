"""C06 nothing the caller holds is shared with the estimator; reading changes nothing."""
import json

import numpy as np

from lib import gen, grid
from lib.util import all_names, case_rng, everything, pick_dim, same_snapshot, snapshot

RULE = ("a case is (estimator or adapter, stream, repetition): one instance lives with a hostile caller "
        "(reused buffer, read-only input, results overwritten after every read, all public reads in "
        "between) and is compared bitwise with a twin that only learns; non-trivial: reads and buffer "
        "reuse happened after at least two observations")
CLAUSES = ["input-untouched", "buffer-reuse", "outputs-are-copies", "reads-are-pure", "read-only",
           "keyed", "assessor"]


def cases(tier, seed):
    n = 24 if tier == "quick" else 60
    out = [dict(cls=c, kind=k, rep=j) for c in all_names() for j in range(n)
           for k in ("gauss", "walk", "sparse")]
    return out + [dict(cls="keyed", kind="gauss", rep=j) for j in range(6 * n)]


def reads(est, p, cond):
    fs = [lambda: est.covariance_, lambda: est.correlation_, lambda: est.location_,
          lambda: est.precision_, est.get_precision, lambda: est.n_samples_, est.get_params,
          lambda: est.mahalanobis(np.ones((3, p))), lambda: est.score(np.ones(p)),
          lambda: repr(est), lambda: est.n_features_in_]
    for a in ("gamma_", "intensity_", "shrinkage_"):
        if hasattr(type(est), a):
            fs.append(lambda a=a: getattr(est, a))
    return fs if cond else fs + [est.get_state]


def wreck(out):
    """Overwrite whatever mutable thing a read returned."""
    if isinstance(out, np.ndarray) and out.flags.writeable:
        out[...] = -7.0e7
    elif isinstance(out, dict):
        for k, v in list(out.items()):
            if isinstance(v, (list, dict, np.ndarray)):
                wreck(v)
    elif isinstance(out, list):
        for i, v in enumerate(out):
            if isinstance(v, (list, dict)):
                wreck(v)
            elif isinstance(v, float):
                out[i] = -7.0e7


def run(case, mon):
    rng = case_rng(case)
    if case["cls"] == "keyed":
        return keyed_case(case, mon, rng)
    name = case["cls"]
    cond = name == "ConditionalCovariance"
    diff = not cond and rng.random() < 0.4
    spec = grid.conditional(rng) if cond else grid.config(name, rng, diff=diff, rs=[0.2, 0.5, 0.05, 0.1])
    p = pick_dim(rng)
    n = int(rng.choice([6, 20, 45]))
    X = gen.stream(case["kind"], rng, n, p)
    what = f"{grid.describe(spec)} p={p} n={n}"
    twin, host = grid.build(spec), grid.build(spec)
    buf = np.empty(p)
    for t, x in enumerate(X):
        twin.partial_fit(x.copy())
        buf[:] = x
        mode = rng.integers(4)
        if mode == 0:
            host.partial_fit(buf)
            mon.same("input-untouched", buf, x, f"{what} step {t}")
        elif mode == 1:
            b2 = buf[None, :]
            host.partial_fit(b2)
            mon.same("input-untouched", b2[0], x, f"{what} step {t}")
        elif mode == 2:
            c = x.copy()
            c.setflags(write=False)
            host.partial_fit(c)
            mon.evals["read-only"] += 1
        else:
            big = np.vstack([x - 1, x, x + 1])
            host.partial_fit(big[1:2])
            mon.same("input-untouched", big, np.vstack([x - 1, x, x + 1]), f"{what} step {t}")
            big[...] = 1e9
        buf[:] = rng.choice([1e9, -3.0, 0.0])  # the caller goes on to reuse its buffer
        if host.n_samples_ and rng.random() < 0.5:
            fs = reads(host, p, cond)
            for i in rng.permutation(len(fs))[: int(rng.integers(1, len(fs)))]:
                wreck(fs[i]())
                mon.see("reads overwritten")
                same = ["location_", "covariance_"][int(rng.integers(2))]
                mon.same("outputs-are-copies", getattr(host, same), getattr(twin, same),
                         f"{what} step {t}: {same} after overwriting a result")
        if host.n_samples_:
            mon.same("buffer-reuse", host.covariance_, twin.covariance_, f"{what} step {t}")
    same_snapshot(mon, "reads-are-pure", snapshot(host), snapshot(twin), what)
    if not cond:
        mon.ok("reads-are-pure", json.dumps(host.get_state()) == json.dumps(twin.get_state()), what)
    # one batch, then the batch is overwritten
    B = np.asfortranarray(X) if rng.random() < 0.5 else X.copy()
    keep = B.copy()
    h = grid.build(spec)
    (h.fit if rng.random() < 0.5 else h.partial_fit)(B)
    mon.same("input-untouched", B, keep, what + ": batch")
    ref = snapshot(h)
    B[...] = -4e5
    same_snapshot(mon, "buffer-reuse", snapshot(h), ref, what + ": batch overwritten")
    for m in (2, int(rng.choice([5, 17, 40, 90, 300]))):
        Y = np.ones((m, p)) if m == 2 else gen.stream("gauss", rng, m, p)
        Y2 = Y.copy()
        h.score(Y), h.mahalanobis(Y)
        mon.same("input-untouched", Y, Y2, f"{what}: {m} scored rows")
    if name == "EwaCovariance":
        assessor_case(mon, rng)
    # a life of refits, restored checkpoints and changed parameters, often at the same number of observations:
    # read at every turn, or at the end only
    a, b, life = grid.build(spec), grid.build(spec), []
    for _ in range(int(rng.integers(2, 6))):
        m = n if rng.random() < 0.6 else int(rng.integers(2, n + 9))
        Z = gen.stream("corr", rng, m, p) * 10.0 ** rng.uniform(-1, 1)
        op = ["fit", "learn", "restore", "configure"][int(rng.integers(2 if cond else 4))]
        life.append(op)
        if op == "fit":
            act = lambda e: e.fit(Z)
        elif op == "learn":
            act = lambda e: e.partial_fit(Z[:2])
        elif op == "restore":
            saved = json.dumps(grid.build(spec).partial_fit(Z).get_state())
            act = lambda e: e.set_state(json.loads(saved))
        else:
            kw = grid.config(name, rng, diff=diff, rs=[0.2, 0.5, 0.05, 0.1])["kw"]
            act = lambda e: e.set_params(**kw)
        act(a), act(b)
        if a.n_samples_:
            everything(a)
    if a.n_samples_:
        same_snapshot(mon, "reads-are-pure", everything(a), everything(b), f"{what}: {life}, read at every turn")
    mon.keys.add((grid.describe(spec), case["kind"], p, n))
    mon.sample = {"estimator": grid.describe(spec), "p": p, "n": n, "diff": diff}


def assessor_case(mon, rng):
    import precise

    q, m = int(rng.choice([6, 2, 15, 40])), int(rng.choice([20, 5, 120, 1100]))
    m = m if q < 40 else min(m, 120)
    C, T = gen.spd(rng, q), gen.spd(rng, q)
    X = rng.standard_normal((m, q))
    keep = [a.copy() for a in (C, T, X)]
    if rng.random() < 0.5:
        for a in (C, T, X):
            a.setflags(write=False)
    for a in precise.all_assessors():
        a.score(C, X_test=X, true_cov=T)
        for u, v in zip((C, T, X), keep):
            mon.same("assessor", u, v, f"{a.name} changed its input")
    precise.suggest(X)
    precise.covariance_features(X)
    mon.same("assessor", X, keep[2], "suggest changed its input")


def keyed_case(case, mon, rng):
    from precise import keyed

    names = [f"n{i}" for i in range(int(rng.integers(2, 6)))]
    proto_spec = grid.config(["EwaCovariance", "EmpiricalCovariance", "DCCCovariance"][case["rep"] % 3],
                             rng, rs=[0.2, 0.5, 0.05], diff=rng.random() < 0.3)
    dyn = bool(case["rep"] % 2)
    kw = dict(max_universes=3, max_staleness=5) if dyn else dict(
        keys=list(names), impute=["ffill", "mean", "zero"][int(rng.integers(3))]
        if "diff" not in proto_spec["kw"] else "ffill")
    fixed_keys = kw.get("keys")
    twin = keyed(grid.build(proto_spec), dynamic=dyn, **{**kw, **({} if dyn else {"keys": list(names)})})
    host = keyed(grid.build(proto_spec), dynamic=dyn, **kw)
    what = f"keyed({grid.describe(proto_spec)}, {kw})"
    if fixed_keys is not None:
        fixed_keys.reverse()  # the caller's list of keys is the caller's
    d = {}
    for t in range(25):
        row = {k: float(rng.standard_normal()) for k in names if rng.random() < 0.85}
        if not row:
            row = {names[0]: 0.5}
        twin.update(dict(row))
        d.clear()
        d.update(row)
        host.learn_one(d)
        mon.ok("keyed", d == row and list(d) == list(row), what + ": the observation was changed")
        for k in d:
            d[k] = 1e9
        d["zz"] = 3.0
        d.pop(next(iter(d)))
        if t > 3:
            for out in (host.get_cov(), host.get_corr(), host.cov_array()[0]):
                out[...] = 1e9
            host.cov_array()[1].reverse()
            host.covariance_.clear()
            qk = [names[0]]
            host.get_cov(qk if fixed_keys is not None or names[0] in row else None)
            mon.ok("keyed", qk == [names[0]], what + ": query keys changed")
            repr(host)
            mon.see("keyed reads overwritten")
            a, ka = host.cov_array()
            b, kb = twin.cov_array()
            mon.ok("keyed", ka == kb, f"{what}: keys {ka} != {kb}")
            mon.same("keyed", a, b, f"{what} step {t}")
    mon.keys.add((what, case["rep"]))
