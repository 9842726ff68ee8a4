"""C07 instances are independent: interleaved, threaded, or built from shared prototypes."""
import json
import os
import subprocess
import sys
import threading

import numpy as np

from lib import gen, grid
from lib.util import all_names, case_rng, feed, same_snapshot, snapshot

RULE = ("a case interleaves several instances (same and different classes, shared prototype objects, "
        "keyed adapters) in a random schedule, or runs them in concurrent threads with a 1-microsecond "
        "switch interval; each is compared bitwise with the same stream learned alone; or runs a list of jobs (settings, "
        "views, judges) in fresh processes in opposite orders; non-trivial: at least two instances really alternated, or "
        "four jobs changed places")
CLAUSES = ["interleaved", "threads", "prototype-unfitted", "shared-parts", "keyed-independent", "process-history"]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(tier, seed):
    n = 6 if tier == "quick" else 40
    out = [dict(cls=c, mode="interleave", rep=j) for c in all_names() for j in range(n)]
    out += [dict(cls="mixed", mode="interleave", rep=j) for j in range(4 * n)]
    out += [dict(cls=c, mode="threads", rep=j) for c in all_names() for j in range(max(1, n // 3))]
    out += [dict(cls="mixed", mode="threads", rep=j) for j in range(2 * n)]
    out += [dict(cls="shared", mode="proto", rep=j) for j in range(4 * n)]
    out += [dict(cls=c, mode="order", rep=j) for c in all_names() for j in range(max(1, n // 6))]
    out += [dict(cls=c, mode="order", rep=j) for c in ("judges", "mixed") for j in range(max(1, n // 3))]
    return out


def agree(a, b):
    def one(x, y):
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        x, y = float("nan") if x is None else x, float("nan") if y is None else y
        return x == y or (x != x and y != y) or abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-9)
    return all(one(x, y) for x, y in zip(a.ravel(), b.ravel()))


def opposite(case, mon, rng):
    """What a process did before does not matter: the same jobs in opposite orders give the same readings."""
    ps = [int(v) for v in rng.choice(np.arange(2, 9), size=2, replace=False)]
    jobs = []
    for i in range(10):
        job = dict(id=str(i), what="estimator", seed=int(rng.integers(1 << 30)), p=ps[i % 2], n=int(rng.choice([15, 45])))
        if case["cls"] == "judges":
            job.update(what="judge", **[
                dict(cls="SchurLikelihood", kw=dict(gamma=round(float(rng.uniform()), 3), n_blocks=int(rng.integers(1, 6)),
                                                    interpolation=str(rng.choice(["linear", "geodesic"])))),
                dict(cls="BlockPseudoLikelihood", kw=dict(block_size=int(rng.integers(1, 6)))),
                dict(cls=str(rng.choice(["LogLikelihood", "GMVVariance", "VariogramScore", "SteinLoss"])), kw={})][i % 3])
        else:
            name = case["cls"] if case["cls"] != "mixed" else all_names()[int(rng.integers(len(all_names())))]
            job["spec"] = grid.config(name, rng, rs=[0.05, 0.2, 0.5])
            if case["cls"] == "mixed" and i % 3 == 2:
                job.update(what="keyed", dynamic=bool(rng.random() < 0.5))
            if case["cls"] == "mixed" and i % 5 == 4:
                job.update(what="suggest")
        jobs.append(job)
    got = []
    for js in (jobs, jobs[::-1]):
        r = subprocess.run([sys.executable, os.path.join(HERE, "lib", "orderprobe.py")], input=json.dumps(js),
                           capture_output=True, text=True, timeout=300)
        mon.ok("process-history", r.returncode == 0, lambda: f"{case['cls']}: {r.stderr[-300:]}")
        got.append(json.loads(r.stdout))
    for j in jobs:
        a, b = (np.asarray(g[j["id"]], dtype=object) for g in got)
        mon.ok("process-history", a.shape == b.shape and agree(a, b), f"{j}: its readings depend on what was done "
               "before in the same process")
    mon.see("jobs run in both orders", len(jobs))
    mon.keys.add(("order", case["cls"], case["rep"]))


def pick(case, rng, m):
    out = []
    for _ in range(m):
        name = case["cls"]
        if name == "mixed":
            name = all_names()[int(rng.integers(len(all_names())))]
        out.append(grid.config(name, rng, rs=[0.05, 0.2, 0.5], **(
            {} if name == "ConditionalCovariance" else {"diff": rng.random() < 0.3})))
    if rng.random() < 0.5:
        out[1] = out[0]
    return out


def run(case, mon):
    rng = case_rng(case)
    if case["mode"] == "order":
        return opposite(case, mon, rng)
    if case["mode"] == "proto":
        return proto(case, mon, rng)
    m = int(rng.integers(2, 5))
    specs = pick(case, rng, m)
    ps = [int(rng.integers(1, 7)) for _ in specs]
    if rng.random() < 0.5:
        ps[1] = ps[0]
    Xs = [gen.stream("corr", rng, int(rng.choice([12, 40])), p) for p in ps]
    alone = [snapshot(feed(grid.build(s), X)) for s, X in zip(specs, Xs)]
    ests = [grid.build(s) for s in specs]
    what = "; ".join(map(grid.describe, specs))
    if case["mode"] == "interleave":
        pos = [0] * m
        order = []
        while any(q < len(X) for q, X in zip(pos, Xs)):
            i = int(rng.choice([j for j in range(m) if pos[j] < len(Xs[j])]))
            ests[i].partial_fit(Xs[i][pos[i]])
            pos[i] += 1
            order.append(i)
            if rng.random() < 0.2:
                j = int(rng.integers(m))
                if ests[j].n_samples_:
                    ests[j].correlation_, ests[j].score(Xs[j][0])
        sw = sum(a != b for a, b in zip(order, order[1:]))
        mon.see("instance switches", sw)
        for i in range(m):
            same_snapshot(mon, "interleaved", snapshot(ests[i]), alone[i], f"instance {i} of [{what}]")
        mon.keys.add(("il", what, tuple(order[:20])))
    else:
        errors = []
        gate = threading.Barrier(m)
        log = []

        def work(i):
            try:
                gate.wait()
                for x in Xs[i]:
                    ests[i].partial_fit(x)
                    log.append(i)
                    if ests[i].n_samples_:
                        ests[i].covariance_
            except Exception as e:
                errors.append(f"{type(e).__name__}: {e}")

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(m)]
            [t.start() for t in ts]
            [t.join() for t in ts]
        finally:
            sys.setswitchinterval(old)
        mon.ok("threads", not errors, f"[{what}] in threads: {errors[:2]}")
        for i in range(m):
            same_snapshot(mon, "threads", snapshot(ests[i]), alone[i], f"thread {i} of [{what}]")
        sw = sum(a != b for a, b in zip(log, log[1:]))
        mon.see("thread switches", sw)
        if sw > m:
            mon.keys.add(("th", what, case["rep"]))
    mon.sample = {"instances": what, "mode": case["mode"], "switches": sw}


def proto(case, mon, rng):
    """Prototypes handed to composites are cloned: never fitted, never shared."""
    import precise

    p = int(rng.integers(2, 5))
    X = gen.stream("corr", rng, 30, p)
    Y = gen.stream("scaled", rng, 30, p)
    v, c = (grid.build(grid.config(n, rng, rs=[0.1, 0.3])) for n in ("EwaCovariance", "ShrunkCovariance"))
    same = rng.random() < 0.3
    if same:
        c = v
    alone = {}
    for tag, D in (("X", X), ("Y", Y)):
        e = precise.ConditionalCovariance(type(v)(**v.get_params()), type(c)(**c.get_params()))
        alone[tag] = snapshot(feed(e, D))
    a, b = precise.ConditionalCovariance(v, c), precise.ConditionalCovariance(v, c)
    nested = precise.ConditionalCovariance(vol=v, corr=precise.ConditionalCovariance(v, c))
    for x, y in zip(X, Y):
        a.partial_fit(x)
        nested.partial_fit(x)
        b.partial_fit(y)
    same_snapshot(mon, "shared-parts", snapshot(a), alone["X"], "two composites sharing their parts")
    same_snapshot(mon, "shared-parts", snapshot(b), alone["Y"], "two composites sharing their parts")
    mon.ok("prototype-unfitted", v.n_samples_ == 0 and c.n_samples_ == 0, "a prototype was fitted")
    e1, e2 = precise.ConditionalCovariance(), precise.ConditionalCovariance()
    e1.partial_fit(X)
    mon.ok("shared-parts", e2.n_samples_ == 0 and e1.vol is not e2.vol, "default parts are shared")
    # the keyed adapters
    names = [f"n{i}" for i in range(p)]
    for dyn in (False, True):
        pr = grid.build(grid.config(["EwaCovariance", "TylerCovariance", "BlockCovariance",
                                     "FactorCovariance"][case["rep"] % 4], rng, rs=[0.1, 0.3]))
        if rng.random() < 0.5:
            pr.partial_fit(rng.standard_normal((5, p)))  # a fitted prototype contributes no data
        n0 = pr.n_samples_
        solo = {}
        for tag, D in (("X", X), ("Y", Y)):
            k = precise.keyed(type(pr)(**pr.get_params()), dynamic=dyn)
            solo[tag] = k.learn_many([dict(zip(names, r)) for r in D.tolist()]).get_cov()
        k1, k2 = precise.keyed(pr, dynamic=dyn), precise.keyed(pr, dynamic=dyn)
        for x, y in zip(X.tolist(), Y.tolist()):
            k1.update(dict(zip(names, x)))
            k2.update(dict(zip(names, y)))
        mon.same("keyed-independent", k1.get_cov(), solo["X"], f"keyed({pr!r}, dynamic={dyn})")
        mon.same("keyed-independent", k2.get_cov(), solo["Y"], f"keyed({pr!r}, dynamic={dyn})")
        mon.ok("prototype-unfitted", pr.n_samples_ == n0, "the keyed prototype was fitted")
        k3, k4 = precise.keyed(dynamic=dyn), precise.keyed(dynamic=dyn)
        k3.update(dict(zip(names, X[0].tolist())))
        mon.raises("keyed-independent", ValueError, k4.get_cov, "an empty adapter had data")
    mon.keys.add(("proto", repr(v), repr(c), p))
