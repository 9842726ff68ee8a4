"""C40 out-of-sample benchmarks (research): nothing that is held out ever reaches what is judged."""
import numpy as np

from lib import gen, grid
from lib.core import Violation
from lib.harnesslog import Judge, Log, digest, make_estimators, rank_bounds, shrunk
from lib.util import case_rng

RULE = ("a case is one run of a benchmark harness with recording stand-ins for ensembles, estimators, judge and "
        "recommender (or with the real ones); the event log is replayed by an offline checker of the protocol and all "
        "reported numbers are recomputed from it; non-trivial: at least two held-out families or windows were judged")
CLAUSES = ["held-out", "one-window", "fresh-test", "every-estimator", "best-fixed", "ranks", "sampling", "reproducible",
           "trained-on-rest", "trained-picks", "rolling-windows", "rolling-numbers", "rolling-real", "no-look-ahead",
           "report", "ensembles"]


def cases(tier, seed):
    n = 1 if tier == "quick" else 10
    out = []
    for what, k in (("ensemble", 24), ("sampling", 6), ("trained", 8), ("rolling", 30), ("rolling_real", 6),
                    ("generators", 6), ("real", 2)):
        out += [dict(what=what, rep=j) for j in range(k * n)]
    return out


class patched:
    """Stand-ins wherever the harness may look the name up: in its own module or in the package."""

    def __init__(self, mod, **kw):
        import precise
        import precise.recommend
        import precise.registry

        mods = [mod, precise, precise.recommend, precise.registry]
        self.sites = [(m, k, v) for k, v in kw.items() for m in mods if hasattr(m, k)]

    def __enter__(self):
        self.old = [(m, k, getattr(m, k)) for m, k, _ in self.sites]
        for m, k, v in self.sites:
            setattr(m, k, v)

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)


def run(case, mon):
    globals()["do_" + case["what"]](case, mon, case_rng(case))


def stage(rng, log):
    names = [f"Est{c}" for c in "ABCDEFG"[:int(rng.integers(3, 8))]]
    broken = {names[int(rng.integers(len(names)))]} if rng.random() < 0.4 else set()
    ests = make_estimators(log, names, rng, broken)

    def ensemble(name):
        def g(p, r):
            B = r.standard_normal((p, 2))
            C = B @ B.T + np.diag(r.uniform(0.5, 1.5, p))
            log.add("gen", name=name, p=p, cov=C.copy())
            return C
        return g

    fams = {f"fam{i}": (ensemble(f"fam{i}"), bool(rng.random() < 0.4)) for i in range(int(rng.integers(2, 5)))}
    salt = int(rng.integers(1 << 30))

    def suggest(X, top=3):
        log.add("suggest", data=np.asarray(X).copy())
        k = int(digest(X)[:6], 16) + salt
        return [ests[(k + i) % len(ests)] for i in range(min(top, len(ests)))]

    return names, broken, ests, fams, suggest, Judge(log, salt)


def trials(log):
    out = []
    for e in log:
        if e["kind"] == "gen":
            out.append([e])
        elif out:
            out[-1].append(e)
        else:
            raise Violation("held-out", "an estimator is fitted before any problem was drawn")
    return out


def check_trial(mon, ev, ests, broken, n_train, n_test, what):
    """One window fitted by everyone, one fresh test set for every score. Returns (train, scores)."""
    fits = [e for e in ev if e["kind"] == "fit"]
    scores = [e for e in ev if e["kind"] == "score"]
    names = sorted(E.__name__ for E in ests)
    mon.ok("every-estimator", sorted(e["cls"] for e in fits) == names, f"{what}: fitted {[e['cls'] for e in fits]}")
    ids = {digest(e["data"]) for e in fits} | {digest(e["data"]) for e in ev if e["kind"] == "suggest"}
    mon.ok("one-window", len(ids) == 1, f"{what}: estimators and recommender saw {len(ids)} different windows")
    train = fits[0]["data"]
    if n_train:
        mon.ok("one-window", len(train) == n_train, f"{what}: window of {len(train)} rows, {n_train} asked for")
    mon.ok("fresh-test", len({digest(e["data"]) for e in scores}) == 1 and len(scores) == len(names) - len(broken),
           f"{what}: {len(scores)} scores on {len({digest(e['data']) for e in scores})} test sets")
    test = scores[0]["data"]
    mon.ok("fresh-test", len(test) == n_test and test.shape[1] == train.shape[1] == ev[0]["p"], f"{what}: {test.shape}")
    rows = {r.tobytes() for r in train}
    mon.ok("fresh-test", not any(r.tobytes() in rows for r in test), f"{what}: test rows occur in the window")
    out = {}
    left = list(scores)
    for E in ests:
        if E.__name__ in broken:
            out[E.__name__] = -np.inf
            continue
        C = shrunk(train, E._d)
        mine = [e for e in left if np.allclose(e["cov"], C, rtol=1e-9, atol=0)]
        mon.ok("every-estimator", len(mine) == 1, f"{what}: {E.__name__}'s covariance was scored {len(mine)} times")
        out[E.__name__] = mine[0]["value"]
    return train, out


def check_family(mon, res, held, segment, ests, broken, trials_n, n_train, n_test, pick, what):
    rest, own = segment[:trials_n], segment[trials_n:]
    mon.ok("held-out", len(own) == trials_n and all(t[0]["name"] == held for t in own),
           f"{what}: judged on {[t[0]['name'] for t in own]}")
    mon.ok("held-out", all(t[0]["name"] != held for t in rest), f"{what}: the fixed choice saw the held-out family")
    lo = {E.__name__: 0.0 for E in ests}
    hi = dict(lo)
    for t in rest:
        _, sc = check_trial(mon, t, ests, broken, n_train, n_test, what)
        for k in sc:
            a, b = rank_bounds(sc, k)
            lo[k] += a
            hi[k] += b
    bf = res["best_fixed"]
    mon.ok("best-fixed", bf in lo and all(lo[bf] <= hi[k] for k in lo), f"{what}: best fixed {bf}, rank sums {lo}")
    ra = rb = fa = fb = 0.0
    for t in own:
        train, sc = check_trial(mon, t, ests, broken, n_train, n_test, what)
        a, b = rank_bounds(sc, pick(train))
        ra, rb = ra + a / trials_n, rb + b / trials_n
        a, b = rank_bounds(sc, bf)
        fa, fb = fa + a / trials_n, fb + b / trials_n
    mon.ok("ranks", ra - 1e-9 <= res["rank_recommender"] <= rb + 1e-9, f"{what}: recommender rank "
           f"{res['rank_recommender']}, {ra}..{rb} from the log")
    mon.ok("ranks", fa - 1e-9 <= res["rank_best_fixed"] <= fb + 1e-9, f"{what}: fixed rank {res['rank_best_fixed']}, "
           f"{fa}..{fb} from the log")
    mon.see("held-out families judged")
    mon.see("harness events checked", sum(len(t) for t in segment))


def do_ensemble(case, mon, rng):
    import research.oos as oos

    log = Log()
    names, broken, ests, fams, suggest, judge = stage(rng, log)
    p, n_train, n_test = int(rng.integers(2, 6)), int(rng.integers(8, 30)), int(rng.integers(10, 40))
    if n_test == n_train:
        n_test += 1
    T, seed = int(rng.integers(1, 6)), int(rng.integers(1 << 20))
    kw = dict(p=p, n_train=n_train, n_test=n_test, trials=T, seed=seed, assessor=judge)
    what = f"{len(fams)} families, {len(ests)} estimators, {T} trials"
    with patched(oos, ENSEMBLES=fams, all_estimators=lambda: list(ests), suggest=suggest):
        res = oos.leave_one_ensemble_out(**kw)
        first = list(log)
        log.clear()
        np.random.seed(seed + 1)
        again = oos.leave_one_ensemble_out(**kw)
        mon.ok("reproducible", again == res, f"{what}: the same seed gave different results")
        log.clear()
        oos.leave_one_ensemble_out(**dict(kw, seed=seed + 1))
        other = [digest(e["data"]) for e in log if e["kind"] == "score"]
        mon.ok("reproducible", not set(other) & {digest(e["data"]) for e in first if e["kind"] == "score"},
               f"{what}: another seed gave the same data")
        text = oos.report(res)
    ts = trials(first)
    mon.ok("held-out", list(res) == list(fams) and len(ts) == 2 * T * len(fams), f"{what}: {len(ts)} trials")
    mon.ok("fresh-test", len({digest(t[0]["cov"]) for t in ts}) == len(ts), f"{what}: a problem was reused")
    pick = lambda w: names[(int(digest(w)[:6], 16) + judge.salt) % len(names)]
    for i, held in enumerate(fams):
        check_family(mon, res[held], held, ts[2 * T * i:2 * T * (i + 1)], ests, broken, T, n_train, n_test, pick,
                     f"{what}, held out {held}")
    for name, r in res.items():
        line = [ln for ln in text.splitlines() if ln.startswith(name + " ")]
        win = "rec" if r["rank_recommender"] <= r["rank_best_fixed"] else "fix"
        mon.ok("report", len(line) == 1 and line[0].split()[1:] == [
            r["best_fixed"], f"{r['rank_recommender']:.2f}", f"{r['rank_best_fixed']:.2f}", win], f"{what}: {line}")
    means = text.splitlines()[-1].split()[-2:]
    mon.ok("report", means == [f"{np.mean([r[k] for r in res.values()]):.2f}"
                               for k in ("rank_recommender", "rank_best_fixed")], f"{what}: {text.splitlines()[-1]}")
    mon.keys.add((what, case["rep"]))
    mon.sample = {"run": what, "events": len(first)}


def do_sampling(case, mon, rng):
    """Windows really come from the family's covariance, light- or heavy-tailed as declared."""
    import research.oos as oos

    log = Log()
    names, broken, ests, fams, suggest, judge = stage(rng, log)
    p = 3
    with patched(oos, ENSEMBLES=fams, all_estimators=lambda: list(ests), suggest=suggest):
        oos.leave_one_ensemble_out(p=p, n_train=60, n_test=300, trials=12, seed=int(rng.integers(1 << 20)), assessor=judge)
    white = {k: [] for k in fams}
    cross = []
    for t in trials(log):
        L = np.linalg.cholesky(t[0]["cov"])
        fit = next(e for e in t if e["kind"] == "fit")["data"]
        test = next(e for e in t if e["kind"] == "score")["data"]
        for X in (fit, test):
            white[t[0]["name"]].append(np.linalg.solve(L, X.T).T)
        cross.append(np.linalg.solve(L, fit[:60].T).ravel() @ np.linalg.solve(L, test[:60].T).ravel() / 180)
    for name, (_, heavy) in fams.items():
        Z = np.vstack(white[name])
        n = len(Z)
        what = f"{name} ({'heavy' if heavy else 'Gaussian'}, {n} rows)"
        tol = (12 if heavy else 5) / np.sqrt(n)
        mon.ok("sampling", np.abs(Z.mean(axis=0)).max() <= 6 / np.sqrt(n), f"{what}: mean {Z.mean(axis=0)}")
        S = Z.T @ Z / n
        mon.ok("sampling", np.abs(S - np.eye(p)).max() <= 2 * tol, f"{what}: whitened second moment {S.round(3)}")
        r2 = (Z ** 2).sum(axis=1)  # Gaussian: chi-square with p; t(5): a tail of P(|x|^2 > 20) ~ 0.01, not 0.0002
        far = np.mean(r2 > 16)
        mon.ok("sampling", (0.006 < far < 0.04) if heavy else far < 0.005, f"{what}: {far:.4f} of rows beyond 4 sd")
        mon.see("rows whitened", n)
    mon.ok("sampling", abs(np.mean(cross)) <= 6 / np.sqrt(180 * len(cross)), f"window and test correlate: {np.mean(cross)}")
    mon.keys.add(("sampling", case["rep"]))


def do_trained(case, mon, rng):
    from sklearn.tree import DecisionTreeClassifier

    import research.oos as oos
    from precise import covariance_features

    log = Log()
    names, broken, ests, fams, suggest, judge = stage(rng, log)
    T, n_prob, p = int(rng.integers(2, 5)), int(rng.integers(25, 45)), 4
    kw = dict(p=p, n_train=20, n_test=33, trials=T, n_problems=n_prob, seed=int(rng.integers(1 << 20)), assessor=judge)
    with patched(oos, ENSEMBLES=fams, all_estimators=lambda: list(ests), suggest=suggest):
        res = oos.leave_one_family_out_trained(**kw)
    ts = trials(log)
    step = n_prob + 2 * T
    what = f"trained, {len(fams)} families, {n_prob} problems, {T} trials"
    mon.ok("held-out", list(res) == list(fams) and len(ts) == step * len(fams), f"{what}: {len(ts)} problems drawn")
    feats = ["p_over_n", "effective_rank", "sphericity", "condition_number", "mean_abs_offdiag_corr",
             "avg_excess_kurtosis", "p"]
    for i, held in enumerate(fams):
        seg = ts[step * i:step * (i + 1)]
        mon.ok("trained-on-rest", all(t[0]["name"] != held for t in seg[:n_prob]), f"{what}: the tree was trained on "
               f"the held-out family {held}")
        X, y = [], []
        for t in seg[:n_prob]:
            train, sc = check_trial(mon, t, ests, broken, None, 400, what + ", training")
            f = covariance_features(train)
            X.append([float(f[k]) for k in feats])
            y.append(max(names, key=lambda k: sc[k]))
        X = np.array(X)
        m, s = X.mean(0), X.std(0) + 1e-9
        clf = DecisionTreeClassifier(max_depth=5, min_samples_leaf=10, random_state=0).fit((X - m) / s, y)

        def pick(window):
            f = covariance_features(window)
            return str(clf.predict(((np.array([float(f[k]) for k in feats]) - m) / s)[None, :])[0])

        for t in seg[n_prob + T:]:  # the shipped model is not consulted on the held-out family
            mon.ok("trained-picks", not any(e["kind"] == "suggest" for e in t), f"{what}: shipped model asked")
        check_family(mon, res[held], held, seg[n_prob:], ests, broken, T, 20, 33, pick, f"{what}, held out {held}")
        mon.evals["trained-picks"] += 1
    mon.keys.add((what, case["rep"]))


def gmv(C, test):
    w = np.linalg.solve(C, np.ones(len(C)))
    return float(np.mean((test @ (w / w.sum())) ** 2))


def vol(v):
    return float(np.sqrt(252.0 * np.mean(v)))


def do_rolling(case, mon, rng):
    import research.oos_equity as eq

    log = Log()
    names, _, ests, _, suggest, judge = stage(rng, log)
    for E in ests:
        E._broken = False
    p, L, H = int(rng.integers(2, 6)), int(rng.integers(5, 40)), int(rng.integers(1, 25))
    step = int(rng.choice([1, 3, H, 2 * H + 1]))
    T = L + H + int(rng.choice([0, 1, step, 5 * step + 2, 40]))
    R = gen.stream("factor", rng, T, p) * 10.0 ** rng.choice([-2, -2, 0, -5, -8, 3])
    keep = R.copy()
    R.setflags(write=False)
    with patched(eq, all_estimators=lambda: list(ests), suggest=suggest):
        fixed, rec, oracle, ew, counts = eq.rolling_oos(R, train_len=L, test_len=H, step=step)
        text = eq.report(fixed, rec, oracle, ew, counts)
    what = f"rolling T={T} p={p} train={L} test={H} step={step}"
    starts = range(0, T - L - H + 1, step)
    seen = [e for e in log if e["kind"] in ("fit", "suggest")]
    want = [R[t:t + L] for t in starts for _ in range(len(ests) + 1)]
    mon.ok("rolling-windows", len(seen) == len(want), f"{what}: {len(seen)} fits and suggestions, {len(want)} expected")
    for e, w in zip(seen, want):
        mon.ok("no-look-ahead", e["data"].shape == w.shape and np.array_equal(e["data"], w), f"{what}: {e['kind']} saw "
               f"other rows than its training window")
    per = {n: [] for n in names}
    recs, best, equal, picks = [], [], [], {}
    for t in starts:
        tr, te = R[t:t + L], R[t + L:t + L + H]
        v = {E.__name__: gmv(shrunk(tr, E._d), te) for E in ests}
        for n in names:
            per[n].append(v[n])
        c = names[(int(digest(tr)[:6], 16) + judge.salt) % len(names)]
        picks[c] = picks.get(c, 0) + 1
        recs.append(v[c])
        best.append(min(v.values()))
        equal.append(float(np.mean(te.mean(axis=1) ** 2)))
    mon.ok("rolling-numbers", set(fixed) == set(names) and counts == picks, f"{what}: picks {counts}, expected {picks}")
    got = [fixed[n] for n in names] + [rec, oracle, ew]
    exp = [vol(per[n]) for n in names] + [vol(recs), vol(best), vol(equal)]
    for a, b in zip(got, exp):
        mon.close("rolling-numbers", a, b, 1e-7, what)
    mon.ok("rolling-numbers", oracle <= min(fixed.values()) * (1 + 1e-12) and oracle <= rec * (1 + 1e-12), what)
    order = sorted(fixed, key=lambda k: fixed[k])
    lines = text.splitlines()
    mon.ok("report", [ln.split()[0] for ln in lines[3:3 + len(names)]] == order, f"{what}: {lines[3:3 + len(names)]}")
    rk = f"rank {1 + sum(v < rec for v in fixed.values())}/{len(names)}"
    mon.ok("report", any(ln.startswith("RECOMMENDER") and rk in ln and f"{rec:.4f}" in ln for ln in lines) and
           any(ln.startswith("best single fixed") and order[0] in ln for ln in lines), f"{what}: {lines[-4:]}")
    mon.same("no-look-ahead", R, keep, what)
    mon.see("rolling windows", len(starts))
    if len(starts) > 1:
        mon.keys.add((what, case["rep"]))


def do_rolling_real(case, mon, rng):
    import precise
    import research.oos_equity as eq

    p, L, H = int(rng.integers(2, 5)), int(rng.integers(20, 40)), int(rng.integers(5, 21))
    T = L + 3 * H + 5
    R = gen.stream(str(rng.choice(["factor", "t4", "corr"])), rng, T, p) * 0.01
    fixed, rec, oracle, ew, counts = eq.rolling_oos(R, train_len=L, test_len=H, step=H)
    per, recs, best = {}, [], []
    for t in range(0, T - L - H + 1, H):
        v = {}
        for E in precise.all_estimators():
            C = E().fit(R[t:t + L]).covariance_
            w = np.linalg.pinv(C, hermitian=True, rcond=1e-12) @ np.ones(p)
            v[E.__name__] = float(np.mean((R[t + L:t + L + H] @ (w / w.sum())) ** 2))
            per.setdefault(E.__name__, []).append(v[E.__name__])
        recs.append(v[precise.suggest(R[t:t + L], top=1)[0].__name__])
        best.append(min(v.values()))
    what = f"real rolling T={T} p={p}"
    for n in per:
        mon.close("rolling-real", fixed[n], vol(per[n]), 1e-5, f"{what}: {n}")
    mon.close("rolling-real", [rec, oracle], [vol(recs), vol(best)], 1e-5, what)
    # what lies after the last scored row is never looked at; what lies in a test set changes no pick
    S = np.vstack([R, 100 * rng.standard_normal((H - 1, p))])
    mon.ok("no-look-ahead", eq.rolling_oos(S[:T], train_len=L, test_len=H, step=H)[4] == counts, what)
    Q = R.copy()
    Q[-H if (T - L - H) % H == 0 else -((T - L - H) % H) - H:] *= -3.0
    mon.ok("no-look-ahead", eq.rolling_oos(Q, train_len=L, test_len=H, step=H)[4] == counts, f"{what}: later rows "
           "changed which estimators were picked")
    mon.keys.add((what, case["rep"]))


def do_generators(case, mon, rng):
    import research.oos as oos

    for name, (g, heavy) in oos.ENSEMBLES.items():
        p, s = int(rng.integers(3, 30)), int(rng.integers(1 << 30))
        a = np.asarray(g(p, np.random.default_rng(s)))
        np.random.seed(case["rep"])
        b = np.asarray(g(p, np.random.default_rng(s)))
        what = f"ensemble {name} p={p}"
        mon.same("ensembles", a, b, what + ": the same generator state gave another problem")
        mon.ok("ensembles", a.shape == (p, p) and np.allclose(a, a.T) and np.trace(a) > 0 and np.linalg.eigvalsh(a)[0] > -1e-8 * np.abs(a).max(),
               what + ": not a covariance")
        mon.ok("ensembles", isinstance(heavy, (bool, np.bool_)), what)
    d = 0.7 ** np.abs(np.subtract.outer(np.arange(5), np.arange(5)))
    mon.close("ensembles", oos.ENSEMBLES["ar1_toeplitz"][0](5, rng), d, 1e-12, "ar1")
    mon.ok("ensembles", sum(h for _, h in oos.ENSEMBLES.values()) >= 2, "no heavy-tailed ensembles")
    mon.keys.add(("generators", case["rep"]))


def do_real(case, mon, rng):
    """The real harness end to end: reproducible, and no rank outside 1..number of estimators."""
    import precise
    import research.oos as oos

    kw = dict(p=4, n_train=20, n_test=30, trials=1, seed=int(rng.integers(1 << 20)))
    a = oos.leave_one_ensemble_out(**kw)
    np.random.seed(1)
    mon.ok("reproducible", a == oos.leave_one_ensemble_out(**kw), "leave_one_ensemble_out with the real ensembles")
    k = len(precise.all_estimators())
    for r in a.values():
        mon.ok("ranks", 1 <= r["rank_recommender"] <= k and 1 <= r["rank_best_fixed"] <= k, str(r))
    mon.keys.add(("real", case["rep"]))
