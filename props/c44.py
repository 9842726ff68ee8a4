"""C44 Which judge has power (research): judges equal their formulas, powers are honest frequencies."""
import inspect

import numpy as np

from lib import gen
from lib.util import case_rng

RULE = ("a case is a set of covariances, held-out rows and directions whose judge values are recomputed by another "
        "formula, or a power experiment of random size whose judges are recording or oracle stand-ins and whose "
        "reported frequencies are recomputed; non-trivial: more than two variables, or at least ten judged trials")
CLAUSES = ["formula", "proper", "kl", "subspace", "block", "schur", "perturbed", "power-recount", "gold", "paired", "oracle",
           "relabelled", "equal-judges", "reproducible", "report", "pure"]


def cases(tier, seed):
    n = 1 if tier == "quick" else 10
    out = []
    for what, k in (("formulas", 120), ("recount", 8), ("oracle", 6), ("experiments", 8), ("report", 20)):
        out += [dict(what=what, rep=j) for j in range(k * n)]
    return out


def run(case, mon):
    globals()["do_" + case["what"]](case, mon, case_rng(case))


def gauss(C, X):
    """Mean log-density up to the 2 pi constant, through a Cholesky factor."""
    L = np.linalg.cholesky(C)
    return float(-np.log(np.diag(L)).sum() - 0.5 * np.mean((np.linalg.solve(L, X.T) ** 2).sum(axis=0)))


def floored(C, ratio=1e-3):
    w, V = np.linalg.eigh((C + C.T) / 2)
    return (V * np.maximum(w, ratio * w[-1])) @ V.T


def kl(S, C):
    w = np.linalg.eigvals(np.linalg.solve(C, S)).real
    return 0.5 * float(np.sum(w - 1 - np.log(w)))


def do_formulas(case, mon, rng):
    import research.metric_power as mp

    p, n = int(rng.integers(2, 13)), int(rng.choice([1, 2, 30, 60, 200]))
    scale = 10.0 ** rng.uniform(-3, 3)
    C = gen.spd(rng, p, 0.2, 5.0) * scale
    X = rng.standard_normal((n, p)) @ np.linalg.cholesky(gen.spd(rng, p, 0.2, 5.0) * scale).T
    D = rng.standard_normal((int(rng.integers(1, 20)), p))
    D /= np.linalg.norm(D, axis=1, keepdims=True)
    what = f"p={p} n={n} scale={scale:.1e}"
    keep = [C.copy(), X.copy(), D.copy()]
    for a in (C, X, D):
        a.setflags(write=False)
    M = X - X.mean(axis=0)
    S = M.T @ M / n
    want = {"loglik": gauss(C, X), "frobenius": -np.sqrt(((C - S) ** 2).sum()),
            "random_proj": np.mean([np.mean(-0.5 * np.log(d @ C @ d) - 0.5 * (X @ d) ** 2 / (d @ C @ d)) for d in D]),
            "maha_calib": -abs(np.mean([x @ np.linalg.solve(C, x) for x in X]) - p)}
    w = np.linalg.solve(C, np.ones(p))
    w /= w.sum()
    want["min_variance"] = -np.mean((X @ w) ** 2)
    if n > 2 * p:
        want["stein"] = -2 * kl(S, C)
    mon.ok("formula", set(mp.METRICS) >= set(want), f"{what}: {sorted(mp.METRICS)}")
    for k, v in want.items():
        got = mp.METRICS[k](C, X, D)
        mon.ok("formula", isinstance(got, float) and np.isfinite(got), f"{what}: {k} is {got!r}")
        mon.close("formula", got, v, 1e-8, f"{what}: {k}", scale=abs(v) + (p if k in ("loglik", "stein", "maha_calib") else 0))
    if hasattr(mp, "_kl"):
        T = gen.spd(rng, p, 0.2, 5.0) * scale
        mon.close("kl", mp._kl(T, C), kl(T, C), 1e-8, f"{what}: divergence", scale=p)
        mon.close("kl", mp._kl(T, T), 0.0, 1e-9, f"{what}: divergence from itself", scale=p)
    # held-out rows with second moment exactly the truth: the truth scores best
    if n > p + 1 and n >= 30:
        T = gen.spd(rng, p, 0.2, 5.0) * scale
        Z = np.linalg.solve(np.linalg.cholesky(S), M.T).T @ np.linalg.cholesky(T).T
        for k in ("loglik", "frobenius", "stein", "random_proj", "min_variance", "maha_calib"):
            a, b = mp.METRICS[k](T, Z, D), mp.METRICS[k](C, Z, D)
            mon.ok("proper", a >= b - 1e-8 * (abs(a) + abs(b) + p), f"{what}: {k} puts a rival above the truth: {a}, {b}")
        mon.close("proper", mp.METRICS["loglik"](T, Z, D) - mp.METRICS["loglik"](C, Z, D), kl(T, C), 1e-8,
                  f"{what}: regret and divergence", scale=p)
    if hasattr(mp, "_kproj_loglik") and hasattr(mp, "_random_subspaces"):
        k = int(rng.integers(1, p + 1))
        subs = mp._random_subspaces(p, k, 3, np.random.default_rng(case["rep"]))
        for W in subs:
            mon.ok("subspace", W.shape == (k, p) and np.allclose(W @ W.T, np.eye(k), atol=1e-10), f"{what}: subspace")
        mon.close("subspace", mp._kproj_loglik(C, X, subs), np.mean([gauss(W @ C @ W.T, X @ W.T) for W in subs]),
                  1e-8, f"{what} k={k}", scale=p)
        full = mp._random_subspaces(p, p, 2, np.random.default_rng(case["rep"]))
        mon.close("subspace", mp._kproj_loglik(C, X, full), gauss(C, X), 1e-8, f"{what}: whole space", scale=p)
    bs = int(rng.integers(1, p + 3))
    blocks = [slice(s, min(s + bs, p)) for s in range(0, p, bs)]
    B = sum(gauss(floored(C[b, b]), X[:, b]) for b in blocks) - 0.5 * p * np.log(2 * np.pi)
    mon.close("block", mp.block_pseudo_loglik(C, X, bs), B, 1e-8, f"{what}: blocks of {bs}", scale=abs(B) + p)
    mon.close("block", mp.block_pseudo_loglik(C, X, p), gauss(C, X) - 0.5 * p * np.log(2 * np.pi), 1e-8,
              f"{what}: one block is the full likelihood", scale=abs(B) + p)
    # an estimate that is not positive definite is judged after the same repair at every block size
    w = np.linalg.eigvalsh(C)
    N = C - rng.uniform(1.0, 1.5) * (w[0] if p > 2 else 0.5 * (w[0] + w[1])) * np.eye(p)
    for b in {1 if p < 3 else 2, bs, p}:
        parts = [slice(s, min(s + b, p)) for s in range(0, p, b)]
        if all(np.linalg.eigvalsh(N[q, q])[-1] > 0.05 * w[-1] for q in parts):
            v = sum(gauss(floored(N[q, q]), X[:, q]) for q in parts) - 0.5 * p * np.log(2 * np.pi)
            mon.close("block", mp.block_pseudo_loglik(N, X, b), v, 1e-7, f"{what}: blocks of {b}, indefinite", scale=abs(v) + p)
    if hasattr(mp, "_schur_loglik"):
        ids, g = rng.integers(0, 3, p), float(rng.choice([0.0, 1.0, rng.uniform()]))
        E = np.where(ids[:, None] == ids[None, :], C, g * C)
        v = gauss(floored(E), X)
        mon.close("schur", mp._schur_loglik(C, X, ids, g), v, 1e-8, f"{what}: blocks {ids} gamma={g}", scale=abs(v) + p)
    if hasattr(mp, "_perturb") and hasattr(mp, "_project_pd"):
        eps = float(rng.uniform(0.01, 0.99))
        P = mp._perturb(C, eps, np.random.default_rng(case["rep"]))
        w = np.linalg.eigvalsh(P)
        mon.ok("perturbed", np.allclose(P, P.T, rtol=0, atol=1e-12 * w[-1]) and w[0] >= 0.999e-3 * w[-1], f"{what}: {w}")
        Q = mp._perturb(C, 1e-3, np.random.default_rng(case["rep"]))
        mon.close("perturbed", np.linalg.norm(Q - C), 1e-3 * np.linalg.norm(C), 1e-6, f"{what}: size of a small error",
                  scale=1e-3 * np.linalg.norm(C))
        A = rng.standard_normal((p, p))
        r = float(rng.choice([1e-3, 0.05]))
        if np.linalg.eigvalsh(A + A.T)[-1] > 0.1:
            mon.close("perturbed", mp._project_pd(A, floor_ratio=r), floored(A, r), 1e-9, f"{what}: projection")
    for a, b in zip((C, X, D), keep):
        mon.same("pure", a, b, what)
    if p > 2:
        mon.keys.add((what, case["rep"]))
    mon.sample = {"inputs": what}


class swapped:
    def __init__(self, mod, metrics):
        self.mod, self.new = mod, metrics

    def __enter__(self):
        self.old = dict(self.mod.METRICS)
        self.mod.METRICS.clear()
        self.mod.METRICS.update(self.new)

    def __exit__(self, *a):
        self.mod.METRICS.clear()
        self.mod.METRICS.update(self.old)


def stage(rng):
    p = int(rng.integers(2, 6))
    big = 4000
    grid = [int(v) for v in rng.choice([5, 10, 20, 50, 80], size=2, replace=False)] + [big]
    rng.shuffle(grid)
    a, b = float(rng.uniform(0.05, 0.3)), float(rng.uniform(0.5, 0.95))
    if rng.random() < 0.5:
        a, b = b, a
    return p, grid, dict(p=p, eps_good=a, eps_bad=b, n_grid=grid, trials=int(rng.integers(15, 40)),
                         n_dirs=int(rng.integers(1, 30)), min_gap=0.3, seed=int(rng.integers(1 << 20)))


def do_recount(case, mon, rng):
    """Every judge is called through a recorder; power is recounted from the recorded values."""
    import research.metric_power as mp

    p, grid, kw = stage(rng)
    log = []

    def rec(name, f):
        def g(cov, X, dirs):
            v = f(cov, X, dirs)
            log.append((name, np.array(cov), np.array(X), np.array(dirs), v))
            return v
        return g

    with swapped(mp, {k: rec(k, f) for k, f in mp.METRICS.items()}):
        power, gap, g = mp.run(**kw)
    what = f"power p={p} grid={grid} eps={kw['eps_good']:.2f}/{kw['eps_bad']:.2f}"
    mon.ok("power-recount", list(g) == list(grid) and set(power) == set(mp.METRICS), f"{what}: {g} {sorted(power)}")
    trials = {}
    for name, cov, X, dirs, v in log:
        trials.setdefault(dirs.tobytes(), []).append((name, cov, X, dirs, v))
    gaps, sd, hits = [], [], {(m, n): 0 for m in mp.METRICS for n in grid}
    for ev in trials.values():
        covs = {c.tobytes(): c for _, c, _, _, _ in ev}
        pools = {len(X): X for _, _, X, _, _ in ev}
        mon.ok("paired", len(covs) == 2 and set(pools) == set(grid) and len(ev) == 2 * len(grid) * len(mp.METRICS),
               f"{what}: {len(covs)} estimates, sample sizes {sorted(pools)}, {len(ev)} scores in a trial")
        mon.ok("paired", all(np.array_equal(X, pools[len(X)]) for _, _, X, _, _ in ev) and
               all(np.array_equal(pools[n], pools[max(grid)][:n]) for n in grid), f"{what}: judges saw different rows")
        d = ev[0][3]
        mon.ok("paired", d.shape == (kw["n_dirs"], p) and np.allclose(np.linalg.norm(d, axis=1), 1), f"{what}: directions")
        S = pools[max(grid)].T @ pools[max(grid)] / max(grid)
        k1, k2 = sorted(covs, key=lambda c: kl(S, covs[c]))
        gaps.append(kl(S, covs[k2]) - kl(S, covs[k1]))
        A = (np.linalg.inv(covs[k2]) - np.linalg.inv(covs[k1])) @ S  # the gap is linear in the second moments
        sd.append(np.sqrt(np.trace(A @ A) / (2 * max(grid))))
        mon.ok("gold", gaps[-1] > kw["min_gap"] - 6 * sd[-1], f"{what}: a pair whose gap is {gaps[-1]:.3f} was judged")
        for m in mp.METRICS:
            for n in grid:
                v = {c.tobytes(): v for name, c, X, _, v in ev if name == m and len(X) == n}
                hits[m, n] += v[k1] > v[k2]
    T = len(trials)
    mon.ok("paired", len({ev[0][2][:5].tobytes() for ev in trials.values()}) == T, f"{what}: rows reused between trials")
    for m in mp.METRICS:
        for n in grid:  # a near-tie may be ordered differently by the sample than by the hidden truth
            close = sum(x < 6 * e for x, e in zip(gaps, sd))
            mon.ok("power-recount", abs(power[m][n] * T - hits[m, n]) <= close + 1e-6,
                   f"{what}: {m} at n={n} reported {power[m][n]:.3f}, recounted {hits[m, n]}/{T}")
    mon.ok("gold", abs(gap - np.mean(gaps)) <= 6 * np.mean(sd) + 1e-9, f"{what}: mean gap {gap}, {np.mean(gaps)} from data")
    if kw["eps_good"] > kw["eps_bad"]:
        mon.ok("relabelled", power["loglik"][max(grid)] >= 0.85, f"{what}: with the labels swapped the likelihood's "
               f"power is {power['loglik'][max(grid)]}")
    mon.see("judged trials", T)
    mon.see("judge calls", len(log))
    if T >= 10:
        mon.keys.add((what, case["rep"]))


def do_oracle(case, mon, rng):
    """An oracle judge has power one, its opposite and a constant judge power zero; seeds reproduce."""
    import research.metric_power as mp

    p, grid, kw = stage(rng)
    pool = {}

    def oracle(cov, X, dirs):  # the rows at the largest n determine the truth closely
        pool.setdefault(dirs.tobytes(), []).append(X)
        return -kl(X.T @ X / len(X), cov)

    kw["n_grid"] = [4000]
    kw["min_gap"] = 0.5
    with swapped(mp, {"right": oracle, "wrong": lambda c, X, d: -oracle(c, X, d), "tie": lambda c, X, d: 0.0}):
        power, gap, _ = mp.run(**kw)
        np.random.seed(3)
        again = mp.run(**kw)
        other = mp.run(**dict(kw, seed=kw["seed"] + 1))
    what = f"oracle p={p} {kw['eps_good']:.2f}/{kw['eps_bad']:.2f}"
    mon.ok("oracle", power["right"][4000] >= 0.9 and power["wrong"][4000] <= 0.1 and power["tie"][4000] == 0,
           f"{what}: {power}")
    mon.ok("reproducible", again == (power, gap, [4000]) and other[1] != gap, f"{what}: same seed, other result")
    mon.keys.add((what, case["rep"]))


def do_experiments(case, mon, rng):
    """The larger experiments: frequencies, judges that are the same judge agree, seeds reproduce."""
    import research.metric_power as mp

    s, T = int(rng.integers(1 << 20)), int(rng.integers(15, 30))
    p = int(rng.integers(5, 12))

    def freq(res, n, what):
        for k, v in res.items():
            mon.ok("power-recount", 0 <= v <= 1 and (n is None or abs(v * n - round(v * n)) < 1e-6), f"{what}: {k}: {v}")

    def twice(f, **kw):
        a = f(**kw)
        np.random.seed(5)
        mon.ok("reproducible", f(**kw) == a, f"{f.__name__} {kw}")
        mon.ok("reproducible", "seed" in inspect.signature(f).parameters, f.__name__)
        return a

    pw, gap = twice(mp.projection_power, p=p, k_list=(1, 2, p, None), total_dirs=2 * p, n_test=30, trials=T, seed=s)
    freq(pw, None, f"projection p={p}")
    mon.ok("equal-judges", abs(pw[p] - pw[None]) < 1e-9, f"projection p={p}: k=p {pw[p]}, full {pw[None]}")
    mon.ok("gold", gap >= 0.005, f"projection p={p}: mean gap {gap} below the smallest admitted")
    pw, _ = mp.projection_power(p=p, k_list=(None,), eps_good=0.9, eps_bad=0.02, n_test=1500, trials=T, min_gap=0.5, seed=s)
    mon.ok("relabelled", pw[None] >= 0.85, f"projection p={p}: labels swapped, full likelihood {pw[None]}")
    kw = dict(p=30, bulk=6, n_test=40, trials=T, seed=s)
    pw = twice(mp.proof_high_dim, k_list=(2, None), **kw)
    freq(pw, T, "high-dim")
    mon.ok("equal-judges", set(pw) == {"loglik", "stein", "frobenius", "proj_k2", "proj_k30"} and
           abs(pw["proj_k30"] - pw["loglik"]) <= 1.5 / T, f"high-dim: {pw}")
    for a, b in ((0.02, 0.6), (0.6, 0.02)):  # no noise in the tail, plenty of rows: the judges see the bulk
        pw = mp.proof_high_dim(sig_bulk_good=a, sig_bulk_bad=b, sig_tail=0.0, k_list=(10,), **dict(kw, n_test=3000))
        mon.ok("relabelled", pw["loglik"] >= 0.85 and pw["frobenius"] >= 0.85 and pw["proj_k10"] >= 0.7,
               f"high-dim errors {a}/{b}: {pw}")
    pw = twice(mp.schur_power, p=24, g=4, gammas=(0.0, 0.5, 1.0), n_test=60, trials=T, seed=s)
    freq(pw, T, "schur")
    mon.ok("equal-judges", set(pw) == {"full", "gamma_0.0", "gamma_0.5", "gamma_1.0"} and
           abs(pw["gamma_1.0"] - pw["full"]) <= 1.5 / T, f"schur: {pw}")
    pw = mp.schur_power(p=24, g=4, err_good=0.3, err_bad=0.01, sig_cross=0.0, gammas=(0.5,), n_test=3000, trials=T, seed=s)
    mon.ok("relabelled", pw["full"] >= 0.9 and pw["gamma_0.5"] >= 0.6, f"schur without noise, labels swapped: {pw}")
    pw = twice(mp.pseudo_likelihood_power, regime="clean", block_sizes=(3, None), p=40, bulk=int(rng.integers(2, 40)),
               n_test=40, trials=T, seed=s)
    freq(pw, T, "pseudo, clean")
    mon.ok("equal-judges", set(pw) == {"frobenius", "full_loglik", "pll_b3", "pll_b20"} and
           abs(pw["pll_b20"] - pw["full_loglik"]) <= 1.5 / T, f"pseudo, clean: {pw}")
    pw = twice(mp.pseudo_likelihood_power, block_sizes=(5, None), **kw)
    freq(pw, T, "pseudo, noisy tail")
    pw = mp.pseudo_likelihood_power(sig_good=0.6, sig_bad=0.02, sig_tail=0.0, block_sizes=(5, None), **dict(kw, n_test=3000))
    mon.ok("relabelled", min(pw["full_loglik"], pw["pll_b30"]) >= 0.85, f"pseudo without noise, swapped: {pw}")
    pw = mp.pseudo_likelihood_power(regime="clean", eps_good=0.9, eps_bad=0.02, block_sizes=(None,), p=8, bulk=20,
                                    n_test=2000, trials=T, seed=s)
    mon.ok("relabelled", pw["full_loglik"] >= 0.85 and pw["pll_b8"] >= 0.85, f"pseudo, clean, swapped: {pw}")
    mon.see("experiments", 11)
    mon.keys.add(("experiments", case["rep"]))


def do_report(case, mon, rng):
    import research.metric_power as mp

    names = [f"judge{c}" for c in "abcdefg"[:int(rng.integers(2, 8))]]
    grid = sorted(int(v) for v in rng.choice(500, size=int(rng.integers(1, 6)), replace=False) + 2)
    power = {m: {n: float(rng.uniform()) for n in grid} for m in names}
    gap = float(rng.uniform(0, 9))
    lines = mp.report(power, gap, grid).splitlines()
    what = f"{len(names)} judges, grid {grid}"
    mean = {m: float(np.mean(list(power[m].values()))) for m in names}
    rows = [ln.split() for ln in lines if ln.startswith("judge")]
    mon.ok("report", f"{gap:.3f}" in lines[0] and [r[0] for r in rows] == sorted(names, key=lambda m: -mean[m]),
           f"{what}: {lines}")
    for r in rows:
        mon.ok("report", r[1:] == [f"{power[r[0]][n]:.3f}" for n in grid] + [f"{mean[r[0]]:.3f}"], f"{what}: {r}")
    pw = {1: float(rng.uniform()), 3: float(rng.uniform()), None: float(rng.uniform())}
    lines = [ln.split() for ln in mp.projection_report(pw, gap, p=11).splitlines()[-3:]]
    mon.ok("report", lines == [["1", f"{pw[1]:.3f}"], ["3", f"{pw[3]:.3f}"], ["p=11", f"{pw[None]:.3f}"]], f"{lines}")
    mon.keys.add((what, case["rep"]))
