"""C43 the bake-off (research): fair scenarios, every estimator scored by every judge, correct leaderboards."""
import re

import numpy as np

from lib.util import case_rng

RULE = ("a case is one bake-off: scenarios of random size are checked against their declared truth, small bake-offs "
        "with the real estimators are rescored independently, and leaderboards over random score tables are "
        "recomputed; non-trivial: at least five scenarios or a table with at least three estimators")
CLAUSES = ["truth", "sampling", "fresh-test", "contaminated", "regime", "heavy", "reproducible", "rescored", "complete",
           "leaderboard", "winners"]


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    return [dict(what=w, rep=j) for w, k in (("scenarios", 16), ("rescore", 3), ("board", 60)) for j in range(k * n)]


def run(case, mon):
    globals()["do_" + case["what"]](case, mon, case_rng(case))


def do_scenarios(case, mon, rng):
    from research import bakeoff

    d, n, nt, s = int(rng.integers(3, 14)), int(rng.choice([900, 901, 1203, 1500])), int(rng.choice([400, 700])), int(rng.integers(1 << 30))
    scs = bakeoff.build_scenarios(d=d, n=n, n_test=nt, seed=s)
    np.random.seed(7)
    again = bakeoff.build_scenarios(d=d, n=n, n_test=nt, seed=s)
    mon.ok("reproducible", [a[0] for a in scs] == [a[0] for a in again] and len({a[0] for a in scs}) == len(scs) >= 5,
           f"{[a[0] for a in scs]}")
    for a, b in zip(scs, again):
        for u, v in zip(a[1:], b[1:]):
            mon.same("reproducible", u, v, f"{a[0]}: same seed")
    other = bakeoff.build_scenarios(d=d, n=n, n_test=nt, seed=s + 1)
    mon.ok("reproducible", not any(np.array_equal(a[1], b[1]) for a, b in zip(scs, other)), "another seed, same data")
    for name, train, test, cov in scs:
        what = f"{name} d={d} n={n}"
        cov = np.asarray(cov)
        p = len(cov)
        w = np.linalg.eigvalsh(cov)
        mon.ok("truth", np.allclose(cov, cov.T) and w[0] > -1e-8 * w[-1] and w[-1] > 0, f"{what}: truth {w[0]}..{w[-1]}")
        mon.ok("truth", train.shape[1] == test.shape[1] == p and len(test) == nt, f"{what}: {train.shape} {test.shape}")
        mon.ok("truth", name == "high_dim_low_n" or len(train) == n // 2 * 2 or len(train) == n, f"{what}: {len(train)} rows")
        if name == "high_dim_low_n":
            mon.ok("truth", len(train) < 2 * p, f"{what}: {len(train)} rows, {p} columns")
        rows = {r.tobytes() for r in train}
        mon.ok("fresh-test", not any(r.tobytes() in rows for r in test), f"{what}: test rows were trained on")
        if w[0] <= 1e-6 * w[-1]:
            continue
        L = np.linalg.cholesky(cov)
        T = np.linalg.solve(L, test.T).T
        heavy = name == "heavy_tailed"
        tol = 6 / np.sqrt(nt)
        off = lambda Z: np.abs(np.cov(Z.T, bias=True) - np.eye(p)).max()
        if heavy:  # directions are free of the tails, the typical radius says whether the scale is right
            r2 = np.einsum("ij,ij->i", T, T)
            U = T / np.sqrt(r2)[:, None]
            med = np.median(r2) / p
            mon.ok("sampling", np.abs(p * U.T @ U / nt - np.eye(p)).max() <= 1.6 * tol and 0.4 <= med <= 0.85,
                   f"{what}: test rows are not from the truth (median squared radius {med:.3f} p)")
        mon.ok("sampling", heavy or off(T) <= 1.6 * tol and np.abs(T.mean(axis=0)).max() <= 6 / np.sqrt(nt), f"{what}: test rows are "
               f"not from the truth ({off(T):.3f})")
        Z = np.linalg.solve(L, train.T).T
        if name in ("equicorr", "one_factor", "ar1_toeplitz") or name.startswith("randomcov"):
            mon.ok("sampling", off(Z) <= 10 / np.sqrt(n), f"{what}: training rows are not from the truth ({off(Z):.3f})")
        elif name == "regime_change":
            h = len(Z) // 2
            mon.ok("regime", off(Z[h:]) <= 10 / np.sqrt(h) and off(Z[:h]) > 0.5, f"{what}: halves {off(Z[:h]):.3f} {off(Z[h:]):.3f}")
        elif name == "contaminated":
            r2 = np.einsum("ij,ij->i", Z, Z)
            far = np.mean(r2 > p + 8 * np.sqrt(2 * p) + 10)
            mon.ok("contaminated", 0.015 <= far <= 0.12, f"{what}: {far:.3f} gross rows")
            G = train[r2 > p + 8 * np.sqrt(2 * p) + 10]
            if len(G) > 15:  # noise that is independent of the rest: the correlation is destroyed there
                of = ~np.eye(p, dtype=bool)
                sd = np.sqrt(np.diag(cov))
                mine = np.mean((G.T @ G / np.sqrt(np.outer((G ** 2).sum(axis=0), (G ** 2).sum(axis=0))))[of])
                mon.ok("contaminated", abs(mine) < 0.75 * np.mean((cov / np.outer(sd, sd))[of]), f"{what}: correlation "
                       f"{mine:.3f} in the gross rows")
            mon.ok("contaminated", off(Z[r2 <= p + 8 * np.sqrt(2 * p) + 10]) <= 0.6, f"{what}: clean rows")
        elif heavy:
            r2 = np.einsum("ij,ij->i", Z, Z) / p
            U = Z / np.sqrt(p * r2)[:, None]  # one gross row dominates the second moment, not the directions
            mon.ok("heavy", np.abs(p * U.T @ U / len(U) - np.eye(p)).max() <= 10 / np.sqrt(n), f"{what}: directions")
            mon.ok("heavy", off(Z) <= 150 / np.sqrt(n) and np.quantile(r2, 0.99) > 1.35 * (1 + 2.33 * np.sqrt(2 / p) + 1.2 / p)
                   / (1 if p < 8 else 0.9), f"{what}: 99% radius {np.quantile(r2, 0.99):.3f}")
        mon.see("scenarios checked")
    mon.keys.add(("scenarios", d, case["rep"]))


def do_rescore(case, mon, rng):
    import precise
    from research import bakeoff

    kw = dict(d=int(rng.integers(3, 6)), n=int(rng.integers(60, 95)), n_test=50, seed=int(rng.integers(1 << 30)))
    res = bakeoff.run(**kw)
    scs = bakeoff.build_scenarios(**kw)
    mon.ok("complete", list(res) == precise.estimator_names() and all(
        list(c) == [s[0] for s in scs] for c in res.values()), "estimators or scenarios missing")
    judges = {a.name: a for a in precise.all_assessors()}
    for E in precise.all_estimators():
        for name, train, test, cov in scs:
            got = res[E.__name__][name]
            mon.ok("complete", set(got) == set(judges), f"{E.__name__} on {name}: {set(judges) ^ set(got)}")
            C = E().fit(train).covariance_
            for k, a in judges.items():
                v = float(a.score(C, X_test=test, true_cov=cov))
                mon.ok("rescored", got[k] == v or abs(got[k] - v) <= 1e-9 * (1 + abs(v)), f"{E.__name__} on {name} by {k}: "
                       f"{got[k]} recomputed {v}")
    mon.see("cells rescored", len(res) * len(scs) * len(judges))
    mon.keys.add(("rescore", case["rep"]))


def do_board(case, mon, rng):
    from research import bakeoff

    ests = [f"Est{i}" for i in range(int(rng.integers(1, 9)))]
    cells = [f"scenario{i}" for i in range(int(rng.integers(1, 7)))]
    judges = ["SchurLikelihood", "A", "B", "C"][:int(rng.integers(1, 5))]
    res = {e: {c: {j: float(rng.normal() * 10) for j in judges} for c in cells} for e in ests}
    if rng.random() < 0.5:  # failed evaluations
        for _ in range(3):
            res[ests[int(rng.integers(len(ests)))]][cells[int(rng.integers(len(cells)))]][
                judges[int(rng.integers(len(judges)))]] = -np.inf
    prim = judges[int(rng.integers(len(judges)))]
    args = () if prim == "SchurLikelihood" and rng.random() < 0.5 else (prim,)
    text = bakeoff.leaderboard(res, *args).splitlines()
    what = f"{len(ests)} estimators, {len(cells)} scenarios, by {prim}"
    lo = {e: np.mean([1 + sum(res[o][c][prim] > res[e][c][prim] for o in ests) for c in cells]) for e in ests}
    hi = {e: np.mean([sum(res[o][c][prim] >= res[e][c][prim] for o in ests) for c in cells]) for e in ests}
    rows = [ln.split() for ln in text if ln.startswith("Est")]
    mon.ok("leaderboard", sorted(r[0] for r in rows) == sorted(ests), f"{what}: {rows}")
    shown = [float(r[1]) for r in rows]
    mon.ok("leaderboard", shown == sorted(shown), f"{what}: not sorted by rank: {shown}")
    for r in rows:
        mon.ok("leaderboard", lo[r[0]] - 0.006 <= float(r[1]) <= hi[r[0]] + 0.006, f"{what}: {r[0]} has rank {r[1]}, "
               f"{lo[r[0]]:.2f}..{hi[r[0]]:.2f} from the scores")
        for j, cell in zip([prim] + [k for k in judges if k != prim][:2], r[2:]):
            v = [res[r[0]][c][j] for c in cells if np.isfinite(res[r[0]][c][j])]
            mon.ok("leaderboard", cell == (f"{np.mean(v):.3f}" if v else "-inf") or abs(float(cell) - np.mean(v)) < 6e-4,
                   f"{what}: {r[0]} mean {j} {cell}")
    w = bakeoff.per_scenario_winners(res, *args)
    got = dict(re.findall(r"(scenario\d+)\s*->\s*(\S+)", w))
    mon.ok("winners", set(got) == set(cells), f"{what}: {got}")
    for c in cells:
        best = max(res[e][c][prim] for e in ests)
        mon.ok("winners", got[c] in ests and res[got[c]][c][prim] == best, f"{what}: {c} won by {got[c]}")
    if len(ests) >= 3:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"table": what}
