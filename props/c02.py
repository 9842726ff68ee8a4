"""C02 correlation_ is the normalised covariance_, at every scale."""
import numpy as np

from lib import gen, grid, ref
from lib.core import brief
from lib.util import case_rng, is_cov, all_names, pick_dim

RULE = ("a case is (estimator or keyed adapter, stream kind, scale 1e-7..1e6, repetition); "
        "non-trivial: some correlation strictly between 0 and 1 in magnitude was judged")
CLAUSES = ["shape", "unit-diagonal", "bounded", "normalises", "psd", "zero-variance", "keyed-corr",
           "small-scale"]
KINDS = gen.WELL + ["constant_col", "duplicate_col", "sparse", "outliers", "ticks", "mixed_scales",
                    "zeros_then_data", "walk", "short", "all_constant"]
SCALES = [1.0, 1e-3, 1e-5, 1e-7, 1e3, 1e6]


def cases(tier, seed):
    n = 6 if tier == "quick" else 12
    out = [dict(cls=c, kind=k, rep=j) for c in all_names() for k in KINDS for j in range(n)]
    out += [dict(cls="keyed", kind=k, rep=j) for k in KINDS for j in range(3 * n)]
    return out


def judge(mon, C, R, what):
    p = len(C)
    mon.ok("shape", R.shape == (p, p) and np.all(np.isfinite(R)), lambda: f"{what}: {brief(R)}")
    mon.ok("shape", np.max(np.abs(R - R.T), initial=0) <= 1e-12, what + ": not symmetric")
    d = np.diag(C)
    pos = d > 1e-280
    if pos.any():
        e = np.max(np.abs(np.diag(R)[pos] - 1))
        mon.ok("unit-diagonal", e <= 1e-9, lambda: f"{what}: diagonal {brief(np.diag(R))}, "
                                                   f"variances {brief(d)}")
        if d[pos].min() < 1e-9:
            mon.ok("small-scale", e <= 1e-9, what)
    mon.ok("bounded", np.max(np.abs(R), initial=0) <= 1 + 1e-7, lambda: f"{what}: entry "
           f"{np.max(np.abs(R)):.9g}")
    s = np.sqrt(np.where(pos, d, 0))
    sub = np.ix_(pos, pos)
    if pos.any():
        err = np.abs(C / np.where(s > 0, s, 1)[:, None] / np.where(s > 0, s, 1)[None, :] - R)[sub]
        mon.ok("normalises", np.max(err) <= 1e-9,
               lambda: f"{what}: correlation differs from cov/(s_i s_j) by {np.max(err):.3g}")
    zero = d == 0
    if zero.any():
        mon.ok("zero-variance", np.all(R[zero][:, ~zero] == 0),
               what + ": a constant variable has a non-zero correlation")
    is_cov(mon, "psd", R, p, what + ": correlation", tol=1e-8)
    off = np.abs(R - np.diag(np.diag(R)))
    return bool(np.any((off > 1e-3) & (off < 0.999)))


def run(case, mon):
    rng = case_rng(case)
    kind = case["kind"]
    scale = SCALES[(case["rep"] + int(rng.integers(3))) % len(SCALES)]
    p = pick_dim(rng, big=rng.random() < 0.2)
    n = int(rng.choice([8, 60, 200]))
    if rng.random() < 0.06:
        p, n = (2, 1500) if rng.random() < 0.5 else (60, 80)
    X = gen.stream(kind, rng, n, p) * scale
    if case["cls"] == "keyed":
        return keyed_case(case, mon, rng, X, p)
    spec = grid.default(case["cls"]) if case["rep"] == 0 else grid.config(case["cls"], rng)
    est = grid.build(spec)
    real = False
    stops = set(rng.integers(1, n + 1, 4).tolist()) | {2, len(X)}
    for t, x in enumerate(X, 1):
        est.partial_fit(x)
        if t in stops:
            C, R = est.covariance_, est.correlation_
            real |= judge(mon, C, R, f"{grid.describe(spec)} p={p} n={t} {kind} x{scale:g}")
            mon.see("matrices")
    if real:
        mon.keys.add((grid.describe(spec), kind, p, scale))
        mon.sample = {"estimator": grid.describe(spec), "stream": kind, "scale": scale,
                      "R01": float(R[0, 1]) if p > 1 else None}


def keyed_case(case, mon, rng, X, p):
    from precise import keyed

    spec = grid.config(["EwaCovariance", "EmpiricalCovariance", "ShrunkCovariance",
                        "LedoitWolfCovariance", "HuberCovariance"][int(rng.integers(5))], rng)
    dyn = bool(rng.integers(2))
    k = keyed(grid.build(spec), dynamic=dyn)
    names = [f"n{i}" for i in range(p)]
    for t, x in enumerate(X):
        row = dict(zip(names, x.tolist()))
        if dyn and rng.random() < 0.3 and p > 2 and t > 1:
            row.pop(names[int(rng.integers(p))])
        k.update(row)
    q = [names[i] for i in rng.permutation(p)]
    C, R = k.get_cov(q), k.get_corr(q)
    what = f"keyed({grid.describe(spec)}, dynamic={dyn}) p={p} {case['kind']}"
    mon.ok("keyed-corr", np.all(np.diag(R) == 1.0), f"{what}: diagonal {brief(np.diag(R))}")
    d = np.diag(C)
    if d.min() > 1e-280:
        s = np.sqrt(d)
        mon.close("keyed-corr", R, C / s[:, None] / s[None, :], 1e-9, what, scale=1.0)
    D, keys = k.correlation_, k.cov_array()[1]
    R2 = k.get_corr()
    mon.ok("keyed-corr", list(D) == list(keys) and all(
        D[a][b] == R2[i, j] for i, a in enumerate(keys) for j, b in enumerate(keys)),
        what + ": correlation_ disagrees with get_corr()")
    off = np.abs(R - np.eye(p))
    if np.any((off > 1e-3) & (off < 0.999)):
        mon.keys.add(("keyed", dyn, grid.describe(spec), case["kind"], p))
