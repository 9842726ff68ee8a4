"""C25 equivariances: translation, permutation, sign flips, rescaling, rotation, linear maps."""
import numpy as np

from lib import gen, grid, ref
from lib.util import all_names, case_rng, feed, pick_dim, stable_config

RULE = ("a case is (estimator, stream kind, repetition): the stream and its transformed copy are learned "
        "by twin instances and compared (a metamorphic oracle: no reference values); non-trivial: p > 1 "
        "and a transformation that changed the data")
CLAUSES = ["translation", "permutation", "within-block", "sign-flips", "uniform-scale", "per-series-scale",
           "rotation", "linear-map", "order", "keyed-order"]
BLOCKY = {"BlockCovariance", "SchurCovariance", "SchurLedoitWolfCovariance", "SchurConditionalCovariance"}
PER = {"EmpiricalCovariance", "EwaCovariance", "DiagonalCovariance", "DCCCovariance", "BlockCovariance",
       "SchurCovariance", "SchurConditionalCovariance", "ShrunkCovariance", "PartialMomentsCovariance",
       "HuberCovariance", "AdaptiveEwaCovariance"}
ROT = {"EmpiricalCovariance", "EwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance",
       "HuberCovariance", "AdaptiveEwaCovariance", "GeodesicEwaCovariance", "PartialMomentsCovariance"}
LIN = {"EmpiricalCovariance", "EwaCovariance", "HuberCovariance", "AdaptiveEwaCovariance",
       "PartialMomentsCovariance"}


# free of absolute floors (1e-8 on the eigenvalues of blocked and geodesic estimates, 1e-12 on DCC variances)
UNFLOORED = {n + "Covariance" for n in ("Empirical", "Diagonal", "Ewa", "AdaptiveEwa", "LedoitWolf", "OAS", "Shrunk",
                                        "PartialMoments", "Huber", "Factor")}


def cases(tier, seed):
    n = 12 if tier == "quick" else 50
    kinds = ["gauss", "corr", "factor", "t4", "regime", "ar", "uniform"]
    return [dict(cls=c, kind=k, rep=j) for c in all_names() for k in kinds for j in range(n)]


def run(case, mon):
    rng = case_rng(case)
    name, p = case["cls"], pick_dim(rng)
    spec = stable_config(name, rng, p, **({} if name == "ConditionalCovariance" else
                                          {"diff": rng.random() < 0.15}))
    skate = "skater" in str(spec)
    if skate:  # the stand-in skater has an absolute prior, hence no equivariance
        spec["vol"] = {"cls": "EwaCovariance", "kw": {"r": 0.1}}
    kw = spec.get("kw", {})
    if name == "AdaptiveEwaCovariance":  # near rate 1 the covariance is singular, its inverse chaotic
        kw["max_r"] = max(kw["r"], min(kw["max_r"], 0.4 / p))
    if name == "DCCCovariance":  # at rate 1/2 and above a variance can touch the absolute floor 1e-12
        kw["r"] = min(kw.get("r", 0.05), 0.2)
        kw["vol_r"] = min(kw.get("vol_r") or kw["r"], 0.4)
    geo = name == "GeodesicEwaCovariance"
    geoi = kw.get("interpolation") == "geodesic"
    if geoi:  # likewise: the interpolation multiplies by the inverse root of its end
        kw["r"] = min(kw["r"], 0.4 / p)
    nb = grid.burn(kw.get("r", 0.05)) if kw.get("r", 0.05) > 0.004 else 60
    n = nb + 20 if geo else max(3 * p, nb) + int(rng.integers(10, 80))
    X = gen.stream(case["kind"], rng, n, p)
    base = feed(grid.build(spec), X)
    C, m = base.covariance_, base.location_
    tol = 1e-3 if geo else 1e-5 if geoi else 1e-6
    what = f"{grid.describe(spec)} p={p} n={n} {case['kind']}"
    diff = kw.get("diff")
    tyler = name == "TylerCovariance"
    cond = name == "ConditionalCovariance"
    cc = "Shrunk" in str(spec) and "identity" not in str(spec)

    def go(clause, Y, want, wm=None, note=""):
        e = feed(grid.build(spec), Y)
        mon.close(clause, e.covariance_, want, tol, f"{what}: {note}")
        if wm is not None:
            mon.close(clause, e.location_, wm, 1e-8, f"{what}: {note} location", scale=np.abs(Y).max())
        mon.see(clause)

    a = rng.choice([1.0, -30.0, 1000.0]) * rng.standard_normal(p)
    go("translation", X + a, C, m if diff else m + a, f"translated by {a[0]:.4g},..")
    far = rng.choice([1e5, 1e7]) * rng.choice([-1.0, 1.0], p)
    if not geo and not geoi and "Factor" not in grid.describe(spec):  # rounding now costs eps * far per deviation; anything that squares the level loses all
        tol, old = max(tol, 1e-5), tol
        go("translation", X + far, C, None if diff else m + far, f"translated by {far[0]:.4g},..")
        tol = old
    if p > 1:
        if name not in BLOCKY and not (cond and any(b in str(spec) for b in ("Schur", "Block", "Factor"))):
            q = rng.permutation(p)
            go("permutation", X[:, q], C[np.ix_(q, q)], m[q], f"columns permuted {q.tolist()}")
        elif name in BLOCKY:
            q = np.concatenate([a0 + rng.permutation(b0 - a0) for a0, b0 in
                                ref.blocks(p, kw.get("n_blocks", 4))]).astype(int)
            go("within-block", X[:, q], C[np.ix_(q, q)], m[q], f"permuted within blocks {q.tolist()}")
    if not cc:
        s = rng.choice([-1.0, 1.0], p)
        go("sign-flips", X * s, C * np.outer(s, s), m * s, f"signs {s.tolist()}")
    if not geo and not cond and not (geoi and kw.get("r", 0.05) > 0.4 / p):
        low = -12 if tyler else -24 if name in UNFLOORED else -3
        s = 2.0 ** int(rng.integers(low, 15))
        go("uniform-scale", X * s, C if tyler else C * s * s, m * s, f"scaled by {s}")
    if name in PER and kw.get("target") != "identity" and not geoi:
        s = 2.0 ** rng.integers(-2, 9, p)
        e = feed(grid.build(spec), X * s)
        mon.close("per-series-scale", e.covariance_ / np.outer(s, s), C, tol, f"{what}: scaled by {s}")
        mon.see("per-series-scale")
    if name in ROT and (name != "ShrunkCovariance" or kw.get("target") == "identity"):
        Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
        go("rotation", X @ Q.T, Q @ C @ Q.T, Q @ m, "rotated")
    if name in LIN:
        A = gen.spd(rng, p) + 0.3 * rng.standard_normal((p, p))
        if np.linalg.cond(A) < 1e3:
            go("linear-map", X @ A.T, A @ C @ A.T, A @ m, "mapped linearly")
    if name == "EmpiricalCovariance" and not diff:
        go("order", X[rng.permutation(n)], C, m, "observations reordered")
        go("order", X[::-1], C, m, "observations reversed")
    if case["rep"] == 0 and not diff:
        from precise import keyed

        names = [f"k{i}" for i in range(p)]
        for dyn in (False, True):
            k = keyed(grid.build(spec), dynamic=dyn)
            for t, x in enumerate(X):
                row = list(zip(names, x.tolist()))
                if t:  # the order of names in a later observation carries no meaning
                    row = [row[i] for i in rng.permutation(p)]
                k.update(dict(row))
            mon.close("keyed-order", k.get_cov(names), C, tol, f"{what}: keyed, dynamic={dyn}")
    if p > 1:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "p": p, "n": n, "kind": case["kind"]}
