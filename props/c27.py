"""C27 calibration: on stationary data every estimator settles at the truth (or its documented target)."""
import numpy as np

from lib import gen, grid, ref
from lib.util import all_names, case_rng

RULE = ("a case is (estimator, Gaussian or Student-t(5) data, stationary or after a regime change, "
        "repetition): covariance_ and location_ are averaged over ~2000 late observations of a long stream "
        "with a random true mean (up to 1000 standard deviations from zero), scale and correlation, and "
        "compared with the truth, and with exponential weights on the same data; the allowances are about "
        "twice the largest sampling error; "
        "non-trivial: a settled window was judged")
CLAUSES = ["variance", "location", "correlation", "within-block", "between-block", "total", "unit-diagonal",
           "towards-identity", "after-change", "shrunk", "paired"]
FULL = {"EmpiricalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "PartialMomentsCovariance",
        "HuberCovariance", "TylerCovariance", "DCCCovariance", "ConditionalCovariance"}
BLOCKED = {"BlockCovariance": 0.0, "SchurCovariance": None, "SchurLedoitWolfCovariance": None}
LINEAR = {"BlockCovariance", "ConditionalCovariance", "DCCCovariance", "DiagonalCovariance", "EwaCovariance", "FactorCovariance",
          "LedoitWolfCovariance", "OASCovariance", "PartialMomentsCovariance", "SchurCovariance", "SchurLedoitWolfCovariance",
          "ShrunkCovariance"}  # neither robust nor adaptive nor geodesic
IDENT = {"LedoitWolfCovariance", "OASCovariance"}


def cases(tier, seed):
    n = 4 if tier == "quick" else 40
    return [dict(cls=c, heavy=h, change=g, rep=j) for c in all_names() for h in (False, True)
            for g in (False, True) for j in range(n)
            if not (g and c == "EmpiricalCovariance")] + [  # never forgets: see C12
        dict(cls=c, heavy=False, change=False, rep=j, wide=w) for c in all_names() for w in (12, 20, 30, 60)
        for j in range(1 if tier == "quick" else 5)]


def truth(rng, p, equal):
    S = gen.corr_matrix(rng, p)
    s = np.full(p, 10.0 ** rng.uniform(-3, 3)) * (1 if equal else 10.0 ** rng.uniform(-1, 1, p))
    return S, S * np.outer(s, s)


def draw(rng, n, S, m, heavy):
    Z = rng.standard_normal((n, len(S)))
    if heavy:
        Z *= np.sqrt(3 / rng.chisquare(5, (n, 1)))  # Student t(5) with unit variance
    return Z @ np.linalg.cholesky(S).T + m


def run(case, mon):
    rng = case_rng(case)
    name, heavy = case["cls"], case["heavy"]
    p = int(rng.choice([1, 2, 3, 5, 8]))
    r = float(rng.choice([0.05, 0.05, 0.02, 0.01]))
    if "wide" in case:
        p, r = case["wide"], 0.05
    equal = bool(rng.random() < 0.5)
    T, S = truth(rng, p, equal)
    sd = np.sqrt(np.diag(S))
    m = rng.uniform(-1e3, 1e3, p) * sd
    nb = int(rng.choice([2, 4]))
    kw = {} if name in ("ConditionalCovariance", "EmpiricalCovariance") else {"r": r}
    if name in BLOCKED:
        kw["n_blocks"] = nb
    spec = {"cls": name, "kw": kw} if name != "ConditionalCovariance" else grid.default(name)
    if name == "ConditionalCovariance":
        r = 0.05
    est = grid.build(spec)
    skip = int(max(500, 15 / r))
    if case["change"]:  # another mean, scale and correlation before
        _, S0 = truth(rng, p, equal)
        k = 10.0 ** rng.uniform(-1, 1)
        s0 = sd * k / np.sqrt(np.diag(S0))
        est.partial_fit(draw(rng, int(rng.choice([50, 300])), S0 * np.outer(s0, s0),
                             m + rng.uniform(-20, 20, p) * sd, heavy))
    warm = draw(rng, skip, S, m, heavy)
    est.partial_fit(warm)
    X = draw(rng, 2000, S, m, heavy)
    covs, locs, pair = [], [], []
    em, eC = warm[:100].mean(axis=0), np.cov(warm[:100].T, bias=True).reshape(p, p)
    for x in warm[100:]:
        d = x - em
        em, eC = em + r * d, eC + r * (np.outer(d, d) - eC)
    for i in range(0, len(X), 10):
        est.partial_fit(X[i:i + 10])
        covs.append(est.covariance_)
        locs.append(est.location_)
        for x in X[i:i + 10]:
            d = x - em
            em, eC = em + r * d, eC + r * (np.outer(d, d) - eC)
        pair.append(eC)
    Q = np.mean(pair, axis=0)  # what exponential weights at this rate make of the same data
    C, mu = np.mean(covs, axis=0), np.mean(locs, axis=0)
    R = ref.to_corr(C)
    what = f"{grid.describe(spec)} p={p} r={r} {'t(5)' if heavy else 'Gaussian'}" \
           f"{' after a change' if case['change'] else ''}"
    if name in LINEAR:
        pv = np.log(np.diag(C) / np.diag(Q))
        ptr = float(np.log(np.trace(C) / np.trace(Q)))
        up = 0.5 if name == "FactorCovariance" else 0.01  # components may explain more than the total
        up = np.log1p(1e-8 * p / np.trace(Q)) + up, np.log1p(1e-8 / np.diag(Q)) + up  # eigenvalues are floored at 1e-8
        mon.ok("paired", -0.01 <= ptr <= up[0], lambda: f"{what}: total variance {ptr:+.3f} (log) away from exponential weights on the same data")
        if name not in IDENT:
            mon.ok("paired", pv.min() >= -0.01 and np.all(pv <= up[1]), lambda: f"{what}: variances {pv.min():+.3f}..{pv.max():+.3f} "
                   f"(log) away from exponential weights on the same data")
        if name in FULL and p > 1:
            e = np.abs(R - ref.to_corr(Q)).max()
            mon.ok("paired", e <= (0.08 if heavy else 0.03), lambda: f"{what}: a correlation {e:.3f} away from exponential weights on the same data")
    off = ~np.eye(p, dtype=bool)
    adaptive = name == "AdaptiveEwaCovariance"
    lv = np.log(np.maximum(np.diag(C), 1e-300) / np.diag(S))
    lo, hi = (-0.5, 0.6) if heavy else (-0.3, 0.3)
    luck = np.log(np.diag(Q) / np.diag(S))  # how far the data themselves are from the truth
    lo, hi = lo + min(0.0, float(luck.min())), hi + max(0.0, float(luck.max()))
    if adaptive:
        hi = 1.6 if heavy else 0.5
    tr = float(np.log(np.trace(C) / np.trace(S)))
    mech = None  # known, and only for dozens of names: see known_findings.txt
    if adaptive and p * r > 0.6:
        mech = "adaptive-runaway"
    elif name == "HuberCovariance" and p * r > 2 and np.all(lv < lo):
        mech = "huber-collapse"
    elif name == "SchurConditionalCovariance" and p >= 12 and lv.min() >= lo and lv.max() > hi and \
            np.all(np.abs(lv[: p // 4] - np.log(np.diag(Q) / np.diag(S))[: p // 4]) < 0.05):
        mech = "conditional-inflation"
    mon.ok("location", np.all(np.abs(mu - m) <= (0.3 if adaptive else 0.2) * sd),
           lambda: f"{what}: settles {np.max(np.abs(mu - m) / sd):.3g} standard deviations from the mean", mechanism=mech)
    ctol = (0.45 if adaptive else 0.25) if heavy else 0.15
    if name == "TylerCovariance":
        mon.close("unit-diagonal", np.diag(C), np.ones(p), 1e-9, what)
    elif name == "GeodesicEwaCovariance":
        mon.see("geodesic windows")
        # known: the log-Euclidean pull of every rank-one observation drags all variances down together
        low = bool(np.all(lv < -0.5))
        mon.ok("variance", np.all((lv > -0.5) & (lv < hi)), f"{what}: log variance ratios {lv}",
               mechanism="geodesic-collapse" if low else None)
        return
    elif name in IDENT and not equal:
        mon.ok("total", lo <= tr <= hi, f"{what}: total variance off by a factor {np.exp(tr):.3g}")
        avg = np.trace(S) / p
        D = np.diag(C)
        for i in range(p):  # each variance between its own value and the average variance
            a, b = sorted((np.diag(S)[i], avg))
            mon.ok("towards-identity", a * np.exp(lo) <= D[i] <= b * np.exp(hi),
                   f"{what}: variance {D[i]:.4g} not between {a:.4g} and {b:.4g}")
    else:
        mon.ok("variance", np.all((lv >= lo) & (lv <= hi)), lambda: f"{what}: variances off by factors "
               f"{np.exp(lv.min()):.3g}..{np.exp(lv.max()):.3g}", mechanism=mech)
        mon.ok("total", lo <= tr <= hi, f"{what}: total variance off by a factor {np.exp(tr):.3g}", mechanism=mech)
    if p > 1:
        if name in FULL:
            mon.ok("correlation", np.abs(R - T).max() <= ctol,
                   lambda: f"{what}: a correlation is off by {np.abs(R - T).max():.3g}", mechanism=mech)
        elif name == "ShrunkCovariance":
            W = 0.9 * T + 0.1 * T[off].mean()
            mon.ok("shrunk", np.abs((R - W)[off]).max() <= ctol, lambda: f"{what}: {np.abs((R - W)[off]).max():.3g}")
        elif name in BLOCKED:
            same = ~ref.cross_mask(p, nb)
            mon.ok("within-block", np.abs((R - T)[same]).max() <= ctol, lambda: f"{what}: within a block off by "
                   f"{np.abs((R - T)[same]).max():.3g}")
            a = np.minimum(T, 0) - ctol
            b = np.maximum(T, 0) + ctol
            mon.ok("between-block", np.all(((R >= a) & (R <= b))[~same]), f"{what}: a cross-block correlation "
                   f"is not between zero and the truth")
        elif name == "DiagonalCovariance":
            mon.ok("between-block", np.abs(R[off]).max() == 0, what)
        elif name in IDENT and equal:
            a, b = np.minimum(T, 0) - ctol, np.maximum(T, 0) + ctol
            mon.ok("towards-identity", np.all(((R >= a) & (R <= b))[off]), f"{what}: a correlation is not "
                   f"between zero and the truth")
        elif name == "SchurConditionalCovariance":
            mon.ok("correlation", np.abs(R - T).max() <= 0.4, lambda: f"{what}: {np.abs(R - T).max():.3g}", mechanism=mech)
    if case["change"]:
        mon.evals["after-change"] += 1
    mon.keys.add((what, case["rep"]))
    mon.see("settled windows")
    mon.sample = {"estimator": what, "log_variance_ratio": [round(float(v), 3) for v in lv]}
