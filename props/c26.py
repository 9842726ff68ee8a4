"""C26 recency: old history is forgotten at the documented rate; warm-up lasts about 1/r."""
import numpy as np

from lib import gen, grid
from lib.util import INVERSE_BASED, case_rng, feed

RULE = ("a case is (estimator, rate, repetition): two histories that differ only in the past (other "
        "values, other length) are continued by the same suffix and must converge at the documented "
        "rate; impulses and lookalike controls included; non-trivial: the pasts gave covariances that "
        "differed by at least 10%")
CLAUSES = ["forgets", "not-too-fast", "impulse", "empirical-remembers", "after-warm-up", "geometric"]


def cases(tier, seed):
    n = 36 if tier == "quick" else 100
    return [dict(cls=c, rep=j) for c in grid.class_names() for j in range(n)] + [
        dict(cls=c, rep=j, slow=True) for c in grid.class_names() for j in range(n // 3)
        if c not in ("EmpiricalCovariance", "HuberCovariance", "AdaptiveEwaCovariance")]


def impulse(mon, rng, spec, name, r, vol, nb, X, what):
    kw, p = spec["kw"], X.shape[1]
    # impulse response: one observation changed k steps ago moves the mean by exactly r (1-r)^k
    k = int(rng.integers(0, 12))
    rm = vol if name == "DCCCovariance" else r
    Y = X.copy()
    Y[-1 - k] += 3.0
    a, b = feed(grid.build(spec), X), feed(grid.build(spec), Y)
    want = 3.0 * rm * (1 - rm) ** k
    mon.close("impulse", b.location_ - a.location_, np.full(p, want), 1e-7, f"{what}: effect of an "
              f"observation {k} steps back on the location", scale=max(want, 1e-5))
    j = int(rng.integers(0, 3))  # inside the warm-up: equal weights 1/nb, then decay
    Y = X.copy()
    Y[j] += 3.0
    n_b = 1 + kw.get("k", 2) if name == "FactorCovariance" else nb
    if j < min(n_b, p + 1 if name == "FactorCovariance" else n_b):
        nbk = min(kw.get("k", 2), p) + 1 if name == "FactorCovariance" else n_b
        want = 3.0 / nbk * (1 - rm) ** (len(X) - nbk) if j < nbk else None
        if want is not None:
            b = feed(grid.build(spec), Y)
            mon.close("after-warm-up", b.location_ - a.location_, np.full(p, want), 1e-6,
                      f"{what}: effect of a warm-up observation on the location",
                      scale=max(want, 1e-6))


LINEAR = ("EwaCovariance", "DiagonalCovariance", "BlockCovariance", "PartialMomentsCovariance", "LedoitWolfCovariance",
          "OASCovariance", "ShrunkCovariance", "SchurLedoitWolfCovariance", "DCCCovariance")


def geometric(mon, rng, spec, r, nb, X, what):
    """Two warm-ups with the same mean, one twice as wide: the total variances approach at exactly the rate."""
    A, S = X[:nb], X[nb:]
    m = A.mean(axis=0)
    a, b = feed(grid.build(spec), A), feed(grid.build(spec), m + 2 * (A - m))
    g0 = np.trace(b.covariance_) - np.trace(a.covariance_)
    top = np.trace(b.covariance_)
    if abs(g0) < 0.05 * top:
        return
    for t, x in enumerate(S, 1):
        a.partial_fit(x), b.partial_fit(x)
        if t in (1, 2, len(S)) or rng.random() < 0.1:
            top = max(top, np.trace(b.covariance_))
            mon.close("geometric", np.trace(b.covariance_) - np.trace(a.covariance_), g0 * (1 - r) ** t, 1e-8,
                      f"{what}: gap {t} observations after the warm-up", scale=top)


def slow_rate(case, mon, rng):
    """Rates of 1/100 and below: the warm-up lasts 1/r observations, but no more than 250."""
    name = case["cls"]
    spec = grid.config(name, rng, diff=False, rs=[0.01, 0.006, 0.005, 0.0042, 0.003, 0.001])
    kw = spec["kw"]
    r = kw.get("r", 0.05)
    vol = kw.get("vol_r") or r
    nb = grid.burn(min(r, vol))
    X = gen.stream("gauss", rng, nb + int(rng.integers(14, 40)), int(rng.integers(1, 3)))
    what = f"{grid.describe(spec)} p={X.shape[1]}"
    impulse(mon, rng, spec, name, r, vol, nb, X, what)
    if name in LINEAR:
        geometric(mon, rng, spec, vol, nb, np.vstack([X, gen.stream("gauss", rng, 40, X.shape[1])]), what)
    mon.see("slow rates")
    mon.keys.add((what, case["rep"]))


def run(case, mon):
    rng = case_rng(case)
    name = case["cls"]
    if case.get("slow"):
        return slow_rate(case, mon, rng)
    spec = grid.config(name, rng, diff=rng.random() < 0.15, rs=[0.2, 0.1, 0.05])
    kw = spec["kw"]
    r = kw.get("r", 0.05)
    p = int(rng.integers(1, 5 if r < 0.2 else 3))
    if name == "FactorCovariance":
        kw["k"] = 1
    if name == "HuberCovariance":
        kw["c"] = max(kw.get("c", 2.5), 2.5)  # a tighter cutoff adapts (deliberately) slower
    if name == "AdaptiveEwaCovariance":  # near rate 1 the covariance is singular, its inverse chaotic
        kw["max_r"] = max(r, 0.2)
    vol = kw.get("vol_r") or r
    if name == "DCCCovariance" and vol > 0.4:
        kw["vol_r"] = vol = 0.4
    rate = min(r, vol)
    nb = grid.burn(rate)
    A = gen.stream("corr", rng, nb + int(rng.integers(3, 40)), p) * 2
    B = gen.stream("gauss", rng, nb + int(rng.integers(3, 40)), p) + 5
    slow = name in INVERSE_BASED or name in ("FactorCovariance", "GeodesicEwaCovariance")
    L = int((70 if slow else 50) / rate)
    S = gen.stream("factor", rng, L, p)
    what = f"{grid.describe(spec)} p={p}"
    ea, eb = feed(grid.build(spec), A), feed(grid.build(spec), B)
    if name == "EmpiricalCovariance":
        for x in S:
            ea.partial_fit(x), eb.partial_fit(x)
        na, T = len(A), len(A) + len(S)
        mon.ok("empirical-remembers", np.abs(ea.covariance_ - eb.covariance_).max() > 1e-9, what)
        mon.keys.add((what, case["rep"]))
        return
    d0 = np.abs(ea.covariance_ - eb.covariance_).max() / np.abs(ea.covariance_).max()
    gaps = []
    for t, x in enumerate(S, 1):
        ea.partial_fit(x), eb.partial_fit(x)
        if t % max(1, int(2 / rate)) == 0 or t == L:
            Ca, Cb = ea.covariance_, eb.covariance_
            gaps.append((t, np.abs(Ca - Cb).max() / np.abs(Cb).max()))
    mon.ok("forgets", gaps[-1][1] <= (1e-4 if slow else 1e-8), f"{what}: histories that share their last {L} observations "
           f"still differ by {gaps[-1][1]:.3g}")
    mon.ok("forgets", np.abs(ea.location_ - eb.location_).max() <= 1e-8 * np.abs(S).max(),
           what + ": locations still differ")
    # intermediate: no slower than the documented rate (with room for the quadratic transient)
    if not slow and name != "TylerCovariance":
        for t, g in gaps[:-1]:
            lim = 1e3 * (1 + t * rate) ** 2 * (1 - rate) ** t * (1 + d0) * 30
            mon.ok("forgets", g <= lim + 1e-8, f"{what}: relative gap {g:.3g} after {t} common "
                                               f"observations")
    # nor faster: just after an equal step the past still matters
    if not slow and d0 > 0.1 and vol == r and name not in ("TylerCovariance", "AdaptiveEwaCovariance"):
        t, g = gaps[0]
        mon.ok("not-too-fast", g > 1e-7, f"{what}: history gone after {t} observations (rate {rate})")
    if name not in ("HuberCovariance", "AdaptiveEwaCovariance") and not kw.get("diff"):
        impulse(mon, rng, spec, name, r, vol, nb, np.vstack([A, S[:20]]), what)
        if name in LINEAR:
            geometric(mon, rng, spec, vol, nb, np.vstack([A, S[:60]]), what)
    if d0 > 0.1:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"estimator": what, "initial_gap": float(d0), "suffix": L,
                      "final_gap": float(gaps[-1][1])}
