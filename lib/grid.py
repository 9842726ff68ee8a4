"""Estimator configurations: a JSON-able spec per estimator, built with the public constructors."""
from __future__ import annotations

import numpy as np

RS = [0.05, 1.0, 0.5, 0.2, 0.1, 0.02, 0.008, 0.003]


def class_names():
    import precise

    return [c.__name__ for c in precise.all_estimators()]


def _extras(name, rng):
    def c(xs):
        """Usually a listed value (ends and round numbers included), sometimes one in between."""
        num = [x for x in xs if isinstance(x, (int, float)) and not isinstance(x, bool)]
        if num and rng.random() < 0.3:
            lo, hi = min(num), max(num)
            if all(isinstance(x, int) for x in num):
                return int(rng.integers(lo, min(hi, 12) + 1))
            return float(rng.uniform(lo, hi))
        return xs[int(rng.integers(len(xs)))]

    if name == "AdaptiveEwaCovariance":
        return {"max_r": c([0.5, 0.9, 0.2, 1.0])}
    if name == "ShrunkCovariance":
        return {"delta": c([0.0, 0.1, 0.35, 0.7, 1.0]),
                "target": c(["constant_correlation", "identity"])}
    if name == "SchurCovariance":
        return {"n_blocks": c([1, 2, 3, 4, 50]), "gamma": c([0.0, 0.2, 0.5, 0.9, 1.0]),
                "interpolation": c(["linear", "linear", "geodesic"])}
    if name in ("BlockCovariance", "SchurLedoitWolfCovariance", "SchurConditionalCovariance"):
        return {"n_blocks": c([1, 2, 3, 4, 5, 50])}
    if name == "HuberCovariance":
        return {"c": c([0.5, 1.0, 1.5, 2.5, 6.0])}
    if name == "DCCCovariance":
        return {"vol_r": c([None, 0.01, 0.1, 0.4, 1.0])}
    if name == "FactorCovariance":
        return {"k": c([1, 2, 3, 5, 50])}
    return {}


def accepts(name, param):
    import inspect

    import precise

    return param in inspect.signature(precise.estimator_from_name(name).__init__).parameters


def config(name, rng, diff=False, rs=None):
    """A random configuration of the named estimator (constructor keyword arguments)."""
    if name == "ConditionalCovariance":
        return conditional(rng, rs)
    kw = _extras(name, rng)
    if accepts(name, "r"):
        rs = rs or RS
        kw["r"] = rs[int(rng.integers(len(rs)))]
        if rng.random() < 0.3:  # mostly 1/r is whole above: here it is not
            kw["r"] *= float(rng.uniform(0.75, 1.0))
        if name == "AdaptiveEwaCovariance":
            kw["max_r"] = max(kw["max_r"], kw["r"])
    if diff:
        kw["diff"] = True
    return {"cls": name, "kw": kw}


_VOLS = ["EwaCovariance", "EmpiricalCovariance", "HuberCovariance", "DiagonalCovariance",
         "LedoitWolfCovariance", "skater"]
_CORRS = ["EwaCovariance", "LedoitWolfCovariance", "ShrunkCovariance", "HuberCovariance",
          "EmpiricalCovariance", "TylerCovariance", "FactorCovariance", "SchurCovariance"]


def conditional(rng, rs=None):
    v = _VOLS[int(rng.integers(len(_VOLS)))]
    vol = {"skater": float(rng.choice([0.05, 0.2]))} if v == "skater" else config(v, rng, rs=rs)
    corr = config(_CORRS[int(rng.integers(len(_CORRS)))], rng, rs=rs)
    return {"cls": "ConditionalCovariance", "vol": vol, "corr": corr}


def default(name):
    if name == "ConditionalCovariance":
        return {"cls": name}
    return {"cls": name, "kw": {}}


def build(spec):
    import precise

    if "skater" in spec:
        return precise.from_skater(Skater(spec["skater"]))
    if spec["cls"] == "ConditionalCovariance":
        kw = {k: build(spec[k]) for k in ("vol", "corr") if k in spec}
        return precise.ConditionalCovariance(**kw)
    return precise.estimator_from_name(spec["cls"])(**spec.get("kw", {}))


def factory(spec):
    return lambda: build(spec)


def describe(spec):
    if "skater" in spec:
        return f"skater({spec['skater']})"
    if spec["cls"] == "ConditionalCovariance":
        return "Conditional(" + ", ".join(
            f"{k}={describe(spec[k])}" for k in ("vol", "corr") if k in spec) + ")"
    return spec["cls"].replace("Covariance", "") + "(" + ", ".join(
        f"{k}={v}" for k, v in spec.get("kw", {}).items()) + ")"


def spec_r(spec):
    return spec.get("kw", {}).get("r", 0.05)


def burn(r):
    """The documented warm-up: about 1/r observations, between 5 and 250."""
    import math

    return int(min(250, max(5, math.ceil(1.0 / r))))


class _Dist:
    def __init__(self, mean, std):
        self.mean, self.std = mean, std


class Skater:
    """A picklable univariate EWMA model with the skaters calling convention."""

    def __init__(self, r):
        self.r = r

    def __call__(self, y, state):
        n, m, v = state if state is not None else (0, 0.0, 1.0)
        d = y - m
        n += 1
        g = max(1.0 / n, self.r)
        m, v = m + g * d, (v if n == 1 else (1 - g) * v + g * d * d)
        return [_Dist(m, float(np.sqrt(v)))], (n, m, v)
