"""C11 configuration: get_params / set_params / clone / repr describe the instance completely."""
import inspect

import numpy as np

from lib import gen, grid
from lib.util import all_names, case_rng, everything, same_snapshot, snapshot

RULE = ("a case is (estimator, random configuration): parameters read back, used to clone, printed and "
        "re-evaluated, set on another instance and refitted, re-read after learning; behaviour compared "
        "bitwise; non-trivial: at least one parameter away from its default")
CLAUSES = ["round-trip", "clone-behaves", "set-params", "repr", "unchanged-by-learning", "signature",
           "params-matter", "keyed-class", "unknown-refused"]


def cases(tier, seed):
    n = 40 if tier == "quick" else 80
    return [dict(cls=c, rep=j) for c in all_names() for j in range(n)]


def uneven(spec, rng):
    """The same specification with numbers that need all their digits."""
    if isinstance(spec, dict):
        return {k: uneven(v, rng) for k, v in spec.items()}
    return spec * (1 - 1e-6 * float(rng.uniform())) if isinstance(spec, float) else spec


def run(case, mon):
    import precise

    rng = case_rng(case)
    name = case["cls"]
    cond = name == "ConditionalCovariance"
    rs = [0.2, 0.5, 0.05, 0.1]
    spec = grid.conditional(rng, rs) if cond else grid.config(name, rng, diff=rng.random() < 0.4, rs=rs)
    if rng.random() < 0.5:
        spec = uneven(spec, rng)
    cls = precise.ConditionalCovariance if cond else precise.estimator_from_name(name)
    p = int(rng.integers(2, 7))
    X = gen.stream("corr", rng, 30, p)
    est = grid.build(spec)
    what = grid.describe(spec)
    params = est.get_params()
    sig = [k for k in inspect.signature(cls.__init__).parameters if k != "self"]
    mon.ok("signature", sorted(params) == sorted(sig), f"{what}: {sorted(params)} != {sig}")
    mon.ok("signature", est.get_params(deep=True).keys() == est.get_params(deep=False).keys(), what)
    if not cond:
        for k, v in spec["kw"].items():
            mon.ok("round-trip", params[k] is v or params[k] == v, f"{what}: {k}={params[k]!r}")
        dflt = cls()
        for k, q in inspect.signature(cls.__init__).parameters.items():
            if k != "self":
                mon.ok("round-trip", dflt.get_params()[k] == q.default, f"{name}: default {k}")
    want = snapshot(grid.build(spec).partial_fit(X))
    clone = cls(**params)
    same_snapshot(mon, "clone-behaves", snapshot(clone.partial_fit(X)), want, what + ": clone")
    mon.ok("clone-behaves", cond or cls(**params).get_params() == params, what)
    # learning does not change the configuration, and a used instance's parameters give a fresh twin
    est.partial_fit(X * 3 + 1)
    after = est.get_params()
    mon.ok("unchanged-by-learning", all(after[k] is params[k] or after[k] == params[k] for k in params)
           and sorted(after) == sorted(params), f"{what}: {after} after learning")
    same_snapshot(mon, "clone-behaves", snapshot(cls(**after).partial_fit(X)), want,
                  what + ": clone of a used instance")
    # set_params on an instance with other settings, then fit
    other = cls()
    if rng.random() < 0.5:
        other.partial_fit(rng.standard_normal((len(X) if rng.random() < 0.5 else int(rng.integers(1, 20)), p)))
        if other.n_samples_:
            everything(other)
    mon.ok("set-params", other.set_params(**params) is other, what + ": set_params returns self")
    same_snapshot(mon, "set-params", snapshot(other.fit(X)), want, what + ": set_params then fit")
    same_snapshot(mon, "set-params", everything(other), everything(grid.build(spec).partial_fit(X)), what)
    got = other.get_params()
    mon.ok("set-params", all(got[k] is params[k] or got[k] == params[k] for k in params), what)
    mon.ok("set-params", cls().set_params() is not None, what)
    # from these settings back to the defaults, and from any settings to any others
    for goal in (cls().get_params(), params):
        here = grid.build(spec) if goal is not params else grid.build(grid.config(name, rng))
        here.set_params(**goal)
        got = here.get_params()
        mon.ok("set-params", all(got[k] is goal[k] or (type(got[k]) is type(goal[k]) and got[k] == goal[k]) for k in goal),
               f"{what}: set to {goal}, has {got}")
    # names it does not have are refused, by the constructor and by set_params, which then sets nothing
    bad = {str(rng.choice(["rr", "alpha", "n_block", "Gamma", "window", "covariance"])): 0.5}
    mon.raises("unknown-refused", TypeError, lambda: cls(**bad), f"{name}(**{bad})")
    mixed = {**params, **bad} if rng.random() < 0.5 else {**bad, **params}
    fresh = cls()
    before = dict(fresh.get_params())
    mon.raises("unknown-refused", ValueError, lambda: fresh.set_params(**mixed), f"{name}.set_params(**{mixed})")
    left = fresh.get_params()
    mon.ok("unknown-refused", sorted(left) == sorted(before) and all(left[k] is before[k] or left[k] == before[k]
           for k in left), f"{name}: a refused set_params left {left}")
    # repr names the class and evaluates to an equivalent instance
    text = repr(est)
    mon.ok("repr", text.startswith(name + "(") and text.endswith(")"), text)
    if "skater" not in str(spec):
        again = eval(text, {n: getattr(precise, n) for n in precise.__all__ if n[0] != "_"})
        mon.ok("repr", type(again) is cls and repr(again) == text, f"{text} -> {again!r}")
        same_snapshot(mon, "repr", snapshot(again.partial_fit(X)), want, f"eval({text})")
    if not cond:
        # a parameter that is set is a parameter that is used
        nd = {k: v for k, v in spec["kw"].items() if v != cls().get_params()[k]}
        mon.evals["params-matter"] += 1
        if "diff" in nd:
            mon.ok("params-matter", want["n_samples_"] == len(X) - 1, what + ": diff")
        if name not in ("AdaptiveEwaCovariance", "DCCCovariance") and set(nd) & {"r"} and not spec["kw"].get("diff") and spec["kw"].get("delta") != 1.0:
            plain = snapshot(cls(**{**spec["kw"], "r": 0.9}).partial_fit(X))
            mon.ok("params-matter", not np.array_equal(plain["covariance_"], want["covariance_"]),
                   f"{what}: r has no effect")
        from precise import keyed

        names = [f"n{i}" for i in range(p)]
        rows = [dict(zip(names, x)) for x in X.tolist()]
        for dyn in (False, True):
            k = keyed(cls, dynamic=dyn, **spec["kw"])
            mon.same("keyed-class", k.learn_many(rows).get_cov(),
                     keyed(grid.build(spec), dynamic=dyn).learn_many(rows).get_cov(),
                     f"keyed({name}, dynamic={dyn}, **params)")
            mon.raises("keyed-class", ValueError, lambda: keyed(cls(), dynamic=dyn, **spec["kw"]),
                       "keyed(instance, **estimator_kwargs)") if spec["kw"] else None
        if nd:
            mon.keys.add((what, p))
            mon.sample = {"repr": text, "params": {k: str(v) for k, v in params.items()}}
    else:
        mon.keys.add((what, p))
