"""C09 memory and work per observation do not grow with the history; O(p*k) / O(p*b) members."""
import gc
import sys
import tracemalloc
import types

import numpy as np

from lib import gen, grid
from lib.util import all_names, case_rng

RULE = ("a case streams several thousand observations (or key-set changes) into one instance and "
        "measures reachable bytes (arrays count their whole base buffer), allocated bytes and executed "
        "lines per step early and late; or measures the peak allocation of the memory-light estimators "
        "in high dimension; non-trivial: at least 1500 observations between the two measurements, or "
        "p >= 1000")
CLAUSES = ["state-bounded", "allocation-bounded", "work-bounded", "batch-not-retained", "light-state",
           "light-peak", "dynamic-bounded", "fixed-bounded"]


def cases(tier, seed):
    n = 1 if tier == "quick" else 6
    out = [dict(cls=c, mode="long", rep=j) for c in all_names() for j in range(n)]
    out += [dict(cls="ConditionalCovariance", mode="long", rep=j, vol=v) for v in ("skater", "any")
            for j in range(n)]
    out += [dict(cls=c, mode="batch", rep=j) for c in all_names() for j in range(2 * n)]
    out += [dict(cls=c, mode="light", rep=j) for c in ("BlockCovariance", "FactorCovariance")
            for j in range(4 * n)]
    out += [dict(cls="keyed", mode=m, rep=j) for m in ("churn", "walk", "fixed") for j in range(4 * n)]
    return out


def reachable(root):
    """Bytes reachable from root through containers, closures and instances (not modules/classes)."""
    seen, total, stack = set(), 0, [root]
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, (type, types.ModuleType)):
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            total += o.nbytes if o.base is None else 0
            if o.base is not None:
                b = o
                while isinstance(b.base, np.ndarray):
                    b = b.base
                if id(b) not in seen:
                    seen.add(id(b))
                    total += b.nbytes
            continue
        total += sys.getsizeof(o)
        if isinstance(o, dict):
            stack += list(o.keys()) + list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            stack += list(o)
        elif isinstance(o, types.FunctionType):
            stack += [c.cell_contents for c in o.__closure__ or ()] + list(o.__defaults__ or ())
        elif isinstance(o, types.MethodType):
            stack.append(o.__self__)
        elif hasattr(o, "__dict__"):
            stack.append(vars(o))
        elif isinstance(o, (str, bytes, int, float, complex, bool, type(None), np.generic)):
            pass
        else:
            stack += [r for r in gc.get_referents(o) if not isinstance(r, (type, types.ModuleType))]
    return total


def module_bytes():
    """Bytes held by containers at module and class level in the package."""
    total = 0
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "precise" and m is not None:
            for k, v in list(vars(m).items()):
                if isinstance(v, (list, dict, set)) and k[:2] != "__":
                    total += reachable(v)
                if isinstance(v, type) and v.__module__ == name:
                    total += sum(reachable(b) for b in list(vars(v).values())
                                 if isinstance(b, (list, dict, set)))
    return total


def lines(fn):
    """Lines of Python executed by fn in the package."""
    import precise

    base = precise.__file__.rsplit("/", 1)[0]
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(base) else None

    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return n[0]


def run(case, mon):
    rng = case_rng(case)
    mode = case["mode"]
    {"long": long, "batch": batch, "light": light, "churn": churn, "walk": churn,
     "fixed": fixed}[mode](case, mon, rng)


def long(case, mon, rng):
    name = case["cls"]
    cond = name == "ConditionalCovariance"
    spec = grid.default(name) if cond else grid.config(name, rng, rs=[0.05, 0.02, 0.1],
                                                       diff=rng.random() < 0.5)
    if case.get("vol"):
        spec = grid.conditional(rng, [0.05, 0.02, 0.1])
        if case["vol"] == "skater":
            spec["vol"] = {"skater": 0.05}
    est = grid.build(spec)
    p = 4
    X = gen.stream("corr", rng, 2600, p)
    what = f"{grid.describe(spec)} p={p}"
    for x in X[:300]:
        est.partial_fit(x)
    est.covariance_, est.precision_
    gc.collect()
    r0, g0 = reachable(est), module_bytes()
    l0 = max(lines(lambda x=x: est.partial_fit(x)) for x in X[300:330])
    tracemalloc.start()
    try:
        for x in X[330:600]:
            est.partial_fit(x.copy())
        gc.collect()
        a0 = tracemalloc.get_traced_memory()[0]
        for t, x in enumerate(X[600:2500]):
            est.partial_fit(x.copy())
            if t % 10 == 0:
                est.covariance_, est.correlation_
        gc.collect()
        a1 = tracemalloc.get_traced_memory()[0]
    finally:
        tracemalloc.stop()
    l1 = max(lines(lambda x=x: est.partial_fit(x)) for x in X[2500:2530])
    r1, g1 = reachable(est), module_bytes()
    mon.see("observations streamed", 2530)
    mon.ok("state-bounded", r1 <= r0 + 600, f"{what}: holds {r0} bytes after 300 observations, {r1} "
                                            f"after 2530")
    mon.ok("state-bounded", g1 <= g0 + 4000, f"{what}: module-level containers grew {g0} -> {g1}")
    mon.ok("allocation-bounded", a1 - a0 <= 30000, f"{what}: {a1 - a0} bytes allocated and kept over "
                                                   f"1900 observations")
    mon.ok("work-bounded", l1 <= 1.3 * l0 + 20, f"{what}: {l0} lines per step early, {l1} late")
    mon.keys.add(("long", grid.describe(spec)))
    mon.sample = {"estimator": what, "bytes_early": r0, "bytes_late": r1, "kept_alloc": a1 - a0,
                  "lines_early": l0, "lines_late": l1}


def batch(case, mon, rng):
    """A large batch is not kept alive by the estimator that learned it."""
    name = case["cls"]
    cond = name == "ConditionalCovariance"
    diff = not cond and case["rep"] % 2 == 0
    spec = grid.default(name) if cond else grid.config(name, rng, rs=[0.05, 0.1], diff=diff)
    a, b = grid.build(spec), grid.build(spec)
    X = gen.stream("gauss", rng, 1500 if not cond else 400, 3)
    a.partial_fit(X)
    b.partial_fit(X[:60].copy())
    ra, rb = reachable(a), reachable(b)
    mon.ok("batch-not-retained", ra <= rb + 1200, f"{grid.describe(spec)}: {ra} bytes after a batch of "
           f"{len(X)}, {rb} after 60 rows")
    del X
    mon.see("batches", 2)


def light(case, mon, rng):
    p = [1000, 1500, 2000][case["rep"] % 3]
    if case["cls"] == "BlockCovariance":
        nb = [p // 5, p // 10, p // 20][int(rng.integers(3))]
        spec = {"cls": "BlockCovariance", "kw": {"n_blocks": nb, "r": 0.05}}
        width = p // nb + 1
    else:
        k = int(rng.integers(1, 6))
        spec = {"cls": "FactorCovariance", "kw": {"k": k, "r": 0.05}}
        width = k
    est = grid.build(spec)
    X = rng.standard_normal((12, p))
    est.partial_fit(X[0])
    tracemalloc.start()
    try:
        tracemalloc.reset_peak()
        base = tracemalloc.get_traced_memory()[0]
        for x in X[1:]:
            est.partial_fit(x)
        peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    held = reachable(est)
    what = f"{grid.describe(spec)} p={p}"
    mon.ok("light-state", held <= 8 * p * (2 * width + 8) + 1500 * (p / 5 if "Block" in what else 1)
           + 20000 and held < p * p * 8 / 4, f"{what}: holds {held} bytes (dense would be {8 * p * p})")
    mon.ok("light-peak", peak < p * p * 8 / 4, f"{what}: allocates {peak} bytes while learning "
                                                f"(a dense matrix is {8 * p * p})")
    mon.keys.add(("light", what))
    mon.sample = {"estimator": what, "held": held, "peak": peak, "dense": 8 * p * p}


def churn(case, mon, rng):
    from precise import keyed

    mu, ms = int(rng.integers(1, 9)), int(rng.choice([1, 5, 40, 10 ** 9]))
    k = keyed(grid.build(grid.config("EwaCovariance", rng, rs=[0.1])), dynamic=True,
              max_universes=mu, max_staleness=ms)
    what = f"dynamic(max_universes={mu}, max_staleness={ms}) {case['mode']}"
    sizes = []
    for t in range(1600):
        if case["mode"] == "churn":  # every observation brings names never seen before
            row = {f"n{t}_{i}": float(rng.standard_normal()) for i in range(3)}
        else:  # a window of names sliding through an endless list
            row = {f"s{t // 7 + i}": float(rng.standard_normal()) for i in range(int(rng.integers(1, 5)))}
        k.update(row)
        if t in (150, 800, 1599):
            sizes.append(reachable(k))
    per = 6000  # bytes: generous for one universe of at most 4 names
    mon.ok("dynamic-bounded", max(sizes) <= per * (mu + 1) + 8000,
           f"{what}: holds {sizes} bytes after 150 / 800 / 1600 observations")
    mon.see("key-set changes", 1600)
    mon.keys.add((what, case["rep"]))


def fixed(case, mon, rng):
    from precise import keyed

    k = keyed(grid.build(grid.default("EwaCovariance")), keys=["a", "b", "c"])
    sizes = []
    for t in range(1600):
        row = {x: 1.0 * t for x in "abc" if rng.random() < 0.8}
        row[f"new{t}"] = 2.0
        k.update(row)
        if t in (200, 1599):
            sizes.append(reachable(k))
    mon.ok("fixed-bounded", sizes[1] <= sizes[0] + 600, f"fixed universe holds {sizes} bytes")
    mon.keys.add(("fixed", case["rep"]))
