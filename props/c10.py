"""C10 malformed input is rejected and leaves no trace; equivalent representations learn the same."""
import copy

import numpy as np

from lib import gen, grid
from lib.util import all_names, case_rng, close_snapshot, same_snapshot, snapshot

RULE = ("a case is (estimator, repetition): rejected calls (wrong width, 0-d/3-d, text, fit on 1-d, "
        "scoring the wrong width, reads before data) are injected at random moments and the instance "
        "compared bitwise with a twin that never saw them; then every accepted representation of the "
        "same data; non-trivial: at least three rejections mid-stream")
CLAUSES = ["wrong-width", "bad-ndim", "not-fitted", "fit-1d", "no-trace", "representations", "empty",
           "score-width", "keyed-empty", "keyed-no-trace", "still-works"]


def cases(tier, seed):
    n = 24 if tier == "quick" else 80
    return [dict(cls=c, rep=j) for c in all_names() for j in range(n)]


def snap(est):
    return snapshot(est) if est.n_samples_ else {"n_samples_": est.n_samples_,
                                                 "n_features_in_": est.n_features_in_ or -1}


def alike(mon, got, want, what):
    """Equal up to the rounding differences that another memory layout may cause."""
    if all(np.array_equal(got[k], want[k]) for k in want):
        mon.evals["representations"] += 1
        return
    close_snapshot(mon, "representations", got, want, 1e-9, what)


def run(case, mon):
    rng = case_rng(case)
    name = case["cls"]
    cond = name == "ConditionalCovariance"
    diff = not cond and rng.random() < 0.3
    rs = [0.2, 0.5, 0.05]
    spec = grid.conditional(rng, rs) if cond else grid.config(name, rng, diff=diff, rs=rs)
    p = int(rng.integers(1, 7))
    n = int(rng.choice([4, 12, 30]))
    X = gen.stream("corr", rng, n, p)
    what = f"{grid.describe(spec)} p={p}"
    est, twin = grid.build(spec), grid.build(spec)
    for attr in ("covariance_", "correlation_", "precision_", "location_"):
        mon.raises("not-fitted", ValueError, lambda: getattr(est, attr), f"{what}: {attr} before data")
    mon.raises("not-fitted", ValueError, lambda: est.score(X), what + ": score before data")
    mon.raises("not-fitted", ValueError, lambda: est.mahalanobis(X), what + ": mahalanobis before data")
    mon.raises("not-fitted", ValueError, est.get_precision, what + ": get_precision before data")
    mon.ok("not-fitted", est.n_samples_ == 0, what)
    bad = 0
    for t, x in enumerate(X):
        while rng.random() < 0.5:
            bad += 1
            w = p + int(rng.choice([1, 2, -1])) if p > 1 else p + int(rng.integers(1, 3))
            known = t > 0  # a length has been seen
            kind = int(rng.integers(7))
            row = rng.standard_normal(w)
            if kind == 0 and known:
                mon.raises("wrong-width", ValueError, lambda: est.partial_fit(row), f"{what} length {w}")
            elif kind == 1 and known:
                mon.raises("wrong-width", ValueError, lambda: est.partial_fit(
                    rng.standard_normal((3, w))), f"{what} batch of width {w}")
            elif kind == 2 and known:
                mon.raises("wrong-width", ValueError, lambda: est.partial_fit(rng.standard_normal(
                    (2, 1 if p > 1 else 2))), f"{what} batch of one column")
            elif kind == 3:
                shape = (2, 3, p) if rng.random() < 0.5 else ()
                mon.raises("bad-ndim", ValueError, lambda: est.partial_fit(np.zeros(shape)),
                           f"{what} ndim {len(shape)}")
            elif kind == 4:
                for arg in (x, np.zeros((2, 2, p)), 3.0):
                    mon.raises("fit-1d", ValueError, lambda: est.fit(arg), f"{what} fit ndim")
            elif kind == 5 and est.n_samples_:
                mon.raises("score-width", ValueError, lambda: est.score(row), f"{what} score width {w}")
                mon.raises("score-width", ValueError, lambda: est.mahalanobis(
                    rng.standard_normal((2, w))), f"{what} mahalanobis width {w}")
            elif kind == 6:
                mon.raises("bad-ndim", (ValueError, TypeError), lambda: est.partial_fit(
                    ["x"] * p), what + " text")
            mon.see("rejected calls")
            same_snapshot(mon, "no-trace", snap(est), snap(twin), f"{what} after a rejected call at {t}")
        est.partial_fit(x)
        twin.partial_fit(x.copy())
        if rng.random() < 0.1:
            est.partial_fit(np.empty((0, p)))
            same_snapshot(mon, "empty", snap(est), snap(twin), what + ": an empty batch")
    same_snapshot(mon, "no-trace", snap(est), snap(twin), what + " at the end")
    est.partial_fit(X)
    twin.partial_fit(X)
    same_snapshot(mon, "still-works", snap(est), snap(twin), what)
    # equivalent representations of the same numbers
    Z = (np.round(X * 8) / 8 if rng.random() < 0.5 else np.round(X * 4)) + 0.0  # integers have no negative zero
    want = snapshot(grid.build(spec).partial_fit(Z))
    big = np.zeros((2 * n, 2 * p))
    big[::2, ::2] = Z
    reps = {"list": Z.tolist(), "tuples": tuple(map(tuple, Z.tolist())), "fortran": np.asfortranarray(Z),
            "strided": big[::2, ::2], "float32": Z.astype(np.float32), "longdouble": Z.astype(np.longdouble),
            "negative-stride": Z[::-1, ::-1].copy()[::-1, ::-1], "objects": Z.astype(object),
            "matrix-rows": [r for r in Z], "big-endian": Z.astype(">f8")}
    if np.array_equal(Z, Z.astype(int)):
        reps["int"] = Z.astype(int)
        reps["int8"] = Z.astype(np.int16)
    try:
        import pandas as pd

        reps["frame"] = pd.DataFrame(Z)
    except ImportError:
        pass
    for tag, R in reps.items():
        how = ["partial_fit", "fit"][int(rng.integers(2))]
        alike(mon, snapshot(getattr(grid.build(spec), how)(R)), want, f"{what} {how} from {tag}")
        mon.see("representations")
    e = grid.build(spec)
    for z in Z:
        k = int(rng.integers(4))
        e.partial_fit([z.tolist(), tuple(z), z[None, :], [z.tolist()]][k])
    alike(mon, snapshot(e), want, what + " rows as lists")
    e.partial_fit(Z, None)
    e.fit(Z, y=None)
    alike(mon, snapshot(e), want, what + " with y=None")
    if case["rep"] == 0:
        from precise import keyed

        for dyn in (False, True):
            k = keyed(grid.build(spec), dynamic=dyn)
            for f in (k.cov_array, k.get_cov, k.get_corr, lambda: k.covariance_, lambda: k.correlation_):
                mon.raises("keyed-empty", ValueError, f, "keyed read before data")
    keyed_no_trace(mon, rng, spec, Z, p)
    if bad >= 3:
        mon.keys.add((grid.describe(spec), p, n, case["rep"]))
        mon.sample = {"estimator": grid.describe(spec), "p": p, "rejected": bad}


def keyed_no_trace(mon, rng, spec, Z, p):
    """A dict with a non-numeric value is refused and leaves nothing behind in either keyed view."""
    from precise import keyed

    names = [f"k{i}" for i in range(p)]
    for dyn in (False, True):
        a, b = keyed(grid.build(spec), dynamic=dyn), keyed(grid.build(spec), dynamic=dyn)
        hurt = False
        for t, z in enumerate(Z[:25]):
            if rng.random() < 0.3:
                bad = {k: float(v) + 100 for k, v in zip(names + ["new"], list(z) + [0.0])}
                bad[names[int(rng.integers(p))]] = ["text", object(), [1.0, 2.0]][int(rng.integers(3))]
                if rng.random() < 0.2:  # well-shaped, but several numbers per name
                    bad = {k: [v, v + 1.0] for k, v in zip(names, z.tolist())}
                if rng.random() < 0.5:
                    bad.pop("new", None)
                mon.raises("keyed-no-trace", (ValueError, TypeError), lambda: a.update(bad),
                           f"keyed, dynamic={dyn}: {bad}")
                hurt = True
            row = {k: float(v) for k, v in zip(names, z) if t == 0 or rng.random() < 0.9}
            if row:
                a.update(dict(row))
                b.update(dict(row))
                if t == 0:  # a first level alone may be no observation yet (diff)
                    continue
                x, y = a.cov_array(), b.cov_array()
                mon.ok("keyed-no-trace", x[1] == y[1], f"keyed, dynamic={dyn}: keys {x[1]}, twin {y[1]}")
                mon.same("keyed-no-trace", x[0], y[0], f"{grid.describe(spec)} keyed, dynamic={dyn}, "
                                                       f"after a refused observation: {hurt}")
