"""C37 the recommender: ranks registered estimators by the frozen tree, then the documented heuristic."""
from types import SimpleNamespace

import numpy as np

from lib import gen
from lib.util import case_rng

RULE = ("a case is (window kind, model, repetition): suggest() on random windows with the shipped tree, with "
        "random well-formed trees in its place, and without one, against an independent walk and ranking; "
        "non-trivial: a leaf (or heuristic regime) was reached; distinct leaves and regimes are counted")
CLAUSES = ["ranking", "top", "default-top", "registered", "deterministic", "inputs-kept", "instantiable",
           "model-shape", "model-tree", "model-votes", "features-only"]
MODELS = ["shipped", "none", "random"]


def cases(tier, seed):
    n = 16 if tier == "quick" else 80
    kinds = gen.WELL + ["outliers", "collinear", "constant_col", "duplicate_col", "ticks", "short"]
    return [dict(kind=k, model=m, rep=j) for k in kinds for m in MODELS for j in range(n)] + [
        dict(kind="shape", model="shipped", rep=0)]


def heuristic(f, names):
    s = {n: 0.0 for n in names}
    if f["p_over_n"] > 0.25 or f["sphericity"] < 0.6 or f["condition_number"] > 50:
        for n in ("Factor", "LedoitWolf", "OAS", "Shrunk", "Schur"):
            s[n + "Covariance"] += 2
        regime = "hard"
    else:
        s["EmpiricalCovariance"] += 2
        s["EwaCovariance"] += 2
        regime = "easy"
    if f["avg_excess_kurtosis"] > 1:
        s["HuberCovariance"] += 1.5
        s["TylerCovariance"] += 1.5
        regime += "+heavy"
    s["LedoitWolfCovariance"] += 0.5
    return s, regime


def walk(model, f):
    """(leaf, close call?)"""
    node, tight = 0, False
    while model.FEATURE[node] >= 0:
        j = model.FEATURE[node]
        z = (f[model.FEATURES[j]] - model.MEAN[j]) / model.STD[j]
        exact = model.MEAN[j] == 0 and model.STD[j] == 1 and float(f[model.FEATURES[j]]).is_integer()
        tight = tight or not exact and abs(z - model.THRESHOLD[node]) <= 1e-9 * (1 + abs(z))
        node = model.LEFT[node] if z <= model.THRESHOLD[node] else model.RIGHT[node]
    return node, tight


def random_model(rng, base, names, f):
    k = int(rng.integers(2, len(base.FEATURES) + 1))
    which = rng.permutation(len(base.FEATURES))[:k]
    cl = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(2, len(names) + 1))]]
    m = SimpleNamespace(FEATURES=[base.FEATURES[i] for i in which], MEAN=[base.MEAN[i] for i in which],
                        STD=[base.STD[i] for i in which], CLASSES=cl, FEATURE=[], THRESHOLD=[], LEFT=[],
                        RIGHT=[], VALUE=[])

    exact = [i for i, nm in enumerate(m.FEATURES) if nm in ("n", "p")]
    for i in exact:  # whole numbers, compared exactly: a window on a threshold goes left
        m.MEAN[i], m.STD[i] = 0.0, 1.0

    def grow(depth):
        i = len(m.FEATURE)
        m.FEATURE.append(-2), m.THRESHOLD.append(-2.0), m.LEFT.append(-1), m.RIGHT.append(-1)
        m.VALUE.append([0] * len(cl))
        if depth and rng.random() < 0.85:
            m.FEATURE[i], m.THRESHOLD[i] = int(rng.integers(k)), float(rng.normal() * 0.7)
            if m.FEATURE[i] in exact:
                m.THRESHOLD[i] = float(f[m.FEATURES[m.FEATURE[i]]] + int(rng.choice([-1, 0, 0, 1])))
            m.LEFT[i] = grow(depth - 1)
            m.RIGHT[i] = grow(depth - 1)
        else:
            m.VALUE[i] = [int(v) for v in rng.integers(0, 4, len(cl)) * rng.integers(0, 5)]
        return i

    grow(5)
    return m


def run(case, mon):
    from precise import all_estimators, covariance_features, recommend, suggest
    import precise._recommender_model as shipped

    if case["kind"] == "shape":
        return shape(shipped, mon, [c.__name__ for c in all_estimators()])
    rng = case_rng(case)
    names = [c.__name__ for c in all_estimators()]
    p = int(rng.choice([1, 2, 3, 4, 6, 10, 25, 40]))
    n = int(rng.choice([p + 1, 2 * p + 2, 6 * p + 5, 60, 300, 800]))
    if rng.random() < 0.04:
        p, n = (120, 130) if rng.random() < 0.5 else (3, 6000)
    X = gen.stream(case["kind"], rng, n, p)
    if len(X) < 2:
        return
    keep = X.copy()
    X.setflags(write=False)
    f = covariance_features(X)
    model = {"shipped": shipped, "none": None, "random": random_model(rng, shipped, names, f)}[case["model"]]
    what = f"{case['kind']} n={len(X)} p={p}, {case['model']} model"
    h, regime = heuristic(f, names)
    votes, tight = {}, False
    if model is not None:
        leaf, tight = walk(model, f)
        votes = dict(zip(model.CLASSES, model.VALUE[leaf]))
        mon.see(f"{case['model']} leaf {leaf}" if case["model"] == "shipped" else "random-tree leaves")
    mon.see(f"regime {regime}")
    want = sorted(names, key=lambda c: (-votes.get(c, 0), -h[c], names.index(c)))
    if not hasattr(recommend, "_MODEL") and case["model"] != "shipped":
        return
    saved = getattr(recommend, "_MODEL", None)
    try:
        if case["model"] != "shipped":
            recommend._MODEL = model
        full = suggest(X, top=len(names))
        if not tight:
            got = [c.__name__ for c in full]
            mon.ok("ranking", got == want, lambda: f"{what}: {got[:6]} where {want[:6]} is expected ({regime})")
        mon.ok("registered", set(full) == set(all_estimators()) and len(set(full)) == len(full), what)
        for k in (0, 1, 2, 5, len(names) + 7):
            mon.ok("top", suggest(X, top=k) == full[:k], f"{what}: top={k}")
        mon.ok("default-top", suggest(X) == full[:3], what)
        np.random.seed(int(rng.integers(1 << 30)))
        mon.ok("deterministic", suggest(np.asfortranarray(X.copy()), top=4) == full[:4] and
               suggest(X.tolist(), top=4) == full[:4], what)
        # only observable descriptors matter: row order and level do not
        Y = X[rng.permutation(len(X))]
        g = covariance_features(Y)
        leaf2 = walk(model, g) if model is not None else (0, False)
        if not tight and heuristic(g, names) == (h, regime) and (model is None or leaf2 == (leaf, False)):
            mon.ok("features-only", suggest(Y, top=len(names)) == full, what + ": rows shuffled")
    finally:
        if hasattr(recommend, "_MODEL"):
            recommend._MODEL = saved
    mon.same("inputs-kept", X, keep, what)
    for c in full[:2]:
        e = c().fit(X)
        mon.ok("instantiable", np.all(np.isfinite(e.covariance_)) and e.n_features_in_ == p, f"{what}: {c}")
    mon.keys.add((what, case["rep"]))
    mon.sample = {"window": what, "regime": regime, "top": [c.__name__ for c in full[:3]]}


def shape(m, mon, names):
    from precise import covariance_features

    n = len(m.FEATURE)
    mon.ok("model-shape", n == len(m.THRESHOLD) == len(m.LEFT) == len(m.RIGHT) == len(m.VALUE), "array lengths")
    mon.ok("model-shape", len(m.FEATURES) == len(m.MEAN) == len(m.STD) and all(s > 0 for s in m.STD), "scaling")
    f = covariance_features(np.arange(12.0).reshape(4, 3) ** 2)
    mon.ok("model-shape", all(k in f for k in m.FEATURES) and len(set(m.FEATURES)) == len(m.FEATURES), "features")
    mon.ok("model-shape", len(set(m.CLASSES)) == len(m.CLASSES) and set(m.CLASSES) <= set(names),
           f"classes {m.CLASSES} not all registered")
    mon.ok("model-shape", all(len(v) == len(m.CLASSES) and min(v) >= 0 for v in m.VALUE), "votes")
    seen, todo, leaves = set(), [0], []
    while todo:
        i = todo.pop()
        mon.ok("model-tree", i not in seen and 0 <= i < n, f"node {i} reached twice or missing")
        seen.add(i)
        if m.FEATURE[i] < 0:
            mon.ok("model-tree", m.FEATURE[i] == -2 and m.LEFT[i] == m.RIGHT[i] == -1, f"leaf {i}")
            leaves.append(i)
        else:
            mon.ok("model-tree", m.FEATURE[i] < len(m.FEATURES), f"node {i}")
            todo += [m.LEFT[i], m.RIGHT[i]]
    mon.ok("model-tree", seen == set(range(n)), "unreachable nodes")
    mon.evals["model-votes"] += 1
    mute = [i for i in leaves if not any(m.VALUE[i])]
    spoke = [i for i in leaves if any(m.VALUE[i])]
    mon.see("leaves", len(leaves))
    mon.see("mute leaves", len(mute))
    mon.keys.add(("shape", n))
    mon.ok("model-votes", not mute, f"{len(mute)} of {len(leaves)} leaves of the shipped tree carry no vote at all",
           mechanism="mute-leaves" if spoke == [46] and n == 47 and len(leaves) == 24 else None)
