"""Child of C41: trains and freezes a recommender inside a scratch copy of the package (cwd), then reports."""
import json
import sys


def main():
    case = json.load(sys.stdin)
    import contextlib
    import importlib
    import io
    import os

    import numpy as np

    import precise
    import research.train_recommender as tr

    here = os.path.realpath(os.getcwd())
    for m in (precise, tr):
        assert os.path.realpath(m.__file__).startswith(here + os.sep), m.__file__
    rng = np.random.default_rng(case["seed_words"])
    rep = {}
    kept = {}
    if case["what"] == "generate":
        X, y, names = tr.generate(n_problems=case["n"], seed=case["seed"])
        np.random.seed(3)
        X2, y2, _ = tr.generate(n_problems=case["n"], seed=case["seed"])
        rep.update(X=X.tolist(), y=[str(v) for v in y], names=names, same=bool(np.array_equal(X, X2) and list(y) == list(y2)))
        print("\n" + json.dumps(rep))
        return
    # a synthetic training set in the units of real features
    names = precise.estimator_names()
    n = case["n"]
    k = int(rng.integers(2, len(names) + 1))
    which = [names[i] for i in rng.permutation(len(names))[:k]]
    scale = 10.0 ** rng.uniform(-2, 3, len(tr.FEATURES))
    X = rng.standard_normal((n, len(tr.FEATURES))) * scale + scale * rng.normal(0, 2, len(tr.FEATURES))
    Z = (X - X.mean(0)) / X.std(0)
    cut = np.searchsorted(np.quantile(Z[:, 0] + Z[:, 1] * (Z[:, 2] > 0), np.linspace(0, 1, k + 1)[1:-1]),
                          Z[:, 0] + Z[:, 1] * (Z[:, 2] > 0))
    y = np.array([which[c] if rng.random() < 0.8 else which[int(rng.integers(k))] for c in cut])
    tr.generate = lambda *a, **kw: (X, y, names)
    real = tr.DecisionTreeClassifier

    def spy(*a, **kw):
        kept["clf"] = real(*a, **kw)
        return kept["clf"]

    tr.DecisionTreeClassifier = spy
    before = {f: open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(here) for f in fs
              if f.endswith(".py") and f != "_recommender_model.py"}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        tr.main()
    after = {f: open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(here) for f in fs
             if f.endswith(".py") and f != "_recommender_model.py"}
    rep["only_model_written"] = before == after
    clf = kept["clf"]
    sys.modules.pop("precise._recommender_model", None)
    model = importlib.import_module("precise._recommender_model")
    rep["where"] = os.path.realpath(model.__file__)
    rep["attrs"] = sorted(a for a in dir(model) if a.isupper())
    t = clf.tree_
    mean, std = X.mean(0), X.std(0)
    rep["mean"], rep["std"] = [list(map(float, mean)), list(map(float, model.MEAN))], [
        list(map(float, std)), list(map(float, model.STD))]
    rep["features"], rep["own_features"] = list(model.FEATURES), list(tr.FEATURES)
    rep["classes"] = [list(map(str, clf.classes_)), list(model.CLASSES)]
    rep["types"] = sorted({type(v).__name__ for v in model.CLASSES})
    # counts at every leaf, from the training data itself
    leaf = clf.apply((X - mean) / (std + 1e-9))
    wrong = []
    for i in range(t.node_count):
        if t.children_left[i] < 0:
            want = [int(np.sum((leaf == i) & (y == c))) for c in clf.classes_]
            if list(model.VALUE[i]) != want:
                wrong.append([i, list(model.VALUE[i]), want])
    rep["n_leaves"], rep["wrong_leaves"] = int(t.n_leaves), wrong[:3]
    # the frozen tree, walked by the package itself, predicts what the classifier predicts
    from precise import recommend

    if hasattr(recommend, "_MODEL"):
        recommend._MODEL = model
    bad, judged, close = [], 0, 0
    real_features = recommend.covariance_features
    for _ in range(case["probes"]):
        f = rng.standard_normal(len(tr.FEATURES)) * scale * 1.2 + mean
        z = (f - mean) / (std + 1e-9)
        path = clf.decision_path(z[None, :].astype(np.float32)).indices
        if any(t.children_left[i] >= 0 and abs(z[t.feature[i]] - t.threshold[i]) < 1e-4 * (1 + abs(z[t.feature[i]]))
               for i in path):
            close += 1
            continue
        p = clf.predict_proba(z[None, :])[0]
        base = real_features(np.eye(4))
        base.update({k: float(v) for k, v in zip(tr.FEATURES, f)})
        recommend.covariance_features = lambda X: dict(base)
        got = recommend.suggest(np.eye(4), top=1)[0].__name__
        judged += 1
        best = {str(c) for c, v in zip(clf.classes_, p) if v >= p.max() - 1e-9}
        if got not in best:
            bad.append([got, sorted(best)])
    rep.update(judged=judged, close=close, bad=bad[:3], printed=out.getvalue()[:400])
    print("\n" + json.dumps(rep))


main()
