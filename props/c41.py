"""C41 freezing the recommender: the exported numpy-only tree is the trained tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from lib import core
from lib.util import case_rng

RULE = ("a case is one training run of research/train_recommender.py inside a scratch copy of the package: random "
        "training sets are frozen, the written module is loaded, its leaf counts are recounted from the training data "
        "and the package's own tree walk is compared with the classifier; non-trivial: a tree with at least 3 leaves "
        "was walked on at least 20 probes")
CLAUSES = ["loads", "scaling", "classes", "leaf-counts", "same-prediction", "only-the-model", "labels", "features",
           "reproducible"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(tier, seed):
    n = 24 if tier == "quick" else 160
    return [dict(what="freeze", rep=j) for j in range(n)] + [
        dict(what="generate", rep=j) for j in range(4 if tier == "quick" else 24)]


def child(payload):
    with tempfile.TemporaryDirectory(prefix="verif-c41-") as d:
        for part in ("precise", "research"):
            shutil.copytree(os.path.join(core._REPO, part), os.path.join(d, part),
                            ignore=shutil.ignore_patterns("__pycache__", "data", "legacy*", "*.csv"))
        env = dict(os.environ, PYTHONPATH=d)
        r = subprocess.run([sys.executable, os.path.join(HERE, "lib", "trainprobe.py")], input=json.dumps(payload),
                           capture_output=True, text=True, env=env, cwd=d, timeout=600)
        d = os.path.realpath(d)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1]), d
    except (ValueError, IndexError):
        raise core.Violation("loads", "training or loading the frozen model failed: " + r.stderr.strip()[-400:])


def run(case, mon):
    rng = case_rng(case)
    pay = dict(what=case["what"], seed_words=[int(v) for v in rng.integers(0, 2**31, 4)])
    if case["what"] == "generate":
        return generate(case, mon, rng, pay)
    pay.update(n=int(rng.choice([40, 120, 400])), probes=60)
    r, d = child(pay)
    what = f"{pay['n']} problems, {r['n_leaves']} leaves, {len(r['classes'][0])} classes"
    mon.ok("loads", r["where"].startswith(d + os.sep) and set(r["attrs"]) >= {
        "FEATURES", "MEAN", "STD", "CLASSES", "FEATURE", "THRESHOLD", "LEFT", "RIGHT", "VALUE"}, f"{what}: {r['attrs']}")
    mon.ok("features", r["features"] == r["own_features"], f"{what}: {r['features']}")
    mon.close("scaling", r["mean"][1], r["mean"][0], 1e-5, what, scale=1 + np.abs(r["mean"][0]).max() * 0)
    mon.close("scaling", np.array(r["std"][1]), np.array(r["std"][0]), 1e-5, what, scale=1)
    mon.ok("classes", r["classes"][0] == r["classes"][1] and r["types"] == ["str"], f"{what}: {r['classes']}")
    mon.ok("leaf-counts", not r["wrong_leaves"], f"{what}: leaf, frozen votes, training counts: {r['wrong_leaves']}")
    mon.ok("same-prediction", not r["bad"], f"{what}: frozen tree and classifier disagree: {r['bad']}")
    mon.ok("only-the-model", r["only_model_written"], f"{what}: other files were changed")
    mon.see("predictions compared", r["judged"])
    mon.see("leaves recounted", r["n_leaves"])
    if r["n_leaves"] >= 3 and r["judged"] >= 20:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"run": what, "predictions": r["judged"]}


def generate(case, mon, rng, pay):
    """Labels are the estimator with the best held-out minimum-variance score, features are the package's."""
    import precise
    import research.oos as oos

    pay.update(n=3, seed=int(rng.integers(1 << 20)))
    r, _ = child(pay)
    mon.ok("reproducible", r["same"], "generate: the same seed gave other problems")
    names = precise.estimator_names()
    mon.ok("labels", r["names"] == names and set(r["y"]) <= set(names) and len(r["X"]) == len(r["y"]) == 3, str(r["names"]))
    import research.train_recommender as tr
    from precise.assessment import GMVVariance

    seen = []
    real = oos._sample if hasattr(oos, "_sample") else None
    if real is None or not hasattr(tr, "_sample"):
        return
    try:
        tr._sample = lambda *a, **k: seen.append(real(*a, **k)) or seen[-1]
        X, y, _ = tr.generate(n_problems=3, seed=pay["seed"])
    finally:
        tr._sample = real
    mon.ok("reproducible", np.allclose(X, r["X"], rtol=1e-9) and [str(v) for v in y] == r["y"], "another process")
    if len(seen) != 6:  # drawn some other way: not to be told apart here
        mon.see("windows not identified", 3)
        return
    for i in range(3):
        train, test = seen[2 * i], seen[2 * i + 1]
        f = precise.covariance_features(train)
        mon.close("features", X[i], [float(f[k]) for k in tr.FEATURES], 1e-9, "training features")
        s = {E.__name__: GMVVariance().score(E().fit(train).covariance_, X_test=test) for E in precise.all_estimators()}
        mon.ok("labels", s[str(y[i])] >= max(s.values()) - 1e-12 * abs(max(s.values())), f"label {y[i]} of {s}")
        mon.ok("labels", not {v.tobytes() for v in train} & {v.tobytes() for v in test}, "window and test share rows")
    mon.keys.add(("generate", case["rep"]))
