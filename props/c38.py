"""C38 the package: numpy only, a complete public surface, and no effect on (or from) its surroundings."""
import base64
import importlib
import inspect
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from lib import core, gen, grid
from lib.util import all_names, case_rng

RULE = ("a case is one workload (estimator, keyed view, judges, recommender) run in child processes in which only "
        "numpy can be imported and an audit hook records every file, process and network event; each runs under "
        "several hash seeds, global random seeds, working directories and -O; non-trivial: readings were compared "
        "between two such children")
CLAUSES = ["numpy-only", "no-effects", "untouched", "silent", "same-everywhere", "travels", "exports", "registry",
           "shim", "frame-hint"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = [dict(what="estimator", cls=c, rep=j) for c in all_names() for j in range(n)]
    out += [dict(what="keyed", cls=c, rep=j, dynamic=d) for c in all_names() for d in (False, True)
            for j in range(n)]
    out += [dict(what=w, rep=j) for w in ("judges", "suggest") for j in range(2 * n)]
    return out + [dict(what=w, rep=0) for w in ("exports", "registry", "shim")]


def child(payload, hashseed, flags=()):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    r = subprocess.run([sys.executable, *flags, os.path.join(HERE, "lib", "probe.py")], input=json.dumps(payload),
                       capture_output=True, text=True, env=env, timeout=300)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise core.Violation("numpy-only", "the package does not work in a process with numpy alone: "
                             + r.stderr.strip()[-400:])


def run(case, mon):
    if case["what"] in ("exports", "registry", "shim"):
        return globals()[case["what"]](case, mon)
    rng = case_rng(case)
    p = int(rng.choice([2, 3, 5]))
    kind = str(rng.choice(gen.ALL)) if case["what"] == "estimator" else str(rng.choice(gen.WELL))
    pay = dict(what=case["what"], p=p, n=int(rng.choice([12, 40, 80])), kind=kind,
               seed_words=[int(v) for v in rng.integers(0, 2**31, 4)], dynamic=case.get("dynamic", False))
    if "cls" in case:
        pay["spec"] = spec = grid.config(case["cls"], rng)
        if "cls" in case and case["what"] == "keyed" and case["cls"] == "ConditionalCovariance":
            pay["spec"] = spec = {"cls": case["cls"], "vol": {"cls": "EwaCovariance", "kw": {"r": 0.1}},
                                  "corr": {"cls": "LedoitWolfCovariance", "kw": {"r": 0.05}}}
    what = f"{case['what']} {grid.describe(spec) if 'cls' in case else ''} p={p} {kind}"
    first = None
    with tempfile.TemporaryDirectory(prefix="verif-c38-") as d:
        for k, (hs, flags, scratch) in enumerate([(0, (), None), (1 + int(rng.integers(1000)), ("-O",), d)]):
            rep = child(dict(pay, ambient=int(rng.integers(1, 1 << 30)), scratch=scratch), hs, flags)
            odd = [m for m in rep["blocked"] if m.split(".")[0] not in (
                ("pandas",) if case["what"] == "keyed" else ())]
            mon.ok("numpy-only", not odd and not rep["third"], f"{what}: tried to import {odd} {rep['third']}")
            mon.ok("no-effects", not rep["effects"], f"{what}: {rep['effects'][:4]}")
            mon.ok("untouched", not rep["touched"], f"{what}: changed the {rep['touched']}")
            mon.ok("silent", not rep["printed"], f"{what}: printed {rep['printed']!r}")
            mon.see("audit events observed", rep["events"])
            mon.see("readings compared", rep["n_readings"])
            if case["what"] == "keyed":
                mon.ok("frame-hint", "pandas" in rep.get("frame", "") and rep["frame"] != "no error",
                       f"{what}: to_frame without pandas: {rep.get('frame')}")
            if first is None:
                first = rep
            else:
                mon.ok("same-everywhere", rep["digest"] == first["digest"], f"{what}: different readings under "
                       f"another hash seed, global random seed, working directory and optimisation flag")
        mon.ok("no-effects", not os.listdir(d), f"{what}: files left behind: {os.listdir(d)}")
    if case["what"] == "estimator":  # what another process pickled goes on here like the original
        est = pickle.loads(base64.b64decode(rep["blob"]))
        r2 = np.random.default_rng(pay["seed_words"])
        X = gen.stream(kind, r2, pay["n"], p)
        twin = grid.build(spec)
        for x in X:
            twin.partial_fit(x)
        more = gen.stream("gauss", r2, 7, p)
        est.partial_fit(more)
        twin.partial_fit(more)
        mon.same("travels", est.covariance_, twin.covariance_, what)
        mon.same("travels", est.location_, twin.location_, what)
    mon.keys.add((what, case["rep"]))
    mon.sample = {"workload": what, "digest": first["digest"][:16], "audit_events": first["events"]}


def exports(case, mon):
    import precise
    import precise.assessment as judges

    for mod in (precise, judges):
        names = list(mod.__all__)
        mon.ok("exports", len(set(names)) == len(names), f"{mod.__name__}: a name is exported twice")
        for n in names:
            mon.ok("exports", hasattr(mod, n), f"{mod.__name__}.{n} does not exist")
        ns = {}
        exec(f"from {mod.__name__} import *", ns)
        mon.ok("exports", set(names) <= set(ns), f"from {mod.__name__} import * misses {set(names) - set(ns)}")
        for n in names:
            mon.ok("exports", ns[n] is getattr(mod, n), n)
            o = getattr(mod, n)
            if inspect.isclass(o) or inspect.isfunction(o):
                mon.ok("exports", o.__name__ == n, f"{n} is {o.__name__}")
    for c in precise.all_estimators():
        mon.ok("exports", c.__name__ in precise.__all__ and getattr(precise, c.__name__) is c, c.__name__)
    for c in precise.all_assessors():
        n = type(c).__name__
        mon.ok("exports", n in judges.__all__, n)
    # names documented in the README's import lines
    text = open(os.path.join(core._REPO, "README.md")).read()
    for line in text.splitlines():
        if line.startswith("from precise import "):
            for n in line[len("from precise import "):].split("#")[0].split(","):
                mon.ok("exports", n.strip() in precise.__all__, f"README imports {n.strip()}")
    mon.ok("exports", isinstance(precise.__version__, str) and precise.__version__, "__version__")
    mon.keys.add("exports")


def registry(case, mon):
    import precise

    a, b = precise.all_estimators(), precise.all_estimators()
    mon.ok("registry", a == b and a is not b and len(set(a)) == len(a), "all_estimators")
    a.clear()
    mon.ok("registry", precise.all_estimators() == b, "editing the returned list changed the registry")
    names = precise.estimator_names()
    mon.ok("registry", names == [c.__name__ for c in b], "estimator_names")
    names.append("x")
    mon.ok("registry", precise.estimator_names() == [c.__name__ for c in b], "editing the names changed the registry")
    for c in b:
        mon.ok("registry", precise.estimator_from_name(c.__name__) is c, c.__name__)
        mon.ok("registry", issubclass(c, precise.BaseOnlineCovariance), c.__name__)
        for bad in (c.__name__.lower(), c.__name__ + " ", c.__name__[:-1], "precise." + c.__name__):
            mon.raises("registry", KeyError, lambda: precise.estimator_from_name(bad), bad)
        e = c()
        mon.ok("registry", set(e.get_params()) == set(inspect.signature(c.__init__).parameters) - {"self"}, c.__name__)
    for bad in ("", "Base", "BaseOnlineCovariance", "nope", None, 3):
        mon.raises("registry", KeyError, lambda: precise.estimator_from_name(bad), repr(bad))
    # every positional estimator the package exports is registered, but for the composition
    public = {c for c in (getattr(precise, n) for n in precise.__all__) if inspect.isclass(c)
              and issubclass(c, precise.BaseOnlineCovariance)}
    mon.ok("registry", public - set(b) == {precise.BaseOnlineCovariance, precise.ConditionalCovariance},
           f"exported but not registered: {public - set(b)}")
    mon.keys.add("registry")


def shim(case, mon):
    for name in ("precise.skaters", "precise.skaters.covariance", "precise.skaters.covariance.ewapm",
                 "precise.skaters.managers.schurmanagers", "precise.skaters"):
        for mod in [m for m in sys.modules if m.startswith("precise.skaters")]:
            del sys.modules[mod]
        try:
            importlib.import_module(name)
            mon.ok("shim", False, f"importing {name} succeeds")
        except ImportError as e:
            t = str(e)
            mon.ok("shim", "EwaCovariance" in t and "MIGRATING" in t and "removed" in t, f"{name}: {t[:80]}")
        mon.ok("shim", not any(m.startswith("precise.skaters") for m in sys.modules), "left half imported")
    import precise

    mon.ok("shim", precise.EwaCovariance().fit(np.eye(3)).covariance_.shape == (3, 3), "package still works")
    mon.keys.add("shim")
