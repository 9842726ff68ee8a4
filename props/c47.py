"""C47 What the documentation shows works, and what is shipped is the whole package."""
import ast
import html
import inspect
import os
import re
import shutil
import subprocess
import sys
import tempfile
import textwrap
import zipfile

import numpy as np

from lib import core
from lib.core import brief
from lib.util import case_rng, is_cov

RULE = ("a case is one documented example (README, migration guide, skill, home page, docstrings) run exactly as written on a "
        "random stream, its objects then judged by what the text says of them; or a wheel built from the tree and used from "
        "outside it; non-trivial: an example that leaves a fitted object to judge")
CLAUSES = ["runs", "streamed", "fitted", "keyed", "listed", "registry", "old-api", "wheel", "installed", "smoke", "guard"]
DOCS = ["README.md", "SKILL.md", "MIGRATING.md", "docs/index.html"]


def cases(tier, seed):
    n = 3 if tier == "quick" else 40
    return ([dict(what="examples", doc=d, rep=j) for d in DOCS for j in range(n)]
            + [dict(what="docstrings", rep=j) for j in range(n)] + [dict(what="tables", rep=0), dict(what="wheel", rep=0)])


def text(doc):
    with open(os.path.join(core._REPO, doc), encoding="utf-8") as f:
        return f.read()


def examples(doc):
    s = text(doc)
    if doc.endswith(".html"):
        found = [html.unescape(m.group(1)) for m in re.finditer(r"<pre[^>]*>(.*?)</pre>", s, re.S)]
        return [(b, "") for b in found if re.search(r"^\s*(from|import) ", b, re.M)]
    return [(m.group(1), s[max(0, m.start() - 120):m.start()]) for m in re.finditer(r"```python\n(.*?)```", s, re.S)]


def run(case, mon):
    globals()["do_" + case["what"]](case, mon, case_rng(case))


def world(rng):
    """Names the examples take as given."""
    p, n = int(rng.integers(2, 7)), int(rng.integers(20, 120))
    X = rng.standard_normal((n, p)) @ rng.standard_normal((p, p)) * 10.0 ** rng.uniform(-2, 2)
    return X, {"stream": list(X), "ys": list(X), "X": X, "returns": X, "stream_of_vectors": lambda: list(X)}


def execute(mon, src, ns, where):
    """Run an example; returns the values of its bare expressions."""
    out = []
    try:
        tree = ast.parse(src)
        for node in tree.body:
            if isinstance(node, ast.Expr):
                out.append((ast.unparse(node), eval(compile(ast.Expression(node.value), where, "eval"), ns)))
            else:
                exec(compile(ast.Module([node], []), where, "exec"), ns)
    except (Exception, SystemExit) as e:
        mon.ok("runs", False, f"{where}: {type(e).__name__}: {e} in\n{src}")
    mon.ok("runs", True)
    return out


def judge(case, mon, src, ns, vals, X, where):
    import precise

    p = X.shape[1]
    for name, o in list(ns.items()):
        if not isinstance(o, precise.BaseOnlineCovariance) or o.n_samples_ == 0:
            continue
        what = f"{where}: {name} = {type(o).__name__}"
        C = o.covariance_
        is_cov(mon, "streamed", C, p, what)
        mon.ok("streamed", o.n_samples_ == len(X), f"{what}: {o.n_samples_} of {len(X)} observations")
        twin = type(o)(**o.get_params())
        for x in X:
            twin.partial_fit(x)
        mon.close("streamed", C, twin.covariance_, 1e-9, what)
        mon.close("streamed", o.location_, twin.location_, 1e-9, what)
        fresh = type(o)(**o.get_params()).fit(X)
        mon.close("fitted", fresh.covariance_, C, 1e-9, what)
        mon.keys.add((where, name, X.tobytes()))
    for expr, v in vals:
        what = f"{where}: {expr}"
        last = expr.rsplit(".", 1)[-1]
        if last in ("covariance_", "correlation_", "precision_") and isinstance(v, np.ndarray):
            mon.ok("streamed", v.shape == (p, p) and np.allclose(v, v.T), f"{what}: {brief(v)}")
            if last == "correlation_":
                mon.close("streamed", np.diag(v), np.ones(p), 1e-9, what)
        elif last == "location_":
            mon.ok("streamed", v.shape == (p,), f"{what}: {brief(v)}")
        elif expr == "all_estimators()":
            mon.ok("registry", len(v) >= 10 and all(inspect.isclass(c) and hasattr(c, "partial_fit") for c in v), f"{what}: {v}")
        elif expr.startswith("estimator_from_name("):
            mon.ok("registry", v.__name__ == ast.literal_eval(expr[20:-1]), f"{what}: {v}")
        elif expr == "all_assessors()":
            mon.ok("registry", all(callable(getattr(a, "score", None)) for a in v), f"{what}: {v}")
        elif expr.startswith("suggest("):
            mon.ok("registry", len(v) == 3 and set(v) <= set(precise.all_estimators()), f"{what}: {v}")


def views(mon, src, ns, where):
    """Keyed examples: the names and values written in the text are what the views hold."""
    import precise

    for name, o in list(ns.items()):
        if not isinstance(o, (precise.FixedUniverse, precise.DynamicUniverse)):
            continue
        fed = [ast.literal_eval(m) for m in re.findall(name + r"\.(?:update|learn_one)\((\{.*?\})\)", src)]
        if not fed:
            continue
        D, names = o.covariance_, set().union(*fed)
        live = set(fed[-1]) if isinstance(o, precise.DynamicUniverse) and len(fed) > 1 else names
        mon.ok("keyed", isinstance(D, dict) and live <= set(D) <= names and all(set(D[k]) == set(D) for k in D),
               f"{where}: {name} holds {sorted(D)} after {fed}")
        if len(fed) == 1:
            x = np.array([fed[0][k] for k in sorted(names)])
            est = precise.EwaCovariance(r=0.05).partial_fit(x)
            A = np.array([[D[a][b] for b in sorted(names)] for a in sorted(names)])
            mon.close("keyed", A, est.covariance_, 1e-12, f"{where}: {name}", scale=1e-4)
        F = o.to_frame()
        mon.ok("keyed", set(F.index) == set(D) == set(F.columns), f"{where}: frame {F}")
        mon.keys.add((where, name))


def do_examples(case, mon, rng):
    import precise

    found = examples(case["doc"])
    mon.see("examples", len(found))
    shared = {}
    X, given = world(rng)
    for i, (src, before) in enumerate(found):
        where = f"{case['doc']} example {i + 1}"
        if "**Before" in before[-90:]:
            for m in [m for m in sys.modules if m.startswith("precise.skaters")]:
                del sys.modules[m]
            mon.raises("old-api", ImportError, lambda: exec(src, dict(given)), f"{where}: the removed functional API")
            continue
        if re.search(r"^import skaters", src, re.M):
            try:
                import skaters  # noqa: F401
            except ImportError:
                continue
        ns = dict(shared, **given)
        vals = execute(mon, src, ns, where)
        judge(case, mon, src, ns, vals, X, where)
        views(mon, src, ns, where)
        shared.update({k: v for k, v in ns.items() if inspect.isclass(v) or inspect.isfunction(v) or inspect.ismodule(v)})
        if "ConditionalCovariance" in src:  # the composition shown, on a stream
            est = ns["est"]
            for x in X[:25]:
                est.partial_fit(x)
            is_cov(mon, "streamed", est.covariance_, X.shape[1], where)
            mon.keys.add((where, X.tobytes()))
    mon.sample = {"doc": case["doc"], "examples": len(found), "shape": list(X.shape)}


def do_docstrings(case, mon, rng):
    """Indented examples in docstrings of the public modules, classes and functions."""
    import importlib
    import pkgutil

    import precise

    mods = [precise] + [importlib.import_module(m.name) for m in pkgutil.walk_packages(precise.__path__, "precise.")
                        if not m.name.startswith("precise.skaters")]
    seen = 0
    for m in mods:
        objs = [m] + [o for o in vars(m).values() if getattr(o, "__module__", None) == m.__name__ and
                      (inspect.isclass(o) or inspect.isfunction(o))]
        for o in objs:
            doc = inspect.getdoc(o) or ""
            for b in re.findall(r"(?:\A|\n\n)((?:    .*\n?)+)", doc):
                src = textwrap.dedent(b)
                if not re.match(r"(from precise|import)\b", src):
                    continue
                if "skaters" in src:
                    try:
                        import skaters  # noqa: F401
                    except ImportError:
                        continue
                seen += 1
                X, ns = world(rng)
                ns.update(est=precise.EwaCovariance().fit(X), holdout=X)
                where = f"docstring of {getattr(o, '__qualname__', o.__name__)}"
                src = src.replace("...", "est.fit(X)") if "est = Est(); ..." in src else src
                vals = execute(mon, src, ns, where)
                judge(case, mon, src, ns, vals, X, where)
                views(mon, src, ns, where)
    mon.see("examples", seen)


def do_tables(case, mon, rng):
    """Every name the documentation lists exists, is public and is what it is listed as."""
    import precise

    names = set()
    for doc in DOCS:
        s = text(doc)
        names |= {(doc, w) for w in re.findall(r"(?:`|<code>)(\w+Covariance)(?:`|</code>|\()", s)
                  if w != "SkaterCovariance"}  # named as removed
    mon.ok("listed", len({w for _, w in names}) >= 10, f"only {len(names)} names found")
    reg = {c.__name__ for c in precise.all_estimators()}
    for doc, w in sorted(names):
        c = getattr(precise, w, None)
        mon.ok("listed", inspect.isclass(c) and issubclass(c, precise.BaseOnlineCovariance) and w in precise.__all__, f"{doc}: {w}")
        if w not in ("ConditionalCovariance", "BaseOnlineCovariance"):
            mon.ok("listed", w in reg and precise.estimator_from_name(w) is c, f"{doc}: {w} is not registered")
        mon.keys.add((doc, w))
    judges = {type(a).__name__ if not inspect.isclass(a) else a.__name__ for a in precise.all_assessors()}
    for doc in ("README.md", "docs/index.html"):
        m = re.search(r"all_assessors\(\)\s+# (.*?)\.\.\.", text(doc), re.S)
        shown = re.findall(r"[A-Z]\w+", m.group(1).replace("(higher = better)", "")) if m else []
        for w in shown:
            mon.ok("listed", w in judges and inspect.isclass(precise.assessor_from_name(w)) or
                   type(precise.assessor_from_name(w)).__name__ == w, f"{doc}: judge {w}")
        mon.see("judges listed", len(shown))


def do_wheel(case, mon, rng):
    """A wheel built from a copy of the tree holds the package, all of it and nothing else, and works without the tree."""
    with tempfile.TemporaryDirectory(prefix="verif-c47-") as d:
        src, site, out = (os.path.join(d, x) for x in ("src", "site", "out"))
        shutil.copytree(core._REPO, src, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.pyc", ".pytest_cache", "papers"))
        open(os.path.join(src, "README.md"), "a").close()
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHONPATH", "GITHUB"))}
        env.update(PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1", HOME=d, TMPDIR=d)
        code = ("import os,sys; os.chdir(sys.argv[1]); from hatchling.build import build_wheel; "
                "os.makedirs(sys.argv[2], exist_ok=True); build_wheel(sys.argv[2])")
        try:
            import hatchling  # noqa: F401
            r = subprocess.run([sys.executable, "-c", code, src, out], env=env, capture_output=True, text=True, cwd=d)
            mon.ok("wheel", r.returncode == 0, f"build failed: {r.stderr[-500:]}")
            whl = [os.path.join(out, f) for f in os.listdir(out) if f.endswith(".whl")]
            with zipfile.ZipFile(whl[0]) as z:
                held = {n for n in z.namelist() if ".dist-info/" not in n}
                meta = z.read([n for n in z.namelist() if n.endswith("METADATA")][0]).decode()
                z.extractall(site)
        except ImportError:  # no build backend: ship the package directory itself
            shutil.copytree(os.path.join(src, "precise"), os.path.join(site, "precise"))
            held, meta = None, ""
        want = {os.path.relpath(os.path.join(a, f), src) for a, _, fs in os.walk(os.path.join(src, "precise")) for f in fs}
        mon.ok("wheel", held is None or held == want, f"wheel lacks {sorted(want - (held or want))}, adds {sorted((held or want) - want)}")
        need = [ln for ln in meta.splitlines() if ln.startswith("Requires-Dist:") and "extra ==" not in ln]
        mon.ok("wheel", held is None or [re.split(r"[\s<>=!~;]", ln.split(": ", 1)[1])[0] for ln in need] == ["numpy"], f"{need}")
        shutil.rmtree(src)  # from here on only the installed copy exists
        probe = textwrap.dedent("""
            import sys, json, os
            sys.path.insert(0, sys.argv[1])
            import numpy as np, precise
            assert os.path.realpath(precise.__file__).startswith(os.path.realpath(sys.argv[1])), precise.__file__
            X = np.random.default_rng(int(sys.argv[2])).standard_normal((60, 4))
            out = {}
            for E in precise.all_estimators():
                out[E.__name__] = E().fit(X).covariance_.tolist()
            top = [c.__name__ for c in precise.suggest(X, top=3)]
            scores = [a.score(np.eye(4), X_test=X, true_cov=np.eye(4)) for a in
                      (a() if isinstance(a, type) else a for a in precise.all_assessors())]
            v = precise.keyed(precise.EwaCovariance(), dynamic=True)
            for x in X:
                v.update(dict(zip("abcd", x)))
            print(json.dumps([out, top, scores, v.covariance_, sorted(precise.__all__)]))
        """)
        seed = int(rng.integers(1 << 30))
        r = subprocess.run([sys.executable, "-P", "-c", probe, site, str(seed)], env=env, capture_output=True, text=True, cwd=d)
        mon.ok("installed", r.returncode == 0, f"installed copy: {r.stderr[-500:]}")
        import json

        import precise

        got = json.loads(r.stdout.strip().splitlines()[-1])
        X = np.random.default_rng(seed).standard_normal((60, 4))
        for E in precise.all_estimators():
            mon.close("installed", got[0][E.__name__], E().fit(X).covariance_, 1e-9, f"installed {E.__name__}")
        mon.ok("installed", got[1] == [c.__name__ for c in precise.suggest(X, top=3)] and got[4] == sorted(precise.__all__), "names")
        smoke = os.path.join(d, "ci", "smoke.py")
        os.makedirs(os.path.dirname(smoke))
        shutil.copy(os.path.join(core._REPO, ".github", "smoke.py"), smoke)
        e = dict(env, PYTHONPATH=site, GITHUB_WORKSPACE=os.path.join(d, "elsewhere"))
        r = subprocess.run([sys.executable, smoke], env=e, capture_output=True, text=True, cwd=d)
        mon.ok("smoke", r.returncode == 0 and "smoke OK" in r.stdout, f"{r.stdout[-300:]}{r.stderr[-500:]}")
        e["GITHUB_WORKSPACE"] = site
        r = subprocess.run([sys.executable, smoke], env=e, capture_output=True, text=True, cwd=d)
        mon.ok("guard", r.returncode != 0 and "smoke OK" not in r.stdout, "the smoke test accepted the source tree")
        mon.see("files shipped", len(want))
