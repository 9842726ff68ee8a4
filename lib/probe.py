"""Child process of C38: runs a workload on the package and reports what it did to its surroundings.

Standard input: a JSON case.  Standard output (the real one): one JSON report.
"""
import json
import os
import sys


def elsewhere(k):
    """Another machine at another time: every setting the package asks for is there, clocks and counts differ."""
    import time

    home = os.path.join(os.environ.get("VERIF_REPO") or "/repo", "precise") + os.sep
    value = ("1", "1", "10", "0.5")[k % 4]

    def asks():
        f = sys._getframe(2)
        while f is not None and os.path.basename(f.f_code.co_filename) in ("os.py", "<frozen os>", "_collections_abc.py",
                                                                           "<frozen _collections_abc>"):
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(home)

    class Env(type(os.environ)):
        def __getitem__(self, key):
            return value if asks() else super().__getitem__(key)

        def __contains__(self, key):
            return True if asks() else super().__contains__(key)

    os.environ.__class__ = Env
    for name in ("time", "monotonic", "perf_counter", "process_time"):
        real, real_ns = getattr(time, name), getattr(time, name + "_ns")
        setattr(time, name, lambda real=real: real() + 3e8 + k)
        setattr(time, name + "_ns", lambda real=real_ns: real() + (3 * 10 ** 8 + k) * 10 ** 9)
    os.cpu_count = lambda: 1 + k % 3
    os.getpid = lambda real=os.getpid(): real + k
    sys.argv = ["/nowhere/job.py", "--r=0.5", "-v"]


def main():
    case = json.load(sys.stdin)
    import base64
    import hashlib
    import io
    import pickle
    import random
    import threading
    import warnings

    import numpy as np

    import numpy.linalg  # noqa: F401
    import numpy.random  # noqa: F401

    report = {"blocked": [], "effects": [], "touched": [], "events": 0}
    std = set(sys.stdlib_module_names)

    class Only:
        """Nothing outside the standard library, numpy and the package can be imported."""

        def find_spec(self, name, path=None, target=None):
            top = name.split(".")[0]
            if top in std or top in ("numpy", "precise", "lib"):
                return None
            report["blocked"].append(name)
            raise ImportError(f"no module named {name!r} here (only numpy is installed)")

    sys.meta_path.insert(0, Only())
    for m in [m for m in sys.modules if m.split(".")[0] in ("pandas", "scipy", "sklearn", "skaters", "randomcov")]:
        del sys.modules[m]

    if case["scratch"]:
        elsewhere(case["ambient"])
    import precise

    from lib import gen, grid

    seed = case["seed_words"]
    rng = np.random.default_rng(seed)
    np.random.seed(case["ambient"])
    random.seed(case["ambient"])
    np.set_printoptions(precision=3 + case["ambient"] % 4)
    warnings.simplefilter("ignore")
    if case["scratch"]:
        os.chdir(case["scratch"])

    on = [False]
    WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
    BAD = ("socket.", "subprocess.", "os.system", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.exec",
           "os.fork", "os.posix_spawn", "os.kill", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate",
           "os.putenv", "os.unsetenv", "shutil.", "urllib.", "http.", "ftplib.", "smtplib.", "signal.", "ctypes.",
           "tempfile.", "webbrowser.", "os.chdir")

    def hook(event, args):
        if not on[0]:
            return
        report["events"] += 1
        if event == "open":
            path, mode, flags = (tuple(args) + (None, None, None))[:3]
            if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                    isinstance(flags, int) and flags & WRITE):
                report["effects"].append(f"open {path!r} for writing")
        elif any(event.startswith(b) for b in BAD):
            report["effects"].append(f"{event} {str(args)[:80]}")

    sys.addaudithook(hook)

    def surroundings():
        g = np.random.get_state()
        return {
            "numpy global random state": hashlib.sha256(pickle.dumps(g)).hexdigest(),
            "random global state": hashlib.sha256(pickle.dumps(random.getstate())).hexdigest(),
            "numpy error handling": str(sorted(np.geterr().items())),
            "warning filters": str(warnings.filters),
            "print options": str(sorted(np.get_printoptions().items(), key=str)),
            "working directory": os.getcwd(),
            "environment": str(sorted(os.environ.items())),
            "threads": threading.active_count(),
            "recursion limit": sys.getrecursionlimit(),
            "module search path": str(sys.path),
        }

    digest = hashlib.sha256()
    readings = []

    def note(*arrays):
        for a in arrays:
            a = np.ascontiguousarray(np.asarray(a, dtype=float))
            digest.update(str(a.shape).encode() + a.tobytes())
            readings.append(a)

    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    before = surroundings()
    on[0] = True
    blob = None
    try:
        p, n = case["p"], case["n"]
        X = gen.stream(case["kind"], rng, n, p)
        if case["what"] == "estimator":
            spec = case["spec"]
            est = grid.build(spec)
            for x in X:
                est.partial_fit(x)
            note(est.covariance_, est.location_, est.correlation_, est.precision_, est.mahalanobis(X),
                 est.score(X), grid.build(spec).fit(X).covariance_)
            blob = pickle.dumps(est)
            repr(est)
            for bad in (np.ones(p + 1), np.ones((1, 1, p)), "nonsense"):
                try:
                    est.partial_fit(bad)
                except (TypeError, ValueError):
                    pass
            still = grid.build(spec).partial_fit(np.ones((7, p)))  # nothing but zero variance
            note(still.covariance_.shape, still.correlation_.shape)
            if spec["cls"] != "ConditionalCovariance":  # documented: pickle only
                note(grid.build(spec).set_state(est.get_state()).covariance_)
        elif case["what"] == "keyed":
            names = [f"k{j}" for j in range(p)]
            view = precise.keyed(grid.build(case["spec"]), dynamic=case["dynamic"],
                                 **({"max_universes": 3, "max_staleness": 4} if case["dynamic"] else {}))
            for t, x in enumerate(X):
                drop = set(rng.permutation(p)[:int(rng.integers(0, p))].tolist()) if t else set()
                view.learn_one({names[j]: float(x[j]) for j in range(p) if j not in drop})
                if t % 5 == 0:
                    note(view.get_cov(), view.get_corr())
            if case["dynamic"]:  # sets of names that never meet, and names never seen
                for x in X[:6]:
                    view.learn_many([{"u": float(x[0]), "v": float(x[1])}, {"w": float(x[0])}])
                note(view.get_cov(["u", "w", names[0]]), view.get_corr(["u", "v", "w", "never"]))
            for bad in ({names[0]: "no number"}, {names[0]: [1.0, 2.0]}):
                try:
                    view.update(bad)
                except (TypeError, ValueError):
                    pass
            c = view.covariance_
            readings_keys = [list(c), [list(c[k]) for k in c]]
            digest.update(json.dumps(readings_keys).encode())
            note([[c[a][b] for b in c[a]] for a in c])
            repr(view)
            try:
                view.to_frame()
                report["frame"] = "no error"
            except ImportError as e:
                report["frame"] = str(e)
        elif case["what"] == "judges":
            truth = np.cov(X.T) + np.eye(p)
            est = precise.EwaCovariance().fit(X)
            for a in precise.all_assessors():
                note(a.score(est.covariance_, X_test=X, true_cov=truth))
                a.score(np.ones((p, p)), X_test=X, true_cov=truth)  # no inverse
                repr(a), a.name, a.usable(have_data=True, have_truth=False)
            J = precise.assessment
            note(*[J.SchurLikelihood(gamma=g, n_blocks=2, interpolation=i).score(est.covariance_, X_test=X)
                   for g in (0.0, 0.4, 1.0) for i in ("linear", "geodesic")],
                 J.BlockPseudoLikelihood(block_size=1).score(est.covariance_, X_test=X))
        elif case["what"] == "suggest":
            f = precise.covariance_features(X)
            note(list(f.values()))
            digest.update(json.dumps([c.__name__ for c in precise.suggest(X, top=9)]).encode())
            for Y in (X[:2], X[:, :1], np.zeros((5, p)), np.hstack([X, X, X]), 1e8 * X):
                precise.covariance_features(Y), precise.suggest(Y)
    finally:
        on[0] = False
        printed = sys.stdout.getvalue() + sys.stderr.getvalue()
        sys.stdout, sys.stderr = out, err
    after = surroundings()
    report["touched"] = [k for k in before if before[k] != after[k]]
    report["printed"] = printed[:200]
    report["digest"] = digest.hexdigest()
    report["n_readings"] = len(readings)
    report["flags"] = [sys.flags.optimize, sys.flags.hash_randomization, os.environ.get("PYTHONHASHSEED")]
    report["third"] = sorted({m.split(".")[0] for m in sys.modules} & {
        "pandas", "scipy", "sklearn", "skaters", "randomcov", "statsmodels", "matplotlib", "requests"})
    if blob is not None:
        report["blob"] = base64.b64encode(blob).decode()
    print(json.dumps(report))


main()
