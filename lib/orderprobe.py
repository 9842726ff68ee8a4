"""Child process of C07: runs jobs in the given order in one fresh process and reports each one's readings.

Standard input: a JSON list of jobs.  Standard output: {job id: [numbers and strings]}.
"""
import json
import sys
import warnings


def main():
    import numpy as np

    import precise
    import precise.assessment as A
    from lib import gen, grid

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    out = {}
    for job in json.load(sys.stdin):
        h = []

        def note(*arrays):
            for a in arrays:
                a = np.asarray(a, dtype=float)
                h.extend([str(a.shape)] + a.ravel().tolist())

        rng = np.random.default_rng(job["seed"])
        p, n = job["p"], job["n"]
        X = gen.stream("corr", rng, n, p)
        if job["what"] == "judge":
            C = np.cov(X.T) + np.eye(p)
            kw = job["kw"]
            note(getattr(A, job["cls"])(**kw).score(C, X_test=X, true_cov=C))
        elif job["what"] == "keyed":
            v = precise.keyed(grid.build(job["spec"]), dynamic=job["dynamic"])
            for x in X:
                v.update({f"k{j}": float(x[j]) for j in range(p) if not job["dynamic"] or rng.random() < 0.9 or j == 0})
            note(v.get_cov())
        elif job["what"] == "suggest":
            note(list(precise.covariance_features(X).values()))
            h.extend(c.__name__ for c in precise.suggest(X, top=20))
        else:
            est = grid.build(job["spec"])
            for x in X:
                est.partial_fit(x)
            note(est.covariance_, est.correlation_, est.location_, est.precision_)
            g = getattr(est, "gamma_", None)
            note([] if g is None else [g])
        out[job["id"]] = h
    print(json.dumps(out))


main()
