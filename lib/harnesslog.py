"""Stand-ins that record what a benchmark harness does with its data: which window each estimator was fitted
on, what was scored against what, what the recommender saw.  The log is judged afterwards."""
import hashlib

import numpy as np


def digest(a):
    a = np.ascontiguousarray(np.asarray(a, dtype=float))
    return hashlib.sha256(str(a.shape).encode() + a.tobytes()).hexdigest()


class Log(list):
    def add(self, kind, **kw):
        self.append(dict(kind=kind, **kw))


def make_estimators(log, names, rng, broken=()):
    """Estimator classes whose covariance_ is a shrunk sample covariance, known to the checker."""
    out = []
    for name in names:
        d = float(rng.uniform(0.05, 0.95))

        class E:
            _d, _broken = d, name in broken

            def __init__(self, **kw):
                self.kw = kw

            def fit(self, X):
                X = np.asarray(X)
                log.add("fit", cls=type(self).__name__, data=X.copy())
                if self._broken:
                    raise np.linalg.LinAlgError("stand-in failure")
                self.covariance_ = shrunk(X, self._d)
                return self

            def partial_fit(self, X):
                raise AssertionError("the harness streams: not expected")

        E.__name__ = E.__qualname__ = name
        out.append(E)
    return out


def shrunk(X, d):
    S = X.T @ X / len(X)
    return (1 - d) * S + d * np.trace(S) / X.shape[1] * np.eye(X.shape[1])


class Judge:
    """Scores by a smooth pseudo-random function of (covariance, held-out rows): no ties, any winner."""

    needs_data, needs_truth = True, False

    def __init__(self, log, salt):
        self.log, self.salt = log, salt
        self.name = "Judge"

    def value(self, cov, X):
        h = hashlib.sha256((digest(np.round(cov, 9)) + digest(X) + str(self.salt)).encode()).digest()
        return int.from_bytes(h[:6], "big") / 2**48

    def score(self, cov, *, X_test=None, true_cov=None):
        v = self.value(cov, X_test)
        self.log.add("score", cov=np.array(cov), data=np.asarray(X_test).copy(), value=v)
        return v


def rank_bounds(scores, name):
    up = sum(v > scores[name] for v in scores.values())
    ties = sum(v == scores[name] for v in scores.values())
    return 1 + up, up + ties
