"""Monitor framework: cases, verdicts, evidence, replay files and known findings.

A property module (props/cNN.py) defines
    TITLE     short text
    RULE      how cases are made and what makes one non-trivial (goes to the evidence)
    CLAUSES   the monitors that must have been evaluated at least once (else: inconclusive)
    cases(tier, seed) -> list of JSON-able dicts, each fully describing one execution
    run(case, mon)    -> drives the real code and feeds what it observed to ``mon``
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

from lib.pool import Pool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 120  # CPU seconds (not wall): normal cases take well under 5


class Violation(Exception):
    def __init__(self, clause, what, mechanism=None):
        super().__init__(f"[{clause}] {what}")
        self.clause, self.what, self.mechanism = clause, what, mechanism


class Stuck(Exception):
    pass


class Mon:
    """Collects what the monitors observed during one case."""

    def __init__(self):
        self.evals = Counter()   # clause -> number of evaluations
        self.seen = Counter()    # named counters of observed events / states
        self.keys = set()        # distinct non-trivial executions (hashed descriptions)
        self.sample = None
        self.floor = 0.0         # absolute rounding level of the case's data

    def ok(self, clause, cond, what="", mechanism=None):
        self.evals[clause] += 1
        if not cond:
            raise Violation(clause, what() if callable(what) else what, mechanism)

    def close(self, clause, got, want, tol, what="", scale=None):
        """max|got-want| <= tol*scale (scale defaults to max(|want|, |got| not used))."""
        import numpy as np

        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self.evals[clause] += 1
        if got.shape != want.shape:
            raise Violation(clause, f"{what}: shape {got.shape} != expected {want.shape}")
        if want.size == 0:
            return
        if not np.all(np.isfinite(got)) and np.all(np.isfinite(want)):
            raise Violation(clause, f"{what}: non-finite value where {brief(want)} is expected")
        s = float(np.max(np.abs(want))) if scale is None else float(scale)
        err = float(np.max(np.abs(got - want)))
        if not err <= tol * s + self.floor + 1e-300:
            raise Violation(
                clause,
                f"{what}: differs from the oracle by {err:.3g} (allowed {tol * s:.3g}); "
                f"got {brief(got)} expected {brief(want)}",
            )

    def same(self, clause, got, want, what=""):
        """Bitwise equality of arrays (NaN equal to NaN)."""
        import numpy as np

        self.evals[clause] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
            d = ""
            if got.shape == want.shape:
                d = f" (max abs difference {np.max(np.abs(got - want)):.3g})"
            raise Violation(clause, f"{what}: {brief(got)} is not {brief(want)}{d}")

    def see(self, name, n=1):
        self.seen[name] += n

    def raises(self, clause, exc, fn, what=""):
        self.evals[clause] += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Violation(clause, f"{what}: raised {type(e).__name__} instead of an expected error")
        raise Violation(clause, f"{what}: was accepted")


def brief(a):
    import numpy as np

    a = np.asarray(a)
    s = np.array2string(a, precision=6, threshold=8, edgeitems=2).replace("\n", "")
    return s if len(s) < 160 else s[:157] + "..."


def rng_for(*parts):
    import numpy as np

    h = hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "big"))


def _on_timer(*_):
    raise Stuck()


_MOD = None


def _run_case(case):
    mon = Mon()
    out = {"case": case, "violation": None, "harness": None}
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np

            with np.errstate(all="ignore"):
                _MOD.run(case, mon)
    except Violation as v:
        out["violation"] = (v.clause, str(v), v.mechanism)
    except Stuck:
        out["violation"] = ("terminates", f"still running after {CASE_CPU_S} CPU seconds", None)
    except MemoryError:
        out["harness"] = "MemoryError"
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(_REPO + os.sep)]
        text = f"{type(e).__name__}: {e} at " + (
            f"{where[-1].filename}:{where[-1].lineno}" if where else f"{tb[-1].filename}:{tb[-1].lineno}"
        )
        # Raised inside the code under test, or by the harness on a value that code returned.
        out["violation"] = ("no-unexpected-exception", text, None)
        out["tb"] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    out.update(evals=dict(mon.evals), seen=dict(mon.seen), keys=mon.keys, sample=mon.sample)
    return out


_REPO = "/repo"


def known_findings(prop):
    """mechanism -> text, for findings recorded (not repaired) for this property."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line[8:].split() if "=" in x and
                         x.split("=", 1)[0] in ("property", "mechanism"))
                if f.get("property") == prop:
                    out[f["mechanism"]] = line.split(" -- ", 1)[-1]
    return out


def main(argv, repo):
    global _MOD, _REPO
    _REPO = os.path.realpath(repo)
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, _REPO)
    import precise

    if not os.path.realpath(precise.__file__).startswith(_REPO + os.sep):
        print(f"INCONCLUSIVE property={prop}: imported {precise.__file__}, not {_REPO}")
        return 2
    _MOD = importlib.import_module(f"props.{prop.lower()}")
    if "--replay" in argv:
        rp = json.load(open(argv[argv.index("--replay") + 1]))
        res = _run_case(rp["case"])
        print(json.dumps({"case": rp["case"], "violation": res["violation"],
                          "harness": res["harness"]}, default=str))
        print(res.get("tb", ""))
        return 1 if res["violation"] else (2 if res["harness"] else 0)

    cases = list(_MOD.cases(tier, seed))
    for i, c in enumerate(cases):
        c.setdefault("id", i)
        c.setdefault("seed", seed)
    known = known_findings(prop)
    nproc = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
    evals, seen, keys, samples, viols, known_hits, harness = (
        Counter(), Counter(), set(), [], [], {}, [])
    done = 0
    mode = getattr(_MOD, "PARALLEL", True)
    it, pool = None, None
    if mode and nproc > 1 and len(cases) > 1:
        sys.stdout.flush()
        pool = Pool(_run_case, sorted(cases, key=lambda c: hash_int(c["id"])), nproc)
        it = pool
    else:
        it = ((c, _run_case(c), 0) for c in cases)
    try:
        for case, res, status in it:
            done += 1
            if res is None:  # the process died in the code it ran, or was ended for its memory
                text = f"the process running {brief_case(case)} died (wait status {status})"
                if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGKILL, signal.SIGTERM):
                    harness.append(text)
                    continue
                res = dict(case=case, violation=("no-unexpected-exception", text, None), harness=None,
                           evals={}, seen={}, keys=set(), sample=None)
            evals.update(res["evals"])
            seen.update(res["seen"])
            keys |= res["keys"]
            if res["sample"] is not None and len(samples) < 400:
                samples.append(res["sample"])
            if res["harness"]:
                harness.append(res["harness"])
            if res["violation"]:
                mech = res["violation"][2]
                if mech in known:
                    known_hits[mech] = known[mech]
                    continue
                viols.append(res)
                if len(viols) >= 3:
                    break
    finally:
        if pool is not None:
            pool.close()
    missing = [c for c in _MOD.CLAUSES if not evals.get(c)]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples.sort(key=lambda s: json.dumps(s, sort_keys=True, default=str))
    step = max(1, len(samples) // 6)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(_MOD, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(keys),
            "rule": _MOD.RULE,
            "samples": samples[::step][:6] or [cases[0] if cases else {}],
            "cases_planned": len(cases),
            "monitor_evaluations": dict(sorted(evals.items())),
            "observed": dict(sorted(seen.items())),
        },
        "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viols),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_js)
    for mech, text in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {text}")
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in viols:
            h = hashlib.sha256(json.dumps(v["case"], sort_keys=True, default=str).encode())
            path = os.path.join(VERIF, "replays", f"{prop}-{h.hexdigest()[:12]}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "case": v["case"], "violation": v["violation"],
                           "traceback": v.get("tb")}, f, indent=1, default=_js)
            print(f"VIOLATION property={prop} replay={path} {v['violation'][1][:600]}")
        return 1
    if harness:
        print(f"INCONCLUSIVE property={prop}: harness failed: {harness[:3]}")
        return 2
    if done < len(cases):
        print(f"INCONCLUSIVE property={prop}: {done} of {len(cases)} cases were run")
        return 2
    if missing or not done or not keys:
        print(f"INCONCLUSIVE property={prop}: monitors never reached: {missing or 'all'}")
        return 2
    print(f"HELD property={prop} tier={tier} seed={seed}: {done} executions, {len(keys)} distinct "
          f"non-trivial, {sum(evals.values())} monitor evaluations, {time.time() - t0:.1f}s")
    return 0


def brief_case(case):
    return json.dumps(case, sort_keys=True, default=str)[:300]


def hash_int(i):
    return (i * 2654435761) & 0xFFFFFFFF


def _js(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=str)
    return str(o)
