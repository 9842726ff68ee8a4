"""C18 entrywise Schur family: BlockCovariance, SchurCovariance, SchurLedoitWolfCovariance."""
import numpy as np

from lib import against, gen, grid, ref
from lib.util import case_rng, feed

RULE = ("a case is (estimator, stream kind, repetition): followed against the specification; structure "
        "judged directly: contiguous near-equal blocks, cross-block entries zero / damped by exactly "
        "gamma, within-block entries untouched; non-trivial: at least two blocks and one of size > 1")
CLAUSES = ["covariance", "location", "count", "block-diagonal", "damped", "within-block", "end-points",
           "gamma_", "block-precision", "geodesic-path", "clipped-blocks"]
NAMES = ["BlockCovariance", "SchurCovariance", "SchurLedoitWolfCovariance"]


def cases(tier, seed):
    return against.cases(NAMES, gen.WELL + against.ROUGH, 5 if tier == "quick" else 45)


def run(case, mon):
    rng = case_rng(case)
    name = case["cls"]
    spec, p, n, nb = against.setup(case, rng)
    kw = spec["kw"]
    X = gen.stream(case["kind"], rng, n, p)
    geo = kw.get("interpolation") == "geodesic"
    if geo and case["kind"] not in ("gauss", "corr", "factor", "uniform", "t4"):
        kw["interpolation"], geo = "linear", False
    big = max(1.0, np.abs(X).max() / max(X.std(), 1e-9))
    r, diff, nbk = kw.get("r", 0.05), kw.get("diff"), kw.get("n_blocks", 4)
    D = np.diff(X, axis=0) if diff else X
    cross = ref.cross_mask(p, nbk)
    if len(D) < 2:
        return

    def extra(est, t, what):
        m, S = ref.ewa(D[: t - (1 if diff else 0)], r)
        C = est.covariance_
        sd = np.sqrt(np.maximum(np.diag(S), 1e-9 * (np.abs(S).max() + 1e-300)))
        e = 1e-8 * big * np.outer(sd, sd) + mon.floor
        pd = np.linalg.eigvalsh(S)[0] > 1e-6 + 1e-9 * np.abs(S).max()  # no eigenvalue floor at work
        if name == "BlockCovariance":
            mon.ok("block-diagonal", not np.any(C[cross]), what + ": non-zero cross-block entry")
            if pd:
                mon.ok("within-block", np.all((np.abs(C - S) <= e)[~cross]), what + ": block entries")
                mon.close("block-precision", est.precision_ @ C, np.eye(p), 1e-6, what, scale=1.0)
                mon.ok("block-precision", not np.any(np.abs(est.precision_[cross]) > 0), what)
        elif pd and not geo:
            g = kw.get("gamma", 0.5) if name == "SchurCovariance" else est.gamma_
            if name != "SchurCovariance":
                mon.ok("gamma_", 0 <= g <= 1, f"{what}: gamma_ = {g}")
                mon.close("gamma_", g, ref.SchurLedoitWolfCovariance(
                    D[: t - (1 if diff else 0)], r, nbk, with_gamma=True)[2], 1e-6, what, scale=1.0)
                if t - (1 if diff else 0) <= nb:
                    mon.ok("gamma_", g == 1.0, f"{what}: damping {g} while warming up")
            W = np.where(cross, g * S, S)
            if np.linalg.eigvalsh(W)[0] > 1e-7:
                mon.ok("within-block", np.all((np.abs(C - S) <= e)[~cross]), what + ": within-block")
                mon.ok("damped", np.all((np.abs(C - g * S) <= e)[cross]),
                       f"{what}: cross-block entries are not gamma={g:.6g} times the undamped ones")

    tol = 1e-4 if geo else 1e-7 * big
    est = against.follow(mon, ("covariance", "location"), spec, X, rng, tol, nb, loc_tol=1e-10, eig=1e-13,
                         extra=extra, skip=(lambda t: t < p + 5) if geo else None)
    m, S = ref.ewa(D, r)
    if case["kind"] in gen.WELL and len(D) > 2 * p and not diff and np.linalg.eigvalsh(S)[0] > 1e-6:
        what = f"{grid.describe(spec)} p={p}"
        mk = lambda **k: feed(grid.build({"cls": "SchurCovariance", "kw": dict(r=r, n_blocks=nbk, **k)}), X)
        for interp in ("linear", "geodesic"):
            t2 = 1e-8 * big if interp == "linear" else 1e-5
            if interp == "geodesic" and np.linalg.cond(S) > 1e6:
                continue
            mon.close("end-points", mk(gamma=1.0, interpolation=interp).covariance_, S, t2,
                      f"{what}: gamma=1 {interp} is the plain estimate")
            mon.close("end-points", mk(gamma=0.0, interpolation=interp).covariance_,
                      np.where(cross, 0, S), t2, f"{what}: gamma=0 {interp} is block-diagonal")
        g = float(rng.uniform(0.05, 0.95))
        if np.linalg.cond(S) < 1e5:
            G = mk(gamma=g, interpolation="geodesic").covariance_
            A, B = np.where(cross, 0, S), S
            da = np.linalg.slogdet(A)[1] * (1 - g) + np.linalg.slogdet(B)[1] * g
            mon.close("geodesic-path", np.linalg.slogdet(G)[1], da, 1e-6, what + ": log det is linear "
                      "along the geodesic", scale=1 + abs(da))
            mon.close("geodesic-path", G, ref.geodesic(A, B, g), 1e-5, what)
        one = feed(grid.build({"cls": name, "kw": {"r": r, "n_blocks": 1}}), X)
        against.cov_close(mon, "clipped-blocks", one.covariance_, S, 1e-8 * big, what + ": one block")
        a = feed(grid.build({"cls": name, "kw": {"r": r, "n_blocks": p}}), X).covariance_
        b = feed(grid.build({"cls": name, "kw": {"r": r, "n_blocks": p + 7}}), X).covariance_
        mon.same("clipped-blocks", a, b, what + ": more blocks than variables")
    if 1 < nbk and cross.any() and p > nbk:
        mon.keys.add((grid.describe(spec), case["kind"], p, n))
        mon.sample = {"estimator": grid.describe(spec), "kind": case["kind"], "p": p, "n": n,
                      "gamma_": getattr(est, "gamma_", None)}
