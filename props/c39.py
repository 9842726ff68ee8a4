"""C39 Schur likelihood theory (research): every closed form equals the quantity it stands for."""
import numpy as np

from lib import gen
from lib.util import case_rng

RULE = ("a case is (theory module, random truth and candidates of random scale and block partition, gamma): closed "
        "forms against SciPy conditional densities, eigenvalue forms of Gaussian quadratics, exact moments, random "
        "search and simulation; non-trivial: more than one block and 0 < gamma < 1, or a simulation was judged")
CLAUSES = ["operator", "operator-ends", "expected", "expected-population", "scalar-form", "recovers-law", "maximal", "spd-threshold",
           "threshold-root", "canonical", "snr", "snr-antisymmetric", "snr-simulated", "gamma-star",
           "gamma-star-argmin", "residual", "quadform", "delta-mean", "delta-sd", "simulated-sd", "reproducible",
           "pure"]


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = []
    for what, k in (("operator", 120), ("maximizer", 60), ("scalar", 60), ("canonical", 40), ("snr", 80),
                    ("snr_mc", 6), ("gamma_star", 40), ("gamma_star_mc", 8), ("quadform", 20), ("delta", 24),
                    ("delta_mc", 4), ("power", 4)):
        out += [dict(what=what, rep=j) for j in range(k * n)]
    return out


def spd(rng, p, cond=30.0):
    d = 10.0 ** rng.uniform(-1, 1, p)
    return gen.spd(rng, p, 1 / cond ** 0.5, cond ** 0.5) * np.outer(d, d)


def partition(rng, p):
    sizes, most = [], int(rng.choice([1, 2, 4]))
    while sum(sizes) < p:
        sizes.append(int(rng.integers(1, min(most, p - sum(sizes)) + 1)))
    return sizes


def damped(Sig, sizes, g):
    """[(rows, previous, effective regression, damped conditional covariance)] by block."""
    out, s = [], 0
    for k in sizes:
        rows, prev = slice(s, s + k), slice(0, s)
        B = np.linalg.solve(Sig[prev, prev], Sig[prev, rows]).T if s else np.zeros((k, 0))
        out.append((rows, prev, g * B, Sig[rows, rows] - g * B @ Sig[prev, rows] if s else Sig[rows, rows]))
        s += k
    return out


def pick_gamma(rng):
    return float(rng.choice([0.0, 1.0, rng.uniform(0.02, 0.98), rng.uniform(0.02, 0.98), rng.uniform(0.02, 0.98)]))


def run(case, mon):
    rng = case_rng(case)
    globals()["do_" + case["what"]](case, mon, rng)


def do_operator(case, mon, rng):
    import scipy.stats as st

    import research.schur_godambe as gd
    import research.schur_likelihood_theory as th

    p = int(rng.integers(1, 13))
    Sig, T, sizes, g = spd(rng, p), spd(rng, p), partition(rng, p), pick_gamma(rng)
    keep = Sig.copy()
    W, Ld = gd.schur_operator(Sig, sizes, g)
    what = f"p={p} blocks={sizes} gamma={g:.3f}"
    mon.same("pure", Sig, keep, what)
    sd = np.sqrt(np.diag(Sig))
    for x in rng.standard_normal((3, p)) * sd:
        ll = 0.0
        for rows, prev, B, S in damped(Sig, sizes, g):
            ll += st.multivariate_normal(np.zeros(len(S)), S).logpdf(x[rows] - B @ x[prev])
        mon.close("operator", -0.5 * (Ld + x @ W @ x + p * np.log(2 * np.pi)), ll, 1e-8, what + ": log-density",
                  scale=1 + abs(ll))
    mon.close("operator", W, W.T, 1e-12, what)
    if g == 1 or len(sizes) == 1:
        mon.close("operator-ends", W * np.outer(sd, sd), np.linalg.inv(Sig / np.outer(sd, sd)), 1e-8, what)
        mon.close("operator-ends", Ld, np.linalg.slogdet(Sig)[1], 1e-9, what, scale=1 + abs(Ld))
    if g == 0:
        want, s = np.zeros((p, p)), 0
        for k in sizes:
            want[s:s + k, s:s + k] = np.linalg.inv(Sig[s:s + k, s:s + k])
            s += k
        mon.close("operator-ends", W * np.outer(sd, sd), want * np.outer(sd, sd), 1e-8, what)
    want = -0.5 * (Ld + np.trace(W @ T))
    mon.close("expected", th.expected_schur_loglik(T, Sig, sizes, g), want, 1e-8, what + ": expected log-likelihood",
              scale=1 + abs(want))
    bad = Sig.copy()
    bad[0, 0] = -bad[0, 0]
    mon.ok("expected", th.expected_schur_loglik(T, bad, sizes, g) == -np.inf, what + ": an indefinite candidate")
    if len(sizes) > 1 and 0 < g < 1:
        mon.keys.add((what, case["rep"]))
        mon.sample = {"what": "operator", "blocks": sizes, "gamma": g, "log_det": float(Ld)}


def do_maximizer(case, mon, rng):
    import research.schur_likelihood_theory as th

    p = int(rng.integers(2, 9))
    T, sizes = spd(rng, p), partition(rng, p)
    g = float(rng.choice([1.0, rng.uniform(0.5, 1), rng.uniform(0.8, 1)]))
    C = th.closed_form_general(T, sizes, g)
    what = f"p={p} blocks={sizes} gamma={g:.3f}"
    sd = np.sqrt(np.diag(T))
    mon.close("recovers-law", C, C.T, 1e-12, what)
    true = damped(T, sizes, 1.0)
    for (rows, prev, B, S), (_, _, Bt, St) in zip(damped(C, sizes, g), true):
        s = sd[rows]
        mon.close("recovers-law", S / np.outer(s, s), St / np.outer(s, s), 1e-7, what + ": conditional covariance", scale=1)
        if B.size:
            mon.close("recovers-law", B * sd[prev] / s[:, None], Bt * sd[prev] / s[:, None], 1e-7,
                      what + ": regression", scale=1 + np.abs(Bt * sd[prev] / s[:, None]).max())
    spd_now = np.linalg.eigvalsh(C / np.outer(np.sqrt(np.abs(np.diag(C))), np.sqrt(np.abs(np.diag(C))))).min()
    if spd_now > 1e-3:
        base = th.expected_schur_loglik(T, C, sizes, g)
        for _ in range(60):
            E = rng.standard_normal((p, p)) * 10.0 ** rng.uniform(-4, -1)
            D = C + (E + E.T) * np.outer(sd, sd)
            v = th.expected_schur_loglik(T, D, sizes, g)
            mon.ok("maximal", v <= base + 1e-9 * (1 + abs(base)), f"{what}: a neighbour scores {v - base:.3g} higher")
    if len(sizes) == 2:
        k = sizes[0]
        rho2 = np.linalg.svd(np.linalg.solve(np.linalg.cholesky(T[:k, :k]), T[:k, k:])
                             @ np.linalg.inv(np.linalg.cholesky(T[k:, k:])).T)[1][0] ** 2
        margin = g ** 2 * (1 - rho2) - (1 - g) * rho2
        if abs(margin) > 1e-3:
            mon.ok("spd-threshold", (spd_now > 0) == (margin > 0), f"{what}: definite {spd_now > 0}, largest squared "
                   f"canonical correlation {rho2:.4f}")
    mon.see("maximizers", 1)
    if len(sizes) > 1 and g < 1:
        mon.keys.add((what, case["rep"]))


def do_scalar(case, mon, rng):
    import research.schur_likelihood_theory as th

    a, s = 10.0 ** rng.uniform(-2, 2, 2)
    b = rng.normal() * np.sqrt(s / a) * 10.0 ** rng.uniform(-1, 1)
    g = rng.uniform(0.05, 1)
    T = np.array([[a, b * a], [b * a, b * b * a + s]])
    A, C, D = th.closed_form_maximizer(a, b, s, g)
    what = f"a={a:.3g} b={b:.3g} s={s:.3g} gamma={g:.3f}"
    G = th.closed_form_general(T, [1, 1], g)
    mon.close("scalar-form", [A / a, C / a, D / s], [G[0, 0] / a, G[0, 1] / a, G[1, 1] / s], 1e-9, what)
    mon.close("scalar-form", [A, C, D], [a, T[0, 1] / g, T[1, 1] + b * b * a * (1 / g - 1)], 1e-9, what)
    det = A * D - C * C
    if abs(det) > 1e-9 * A * D:
        mon.ok("spd-threshold", bool(th.spd_threshold_holds(a, b, s, g)) == (det > 0), f"{what}: det {det:.3g}")
    cA, cD = a * 10.0 ** rng.uniform(-1, 1), (b * b * a + s) * 10.0 ** rng.uniform(-1, 1)
    cC = rng.uniform(-0.99, 0.99) * np.sqrt(cA * cD)
    v = th.schur_loglik_population(a, b, s, g, cA, cC, cD)
    w = th.expected_schur_loglik(T, np.array([[cA, cC], [cC, cD]]), [1, 1], g)
    mon.close("expected-population", v, w, 1e-9, what, scale=1 + abs(w))
    best = th.schur_loglik_population(a, b, s, g, A, C, D)
    mon.ok("maximal", v <= best + 1e-9 * (1 + abs(best)), f"{what}: ({cA:.3g}, {cC:.3g}, {cD:.3g}) beats the maximizer")
    for bad in ((-cA, cC, cD), (cA, cC, -cD)):
        mon.ok("expected-population", th.schur_loglik_population(a, b, s, g, *bad) == -np.inf, what)
    if hasattr(th, "_solve_spd_threshold"):
        r = rng.uniform(0.001, 0.999)
        x = th._solve_spd_threshold(r)
        mon.ok("threshold-root", 0 < x < 1 and abs(x * x * (1 - r) - (1 - x) * r) < 1e-9, f"rho2={r}: {x}")
        mon.ok("threshold-root", th._solve_spd_threshold(min(r + 0.0005, 0.9999)) > x, f"rho2={r}: not increasing")
    else:
        mon.evals["threshold-root"] += 1
    mon.keys.add((what, case["rep"]))


def do_canonical(case, mon, rng):
    import research.schur_likelihood_theory as th

    p = int(rng.integers(2, 8))
    k = int(rng.integers(1, p))
    S = spd(rng, p, 100)
    want = np.zeros(k)
    sv = np.linalg.svd(np.linalg.solve(np.linalg.cholesky(S[:k, :k]), S[:k, k:])
                       @ np.linalg.inv(np.linalg.cholesky(S[k:, k:])).T)[1] ** 2
    want[:min(k, len(sv))] = sv[:k]
    what = f"p={p} first block {k}"
    mon.close("canonical", th.canonical_corr2(S, k), want, 1e-7, what, scale=1)
    d = np.exp(rng.normal(0, 1, p))
    mon.close("canonical", th.canonical_corr2(S * np.outer(d, d), k), want, 1e-7, what + ": other units", scale=1)
    mon.see("canonical pairs", 1)


def gap_moments(gd, A, B, T, sizes, g):
    """Exact mean and standard deviation of the score difference, from its eigenvalues."""
    def form(C):
        W, ld = np.zeros_like(C), 0.0
        for rows, prev, R, S in damped(C, sizes, g):
            H = np.zeros((len(S), len(C)))
            H[:, rows] = np.eye(len(S))
            H[:, prev] = -R
            W = W + H.T @ np.linalg.inv(S) @ H
            ld += np.log(np.linalg.eigvalsh(S)).sum()
        return W, ld

    (WA, la), (WB, lb) = form(A), form(B)
    L = np.linalg.cholesky(T)
    lam = np.linalg.eigvalsh(L.T @ (WA - WB) @ L)
    return -0.5 * (la - lb + lam.sum()), np.sqrt(0.5 * (lam ** 2).sum())


def do_snr(case, mon, rng):
    import research.schur_godambe as gd

    p = int(rng.integers(2, 9))
    sizes, g = partition(rng, p), pick_gamma(rng)
    A, B, T = spd(rng, p, 10), spd(rng, p, 10), spd(rng, p, 10)
    mu, sd = gap_moments(gd, A, B, T, sizes, g)
    what = f"p={p} blocks={sizes} gamma={g:.3f}"
    v = gd.snr(A, B, T, sizes, g)
    mon.close("snr", v, mu / sd, 1e-8, what, scale=1 + abs(mu / sd))
    mon.close("snr-antisymmetric", gd.snr(B, A, T, sizes, g), -v, 1e-9, what, scale=1 + abs(v))
    if len(sizes) > 1 and 0 < g < 1:
        mon.keys.add((what, case["rep"]))


def do_snr_mc(case, mon, rng):
    import research.schur_godambe as gd

    p = int(rng.integers(2, 6))
    sizes, g = partition(rng, p), float(rng.uniform(0, 1))
    T = spd(rng, p, 5)
    A, B = T * 1.1 + 0.05 * np.diag(np.diag(T)), 0.8 * T + 0.1 * np.diag(np.diag(T))
    n = 100000
    got = gd.snr_montecarlo(A, B, T, sizes, g, n=n, seed=int(rng.integers(1 << 30)))
    want = gd.snr(A, B, T, sizes, g)
    mon.ok("snr-simulated", abs(got - want) <= 6 * (1 + abs(want) * 3) / np.sqrt(n), f"p={p} {sizes} {g:.3f}: simulated "
           f"{got:.4f}, closed form {want:.4f}")
    s = int(rng.integers(1000))
    mon.ok("reproducible", gd.snr_montecarlo(A, B, T, sizes, g, n=500, seed=s) ==
           gd.snr_montecarlo(A, B, T, sizes, g, n=500, seed=s), "snr_montecarlo")
    mon.keys.add(("snr_mc", case["rep"]))


def do_gamma_star(case, mon, rng):
    import research.schur_gamma_star as gs

    n = int(rng.choice([3, 4, 5, 10, 37, 1000]))
    r = float(rng.choice([rng.uniform(0, 1), 10.0 ** rng.uniform(-8, -1), 1 - 10.0 ** rng.uniform(-8, -1)]))
    a, s = 10.0 ** rng.uniform(-2, 2, 2)
    b2 = r / (1 - r) * s / a  # rho^2 = b^2 a / (b^2 a + s)
    var = s / (a * (n - 2))
    want = b2 / (b2 + var)
    got = gs.gamma_star(n, r)
    mon.close("gamma-star", got, want, 1e-7, f"n={n} rho2={r}", scale=1)
    mon.ok("gamma-star", 0 <= got <= 1, f"n={n} rho2={r}: {got}")
    mon.ok("gamma-star", gs.gamma_star(n + 1, r) >= got - 1e-12 and gs.gamma_star(n, min(1 - 1e-9, r * 1.01)) >= got - 1e-12,
           f"n={n} rho2={r}: not increasing")
    v = gs.gamma_star(n, np.array([0.0, r, 0.5]))
    mon.close("gamma-star", v, [0.0, got, (n - 2) / (n - 1)], 1e-9, f"n={n}: vector")
    mon.keys.add((n, r))


def do_gamma_star_mc(case, mon, rng):
    import research.schur_gamma_star as gs

    n, r = int(rng.choice([9, 12, 20, 40])), float(rng.uniform(0.1, 0.9))
    a, s = 10.0 ** rng.uniform(-1, 1, 2)
    b = np.sqrt(r / (1 - r) * s / a) * rng.choice([-1, 1])
    g = float(rng.uniform(0, 1))
    k = 6000
    got = gs.residual_R(g, a, b, s, n, k, np.random.default_rng(int(rng.integers(1 << 30))))
    var = s / (a * (n - 2))
    want = (b * b * (1 - g) ** 2 + g * g * var) * a + s
    # spread of one draw: b_hat - b has variance var (heavier tail for small n)
    u = np.abs(2 * g * (1 - g) * b) * np.sqrt(var) + 4 * g * g * var
    mon.ok("residual", abs(got - want) <= 6 * u * a / np.sqrt(k) + 1e-12, f"n={n} rho2={r:.3f} gamma={g:.3f}: residual "
           f"{got:.6g}, exact {want:.6g}")
    e, best = gs.empirical_gamma_star(r, n, n_draws=1500, seed=int(rng.integers(1 << 30))), gs.gamma_star(n, r)
    b2, var = r / (1 - r), 1 / (n - 2)  # the simulation takes a = s = 1
    spread = max(2 * x * abs(1 - x) * np.sqrt(b2 * var) + 4 * x * x * var for x in (e, best))
    excess = (e - best) ** 2 * (b2 + var)  # of the exact residual at the simulated argmin over its minimum
    mon.ok("gamma-star-argmin", 0 <= e <= 1 and excess <= 10 * spread / np.sqrt(1500) + 0.0003 * (b2 + var),
           f"n={n} rho2={r:.3f}: simulated argmin {e:.3f}, closed form {best:.3f}")
    mon.keys.add(("gamma_star_mc", case["rep"]))


def do_quadform(case, mon, rng):
    import research.schur_spiked as sp

    mon.evals["quadform"] += 1
    if not hasattr(sp, "_cov_quadform"):
        return
    p, n = int(rng.integers(1, 6)), int(rng.integers(2, 500))
    S, G = spd(rng, p), rng.standard_normal((p, p))
    G = G + G.T
    want = (np.einsum("ij,kl,ik,jl", G, G, S, S) + np.einsum("ij,kl,il,jk", G, G, S, S)) / n
    mon.close("quadform", sp._cov_quadform(G, S, n), want, 1e-9, f"p={p} n={n}", scale=abs(want) + 1e-12)


def exact_gap(gd, S, sizes, g, T, aa, ab):
    t = np.trace(S) / len(S) * np.eye(len(S))
    return gap_moments(gd, (1 - aa) * S + aa * t, (1 - ab) * S + ab * t, T, sizes, g)[0]


def do_delta(case, mon, rng):
    import research.schur_godambe as gd
    import research.schur_spiked as sp

    p = int(rng.integers(2, 6))
    sizes, g = partition(rng, p), float(rng.uniform(0.05, 1))
    T = gen.spd(rng, p, 0.4, 2.5)
    n, aa, ab = int(rng.integers(20, 400)), float(rng.uniform(0.2, 0.8)), float(rng.uniform(0.02, 0.15))
    mean, sd, ratio = sp.snr_delta(p, n, sizes, g, aa, ab, T)
    what = f"p={p} blocks={sizes} gamma={g:.3f} n={n}"
    mon.close("delta-mean", mean, exact_gap(gd, T, sizes, g, T, aa, ab), 1e-8, what, scale=1)
    H, h = np.zeros((p, p)), 1e-5
    for i in range(p):
        for j in range(i, p):
            E = np.zeros((p, p))
            E[i, j] += 0.5
            E[j, i] += 0.5
            H[i, j] = H[j, i] = (exact_gap(gd, T + h * E, sizes, g, T, aa, ab)
                                 - exact_gap(gd, T - h * E, sizes, g, T, aa, ab)) / (2 * h)
    want = np.sqrt(2 / n * np.trace(H @ T @ H @ T))
    D = 2 * H - np.diag(np.diag(H))
    double = np.sqrt(2 / n * np.trace(D @ T @ D @ T))
    mon.close("delta-mean", ratio, mean / sd, 1e-9, what)
    known = "delta-double-count" if abs(sd - double) <= 1e-4 * double else None
    mon.see("delta predictions", 1)
    mon.ok("delta-sd", abs(sd - want) <= 1e-4 * want, f"{what}: predicted standard deviation {sd:.5g}, delta method "
           f"gives {want:.5g}", mechanism=known)


def do_delta_mc(case, mon, rng):
    import research.schur_spiked as sp

    p = 4
    T = gen.spd(rng, p, 0.5, 2.0)
    sizes, g, n = [2, 2], float(rng.uniform(0.2, 1)), 300
    s = int(rng.integers(1 << 30))
    m, sd, ratio = sp.snr_montecarlo(p, n, sizes, g, 0.5, 0.05, T, n_draws=150, seed=s)
    X = np.random.default_rng(s + 1)
    vals = []
    import research.schur_godambe as gd
    for _ in range(150):
        Z = X.standard_normal((n, p)) @ np.linalg.cholesky(T).T
        vals.append(exact_gap(gd, np.cov(Z.T, bias=True), sizes, g, T, 0.5, 0.05))
    mon.ok("simulated-sd", abs(m - np.mean(vals)) <= 6 * np.std(vals) * np.sqrt(2 / 150), f"mean {m} vs {np.mean(vals)}")
    mon.ok("simulated-sd", 0.6 <= sd / np.std(vals) <= 1.6 and abs(ratio - m / sd) < 1e-9 * abs(ratio), f"sd {sd} vs {np.std(vals)}")
    mon.ok("reproducible", sp.snr_montecarlo(p, n, sizes, g, 0.5, 0.05, T, n_draws=5, seed=s) ==
           sp.snr_montecarlo(p, n, sizes, g, 0.5, 0.05, T, n_draws=5, seed=s), "snr_montecarlo")
    mon.keys.add(("delta_mc", case["rep"]))


def do_power(case, mon, rng):
    import research.schur_godambe as gd

    s = int(rng.integers(1 << 20))
    kw = dict(p=12, g=3, trials=12, n_test=30, seed=s)
    a = gd.structured_power_over_draws(**kw)
    np.random.seed(s + 1)
    mon.ok("reproducible", a == gd.structured_power_over_draws(**kw), "structured_power_over_draws")
    mon.ok("reproducible", all(0 <= v <= 1 and abs(v * 12 - round(v * 12)) < 1e-9 for v in a.values()), f"{a}")
    out, ka, kb = gd.discrimination_power_over_draws(8, 30, (1.0, 0.5), n_draws=15, seed=s)
    out2, ka2, kb2 = gd.discrimination_power_over_draws(8, 30, (1.0, 0.5), n_draws=15, seed=s)
    mon.ok("reproducible", out == out2 and (ka, kb) == (ka2, kb2), "discrimination_power_over_draws")
    for v in out.values():
        mon.ok("reproducible", 0 <= v["power"] <= 1 and abs(v["snr"] - v["mean"] / v["sd"]) <= 1e-9 * abs(v["snr"]), f"{v}")
    mon.ok("reproducible", ka > 0 and kb > 0, "mean divergences")
    mon.keys.add(("power", case["rep"]))
