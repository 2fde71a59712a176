"""C28: the Schur-likelihood theory code agrees with the mathematics it verifies."""

import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import require

PROP = "C28"
RULE = ("A case is one of: a scalar two-block model and a trust gamma; a true and a candidate "
        "covariance with an ordered block partition (up to 9 blocks, 24 variables); two candidates "
        "ranked under a truth; a pair of shrinkage estimates in a sampling experiment. Each "
        "function is compared with its own definition computed another way; non-trivial unless "
        "gamma is at an end point or there is a single block.")
CASES = {"quick": 3200, "thorough": 30000}


def spec():
    gamma = st.one_of(st.sampled_from([1.0, 0.9, 0.7, 0.5, 0.3, 0.1, 1 / 3, 0.05]),
                      st.floats(0.02, 1.0).map(lambda v: float(np.round(v, 4))))
    pos = st.one_of(st.sampled_from([1.0, 0.5, 2.0, 1 / 3]),
                    st.floats(0.05, 20).map(lambda v: float(np.round(v, 3))))
    sizes = st.one_of(
        st.lists(st.integers(1, 3), min_size=1, max_size=5).filter(lambda s: sum(s) <= 9),
        st.lists(st.integers(1, 3), min_size=1, max_size=5).filter(lambda s: sum(s) <= 9),
        st.lists(st.integers(1, 6), min_size=3, max_size=9).filter(lambda s: 9 < sum(s) <= 24))
    s = st.integers(0, 99999)
    scalar = st.fixed_dictionaries({
        "kind": st.just("scalar"), "a": pos, "s": pos,
        "b": st.sampled_from([0.8, -0.8, 0.1, -1 / 3, 2.5, 0.0, 5.0]), "gamma": gamma,
        "cand": st.tuples(pos, st.floats(-3, 3).map(lambda v: float(np.round(v, 3))), pos),
        "n": st.integers(3, 400), "seed": s})
    blocks = st.fixed_dictionaries({
        "kind": st.just("blocks"), "sizes": sizes, "gamma": st.one_of(gamma, st.just(0.0)),
        "seed": s, "cond": st.sampled_from([0.5, 1.0, 2.0]), "e": st.integers(-2, 2)})
    pair = st.fixed_dictionaries({
        "kind": st.just("pair"), "sizes": sizes, "gamma": st.one_of(gamma, st.just(0.0)),
        "seed": s, "cond": st.sampled_from([0.5, 1.0]), "e": st.integers(-2, 2)})
    sampling = st.fixed_dictionaries({
        "kind": st.just("sampling"),
        "sizes": st.lists(st.integers(1, 2), min_size=1, max_size=3), "gamma": gamma, "seed": s,
        "alpha": st.tuples(st.sampled_from([0.5, 0.3, 0.8, 1 / 3]),
                           st.sampled_from([0.05, 0.2, 0.6])),
        "n": st.integers(5, 500), "table": st.integers(0, 29)})
    return st.one_of(scalar, blocks, blocks, pair, sampling)


# ---------------------------------------------------------------- the same things, computed apart
def law(S, sizes, gamma):
    """Per block: (rows, earlier, damped regression, damped conditional covariance)."""
    out, start = [], 0
    for k in sizes:
        r = slice(start, start + k)
        w = slice(0, start)
        if start == 0:
            out.append((r, w, np.zeros((k, 0)), S[r, r]))
        else:
            B = np.linalg.lstsq(S[w, w], S[w, r], rcond=None)[0].T
            out.append((r, w, gamma * B, S[r, r] - gamma * B @ S[w, r]))
        start += k
    return out


def quad(S, sizes, gamma):
    p = len(S)
    W, ld = np.zeros((p, p)), 0.0
    for r, w, G, V in law(S, sizes, gamma):
        T = np.zeros((V.shape[0], p))
        T[:, w], T[:, r] = -G, np.eye(V.shape[0])
        L = np.linalg.cholesky(V)
        Z = np.linalg.solve(L, T)
        W += Z.T @ Z
        ld += 2 * np.sum(np.log(np.diag(L)))
    return W, ld


def expect(T, C, sizes, gamma):
    W, ld = quad(C, sizes, gamma)
    return -0.5 * (ld + np.sum(W * T))


def spd(seed, p, cond, e):
    g = gen.rng(127, seed)
    q, _ = np.linalg.qr(g.standard_normal((p, p)))
    A = (q * 10.0 ** g.uniform(-cond / 2, cond / 2, p)) @ q.T
    return (A + A.T) / 2 * 10.0 ** e, g


def close(what, got, want, rtol=1e-7, atol=0.0):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    tol = atol + rtol * max(1e-300, float(np.max(np.abs(want), initial=0.0)))
    require(got.shape == want.shape and np.isfinite(got).all()
            and np.max(np.abs(got - want), initial=0.0) <= tol,
            f"{what}: {got.tolist()}, expected {want.tolist()} (tolerance {tol:.2g})")


def check(spec, ctx):
    globals()[spec["kind"]](spec, ctx)
    ctx.label("kind:" + spec["kind"], "end" if spec["gamma"] in (0.0, 1.0) else "interior")
    ctx.hit(spec["gamma"] not in (0.0, 1.0) and len(spec.get("sizes", [1, 1])) > 1)


def scalar(spec, ctx):
    from research import schur_gamma_star as gs
    from research import schur_likelihood_theory as th

    a, b, s, g, n = (spec[k] for k in ("a", "b", "s", "gamma", "n"))
    T = np.array([[a, a * b], [a * b, a * b * b + s]])
    rho2 = a * b * b / (a * b * b + s)

    # trust in the coupling: the reliability of the regression, argmin of the residual
    got = gs.gamma_star(n, rho2)
    var = s / (a * (n - 2))
    close("gamma_star", got, b * b / (b * b + var), 1e-9, 1e-15)
    require(0 <= got <= 1, f"gamma_star({n}, {rho2}) = {got}")
    require(gs.gamma_star(n + 1, rho2) >= got, "gamma_star decreases with the sample")
    require(gs.gamma_star(n, rho2 + (1 - rho2) / 2) > got, "gamma_star decreases with coupling")
    require(gs.gamma_star(n, 0.0) == 0 and gs.gamma_star(n, 1.0) == 1, "gamma_star at the limits")
    if n >= 12:
        draws = 300
        m, v = b * (1 - g), g * g * var
        R = gs.residual_R(g, a, b, s, n, draws, np.random.default_rng(spec["seed"]))
        sd = a * np.sqrt((4 * m * m * v + 2 * v * v) * 3 / draws)
        close("residual_R", R, (m * m + v) * a + s, 1e-9, 9 * sd)
        again = gs.residual_R(g, a, b, s, n, draws, np.random.default_rng(spec["seed"]))
        require(again == R, f"residual_R is {R!r} then {again!r}")
        ctx.label("residual")

    # the population maximiser
    A, C, D = th.closed_form_maximizer(a, b, s, g)
    close("maximiser: effective coefficient", g * C / A, b, 1e-9, 1e-12)
    close("maximiser: damped conditional variance", D - g * C * C / A, s, 1e-9 * (1 + a * b * b / s
                                                                                  / g))
    close("maximiser: first variance", A, a, 1e-12)
    best = th.schur_loglik_population(a, b, s, g, A, C, D)
    close("value at the maximiser", best, -0.5 * (np.log(a) + np.log(s) + 2), 1e-8 * (
        1 + a * b * b / s / g))
    A2, C2, D2 = spec["cand"]
    val = th.schur_loglik_population(a, b, s, g, A2, C2, D2)
    if D2 - g * C2 * C2 / A2 > 1e-9:
        want = expect(T, np.array([[A2, C2], [C2, D2]]), [1, 1], g)
        close("schur_loglik_population", val, want, 1e-8, 1e-9)
        require(val <= best + 1e-7 * (1 + abs(best)), f"{spec['cand']} beats the maximiser: "
                                                      f"{val} > {best}")
        ctx.label("candidate")
    elif D2 - g * C2 * C2 / A2 < -1e-9:
        require(val == -np.inf, f"an impossible candidate scores {val}")
    require(th.schur_loglik_population(a, b, s, g, -A2, C2, D2) == -np.inf,
            "a negative variance is scored")

    # leaving the cone
    det = A * D - C * C
    if abs(det) > 1e-9 * (A * D + C * C):
        hold = th.spd_threshold_holds(a, b, s, g)
        require(bool(hold) == (det > 0), f"spd_threshold_holds is {hold}, determinant {det}")
        ctx.label("inside" if det > 0 else "outside")
    if 0 < rho2 < 1 - 1e-9 and hasattr(th, "_solve_spd_threshold"):
        t = th._solve_spd_threshold(rho2)
        require(0 < t < 1, f"threshold {t} for coupling {rho2}")
        close("threshold equation", t * t * (1 - rho2), (1 - t) * rho2, 1e-7, 1e-12)
        for f, inside in ((1.001, True), (0.999, False)):
            if t * f < 1:
                require(bool(th.spd_threshold_holds(a, b, s, t * f)) is inside,
                        f"threshold {t} does not separate at {t * f}")
    ctx.counted(14)


def blocks(spec, ctx):
    from research import schur_godambe as gd
    from research import schur_likelihood_theory as th

    sizes, g, p = spec["sizes"], spec["gamma"], sum(spec["sizes"])
    T, r = spd(spec["seed"], p, spec["cond"], spec["e"])
    C, _ = spd(spec["seed"] + 1, p, spec["cond"], spec["e"])
    Tc, Cc = T.copy(), C.copy()
    unit = 10.0 ** spec["e"]

    got = th.expected_schur_loglik(T, C, sizes, g)
    want = expect(T, C, sizes, g)
    close("expected_schur_loglik", got, want, 1e-8, 1e-8)
    W, ld = gd.schur_operator(C, sizes, g)
    Wo, ldo = quad(C, sizes, g)
    close("schur_operator", W, Wo, 1e-8)
    close("schur_operator log-determinant", ld, ldo, 1e-9, 1e-8)
    require(np.array_equal(W, W.T), "schur_operator: not symmetric")
    W1, ld1 = gd.schur_operator(C, sizes, 1.0)
    close("schur_operator at gamma=1", W1 @ C, np.eye(p), 1e-8)
    close("its log-determinant", ld1, np.linalg.slogdet(C)[1], 1e-8, 1e-8)
    W0, ld0 = gd.schur_operator(C, sizes, 0.0)
    blk = np.zeros((p, p))
    i = 0
    for k in sizes:
        blk[i:i + k, i:i + k] = C[i:i + k, i:i + k]
        i += k
    close("schur_operator at gamma=0", W0, np.linalg.inv(blk), 1e-8)
    close("its log-determinant", ld0, np.linalg.slogdet(blk)[1], 1e-8, 1e-8)
    Ws, lds = gd.schur_operator(4 * C, sizes, g)
    close("schur_operator in other units", Ws * 4, W, 1e-8)
    close("its log-determinant", lds - p * np.log(4), ld, 1e-8, 1e-8)

    # the best candidate recovers the true law for every gamma
    if g > 0:
        S = th.closed_form_general(T, sizes, g)
        require(np.array_equal(S, S.T), "closed_form_general: not symmetric")
        grow = max(1.0, float(np.max(np.abs(S))) / unit)
        if grow < 1e4:  # very small gamma inflates later blocks without bound
            tol = 1e-9 * grow
            for (rr, w, G, V), (_, _, B, U) in zip(law(S, sizes, g), law(T, sizes, 1.0)):
                if w.stop:
                    close("recovered regression", G, B, 0.0, 1e-8 * grow * (1 + np.abs(B).max()))
                close("recovered conditional covariance", V, U, 1e-8 + tol * 10, tol * unit)
            top = th.expected_schur_loglik(T, S, sizes, g)
            close("value at the closed form", top, expect(T, T, sizes, 1.0), 1e-6, 1e-6 * grow)
            if np.isfinite(got):
                require(got <= top + 1e-6 * grow * (1 + abs(top)),
                        f"a candidate beats the closed form: {got} > {top}")
            ctx.label("recovered")
        if g == 1.0:
            close("closed form at gamma=1", S, T, 1e-8)
        if len(sizes) == 2:
            rho2 = th.canonical_corr2(T, sizes[0])
            margin = g * g * (1 - rho2[0]) - (1 - g) * rho2[0]
            if abs(margin) > 1e-6 and grow < 1e4:
                lo = np.linalg.eigvalsh(S)[0]
                require((lo > 0) == (margin > 0), f"two blocks, coupling {rho2}, gamma {g}: least "
                        f"eigenvalue {lo}")
                ctx.label("cone")
    # canonical correlations
    if p >= 2:
        k = sizes[0] if len(sizes) > 1 else p // 2
        rho2 = th.canonical_corr2(T, k)
        La, Lb = np.linalg.cholesky(T[:k, :k]), np.linalg.cholesky(T[k:, k:])
        sv = np.linalg.svd(np.linalg.solve(La, np.linalg.solve(Lb, T[k:, :k]).T), compute_uv=False)
        want = np.zeros(k)
        want[: len(sv)] = sv[:k] ** 2
        close("canonical_corr2", rho2, want, 0.0, 1e-8)
        F = np.zeros((p, p))
        F[:k, :k] = r.standard_normal((k, k)) + 3 * np.eye(k)
        F[k:, k:] = r.standard_normal((p - k, p - k)) + 3 * np.eye(p - k)
        if np.linalg.cond(F) < 1e3:
            close("canonical_corr2 of mixed blocks", th.canonical_corr2(F @ T @ F.T, k), want, 0.0,
                  1e-6)
    require(np.array_equal(T, Tc) and np.array_equal(C, Cc), "an argument was modified")
    ctx.counted(14)
    ctx.label(f"blocks:{len(sizes)}")


def pair(spec, ctx):
    from research import schur_godambe as gd

    sizes, g, p = spec["sizes"], spec["gamma"], sum(spec["sizes"])
    T, A, B = (spd(spec["seed"] + k, p, spec["cond"], spec["e"])[0] for k in range(3))
    WA, la = quad(A, sizes, g)
    WB, lb = quad(B, sizes, g)
    mu = -0.5 * (la - lb + np.sum((WA - WB) * T))
    L = np.linalg.cholesky(T)
    ev = np.linalg.eigvalsh(L.T @ (WA - WB) @ L)
    sd = np.sqrt(0.5 * np.sum(ev**2))
    got = gd.snr(A, B, T, sizes, g)
    close("snr", got, mu / sd, 1e-6, 1e-8)
    close("snr the other way round", gd.snr(B, A, T, sizes, g), -got, 1e-9, 1e-12)
    close("snr in other units", gd.snr(4 * A, 4 * B, 4 * T, sizes, g), got, 1e-6, 1e-8)
    if g == 1.0:
        def kl(S):
            return np.trace(np.linalg.solve(S, T)) + np.linalg.slogdet(S)[1]
        gap = kl(B) - kl(A)
        if abs(gap) > 1e-6:
            require((got > 0) == (gap > 0), f"the full likelihood prefers the worse of two: {got}")
    if spec["seed"] % 8 == 0:
        n = 20000
        mc = gd.snr_montecarlo(A, B, T, sizes, g, n=n, seed=spec["seed"])
        kurt = 12 * np.sum(ev**4) / np.sum(ev**2) ** 2 + 2
        close("snr_montecarlo", mc, got, 0.0, 9 * np.sqrt((1 + got * got * kurt) / n)
              + 9 * abs(got) * kurt / n ** 0.5)
        require(mc == gd.snr_montecarlo(A, B, T, sizes, g, n=n, seed=spec["seed"]),
                "snr_montecarlo differs with the same seed")
        ctx.label("monte-carlo")
    ctx.counted(4)


def gap(S, sizes, g, T, aa, ab):
    t = np.trace(S) / len(S)
    A = (1 - aa) * S + aa * t * np.eye(len(S))
    B = (1 - ab) * S + ab * t * np.eye(len(S))
    return expect(T, A, sizes, g) - expect(T, B, sizes, g)


def delta_sd(T, sizes, g, aa, ab, n):
    """First-order standard deviation of the gap, by differences along eigen-directions."""
    p = len(T)
    lam, Q = np.linalg.eigh(T)
    root = Q * np.sqrt(lam)
    var, h = 0.0, 1e-5
    for i in range(p):  # S = T + root E root', E symmetric with entries of variance (1+[i=j])/n
        for j in range(i, p):
            E = np.outer(root[:, i], root[:, j])
            E = (E + E.T) / (2 if i == j else 1)
            d = (gap(T + h * E, sizes, g, T, aa, ab) - gap(T - h * E, sizes, g, T, aa, ab)) / 2 / h
            var += d * d * (2 if i == j else 1) / n
    return np.sqrt(var)


def sampling(spec, ctx):
    from research import schur_spiked as sp

    sizes, g, n = spec["sizes"], spec["gamma"], spec["n"]
    p = sum(sizes)
    T, _ = spd(spec["seed"], p, 0.7, 0)
    aa, ab = spec["alpha"]
    mean = gap(T, sizes, g, T, aa, ab)
    sd = delta_sd(T, sizes, g, aa, ab, n)
    m, s, ratio = sp.snr_delta(p, n, sizes, g, aa, ab, T)
    close("snr_delta: mean", m, mean, 1e-7, 1e-9)
    close("snr_delta: standard deviation", s, sd, 2e-3, 1e-6)
    if s > 1e-5:
        close("snr_delta: ratio", ratio, m / s, 1e-9, 1e-12)
    m4, s4, _ = sp.snr_delta(p, 4 * n, sizes, g, aa, ab, T)
    close("snr_delta: four times the sample", [m4, s4], [m, s / 2], 1e-9, 1e-12)
    if spec["seed"] % 4 == 0 and p >= 2:
        draws, big = 60, 3000
        mm, ms, mr = sp.snr_montecarlo(p, big, sizes, g, aa, ab, T, n_draws=draws,
                                       seed=spec["seed"])
        require(sp.snr_montecarlo(p, big, sizes, g, aa, ab, T, n_draws=draws,
                                  seed=spec["seed"]) == (mm, ms, mr), "same seed, another result")
        if ms > 0:
            close("snr_montecarlo: ratio", mr, mm / ms, 1e-9, 1e-12)
        first = sd * np.sqrt(n / big)
        second = 40.0 * p * p / big  # what a first-order account leaves out
        close("snr_montecarlo: mean", mm, mean, 0.0, 6 * first / np.sqrt(draws) + second)
        close("snr_montecarlo: standard deviation", ms, first, 0.0, 0.5 * first + second)
        ctx.label("monte-carlo")
    if spec["table"] == 0 and hasattr(sp, "_spiked"):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            sp.variance_blowup(p=8, seed=spec["seed"] % 50)
        rows = [ln.split() for ln in out.getvalue().splitlines()[2:]]
        require(len(rows) == 4, f"variance table: {out.getvalue()}")
        for row, bulk in zip(rows, (0.5, 0.2, 0.08, 0.03)):
            S = sp._spiked(8, spike=12.0, bulk=bulk, seed=spec["seed"] % 50)[0]
            close("variance table: least eigenvalue", float(row[0]), bulk, 0.0, 6e-4)
            close("variance table: condition", float(row[1]), 12.0 / bulk, 0.0, 0.6)
            for cell, gg in zip(row[2:], (1.0, 0.7, 0.3)):
                v = delta_sd(S, [4, 4], gg, 0.5, 0.05, 60) ** 2
                close("variance table", float(cell), v, 5e-3, 0.06)
        ctx.label("table")
    ctx.counted(5)
