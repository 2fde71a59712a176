"""C34: the trust and discrimination experiments measure what they describe."""

import contextlib

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import require
from harness.props.c28 import close, quad

PROP = "C34"
RULE = ("A case is a simulated trust coefficient (coupling, sample size, draws), or a discrimination "
        "experiment of generated size, gammas, draws and seed whose estimates and samples are "
        "recorded and from which every reported number is recomputed; non-trivial with at least two "
        "gammas and two draws (or an interior coupling).")
CASES = {"quick": 3200, "thorough": 30000}
GAMMAS = [1.0, 0.9, 0.75, 0.7, 0.5, 0.3, 0.25, 0.1, 0.0, 1 / 3]


def spec():
    seed = st.integers(0, 9999)
    gammas = st.lists(st.sampled_from(GAMMAS), min_size=1, max_size=4, unique=True)
    trust = st.fixed_dictionaries({
        "kind": st.just("trust"), "n": st.integers(12, 60), "seed": seed,
        "rho2": st.one_of(st.sampled_from([0.01, 0.1, 0.4, 0.6, 0.9, 0.97]),
                          st.floats(0.01, 0.97).map(lambda v: float(np.round(v, 3)))),
        "draws": st.sampled_from([60, 150, 300])})
    draws = st.fixed_dictionaries({
        "kind": st.just("draws"), "p": st.sampled_from([4, 8, 12, 16, 20]),
        "n": gen.tail(3, 60, (61, 400)), "gammas": gammas, "draws": st.integers(1, 14), "seed": seed,
        "more": st.lists(st.sampled_from(GAMMAS), max_size=2)})
    groups = st.fixed_dictionaries({
        "kind": st.just("groups"), "g": st.integers(1, 5), "size": st.integers(2, 5),
        "rho": st.sampled_from([0.6, 0.3, 0.5, 0.05]), "gammas": gammas,
        "good": st.sampled_from([0.0, 0.05, 0.1]), "bad": st.sampled_from([0.0, 0.2, 0.3, 0.35]),
        "cross": st.sampled_from([0.0, 0.0, 0.05, 0.18, 0.4]),
        "n": st.sampled_from([1, 2, 5, 20, 90, 800]),
        "trials": st.integers(1, 10), "seed": seed})
    return st.one_of(trust, draws, draws, groups, groups)


class Recorder(np.random.Generator):
    """A generator that keeps a copy of the samples drawn from it."""

    def __init__(self, bits):
        super().__init__(bits)
        self.samples = []

    def multivariate_normal(self, *a, **k):
        out = super().multivariate_normal(*a, **k)
        self.samples.append(np.array(out))
        return out


@contextlib.contextmanager
def recorded(gd):
    """Samples drawn from generators made inside, and matrices given to the score operator."""
    gens, given = [], []
    make, op = np.random.default_rng, gd.schur_operator

    def new(seed=None):
        g = make(seed)
        out = Recorder(g.bit_generator) if type(g) is np.random.Generator else g
        gens.append(out)
        return out

    def wrapped(Sig, sizes, gamma):
        given.append((np.array(Sig, dtype=float), list(sizes), float(gamma)))
        return op(Sig, sizes, gamma)

    np.random.default_rng, gd.schur_operator = new, wrapped
    rec = {"given": given, "samples": []}
    try:
        yield rec
    finally:
        np.random.default_rng, gd.schur_operator = make, op
        rec["samples"] = [s for g in gens for s in getattr(g, "samples", [])]


def check(spec, ctx):
    globals()[spec["kind"]](spec, ctx)
    ctx.label("kind:" + spec["kind"])


def trust(spec, ctx):
    from research import schur_gamma_star as gs

    n, rho2, k = spec["n"], spec["rho2"], spec["draws"]
    got = gs.empirical_gamma_star(rho2, n, n_draws=k, seed=spec["seed"])
    require(0.0 <= got <= 1.0, f"simulated trust {got}")
    require(got == gs.empirical_gamma_star(rho2, n, n_draws=k, seed=spec["seed"]),
            "the same seed gives another trust")
    b2 = rho2 / (1 - rho2)                 # residual variance 1
    v, e4 = 1 / (n - 2), 3 / ((n - 2) * (n - 4))

    def risk(g):
        return b2 * (1 - g) ** 2 + g * g * v

    def noise(g):                          # standard error of one simulated residual
        return np.sqrt((4 * b2 * (1 - g) ** 2 * g * g * v + g**4 * (e4 - v * v)) / k)
    best = b2 / (b2 + v)
    close("closed-form trust", gs.gamma_star(n, rho2), best, 1e-9)
    grid = np.linspace(max(0, best - 0.05), min(1, best + 0.05), 21)
    slack = 7 * noise(got) + min(risk(g) + 7 * noise(g) for g in grid) - risk(best) \
        + 0.02**2 * (b2 + v)
    require(risk(got) - risk(best) <= slack,
            f"n={n}, coupling {rho2}: simulated trust {got} has residual {risk(got)}, the closed form "
            f"{best} has {risk(best)} (simulation error {slack})")
    # with so many draws that there is nothing to simulate, the two agree
    ctx.counted(3)
    ctx.hit(0.02 < best < 0.98)


def kl(S, T):
    return 0.5 * (np.trace(np.linalg.solve(S, T)) - len(T)
                  + np.linalg.slogdet(S)[1] - np.linalg.slogdet(T)[1])


def draws(spec, ctx):
    from research import schur_godambe as gd

    p, n, k = spec["p"], spec["n"], spec["draws"]
    gammas = spec["gammas"]
    with recorded(gd) as rec:
        out, ka, kb = gd.discrimination_power_over_draws(p, n, gammas, n_draws=k, seed=spec["seed"])
    require(list(out) == gammas, f"results for {list(out)}, asked for {gammas}")
    wide = gammas + [g for g in dict.fromkeys(spec["more"]) if g not in gammas]
    more, ka2, kb2 = gd.discrimination_power_over_draws(p, n, wide[::-1], n_draws=k,
                                                        seed=spec["seed"])
    require((ka2, kb2) == (ka, kb) and all(more[g] == out[g] for g in gammas),
            f"asking for other gammas changes the result: {out} and {more}")
    for g in gammas:
        o = out[g]
        require(0 <= o["power"] <= 1 and abs(o["power"] * k - round(o["power"] * k)) < 1e-9,
                f"gamma {g}: power {o['power']} of {k} draws")
        if o["sd"] > 0:
            close(f"gamma {g}: ratio", o["snr"], o["mean"] / o["sd"], 1e-12, 1e-300)
    ctx.counted(3)
    ctx.hit(len(gammas) >= 2 and k >= 2)
    S = rec["samples"]
    if len(S) != k or any(s.shape != (n, p) for s in S) or not hasattr(gd, "_spiked"):
        ctx.label("not-recorded")
        return
    T = np.asarray(gd._spiked(p, seed=spec["seed"])[0])
    want = np.r_[np.full(p - 3, 0.4), np.full(3, 12.0)]
    close("truth: spectrum", np.linalg.eigvalsh(T), want, 1e-9)
    # the samples follow the truth: a chi-square with n p k degrees of freedom, and centred on 0
    Z = np.linalg.solve(np.linalg.cholesky(T), np.vstack(S).T)
    df = Z.size
    require(abs(np.sum(Z * Z) - df) <= 7.5 * np.sqrt(2 * df) + 25, f"samples have squared size "
                                                                   f"{np.sum(Z * Z)}, not {df}")
    m = Z.sum(axis=1) / np.sqrt(Z.shape[1])
    require(np.max(np.abs(m)) <= 7, f"samples are not centred: {m}")
    D = {g: [] for g in gammas}
    ks = []
    sizes = [4] * (p // 4)
    for X in S:
        C = X - X.mean(axis=0)
        C = C.T @ C / n
        A = 0.5 * C + 0.5 * np.trace(C) / p * np.eye(p)
        B = C + 0.02 * np.trace(T) / p * np.eye(p)
        ks.append((kl(A, T), kl(B, T)))
        for g in gammas:
            WA, la = quad(A, sizes, g)
            WB, lb = quad(B, sizes, g)
            D[g].append(-0.5 * (la - lb + np.sum((WA - WB) * T)))
    close("mean divergences", [ka, kb], np.mean(ks, axis=0), 1e-7)
    for g in gammas:
        d = np.array(D[g])
        size = np.max(np.abs(d)) + p
        close(f"gamma {g}: mean gap", out[g]["mean"], d.mean(), 0.0, 1e-7 * size)
        close(f"gamma {g}: spread of the gap", out[g]["sd"], d.std(), 0.0, 1e-7 * size)
        if np.min(np.abs(d)) > 1e-6 * size:
            close(f"gamma {g}: share of positive gaps", out[g]["power"], np.mean(d > 0), 0.0, 1e-9)
    ctx.counted(2 + 3 * len(gammas))
    ctx.label("recomputed")


def groups(spec, ctx):
    from research import schur_godambe as gd

    g, gs, k, n, rho = (spec[q] for q in ("g", "size", "trials", "n", "rho"))
    p, gammas = g * gs, tuple(spec["gammas"])
    kw = {"p": p, "g": g, "rho": rho, "err_good": spec["good"], "err_bad": spec["bad"],
          "sig_cross": spec["cross"], "n_test": n, "trials": k, "seed": spec["seed"]}
    with recorded(gd) as rec:
        out = gd.structured_power_over_draws(gammas=gammas, **kw)
    require(list(out) == list(gammas), f"results for {list(out)}, asked for {gammas}")
    again = gd.structured_power_over_draws(gammas=gammas[::-1] + (0.65,), **kw)
    require(all(again[q] == out[q] for q in gammas),
            f"asking for other gammas changes the result: {out} and {again}")
    for q in gammas:
        require(0 <= out[q] <= 1 and abs(out[q] * k - round(out[q] * k)) < 1e-9,
                f"gamma {q}: power {out[q]} of {k} trials")
    ctx.counted(2)
    ctx.hit(len(gammas) >= 2 and k >= 2)
    true = np.kron(np.eye(g), (1 - rho) * np.eye(gs) + rho)
    S = [s for s in rec["samples"] if s.shape == (n, p)]
    given = [x for x in rec["given"]]
    if len(S) != k or len(given) != 2 * k * len(gammas):
        ctx.label("not-recorded")
        return
    Z = np.linalg.solve(np.linalg.cholesky(true), np.vstack(S).T)
    require(abs(np.sum(Z * Z) - Z.size) <= 7.5 * np.sqrt(2 * Z.size) + 25,
            f"samples have squared size {np.sum(Z * Z)}, not {Z.size}")
    got, slack = dict.fromkeys(gammas, 0), dict.fromkeys(gammas, 0)
    pairs = 0
    for t in range(k):
        part = given[2 * len(gammas) * t:2 * len(gammas) * (t + 1)]
        mats = {}
        for M, sizes, q in part:
            require(sizes == [gs] * g, f"scored in blocks {sizes}, groups of {gs}")
            mats.setdefault(q, []).append(M)
        if sorted(mats) != sorted(gammas) or any(len(v) != 2 for v in mats.values()):
            ctx.label("not-recorded")
            return
        first = mats[gammas[0]]
        require(all(np.array_equal(a, b) for v in mats.values() for a, b in zip(v, first)),
                "different estimates are compared at different gammas")
        # which of the two is the good one shows in the groups, unless the noise was projected away
        err = [error(M, rho, g, gs) for M in first]
        known = [e is not None for e in err]
        if all(known):
            want = sorted([spec["good"], spec["bad"]])
            close("within-group errors of the two estimates", sorted(err), want, 0.0, 1e-9)
            if spec["good"] != spec["bad"]:
                good = int(abs(err[1] - spec["good"]) < abs(err[0] - spec["good"]))
            else:
                good = None
        else:
            good = None
        for q in gammas:
            score = []
            for M in first:
                W, ld = quad(M, [gs] * g, q)
                score.append(-0.5 * (ld + np.mean(np.sum((S[t] @ W) * S[t], axis=1))))
            d = score[0] - score[1]
            if good == 1:
                d = -d
            if abs(d) < 1e-8 * (1 + abs(score[0])) or good is None:
                slack[q] += 1
            else:
                got[q] += d > 0
        pairs += good is not None
        if spec["cross"] == 0 and g > 1:
            off = true == 0
            require(all(np.max(np.abs(M[off]), initial=0) < 1e-9 for M in first),
                    "correlations between groups without any noise between groups")
    for q in gammas:
        if spec["good"] == spec["bad"] == 0 and spec["cross"] == 0:
            require(out[q] == 0, f"gamma {q}: power {out[q]} to tell an estimate from itself")
        require(got[q] - 1e-6 <= out[q] * k <= got[q] + slack[q] + 1e-6,
                f"gamma {q}: power {out[q]} of {k} trials, but {got[q]} (+{slack[q]} undecided) "
                f"favour the estimate with the smaller error")
    ctx.counted(2 * len(gammas) + pairs)
    ctx.label("recomputed" if pairs else "undecided")


def error(M, rho, g, gs):
    """The error of the within-group correlation, None where it is not one number."""
    vals = [M[i, j] for b in range(g) for i in range(b * gs, (b + 1) * gs)
            for j in range(b * gs, (b + 1) * gs) if i != j]
    if np.ptp(vals) > 1e-9 or np.max(np.abs(np.diag(M) - 1)) > 1e-9:
        return None
    return abs(float(np.mean(vals)) - rho)
