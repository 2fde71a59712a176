"""C23: assessors reward the right answer: optima, end points, invariances, capabilities."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Violation
from harness.oracle import require
from harness.props.c22 import make_case

PROP = "C23"
RULE = ("A case is a positive-definite estimate, held-out rows, a competitor matrix and a linear map "
        "or reordering; scores are compared across the relations each assessor must satisfy (its "
        "optimum is no worse than the competitor, its end points are the other likelihoods, its "
        "invariances); non-trivial with at least 3 variables.")
CASES = {"quick": 3200, "thorough": 32000}


def spec():
    return st.fixed_dictionaries({
        "cov": gen.spd(p=(1, 10), exps=(-1, 2), cond=(0, 3), many=(11, 30), far=[(3, 10), (-6, -2)]),
        "true": st.one_of(st.none(), st.integers(0, 9999)),
        "n": gen.tail(1, 40, (41, 300), (301, 1500)), "seed": st.integers(0, 9999),
        "mean": st.sampled_from([0.0, 0.0, 1.0, -5.0]), "tail": st.booleans(),
        "map": st.integers(0, 9999), "gamma": st.sampled_from([0.0, 0.2, 0.5, 0.8, 1.0]),
        "nb": st.integers(1, 12), "bs": st.integers(1, 12),
        "interp": st.sampled_from(["linear", "geodesic"]),
        "near": st.sampled_from([1e-3, 1e-1, None]),
        "est": gen.config(r=gen.R_SHORT, diff=False),
    })


def check(spec, ctx):
    import precise
    from precise import assessment as A

    cov, true, X = make_case(spec)
    n, p = X.shape
    g = gen.rng(91, spec["map"])
    S0 = X.T @ X / n
    Z = X - X.mean(axis=0)
    S = Z.T @ Z / n
    kappa = max(ref.scaled_cond(cov), ref.scaled_cond(S0), ref.scaled_cond(S))

    def eq(what, a, b, size=0.0):
        tol = (1e-8 + 1e-11 * kappa) * (abs(a) + abs(b) + p + size)
        require(abs(a - b) <= tol, f"{what}: {a!r} and {b!r}")
        ctx.counted()

    def no_worse(what, best, other):
        tol = (1e-9 + 1e-12 * kappa) * (abs(best) + abs(other) + p)
        require(best >= other - tol, f"{what}: {best!r} at the optimum, {other!r} elsewhere")
        ctx.counted()

    # competitors: anything, and matrices close to the optimum
    def rivals(opt):
        yield cov
        if spec["near"] is not None:
            E = g.standard_normal((p, p))
            d = np.sqrt(np.diag(opt))
            R = opt + spec["near"] * (E + E.T) * np.outer(d, d) * np.linalg.eigvalsh(
                opt / np.outer(d, d))[0] / p
            if np.linalg.eigvalsh(R / np.outer(d, d))[0] > 1e-6:
                yield R
        yield opt * 1.5
        yield opt * 0.7

    LL, ST, FR, GM, VA = (A.LogLikelihood(), A.SteinLoss(), A.FrobeniusToTruth(), A.GMVVariance(),
                          A.VariogramScore())
    if ref.scaled_cond(S0) < 1e6 and ref.scaled_cond(S) < 1e6:
        for R in rivals(S0):
            no_worse("LogLikelihood is largest at the held-out second moments",
                     LL.score(S0, X_test=X), LL.score(R, X_test=X))
            no_worse("GMVVariance is largest at the held-out second moments",
                     GM.score(S0, X_test=X), GM.score(R, X_test=X))
            for bs in (spec["bs"],):
                B = A.BlockPseudoLikelihood(bs)
                no_worse("BlockPseudoLikelihood is largest at the held-out second moments",
                         B.score(S0, X_test=X), B.score(R, X_test=X))
        for R in rivals(S):
            no_worse("SteinLoss is largest at the held-out covariance",
                     ST.score(S, X_test=X), ST.score(R, X_test=X))
        eq("SteinLoss vanishes at the held-out covariance", ST.score(S, X_test=X), 0.0)
    require(FR.score(true, true_cov=true) == 0.0, "FrobeniusToTruth of the truth is not zero")
    for R in rivals(true):
        no_worse("FrobeniusToTruth is largest at the truth", 0.0, FR.score(R, true_cov=true))
        if np.max(np.abs(R - true)) > 1e-9 * np.max(np.abs(true)):
            require(FR.score(R, true_cov=true) < 0, "FrobeniusToTruth of a wrong matrix is zero")

    for c in (0.0, 1e-6, 1.0 + 1e-6, 2.5, 1e3, 1e7):
        eq(f"FrobeniusToTruth of {c} times the truth", FR.score(c * true, true_cov=true),
           -abs(c - 1.0))

    # end points
    nb, bs, ip = spec["nb"], spec["bs"], spec["interp"]
    small = np.linalg.eigvalsh(cov)[0] > 1e-5
    if small:
        quad = np.mean(np.sum(X * X, axis=1)) / np.linalg.eigvalsh(cov)[0] * 1e-4
        full = LL.score(cov, X_test=X)
        eq("SchurLikelihood at gamma=1 is the full likelihood",
           A.SchurLikelihood(1.0, nb, ip).score(cov, X_test=X), full, quad)
        eq("SchurLikelihood with one block is the full likelihood",
           A.SchurLikelihood(spec["gamma"], 1, ip).score(cov, X_test=X), full, quad)
        ids = ref.block_ids(p, nb)
        parts = sum(LL.score(cov[np.ix_(k, k)], X_test=X[:, k]) for b in np.unique(ids)
                    for k in [np.where(ids == b)[0]])
        eq("SchurLikelihood at gamma=0 is the likelihood of the blocks",
           A.SchurLikelihood(0.0, nb, ip).score(cov, X_test=X), parts, quad)
    eq("BlockPseudoLikelihood with one block is the full likelihood",
       A.BlockPseudoLikelihood(p + spec["bs"] - 1).score(cov, X_test=X), LL.score(cov, X_test=X))
    eq("BlockPseudoLikelihood with blocks of one is the sum of the marginal likelihoods",
       A.BlockPseudoLikelihood(1).score(cov, X_test=X),
       sum(LL.score(cov[i:i + 1, i:i + 1], X_test=X[:, i:i + 1]) for i in range(p)))

    # invariances
    o = g.permutation(p)
    L = gen.mix(spec["map"], p)
    for a in (LL, ST, GM, VA):
        eq(f"{a.name} after reordering the variables", a.score(cov[np.ix_(o, o)], X_test=X[:, o]),
           a.score(cov, X_test=X), np.max(X * X) * p)
    eq("FrobeniusToTruth after reordering", FR.score(cov[np.ix_(o, o)], true_cov=true[np.ix_(o, o)]),
       FR.score(cov, true_cov=true))
    _, ld = np.linalg.slogdet(L)
    k2 = ref.scaled_cond(L @ cov @ L.T)
    if k2 < 1e6:
        eq("LogLikelihood after a linear map", LL.score(L @ cov @ L.T, X_test=X @ L.T),
           LL.score(cov, X_test=X) - ld, abs(LL.score(cov, X_test=X)) * k2 * 1e-3)
        eq("SteinLoss after a linear map", ST.score(L @ cov @ L.T, X_test=X @ L.T),
           ST.score(cov, X_test=X), abs(ST.score(cov, X_test=X)) * k2 * 1e-3)
    q = g.permutation(n)
    for a in (LL, ST, GM, VA, A.BlockPseudoLikelihood(bs), A.SchurLikelihood(spec["gamma"], nb, ip)):
        eq(f"{a!r} after reordering the rows", a.score(cov, X_test=X[q]), a.score(cov, X_test=X))
    # (the same estimate scores the same on a sample repeated)
        eq(f"{a!r} on a repeated sample", a.score(cov, X_test=np.vstack([X, X])),
           a.score(cov, X_test=X))
    eq("GMVVariance of a rescaled estimate", GM.score(cov * 7.0, X_test=X), GM.score(cov, X_test=X),
       np.max(X * X))
    c = float(np.round(g.uniform(-3, 3), 2))
    eq("VariogramScore after adding a common amount to every variable",
       VA.score(cov, X_test=X + c), VA.score(cov, X_test=X), np.max(X * X) * p)
    eq("SteinLoss after moving the origin", ST.score(cov, X_test=X + c * np.arange(p)),
       ST.score(cov, X_test=X), abs(c) * p)
    eq("FrobeniusToTruth is relative", FR.score(3 * cov, true_cov=3 * true),
       FR.score(cov, true_cov=true))
    if p == 2:
        d = float(np.mean(np.abs(X[:, 0] - X[:, 1])))
        v = d * d * np.pi / 2.0
        best = np.array([[v, v / 2], [v / 2, v]])    # expected |difference| is exactly d
        for R in [cov, best * 1.3, best * 0.8]:
            no_worse("VariogramScore is largest at the observed mean difference",
                     VA.score(best, X_test=X), VA.score(R, X_test=X))

    # an estimator's own score is the likelihood about its location
    est = gen.make(spec["est"]).fit(X)
    C = est.covariance_
    if ref.scaled_cond(C) < 1e6:
        want = est.score(X)
        tol = 1e-11 * ref.scaled_cond(C) * (abs(want) + p) + 1e-9 * (abs(want) + p)
        got = LL.score(C, X_test=X - est.location_)
        require(abs(got - want) <= tol, f"LogLikelihood {got!r} of a centred sample, but the "
                                        f"estimator's own score is {want!r}")
        ctx.counted()
        ctx.label("est-score")

    for a in precise.all_assessors():
        for d in (False, True):
            for t in (False, True):
                u = a.usable(have_data=d, have_truth=t)
                want = t if isinstance(a, A.FrobeniusToTruth) else d
                require(bool(u) == want, f"{a!r}: usable={u} with data={d}, truth={t}")
    class Both(A.Assessor):
        needs_data = needs_truth = True
    class Neither(A.Assessor):
        needs_data = needs_truth = False
    require([Both().usable(have_data=d, have_truth=t) for d in (0, 1) for t in (0, 1)]
            == [False, False, False, True] or
            [bool(Both().usable(have_data=d, have_truth=t)) for d in (0, 1) for t in (0, 1)]
            == [False, False, False, True], "an assessor that needs both is usable with one")
    require(bool(Neither().usable(have_data=False, have_truth=False)), "needs nothing, not usable")
    require(Both().name == "Both", "an assessor's name is not that of its class")
    try:
        A.Assessor().score(cov)
        raise Violation("the base assessor scores")
    except NotImplementedError:
        pass
    ctx.label("shape:" + spec["cov"]["shape"], f"p:{p}", "interp:" + ip)
    ctx.hit(p >= 3)
