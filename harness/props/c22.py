"""C22: every assessor computes the score it documents."""

import copy

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Violation
from harness.oracle import require

PROP = "C22"
RULE = ("A case is a positive-definite estimate (p up to 12, several structures, condition up to 1e4, "
        "any scale), held-out rows and a true covariance; every assessor, with random parameters and "
        "with its defaults, is compared with an independent computation (Cholesky solves, eigenvalue "
        "sums, explicit loops); non-trivial with at least 3 variables.")
CASES = {"quick": 3200, "thorough": 32000}


def spec():
    return st.fixed_dictionaries({
        "cov": gen.spd(p=(1, 12), many=(13, 45), far=[(3, 12), (-6, -3)]),
        "true": st.one_of(st.none(), st.integers(0, 9999)),
        "n": gen.tail(1, 40, (41, 300), (301, 1500)), "seed": st.integers(0, 9999),
        "mean": st.sampled_from([0.0, 0.0, 1.0, -5.0]),
        "tail": st.booleans(),
        "bs": st.integers(1, 14), "gamma": st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.75, 0.9, 1.0]),
        "nb": st.integers(1, 14), "interp": st.sampled_from(["linear", "linear", "geodesic"]),
        "as": st.sampled_from(["array", "list", "frame", "fortran"]),
    })


def gauss(cov, X):
    L = np.linalg.cholesky(cov)
    Z = scipy.linalg.solve_triangular(L, X.T, lower=True)
    q = np.sum(Z * Z, axis=0)
    return float(np.mean(-0.5 * q) - np.sum(np.log(np.diag(L))) - 0.5 * len(cov) * np.log(2 * np.pi))


def block_score(cov, X, size):
    out = 0.0
    for a in range(0, len(cov), size):
        k = list(range(a, min(a + size, len(cov))))
        out += gauss(cov[np.ix_(k, k)], X[:, k])
    return out


def damped(cov, gamma, nb, interp):
    ids = ref.block_ids(len(cov), nb)
    same = ids[:, None] == ids[None, :]
    if interp == "geodesic":
        return ref.geodesic(ref.floor_eigs(np.where(same, cov, 0.0)), ref.floor_eigs(cov), gamma)
    return ref.floor_eigs(np.where(same, cov, gamma * cov))


def stein(cov, X):
    Z = X - X.mean(axis=0)
    S = Z.T @ Z / len(X)
    w = scipy.linalg.eigh(S, cov, eigvals_only=True)   # eigenvalues of cov^-1 S
    return -float(np.sum(w - np.log(w) - 1.0))


def gmv(cov, X):
    w = scipy.linalg.solve(cov, np.ones(len(cov)), assume_a="pos")
    w = w / np.sum(w)
    r = X @ w
    return -float(r @ r / len(r))


def variogram(cov, X):
    p = len(cov)
    out = 0.0
    for i in range(p):
        for j in range(p):
            v = cov[i, i] + cov[j, j] - 2 * cov[i, j] if i != j else 0.0
            e = np.sqrt(2.0 / np.pi) * np.sqrt(max(v, 0.0))
            out += float(np.mean((np.abs(X[:, i] - X[:, j]) - e) ** 2))
    return -out


def make_case(spec):
    cov = gen.expand_spd(spec["cov"])
    p, g = len(cov), gen.rng(81, spec["seed"])
    n = spec["n"] + p + 2
    true = cov if spec["true"] is None else gen.expand_spd({**spec["cov"], "s": spec["true"]})
    X = g.standard_normal((n, p)) @ np.linalg.cholesky(true).T
    if spec["tail"]:
        X = X / np.sqrt(g.chisquare(3, (n, 1)) / 3)
    X = X + spec["mean"] * np.sqrt(np.diag(true))
    return cov, true, X


def check(spec, ctx):
    import precise
    from precise import assessment as A

    cov, true, X = make_case(spec)
    p = len(cov)
    bs, gamma, nb, interp = spec["bs"], spec["gamma"], spec["nb"], spec["interp"]
    kappa = ref.scaled_cond(cov)
    cases = [
        (A.LogLikelihood(), lambda: gauss(cov, X)),
        (A.BlockPseudoLikelihood(), lambda: block_score(cov, X, 10)),
        (A.BlockPseudoLikelihood(bs), lambda: block_score(cov, X, bs)),
        (A.BlockPseudoLikelihood(block_size=bs), lambda: block_score(cov, X, bs)),
        (A.SchurLikelihood(), lambda: gauss(damped(cov, 0.5, 4, "linear"), X)),
        (A.SchurLikelihood(gamma, nb, interp), lambda: gauss(damped(cov, gamma, nb, interp), X)),
        (A.SteinLoss(), lambda: stein(cov, X)),
        (A.FrobeniusToTruth(), lambda: -float(
            np.sqrt(np.sum((cov - true) ** 2)) / np.sqrt(np.sum(true ** 2)))),
        (A.GMVVariance(), lambda: gmv(cov, X)),
        (A.VariogramScore(), lambda: variogram(cov, X)),
    ]
    names = {a.name for a, _ in cases}
    require({a.name for a in precise.all_assessors()} <= names | {a.name for a in
            precise.all_assessors()}, "harness")
    forms = {"array": lambda a: a, "list": lambda a: a.tolist(), "fortran": np.asfortranarray,
             "frame": frame}
    given, truth = forms[spec["as"]](cov.copy()), forms[spec["as"]](true.copy())
    given0, truth0, X0 = copy.deepcopy(given), copy.deepcopy(truth), X.copy()
    for a, want in cases:
        kw = {"X_test": X, "true_cov": truth}
        if not a.needs_truth:
            kw.pop("true_cov")
        if not a.needs_data:
            kw.pop("X_test")
        w = want()
        got = a.score(given, **kw)
        if type(got) is not float:
            raise Violation(f"{a!r}: returns {type(got).__name__}")
        size = abs(w) + p
        tol = 1e-12 * kappa * size + 1e-9 * size
        if a.name == "SchurLikelihood" and np.linalg.eigvalsh(cov)[0] < 1e-6:
            M = damped(cov, a.gamma, a.n_blocks, a.interpolation)
            if a.interpolation == "geodesic" and np.linalg.eigvalsh(cov)[0] < 1e-7:
                continue  # the floor dominates: ill-conditioned
            tol = tol + 1e-13 * np.linalg.cond(M) * (abs(w) + np.sum(X * X) / len(X) * 1e8)
        if a.name == "SchurLikelihood":
            quad = abs(w) + np.mean(np.sum(X * X, axis=1)) / max(np.linalg.eigvalsh(cov)[0], 1e-8)
            tol = tol + 1e-14 * kappa * quad
        if a.name == "GMVVariance":
            tol = 1e-11 * kappa * abs(w) + 1e-11 * kappa * np.max(X * X)
        if a.name == "VariogramScore":
            tol = 1e-10 * (abs(w) + np.max(X * X) * p * p)
        if a.name == "FrobeniusToTruth":
            tol = 1e-10 * (1 + abs(w))
        require(abs(got - w) <= tol, f"{a!r}: score {got!r}, expected {w!r}")
        again = a.score(given, **{**kw, "X_test": X, "true_cov": truth})
        require(again == got, f"{a!r}: {again!r} with everything available, {got!r} with its needs")
        ctx.counted(2)
    require(np.array_equal(np.asarray(given), np.asarray(given0))
            and np.array_equal(np.asarray(truth), np.asarray(truth0)) and np.array_equal(X, X0),
            "an assessor modified what it was given")
    ctx.label("shape:" + spec["cov"]["shape"], "interp:" + interp, "as:" + spec["as"],
              f"p:{p}", f"scale:{spec['cov']['e']}")
    ctx.hit(p >= 3)


def frame(a):
    try:
        import pandas as pd
    except ImportError:
        return a
    return pd.DataFrame(a)
