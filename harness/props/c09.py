"""C09: the running sample covariance is the population covariance of everything seen."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import close, covtol, meantol, require

PROP = "C09"
RULE = ("A case feeds a stream (up to 25000 rows, offsets up to 1e8 times the spread, any degenerate "
        "segments) to the empirical estimator and compares with two-pass extended-precision "
        "statistics at several prefixes, after permuting the rows, and after an affine map; "
        "non-trivial when there are at least 3 rows that are not all equal.")
CASES = {"quick": 4000, "thorough": 40000}


def spec():
    small = gen.stream(p=(1, 8), n=(1, 80), exps=(-4, 4))
    big = gen.stream(p=(1, 3), n=(300, 1500), explicit=False, max_segs=3)
    huge = gen.stream(p=(1, 2), n=(8000, 25000), explicit=False, max_segs=3)
    some = [small] * 48 + [big] * 12 + [huge]
    return st.fixed_dictionaries({
        "data": st.sampled_from(some).flatmap(lambda s: s),
        "shift": st.sampled_from([0.0, 0.0, 1e3, -1e5, 1e7, 1e8]),
        "seed": st.integers(0, 999),
        "chunk": st.lists(st.integers(1, 40), max_size=3),
    })


def two_pass(X):
    Z = X.astype(np.longdouble)
    m = Z.mean(axis=0)
    Z = Z - m
    m = m + Z.mean(axis=0)
    Z = X.astype(np.longdouble) - m
    return np.array(m, float), np.array(Z.T @ Z / len(X), float)


def check(spec, ctx):
    import precise

    X = gen.expand(spec["data"]) + spec["shift"]
    n, p = X.shape
    est = precise.EmpiricalCovariance()
    points = {n, max(1, n // 2), max(1, n // 3), min(2, n), min(5, n), 1}
    for a, b in gen.chunks(spec["chunk"] or [1], n):
        est.partial_fit(X[a:b].copy() if spec["chunk"] else X[a].copy())
        if not any(a < q <= b for q in points):
            continue
        m, C = two_pass(X[:b])
        close(f"location_ of {b} rows", est.location_, m, meantol(X[:b], 1e-11))
        close(f"covariance_ of {b} rows", est.covariance_, C, covtol(X[:b], 1e-10))
        require(est.n_samples_ == b, f"n_samples_ is {est.n_samples_} after {b} rows")
        ctx.counted(2)
    m, C = two_pass(X)
    g = np.random.default_rng([31, spec["seed"]])
    perm = precise.EmpiricalCovariance().fit(X[g.permutation(n)])
    close("covariance_ of the permuted rows", perm.covariance_, C, covtol(X, 1e-10))
    close("location_ of the permuted rows", perm.location_, m, meantol(X, 1e-11))
    if n >= 2 and np.abs(spec["shift"]) <= 1e3:
        close("covariance_ against numpy.cov(bias=True)", perm.covariance_,
              np.atleast_2d(np.cov(X, rowvar=False, bias=True)), covtol(X, 1e-9))
    A = g.integers(-2, 3, (p, p)).astype(float)
    Y = X @ A
    y = precise.EmpiricalCovariance().fit(Y)
    big = float(np.max(np.abs(X), initial=0))
    close("covariance_ of a linear map of the rows", y.covariance_, A.T @ C @ A,
          covtol(Y, 1e-9) + 1e-9 * np.abs(A).T @ np.sqrt(np.outer(np.diag(C), np.diag(C)))
          @ np.abs(A) + 1e-12 * p * big * np.sqrt(np.diag(C).max()) + 1e-24 * p * p * big * big)
    ctx.counted(4)
    ctx.label(*gen.stream_labels(spec["data"]), f"shift:{spec['shift']:g}")
    ctx.hit(n >= 3 and len(np.unique(X, axis=0)) > 1)
