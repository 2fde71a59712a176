"""C24: the observable features of a data window are what their names say."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import require, spread

PROP = "C24"
RULE = ("A case is a data window (p up to 12, n up to 120, several structures including constant, "
        "duplicated and rank-deficient ones, several units and origins) in one of several forms; "
        "every feature is compared with an independent computation (centred singular values, "
        "explicit loops), then on a reordered, shifted, rescaled and repeated window; non-trivial "
        "with at least 2 variables and 3 rows.")
CASES = {"quick": 4800, "thorough": 60000}
KEYS = ["n", "p", "p_over_n", "effective_rank", "sphericity", "condition_number",
        "mean_abs_offdiag_corr", "avg_excess_kurtosis"]
FLOOR = 1e-12


def spec():
    return st.fixed_dictionaries({
        "data": st.integers(0, 29).flatmap(
            lambda i: gen.stream(p=(13, 60), n=(1, 80), exps=(-3, 3), explicit=False) if i == 28
            else gen.stream(p=(1, 4), n=(500, 3000), exps=(-3, 3), explicit=False) if i == 29
            else gen.stream(p=(1, 12), n=(1, 120), exps=(-3, 3))),
        "as": st.sampled_from(["array", "list", "frame", "fortran", "strided", "row", "ints"]),
        "seed": st.integers(0, 9999),
        "unit": st.integers(-4, 8),
    })


def oracle(X):
    """Features with, for each, the interval rounding allows."""
    n, p = X.shape
    mean = np.array([np.sum(X[:, j]) / n for j in range(p)])
    Z = X - mean
    s = np.linalg.svd(Z, compute_uv=False) ** 2 / n
    lam = np.zeros(p)
    lam[: len(s)] = s
    mag = np.abs(X).max(axis=0)
    sd, big = spread(X)
    # what rounding can move an eigenvalue by
    d = 1e-13 * p * lam[0] + 1e-14 * float(np.max(np.outer(mag, sd + 1e-15 * mag))) \
        + 1e-28 * float(np.max(mag)) ** 2 * p
    lo, hi = np.maximum(lam - d, FLOOR), np.maximum(lam + d, FLOOR)
    mid = np.maximum(lam, FLOOR)
    er = mid.sum() ** 2 / np.sum(mid ** 2)
    tol = {"effective_rank": 1e-9 * p + 4 * p * d / mid.max(), "cond": (hi.max() / lo.min(),
                                                                        lo.max() / hi.min())}
    var = np.maximum(np.mean(Z * Z, axis=0), FLOOR)
    # relative error of a centred value, per variable
    eta = 1e-15 * mag / np.sqrt(var)
    corr, ctol, pairs = 0.0, 0.0, 0
    for i in range(p):
        for j in range(p):
            if i != j:
                corr += abs(float(np.sum(Z[:, i] * Z[:, j])) / n) / np.sqrt(var[i] * var[j])
                ctol += 1e-10 + 8 * (eta[i] + eta[j])
                pairs += 1
    corr, ctol = (corr / pairs, ctol / pairs) if pairs else (0.0, 0.0)
    k = np.array([np.sum(Z[:, j] ** 4) / n / var[j] ** 2 - 3.0 for j in range(p)])
    ktol = float(np.mean((1e-9 + 32 * eta) * (np.abs(k) + 4) + (16 * eta) ** 4))
    want = {"n": n, "p": p, "p_over_n": p / n, "effective_rank": er, "sphericity": er / p,
            "condition_number": mid.max() / mid.min(), "mean_abs_offdiag_corr": corr,
            "avg_excess_kurtosis": float(np.mean(k))}
    allow = {"p_over_n": 1e-15 * p, "effective_rank": tol["effective_rank"],
             "sphericity": tol["effective_rank"] / p, "mean_abs_offdiag_corr": ctol,
             "avg_excess_kurtosis": ktol}
    return want, allow, tol["cond"], (mid, d, eta)


def compare(what, f, X):
    want, allow, (chi, clo), state = oracle(X)
    for key in ("n", "p"):
        require(type(f[key]) is int and f[key] == want[key], f"{what}: {key} = {f[key]!r}")
    for key, t in allow.items():
        require(type(f[key]) is float, f"{what}: {key} is a {type(f[key]).__name__}")
        require(abs(f[key] - want[key]) <= t + 1e-12 * abs(want[key]),
                f"{what}: {key} = {f[key]!r}, expected {want[key]!r} within {t:.3g}")
    c = f["condition_number"]
    require(type(c) is float and clo * (1 - 1e-9) <= c <= chi * (1 + 1e-9),
            f"{what}: condition_number = {c!r}, expected {want['condition_number']!r}")
    p = want["p"]
    require(1 - 1e-9 <= f["effective_rank"] <= p * (1 + 1e-9), f"{what}: effective_rank = "
                                                               f"{f['effective_rank']!r}")
    require(0 < f["sphericity"] <= 1 + 1e-9 and c >= 1 - 1e-12, f"{what}: out of range: {f}")
    require(-1e-12 <= f["mean_abs_offdiag_corr"] <= 1 + 1e-9, f"{what}: out of range: {f}")
    return want, state


def check(spec, ctx):
    from precise import covariance_features

    X = gen.expand(spec["data"])
    if spec["as"] == "row":
        X = X[:1]
    elif spec["as"] == "ints":
        X = np.round(X)
    n, p = X.shape
    big = np.repeat(np.repeat(X, 2, axis=0), 2, axis=1)
    form = {"array": lambda: X.copy(), "list": lambda: X.tolist(), "frame": lambda: frame(X),
            "fortran": lambda: np.asfortranarray(X), "strided": lambda: big[::2, ::2],
            "row": lambda: X[0].copy(), "ints": lambda: X.astype(int)}[spec["as"]]()
    before = copy.deepcopy(form)
    f = covariance_features(form)
    require(list(f) == KEYS, f"features are {list(f)}")
    require(np.array_equal(np.asarray(form), np.asarray(before)), "the data were modified")
    want, (lam, d, eta) = compare(f"{n} x {p} window", f, X)
    ctx.counted(8)
    again = covariance_features(form)
    require(again == f, f"a second call gives {again}, not {f}")

    # the same window, told differently
    g = gen.rng(101, spec["seed"])
    calm = lam[-1] > 1e-8 and d < 1e-9 * lam[-1] and np.max(eta) < 1e-9
    if calm:
        for name, Y, drop in (
            ("rows reordered", X[g.permutation(n)], ()),
            ("variables reordered", X[:, g.permutation(p)], ()),
            ("moved", X + np.round(g.uniform(-3, 3, p), 1) * np.sqrt(np.diag(X.T @ X / n)), ()),
            ("in other units", X * 2.0 ** max(0, spec["unit"]), ()),
            ("signs flipped", X * g.choice([-1.0, 1.0], p), ()),
            ("repeated", np.vstack([X, X]), ("n", "p_over_n")),
        ):
            h = covariance_features(Y)
            for key in KEYS:
                if key not in drop:
                    require(abs(h[key] - f[key]) <= 1e-6 * (1 + abs(f[key])),
                            f"window {name}: {key} goes from {f[key]!r} to {h[key]!r}")
            ctx.counted()
        ctx.label("relations")
    ctx.label("as:" + spec["as"], "rank-deficient" if lam[-1] <= FLOOR else "full-rank",
              *gen.stream_labels(spec["data"]))
    ctx.hit(p >= 2 and n >= 3)


def frame(a):
    try:
        import pandas as pd
    except ImportError:
        return a
    return pd.DataFrame(a)
