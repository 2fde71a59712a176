"""C08: an observation means the same in every accepted form; a malformed one changes nothing."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import require
from harness.same import feed, same, scale, snap

PROP = "C08"
RULE = ("A case feeds the same numbers to an estimator as float64 "
        "rows and in a random sequence of other forms (lists, tuples, ints, float32, transposed, "
        "strided, reversed, read-only, DataFrame, Series, ...), with malformed observations (wrong "
        "length, 0-d, 3-d, ragged, text) thrown in between, which must raise and leave everything "
        "as it was; non-trivial with at least 3 different forms and one rejected observation.")
CASES = {"quick": 3200, "thorough": 40000}

ROW = ["int64", "int32", "array", "list", "tuple", "float32", "strided", "readonly", "series", "scalars", "reversed"]
BATCH = ["int64b", "objects", "masked", "array2", "lists", "tuples", "rows", "fortran", "strided2", "frame", "float32b", "reversed2",
         "readonly2"]
BAD = ["long", "short", "long2", "short2", "zero-d", "three-d", "ragged", "text", "late-text"]


def spec():
    return st.fixed_dictionaries({
        "cfg": st.one_of(gen.config(r=gen.R_SHORT), gen.config(r=gen.R_SHORT),
                         gen.conditional_config()),
        "p": st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 12)),
        "seed": st.integers(0, 999),
        "ints": st.booleans(), "wide": st.sampled_from([False, False, True]),
        "calls": st.lists(st.tuples(st.sampled_from(ROW + BATCH + BAD),
                                    st.one_of(st.integers(1, 5), st.sampled_from([1, 5, 33]))),
                          min_size=4, max_size=14),
        "probe": st.sampled_from(ROW + BATCH),
    })


def exact(x, dtype):
    return np.array_equal(x.astype(dtype).astype(float), x)


def form(R, how, p):
    """The rows R (k x p) as the argument(s) of one or more calls."""
    import pandas as pd

    if how in ROW:
        out = []
        for x in R:
            if how == "array":
                v = x.copy()
            elif how == "list":
                v = x.tolist()
            elif how == "tuple":
                v = tuple(x.tolist())
            elif how == "float32" and exact(x, np.float32):
                v = x.astype(np.float32)
            elif how in ("int64", "int32") and exact(x, how):
                v = x.astype(how)
            elif how == "strided":
                w = np.full(2 * p, 9.0)
                w[::2] = x
                v = w[::2]
            elif how == "readonly":
                v = x.copy()
                v.flags.writeable = False
            elif how == "series":
                v = pd.Series(x, index=[f"k{i}" for i in range(p)])
            elif how == "scalars":
                v = [int(a) if float(a).is_integer() else np.float64(a) for a in x]
            elif how == "reversed":
                v = x[::-1].copy()[::-1]
            else:  # numbers the form cannot hold
                v = x.copy()
            out.append(v)
        return out
    if how == "array2":
        return [R.copy()]
    if how == "lists":
        return [R.tolist()]
    if how == "tuples":
        return [tuple(tuple(x) for x in R.tolist())]
    if how == "rows":
        return [[x.copy() for x in R]]
    if how == "fortran":
        return [np.asfortranarray(R)]
    if how == "strided2":
        w = np.full((2 * len(R), 3 * p), 9.0)
        w[::2, ::3] = R
        return [w[::2, ::3]]
    if how == "frame":
        return [pd.DataFrame(R, columns=[f"k{i}" for i in range(p)])]
    if how == "int64b" and exact(R, np.int64):
        return [R.astype(np.int64)]
    if how == "objects":
        return [R.astype(object)]
    if how == "masked":
        return [np.ma.masked_array(R.copy(), mask=False)]
    if how in ("float32b", "int64b") and not exact(R, np.float32):
        return [R.copy()]
    if how == "float32b":
        return [R.astype(np.float32)]
    if how == "reversed2":
        return [R[::-1].copy()[::-1]]
    v = R.copy()
    v.flags.writeable = False
    return [v]


def bad(R, how, p):
    x = R[0]
    if how == "long":
        return np.append(x, 1.0)
    if how == "short":
        return x[:-1] if p > 1 else np.array([1.0, 2.0])
    if how == "long2":
        return np.column_stack([R, R[:, :1]])
    if how == "short2":
        return R[:, :-1] if p > 1 else np.ones((2, 3))
    if how == "zero-d":
        return 3.0
    if how == "three-d":
        return R[None]
    if how == "ragged":
        return [x.tolist(), x.tolist() + [1.0]]
    if how == "text":
        return ["a"] * p
    return [x.tolist(), x.tolist()[:-1] + ["z"]]


def check(spec, ctx):
    p, cfg = spec["p"], spec["cfg"]
    name = gen.cfg_label(cfg)
    g = np.random.default_rng([29, spec["seed"]])
    total = sum(k for _, k in spec["calls"])
    X = g.integers(-8, 9, (total + 1, p)).astype(float)
    if not spec["ints"]:
        X = X / 4.0 + g.integers(-3, 4, (total + 1, p)) / 64.0
    if spec["wide"]:  # digits that single precision does not have
        X = X * 2.0 ** g.integers(-3, 12) + 2.0**27 + g.integers(0, 2**20) + 1
    mag = scale(X)
    plain, est = gen.make_any(cfg), gen.make_any(cfg)
    at, forms, rejected = 0, set(), 0
    for how, k in spec["calls"]:
        R = X[at:at + k]
        if how in BAD:
            if at == 0 and how in ("long", "short", "long2", "short2"):
                continue  # before anything was seen, any length is a legitimate first observation
            before = snap(est)
            arg = bad(R, how, p)
            for method in ("partial_fit", "mahalanobis", "score"):
                if method != "partial_fit" and est.n_samples_ == 0:
                    continue
                try:
                    out = getattr(est, method)(arg)
                except (ValueError, TypeError):
                    pass
                else:
                    raise Violation(f"{name}: {method} accepts a malformed observation ({how}: "
                                    f"{arg!r}) for {p} features, giving {out!r}")
                same(f"{name}: after a rejected observation ({how})", snap(est), before, 0.0, 0.0)
            rejected += 1
            ctx.label("bad:" + how)
            continue
        feed(plain, R)
        for arg in form(R, how, p):
            if spec["seed"] % 3 == 0:
                est.partial_fit(arg, None)
            elif spec["seed"] % 3 == 1:
                est.partial_fit(X=arg)
            else:
                est.partial_fit(arg, y=[1, 2, 3])
        at += k
        forms.add(how)
        same(f"{name}: rows given as {how}", snap(est), snap(plain), mag=mag)
        ctx.counted()
        ctx.label("form:" + how)
    if at >= 2:
        if at >= 3:
            for how in ("lists", "fortran", "frame", "float32b"):
                other = gen.make_any(cfg)
                other.fit(form(X[:at], how, p)[0])
                same(f"{name}: fit on the batch as {how}", snap(other), snap(plain), mag=mag)
        Q = X[at - 1:at + 1] if spec["probe"] in BATCH else X[at - 1:at]
        if est.n_samples_:
            arg = form(Q, spec["probe"], p)[0]
            for what in ("mahalanobis", "score"):
                got, want = getattr(est, what)(arg), getattr(est, what)(Q.copy())
                require(np.allclose(got, want, rtol=1e-9, atol=0, equal_nan=True),
                        f"{name}: {what} of {spec['probe']} is {got}, of the plain array {want}")
        fresh = gen.make_any(cfg)
        for arg in (X[0], 2.0, X[None]):
            try:
                fresh.fit(arg)
            except (ValueError, TypeError):
                pass
            else:
                raise Violation(f"{name}: fit accepts something that is not a 2d batch: {arg!r}")
            require(fresh.n_samples_ == 0, f"{name}: a rejected fit left observations behind")
    ctx.label("est:" + name)
    ctx.hit(len(forms) >= 3 and rejected >= 1)
