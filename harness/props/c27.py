"""C27: the repairs applied to matrices do exactly what they are for, and nothing more."""

import sys

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import require

PROP = "C27"
RULE = ("A case is a square matrix built from a drawn spectrum (positive, singular, indefinite, "
        "negative, repeated, zero), basis and scale (1e-9 to 1e9), possibly with blank variables "
        "or an asymmetric part, put through the positive-definite test, both repairs and the "
        "inverse, against the eigendecomposition it was built from; and an observation of 0 to 4 "
        "dimensions; non-trivial when the matrix has at least 2 variables and is not already "
        "positive definite.")
CASES = {"quick": 6000, "thorough": 120000}


def spec():
    ev = st.one_of(
        st.sampled_from([0.0, 0.0, 1.0, 1.0, -1.0, 2.0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-10, -1e-10]),
        st.floats(-3, 3).map(lambda v: float(np.round(v, 3))))
    pos = st.one_of(st.sampled_from([1.0, 2.0, 1e-3, 1e-5]),
                    st.floats(0.01, 3).map(lambda v: float(np.round(v, 3))))
    return st.fixed_dictionaries({
        "ev": st.integers(0, 29).flatmap(
            lambda i: st.lists(pos if i % 2 else ev, min_size=11, max_size=40) if i >= 28
            else st.lists(pos if i % 2 else ev, min_size=1, max_size=10)),
        "basis": st.sampled_from(["random", "random", "axes", "pairs"]),
        "s": st.integers(0, 9999),
        "e": st.integers(-9, 9),
        "blank": st.lists(st.integers(0, 9), max_size=3),
        "skew": st.sampled_from([0.0, 0.0, 0.5, 2.0]),
        "eps": st.sampled_from([None, 1e-8, 1e-4, 0.1, 1.0, 1 / 3]),
        "shape": st.sampled_from([(), (3,), (1,), (2, 3), (1, 4), (3, 1), (2, 2, 2), (1, 1, 1, 1)]),
        "form": st.sampled_from(["array", "list", "int", "float32", "tuple", "fortran"]),
    })


def basis(kind, g, p):
    if kind == "axes":
        return np.eye(p)[:, g.permutation(p)]
    if kind == "pairs":
        q, c, s = np.eye(p), np.sqrt(0.5), np.sqrt(0.5)
        for i in range(0, p - 1, 2):
            q[i, i], q[i, i + 1], q[i + 1, i], q[i + 1, i + 1] = c, -s, s, c
        return q
    q, r = np.linalg.qr(g.standard_normal((p, p)))
    return q * np.sign(np.diag(r))


def near(what, got, want, tol):
    require(isinstance(got, np.ndarray) and got.shape == want.shape, f"{what}: {type(got)} "
            f"{getattr(got, 'shape', None)}")
    err = np.max(np.abs(got - want), initial=0.0)
    require(np.isfinite(got).all() and err <= tol, f"{what}: off by {err:.3g} (allowed {tol:.3g})"
            f"\n{got}\nexpected\n{want}")


def helper(name):
    """An internal helper by name, wherever the package keeps it."""
    import precise  # noqa: F401

    for mod in ("precise._linalg", "precise._conventions", "precise.base", "precise"):
        found = getattr(sys.modules.get(mod), name, None)
        if found is not None:
            return found
    for mod, m in sorted(sys.modules.items()):
        if mod.startswith("precise.") and hasattr(m, name):
            return getattr(m, name)
    return None


def check(spec, ctx):
    as_rows, is_positive_def, make_pos_def, nearest_pos_def, try_invert = map(helper, (
        "as_rows", "is_positive_def", "make_pos_def", "nearest_pos_def", "try_invert"))

    g = gen.rng(113, spec["s"])
    scale = 10.0 ** spec["e"]
    lam = np.array(spec["ev"]) * scale
    p = len(lam)
    Q = basis(spec["basis"], g, p)
    A = (Q * lam) @ Q.T
    A = (A + A.T) / 2
    blank = sorted({b % p for b in spec["blank"]}) if p > 1 else []
    if blank:  # blank variables, whatever the rest: recompute the spectrum of what is left
        A[blank, :] = 0.0
        A[:, blank] = 0.0
    keep = [i for i in range(p) if i not in blank]
    lam_k, Q_k = np.linalg.eigh(A[np.ix_(keep, keep)])
    top = float(np.max(np.abs(lam), initial=0.0))
    rd = 1e-13 * p * top  # what rounding can do
    lo = min(lam_k.min(initial=np.inf), 0.0 if blank else np.inf)
    before = A.copy()

    skew = np.triu(g.standard_normal((p, p)), 1) * spec["skew"] * (top or 1.0)
    M = A + skew - skew.T
    keep_M = M.copy()
    tol = 1e-11 * p * top * (1 + spec["skew"]) + 1e-300
    # ---- the test
    if is_positive_def is not None:
        v = is_positive_def(A)
        require(type(v) is bool, f"is_positive_def returned a {type(v).__name__}")
        if lo > rd:
            require(v, f"positive definite (least eigenvalue {lo:.3g}) but reported not: {A}")
        elif lo < -rd or (blank and lo <= 0 and A.shape[0] > 0):
            require(not v, f"not positive definite (least eigenvalue {lo:.3g}) but reported so: {A}")

    # ---- nearest
    if nearest_pos_def is not None:
        want = np.zeros((p, p))
        want[np.ix_(keep, keep)] = (Q_k * np.maximum(lam_k, 0.0)) @ Q_k.T
        got = nearest_pos_def(M)
        near("nearest_pos_def", got, want, tol)
        require(np.array_equal(got, got.T), "nearest_pos_def: not symmetric")
        try:
            np.linalg.cholesky(got)
        except np.linalg.LinAlgError:
            raise Violation(f"nearest_pos_def: not positive definite\n{got}") from None
        near("nearest_pos_def of its own result", nearest_pos_def(got), got, tol)
        f = float(2.0 ** g.integers(-6, 7))
        near("nearest_pos_def in other units", nearest_pos_def(M * f), want * f, tol * f)
        perm = g.permutation(p)
        near("nearest_pos_def of reordered variables", nearest_pos_def(M[np.ix_(perm, perm)]),
             want[np.ix_(perm, perm)], tol)

    # ---- floor
    if make_pos_def is not None:
        eps = spec["eps"]
        floor = 1e-8 if eps is None else eps
        got = make_pos_def(M) if eps is None else make_pos_def(M, eps)
        want = np.eye(p) * floor
        want[np.ix_(keep, keep)] = (Q_k * np.maximum(lam_k, floor)) @ Q_k.T
        near(f"make_pos_def(eps={eps})", got, want, tol + 1e-12 * p * floor)
        require(np.array_equal(got, got.T), "make_pos_def: not symmetric")
        ev = np.linalg.eigvalsh(got)
        require(ev[0] >= floor * (1 - 1e-9) - tol, f"make_pos_def(eps={eps}): least eigenvalue {ev[0]}")

    # ---- inverse
    if try_invert is not None:
        got = try_invert(A)
        small = float(np.min(np.abs(lam_k), initial=np.inf))
        require(isinstance(got, np.ndarray) and got.shape == A.shape and np.isfinite(got).all(),
                f"try_invert: {got}")
        if keep and small > 1e-7 * top:
            want = np.zeros((p, p))
            want[np.ix_(keep, keep)] = (Q_k / lam_k) @ Q_k.T
            near("try_invert", got, want, 1e-12 * p * top / small**2 + 1e-12 / small)
            ctx.label("inverse")
        elif not keep or top == 0:
            near("try_invert of a zero matrix", got, np.zeros((p, p)), 0.0)
        full = A + skew  # a general, asymmetric matrix
        s = np.linalg.svd(full, compute_uv=False)
        if s[-1] > 1e-6 * s[0] > 0:
            got = try_invert(full)
            near("try_invert of an asymmetric matrix", full @ got, np.eye(p), 1e-7)
    require(np.array_equal(A, before) and np.array_equal(M, keep_M), "an argument was modified")

    # ---- rows
    if as_rows is not None:
        shape = tuple(spec["shape"])
        a = np.round(g.uniform(-9, 9, shape), 0 if spec["form"] == "int" else 3)
        form = {"array": lambda: a, "list": lambda: a.tolist(), "int": lambda: a.astype(int),
                "float32": lambda: a.astype(np.float32),
                "tuple": lambda: tuple(a.tolist()) if shape else float(a),
                "fortran": lambda: np.array(a, order="F")}[spec["form"]]()
        if len(shape) in (1, 2):
            rows = as_rows(form)
            want = np.asarray(form, dtype=float).reshape((1, -1) if len(shape) == 1 else shape)
            require(isinstance(rows, np.ndarray) and rows.dtype == float
                    and rows.shape == want.shape and np.array_equal(rows, want),
                    f"as_rows of shape {shape} gives {rows!r}")
        else:
            try:
                rows = as_rows(form)
            except ValueError:
                pass
            else:
                raise Violation(f"as_rows accepted an array of {len(shape)} dimensions: {rows!r}")
    ctx.counted(12)
    ctx.label("definite" if lo > rd else "indefinite" if lo < -rd else "singular",
              "blank" if blank else "no-blank", "skew" if spec["skew"] else "symmetric",
              f"rows:{len(shape)}-d")
    ctx.hit(p >= 2 and lo <= rd)
