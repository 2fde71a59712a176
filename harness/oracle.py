"""Comparison helpers shared by the oracles."""

from __future__ import annotations

import numpy as np

from harness.core import Violation


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def arr(a, what, shape=None):
    """``a`` as a float array of the given shape with finite entries."""
    try:
        out = np.asarray(a, dtype=float)
    except (TypeError, ValueError) as exc:
        raise Violation(f"{what} is not numeric: {a!r}") from exc
    if shape is not None and out.shape != tuple(shape):
        raise Violation(f"{what} has shape {out.shape}, expected {tuple(shape)}")
    if not np.all(np.isfinite(out)):
        raise Violation(f"{what} has non-finite entries: {fmt(out)}")
    return out


def fmt(a):
    return np.array2string(np.asarray(a), precision=6, threshold=36, suppress_small=False
                           ).replace("\n", " ")


def diff_excess(got, want, tol):
    """max |got - want| / tol (0 where equal)."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    d = np.abs(got - want)
    d = np.where(got == want, 0.0, d)
    with np.errstate(all="ignore"):
        q = d / np.maximum(tol, 1e-300)
    return float(np.max(q, initial=0.0))


def close(what, got, want, tol, sens=None):
    """``got`` equals ``want`` within ``tol``; ``sens()``, evaluated only on a mismatch, gives the
    amount by which rounding alone can move the result (an amplification the case is known to
    have), which widens the tolerance."""
    want = np.asarray(want, dtype=float)
    got = arr(got, what, want.shape)
    if diff_excess(got, want, tol) <= 1.0:
        return
    if sens is not None:
        extra = sens()
        if extra is None or diff_excess(got, want, np.asarray(tol) + extra) <= 1.0:
            return
    raise Violation(f"{what}: got {fmt(got)}, expected {fmt(want)} "
                    f"(max abs difference {np.max(np.abs(got - want)):.3g})")


def spread(X):
    X = np.atleast_2d(X)
    return X.max(axis=0) - X.min(axis=0), np.abs(X).max(axis=0)


def covtol(X, rtol=1e-9):
    """Entrywise tolerance for a covariance of the rows of X: relative to the spreads, plus the
    rounding that cancellation of a large offset causes."""
    s, m = spread(X)
    t = rtol * np.outer(s, s) + running(X) * (np.outer(m, s) + np.outer(s, m)) + 1e-25 * np.outer(m, m)
    return t + 1e-290


def meantol(X, rtol=1e-10):
    s, m = spread(X)
    return rtol * s + running(X) * m + 1e-290


def running(X):
    """Relative rounding of a mean updated once per row (each update rounds by half a unit)."""
    return 1e-13 + 1.2e-16 * len(X)


def min_eig(a):
    return float(np.linalg.eigvalsh((a + a.T) / 2).min()) if len(a) else 0.0


def cond(a):
    w = np.linalg.eigvalsh((a + a.T) / 2)
    if len(w) == 0:
        return 1.0
    return np.inf if w[0] <= 0 else float(w[-1] / w[0])


def corr_of(cov):
    d = np.sqrt(np.maximum(np.diag(cov), 0.0))
    den = np.outer(d, d)
    out = np.zeros_like(cov)
    np.divide(cov, den, out=out, where=den > 0)
    return out


def pick_steps(n, k=8):
    """Up to k+1 indices of range(n) at which to compare, always including the last."""
    if n <= k:
        return set(range(n))
    return set(np.unique(np.linspace(0, n - 1, k + 1).astype(int)).tolist())


def inverse_of(what, prec, a, tol):
    """``prec`` inverts ``a``: a backward-stable inverse has a small residual on one side at least."""
    eye = np.eye(len(a))
    left, right = np.abs(prec @ a - eye).max(initial=0.0), np.abs(a @ prec - eye).max(initial=0.0)
    require(min(left, right) <= tol, f"{what}: not the inverse of the covariance (the product is off "
                                     f"the identity by {min(left, right):.3g}): {fmt(prec)}")
