"""Comparing two estimators that should be in the same condition, through the public surface."""

from __future__ import annotations

import numpy as np

from harness.core import Violation
from harness.oracle import close, require

READS = ["covariance_", "correlation_", "precision_", "location_", "n_samples_", "n_features_in_"]


def snap(est):
    """What a user can read: None when nothing has been observed."""
    if est.n_samples_ == 0:
        return None
    return {"n": est.n_samples_, "nf": est.n_features_in_,
            "loc": np.array(est.location_, dtype=float), "cov": np.array(est.covariance_, float)}


def same(what, got, want, rtol=1e-9, mag=0.0):
    """Snapshots agree: counts exactly, numbers within rtol on the scale of the estimate."""
    if want is None or got is None:
        require(got is None and want is None,
                f"{what}: {'fitted' if got else 'unfitted'}, expected the opposite")
        return
    require(got["n"] == want["n"], f"{what}: n_samples_ {got['n']}, expected {want['n']}")
    require(got["nf"] == want["nf"], f"{what}: n_features_in_ {got['nf']}, expected {want['nf']}")
    finite = np.isfinite(want["cov"]).all() and np.isfinite(want["loc"]).all()
    if not finite:
        raise Violation(f"{what}: the plain run itself is not finite: {want['cov']}")
    sd = np.sqrt(np.maximum(np.diag(want["cov"]), 0.0))
    tol = rtol * np.outer(sd, sd) + 1e-13 * mag * (sd[:, None] + sd[None, :]) + 1e-25 * mag**2
    close(what + ": covariance_", got["cov"], want["cov"], tol + 1e-290)
    close(what + ": location_", got["loc"], want["loc"],
          rtol * (sd + np.abs(want["loc"])) + 1e-14 * mag + 1e-290)


def feed(est, X):
    for x in X:
        est.partial_fit(np.array(x, dtype=float))
    return est


def scale(X):
    return float(np.max(np.abs(X), initial=0.0))
