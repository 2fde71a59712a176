"""Differential run of an estimator against its reference model over a generated stream."""

from __future__ import annotations

import numpy as np

from harness import gen, ref
from harness.oracle import close, covtol, meantol, pick_steps, require


def perturbed(D, k):
    """The rows D moved by an amount of the order of rounding noise (deterministic)."""
    g = np.random.default_rng([99, k])
    s = D.max(axis=0) - D.min(axis=0)
    m = np.abs(D).max(axis=0)
    return D + g.uniform(-1, 1, D.shape) * (1e-13 * s + 1e-15 * m)


def ref_sensitivity(cfg, D, read):
    """How far rounding-level changes of the input move the reference's answer (entrywise max over
    three perturbations, times 100), or None when the reference itself breaks down."""
    p = D.shape[1]
    outs = []
    for k in range(4):
        r = ref.build(cfg, p)
        for x in D if k == 0 else perturbed(D, k):
            r.push(x)
            if not r.ok:
                return None
        outs.append(np.asarray(read(r), dtype=float))
        if not r.ok:
            return None
    d = max(float(np.max(np.abs(o - outs[0]), initial=0.0)) for o in outs[1:])
    return 100.0 * d


def run(cfg, stream_spec, ctx, *, rtol=1e-8, unit=False, steps=8, on_step=None, chunk=None):
    """Feed the stream to both and compare location_, covariance_ and n_samples_ along the way."""
    X = gen.expand(stream_spec)
    p = X.shape[1]
    use_diff = cfg["kw"].get("diff", False)
    D = np.diff(X, axis=0) if use_diff else X
    est = gen.make(cfg)
    if use_diff:
        est.partial_fit(X[0])
        X = X[1:]
    r = ref.build(cfg, p)
    at = pick_steps(len(D), steps)
    if hasattr(r, "nb"):  # always look just before, at and after the end of the burn-in window
        at |= {i for i in (r.nb - 1, r.nb, r.nb + 1) if 0 <= i < len(D)}
    name = gen.cfg_label(cfg)
    compared = 0
    # rows put exactly at the running mean (Tyler's direction and Factor's seeds would be rounding)
    home = set() if use_diff or name in ("Tyler", "Factor") else set(stream_spec.get("home", []))
    for i, x in enumerate(X):
        if i in home and i:
            x = D[i] = np.array(est.location_, dtype=float)
            ctx.label("row-at-the-mean")
        est.partial_fit(x.copy())
        r.push(D[i])
        if not r.ok:
            ctx.label("ref:ill-conditioned")
            break
        if i not in at:
            continue
        want = r.cov()
        if cfg["cls"] == "SchurConditionalCovariance":  # correlations of rounding noise
            sd, mag = np.sqrt(np.maximum(np.diag(r.C), 0.0)), np.abs(D[: i + 1]).max(axis=0)
            r.ok &= not np.any((mag > 0) & (sd < 1e-9 * mag))
        if not r.ok:
            ctx.label("ref:ill-conditioned")
            break
        pre = D[: i + 1]
        tol = (np.full((p, p), rtol) if unit else covtol(pre, rtol)) + r.extra
        if not unit and cfg["cls"].startswith(("Schur", "Block", "Geodesic")):
            tol = tol + 1e-12 * max(1e-8, 1.0 if cfg["cls"] == "SchurConditionalCovariance" else 0)
        require(est.n_samples_ == i + 1, f"{name}: n_samples_ is {est.n_samples_} after {i + 1} rows")
        close(f"{name}: location_ after {i + 1} of {len(X)} rows", est.location_, r.mean(),
              meantol(pre, 1e-9), lambda: ref_sensitivity(cfg, pre, lambda q: q.mean()))
        close(f"{name}: covariance_ after {i + 1} of {len(X)} rows", est.covariance_, want, tol,
              lambda: ref_sensitivity(cfg, pre, lambda q: q.cov()))
        compared += 1
        ctx.counted(2)
        if on_step is not None:
            on_step(i, est, r, pre)
    if hasattr(r, "nb"):
        ctx.label("phase:after-burn-in" if compared and r.n > r.nb else "phase:burn-in-only")
    ctx.label("est:" + name)
    ctx.label(*gen.stream_labels(stream_spec))
    return est, r, D, compared
