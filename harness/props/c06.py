"""C06: correlation, precision, distances and scores are the ones implied by the covariance."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import arr, close, cond, inverse_of, require

PROP = "C06"
RULE = ("A case is an estimator and a stream, read before any observation (must refuse) and then at "
        "up to 4 points, where correlation, precision, Mahalanobis distances and the mean Gaussian "
        "log-likelihood of generated query points are recomputed from covariance and location by "
        "other means (solve, Cholesky); non-trivial when the covariance was well enough conditioned "
        "(unit-diagonal condition below 1e6) for the inverse to be determined.")
CASES = {"quick": 4800, "thorough": 48000}


def spec():
    kinds = st.sampled_from([None, None, gen.SMOOTH])
    return kinds.flatmap(lambda k: st.fixed_dictionaries({
        "cfg": st.one_of(gen.config(r=gen.R_SHORT), gen.config(r=gen.R_SHORT), gen.config(),
                         gen.conditional_config()),
        "data": gen.wider(gen.stream(p=(1, 6), n=(1, 60) if k is None else (8, 60), kinds=k),
                          kinds=k),
        "q": st.integers(0, 999),
        "nq": st.one_of(st.integers(1, 6), st.sampled_from([1, 25, 70, 300, 700])),
        "far": st.sampled_from([1.0, 1.0, 1.0, 1e3, 1e-4, 0.0, 1e7]),
        "reset": st.sampled_from(["none", "none", "state", "clone"]),
        "again": st.sampled_from(["none", "fit", "fit", "state"]),
    }))


def refuses(est, name, when):
    import precise.base as b

    q = np.zeros(3)
    for what in ("covariance_", "correlation_", "precision_", "location_"):
        try:
            got = getattr(est, what)
        except b.NotFittedError as exc:
            require(isinstance(exc, ValueError), f"{name}: NotFittedError is not a ValueError")
            continue
        raise Violation(f"{name} {when}: {what} gives {got!r} instead of raising NotFittedError")
    for what in ("get_precision", "mahalanobis", "score"):
        try:
            got = getattr(est, what)(*([] if what == "get_precision" else [q]))
        except b.NotFittedError:
            continue
        raise Violation(f"{name} {when}: {what} gives {got!r} instead of raising NotFittedError")
    require(est.n_samples_ == 0, f"{name} {when}: n_samples_ is {est.n_samples_}")


def check(spec, ctx):
    X = gen.expand(spec["data"])
    n, p = X.shape
    cfg = spec["cfg"]
    name = gen.cfg_label(cfg)
    diff = cfg.get("kw", {}).get("diff", False)
    est = gen.make_any(cfg)
    refuses(est, name, "before any observation")
    g = np.random.default_rng([23, spec["q"]])
    at = {n - 1, n // 2, min(3, n - 1), 0}
    well = False
    for i, x in enumerate(X):
        est.partial_fit(x.copy())
        if diff and i == 0:
            continue_ok = est.n_samples_ == 0
            require(continue_ok, f"{name} diff: one row already counts as an observation")
        if i not in at or est.n_samples_ == 0:
            continue
        well |= reads(est, name, i + 1, X[: i + 1], g, spec, ctx)
    # another estimate of as many rows in the same object: nothing may be left over from the first
    if spec["again"] == "fit":
        Y = 2.0 * X[::-1] ** 2 + X - 1.0
        est.fit(Y)
        if est.n_samples_:
            reads(est, name + " fitted again", n, Y, g, spec, ctx)
    elif spec["again"] == "state" and cfg["cls"] != "ConditionalCovariance" and n > 1:
        Y = 1.0 - 3.0 * X[::-1]
        est.set_state(gen.make_any(cfg).fit(Y).get_state())
        reads(est, name + " restored to another state", n, Y, g, spec, ctx)
    if spec["reset"] == "state" and cfg["cls"] != "ConditionalCovariance":
        est.set_state(None)
        refuses(est, name, "after set_state(None)")
    elif spec["reset"] == "clone":
        refuses(type(est)(**est.get_params()), name, "as a clone")
    ctx.label("est:" + name, "well-conditioned" if well else "singular-only",
              "diff" if diff else "level")
    ctx.hit(well)


def reads(est, name, m, X, g, spec, ctx):
    where = f"{name} after {m} rows"
    p, nq = X.shape[1], spec["nq"]
    cov, loc = np.array(est.covariance_, float), np.array(est.location_, float)
    var = np.diag(cov)
    corr = arr(est.correlation_, where + ": correlation_", (p, p))
    for i in range(p):
        for j in range(p):
            if var[i] > 1e-290 and var[j] > 1e-290:
                want = cov[i, j] / np.sqrt(var[i]) / np.sqrt(var[j])
                require(abs(corr[i, j] - want) <= 1e-12 * max(1, abs(want)),
                        f"{where}: correlation_[{i},{j}] is {corr[i, j]!r}, covariance_ says {want!r}")
            elif var[i] == 0 or var[j] == 0:
                require(corr[i, j] == 0, f"{where}: correlation_[{i},{j}] = {corr[i, j]!r} for a "
                                         f"variable without variance")
    require(np.array_equal(corr, corr.T), f"{where}: correlation_ is not symmetric")
    prec = arr(est.precision_, where + ": precision_", (p, p))
    require(np.array_equal(prec, arr(est.get_precision(), where + ": get_precision()", (p, p))),
            f"{where}: get_precision() differs from precision_")
    Q = loc + spec["far"] * g.standard_normal((nq, p)) * np.sqrt(np.maximum(var, 1e-300))
    d2 = arr(est.mahalanobis(Q), where + ": mahalanobis", (nq,))
    one = arr(est.mahalanobis(Q[0]), where + ": mahalanobis of one row", (1,))
    each = np.array([float(np.asarray(est.mahalanobis(q)).reshape(-1)[0]) for q in Q])
    ctx.counted(4)
    if np.any(var <= 1e-290):
        return False
    sd = np.sqrt(var)
    R = cov / np.outer(sd, sd)
    if cond(R) > 1e6 or cond(cov) > 1e9:
        return False
    tol = 1e-14 * cond(cov) * p + 1e-12 * cond(R)
    inverse_of(where + ": precision_", prec * np.outer(sd, sd), R, max(tol, 1e-9))
    L = np.linalg.cholesky(R)
    zs = np.linalg.solve(L, ((Q - loc) / sd).T)
    want = np.sum(zs * zs, axis=0)
    dt = max(tol, 1e-9) * (1 + want)
    close(where + ": mahalanobis", d2, want, dt)
    close(where + ": mahalanobis one by one", each, want, dt)
    close(where + ": mahalanobis of one row", one, want[:1], dt[:1])
    ll = -0.5 * want - np.sum(np.log(np.diag(L))) - np.sum(np.log(sd)) - 0.5 * p * np.log(2 * np.pi)
    got = est.score(Q)
    require(np.ndim(got) == 0, f"{where}: score is not a number: {got!r}")
    close(where + ": score", got, ll.mean(), float(dt.max()) + 1e-9 * (1 + np.abs(ll).max()))
    close(where + ": score of one row", est.score(Q[-1]), ll[-1],
          float(dt.max()) + 1e-9 * (1 + np.abs(ll).max()))
    ctx.counted(5)
    return True
