"""C01: every estimator reports a valid covariance after every observation of every stream."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import arr, min_eig, pick_steps, require, spread

PROP = "C01"
RULE = ("A case is one of the 17 registered estimators or a vol x correlation composition, with "
        "random hyper-parameters, fed a stream built from segments (Gaussian, heavy-tailed, "
        "outliers, ties, constant, repeated rows, ramps, rank-one, zeros, flat or duplicated "
        "features, scales 1e-4..1e4, offsets up to 1e4), in random chunks; it is non-trivial when "
        "the stream has at least 2 distinct rows and validity was checked at 3 or more points.")
CASES = {"quick": 4800, "thorough": 40000}
ASSUMPTIONS = ["observations are finite and of (|x| <= 1e35)"]

CORRELATION_LIKE = {"TylerCovariance"}


def spec():
    long = st.fixed_dictionaries({
        "cfg": gen.config(r=gen.R_ANY),
        "data": gen.stream(p=(1, 3), n=(120, 420), explicit=False, max_segs=5, exps=(-4, 4)),
        "chunk": st.just([]),
    })
    wide = st.fixed_dictionaries({
        "cfg": gen.config(r=gen.R_SHORT),
        "data": gen.stream(p=(8, 24), n=(2, 40), explicit=False, exps=(-2, 2)),
        "chunk": st.just([]),
    })
    hundred = st.fixed_dictionaries({
        "cfg": gen.config(r=gen.R_SHORT),
        "data": gen.stream(p=(25, 140), n=(2, 14), explicit=False, exps=(-2, 2)),
        "chunk": st.just([]),
    })
    short = st.fixed_dictionaries({
        "cfg": st.one_of(gen.config(), gen.config(), gen.config(), gen.conditional_config()),
        "data": gen.stream(p=(1, 7), n=(1, 70), exps=(-4, 4)),
        "chunk": st.lists(st.integers(1, 9), max_size=4),
    })
    # the same in extreme units
    unit = gen.tail(0, 0, (-30, -6), (6, 30), odds=10)
    return st.tuples(st.sampled_from(4 * [short, short, short, short, long, wide] + [hundred]).flatmap(lambda s: s), unit).map(
        lambda t: {**t[0], "unit": t[1]} if t[1] else t[0])


def check(spec, ctx):
    X = gen.expand(spec["data"]) * 10.0 ** spec.get("unit", 0)
    n, p = X.shape
    est = gen.make_any(spec["cfg"])
    name = gen.cfg_label(spec["cfg"])
    diff = spec["cfg"].get("kw", {}).get("diff", False)
    parts = gen.chunks(spec["chunk"] or [1], n)
    at = pick_steps(len(parts), 14)
    seen = 0
    for k, (a, b) in enumerate(parts):
        block = X[a:b]
        out = est.partial_fit(block[0] if b - a == 1 and not spec["chunk"] else block)
        require(out is est, f"{name}: partial_fit does not return the estimator")
        m = b - 1 if diff else b
        if m >= 1 and spec["cfg"]["cls"] in ("HuberCovariance", "AdaptiveEwaCovariance"):
            # squared distances from an estimate this small leave the range of double precision
            v = np.diag(est.covariance_)
            if np.any((v > 0) & (v < 1e-200)):
                ctx.label("underflow")
                break
        if k not in at or m < 1:
            continue
        D = np.diff(X[:b], axis=0) if diff else X[:b]
        if len(D) == 0:
            continue
        seen += 1
        where = f"{name} after {m} observations"
        require(est.n_samples_ == m, f"{where}: n_samples_ is {est.n_samples_}")
        require(est.n_features_in_ == p, f"{where}: n_features_in_ is {est.n_features_in_}")
        cov = arr(est.covariance_, f"{where}: covariance_", (p, p))
        loc = arr(est.location_, f"{where}: location_", (p,))
        require(np.array_equal(cov, cov.T), f"{where}: covariance_ is not exactly symmetric")
        require(np.all(np.diag(cov) >= 0), f"{where}: negative variance {np.diag(cov)}")
        # positive semi-definite up to rounding, judged on the unit-diagonal scale
        d = np.sqrt(np.diag(cov))
        big = d > 1e-150
        sub = cov[np.ix_(big, big)] / np.outer(d[big], d[big])
        s, mag = spread(D)
        noise = 1e-13 * (mag / np.maximum(d, 1e-300))[big]
        slack = 1e-7 + float(np.sum(noise[noise > 0])) if len(noise) else 1e-7
        if spec["cfg"]["cls"] == "GeodesicEwaCovariance":  # works on the whole matrix at once
            require(min_eig(cov) >= -1e-9 * np.trace(cov) - 1e-25 * float(np.max(mag)) ** 2,
                    f"{where}: not positive semi-definite")
        elif len(sub):
            lo = min_eig(sub)
            require(lo >= -slack, f"{where}: not positive semi-definite, smallest eigenvalue of the "
                                  f"unit-diagonal matrix is {lo:.3g}")
        corr = arr(est.correlation_, f"{where}: correlation_", (p, p))
        # below this, entries or their reciprocals leave the range of double precision
        tiny = bool(np.any((np.diag(cov) > 0) & (np.diag(cov) < 1e-290)))
        if tiny:
            ctx.label("underflow")
            continue
        rel = slack if spec["cfg"]["cls"] != "GeodesicEwaCovariance" else max(slack, 1e-3)
        require(np.all(np.abs(corr) <= 1 + rel), f"{where}: |correlation| > 1: {corr}")
        arr(est.precision_, f"{where}: precision_", (p, p))
        # sizes: location within the data's range, variances not above the data's spread squared
        tol = 1e-9 * (s + mag)
        require(np.all(loc >= D.min(0) - tol) and np.all(loc <= D.max(0) + tol),
                f"{where}: location_ {loc} outside the range of the data")
        if spec["cfg"]["cls"] in CORRELATION_LIKE:
            # a variable that stands still may have no shape left at all (r=1): then it is zero
            still = np.all(D[-2:] == D[-1], axis=0)
            unit = np.abs(np.diag(cov) - 1.0) <= 1e-9
            require(np.all(unit | (still & (np.diag(cov) == 0))), f"{where}: diagonal is not 1")
        elif spec["cfg"]["cls"] not in ("ConditionalCovariance", "FactorCovariance",
                                        "SchurConditionalCovariance"):
            top = np.diag(cov).max()
            lim = 1.001 * float(np.max(s) ** 2) * p + 1e-7 + 1e-12 * float(np.max(mag)) ** 2
            require(top <= lim, f"{where}: variance {top} for data with spread {np.max(s)}")
        ctx.counted(8)
    ctx.label("est:" + name, "diff" if diff else "level", *gen.stream_labels(spec["data"]))
    ctx.label("p>n" if p > n else "p<=n", "long" if n >= 200 else "short",
              "extreme-units" if "unit" in spec else "usual-units")
    ctx.hit(seen >= 3 and len(np.unique(X, axis=0)) >= 2)
