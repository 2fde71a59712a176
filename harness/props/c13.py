"""C13: robust estimators: bounded influence (Huber) and direction-only shape (Tyler)."""

import numpy as np
from hypothesis import strategies as st

from harness import diffrun, gen, ref, refspec
from harness.oracle import close, covtol, require
from harness.same import feed

PROP = "C13"
RULE = ("A case feeds a stream to the Huber or Tyler estimator and to an independent model; then "
        "appends one arbitrarily large observation (1e2 to 1e9 standard deviations, any direction): "
        "the Huber update must equal the clipped one whatever the size, and the Tyler shape must not "
        "depend on the lengths of the deviations; non-trivial when compared beyond burn-in and the "
        "outlier was clipped (Huber) or had a direction (Tyler).")
CASES = {"quick": 3200, "thorough": 32000}
KINDS = ["gauss", "iid", "factor", "heavy", "outlier", "walk"]


def spec():
    huber = refspec.cases(["HuberCovariance"], kinds=KINDS, p=(1, 4))
    tyler = refspec.cases(["TylerCovariance"], p=(1, 5))
    # deviations tiny beside the level: down to the last few digits
    tyler = st.tuples(tyler, st.sampled_from([None] * 6 + [1e6, 1e9, -3e10])).map(
        lambda t: t[0] if t[1] is None or "rows" in t[0]["data"] else
        {**t[0], "data": {**t[0]["data"], "off": [t[1]] * t[0]["data"]["p"]}})
    return st.fixed_dictionaries({
        "case": st.one_of(huber, tyler),
        "dir": st.integers(0, 999),
        "size": st.sampled_from([1e2, 1e3, 1e4, 1e6, 1e9]),
    })


def check(spec, ctx):
    cfg, data = spec["case"]["cfg"], spec["case"]["data"]
    huber = cfg["cls"] == "HuberCovariance"
    clipped = [False]

    def more(i, est, r, D):
        if huber and r.w is not None:
            clipped[0] |= r.w < 1.0

    est, r, D, n = diffrun.run(cfg, data, ctx, unit=not huber, on_step=more)
    ctx.label("clipped" if clipped[0] else "not-clipped")
    if not r.ok or len(D) < 2:
        return
    p = r.p
    g = np.random.default_rng([37, spec["dir"]])
    z = g.standard_normal(p)
    z /= np.linalg.norm(z)
    loc, cov = np.array(est.location_), np.array(est.covariance_)
    if huber:
        if r.n < r.nb or ref.scaled_cond(cov) > 1e6:
            return
        sd = np.sqrt(np.diag(cov))
        x = loc + spec["size"] * z * sd
        d = x - loc
        rate, c = cfg["kw"].get("r", 0.05), cfg["kw"].get("c", 2.5)
        dist = np.sqrt(d @ np.linalg.solve(cov, d))
        w = min(1.0, c * np.sqrt(p) / dist)
        before = est.n_samples_
        push(est, cfg, data, x)
        require(est.n_samples_ == before + 1, "Huber: an outlier is not counted")
        u = w * d
        want = (1 - rate) * cov + rate * np.outer(u, u)
        size = np.abs(u) + sd
        close("Huber: covariance_ after an outlier", est.covariance_, want,
              1e-6 * np.outer(size, size) + covtol(D, 1e-9))
        close("Huber: location_ after an outlier", est.location_, loc + rate * u,
              1e-6 * size + 1e-12 * np.abs(loc))
        # bounded influence, stated without the formula
        m = np.linalg.solve(cov, est.covariance_ - (1 - rate) * cov)
        require(np.trace(m) <= rate * c * c * p * (1 + 1e-5) + 1e-5,
                f"Huber: one observation adds {np.trace(m)} to the normalised covariance, more than "
                f"its bound {rate * c * c * p}")
        ctx.counted(3)
        ctx.hit(w < 1.0 and r.n > r.nb)
    else:
        # only the direction of the last deviation matters, not its length
        mag = float(np.abs(D).max()) + 1.0
        a, b = est, feed(gen.make(cfg), gen.expand(data))
        push(a, cfg, data, loc + mag * 4.0 * z)
        push(b, cfg, data, loc + mag * spec["size"] * 4.0 * z)
        close("Tyler: covariance_ after the same direction at another length", b.covariance_,
              a.covariance_, 1e-5,
              lambda: diffrun.ref_sensitivity(cfg, D, lambda q: q.cov()))
        dg = np.diag(b.covariance_)
        still = np.all(D[-2:] == D[-1], axis=0)
        require(np.all((np.abs(dg - 1) < 1e-9) | (still & (dg == 0))), f"Tyler: diagonal {dg}")
        ctx.counted(2)
        ctx.hit(n >= 1)


def push(est, cfg, data, x):
    """Feed x as an observation (as the next difference when diff=True)."""
    if cfg["kw"].get("diff"):
        x = gen.expand(data)[-1] + x
    est.partial_fit(x)
