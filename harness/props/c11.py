"""C11: shrinkage estimators: Ledoit-Wolf, oracle-approximating and fixed intensity."""

import numpy as np

from harness import diffrun, gen, refspec
from harness.oracle import close, covtol, require

PROP = "C11"
RULE = ("A case feeds a stream to one of the three shrinkage estimators and to an independent model; "
        "besides equality, the estimate must lie on the segment from the unshrunk estimate of the "
        "same stream to its target, keep the trace (identity targets) or the diagonal (constant "
        "correlation), and be the unshrunk estimate at intensity 0; non-trivial when compared beyond "
        "the burn-in window with at least 2 variables.")
CASES = {"quick": 2800, "thorough": 40000}
NAMES = ["LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance"]


def spec():
    return refspec.cases(NAMES)


def check(spec, ctx):
    cfg = spec["cfg"]
    r_ = cfg["kw"].get("r", 0.05)
    ewa = gen.make({"cls": "EwaCovariance", "kw": {"r": r_}})
    fed = [0]

    def more(i, est, r, D):
        for x in D[fed[0]:]:
            ewa.partial_fit(x)
        fed[0] = len(D)
        S, got = ewa.covariance_, est.covariance_
        p = len(S)
        tol = covtol(D, 1e-9)
        big = float(np.max(tol)) * p
        if cfg["cls"] == "ShrunkCovariance" and cfg["kw"].get("target") != "identity":
            close("Shrunk: diagonal", np.diag(got), np.diag(S), np.diag(tol))
            if cfg["kw"].get("delta", 0.1) == 1.0 and p > 2 and np.all(np.diag(S) > np.diag(tol) * 1e3):
                c = got / np.sqrt(np.outer(np.diag(S), np.diag(S)))
                off = c[~np.eye(p, dtype=bool)]
                require(np.ptp(off) <= 1e-9, f"Shrunk: full shrinkage leaves unequal correlations {off}")
        else:
            require(abs(np.trace(got) - np.trace(S)) <= big,
                    f"{cfg['cls']}: trace {np.trace(got)!r}, unshrunk {np.trace(S)!r}")
            T = np.trace(S) / p * np.eye(p)
            den = float(np.sum((T - S) ** 2))
            if den > (1e3 * big) ** 2:
                t = float(np.sum((got - S) * (T - S)) / den)
                require(-1e-6 <= t <= 1 + 1e-6, f"{cfg['cls']}: shrinkage intensity {t}")
                require(np.max(np.abs(got - (S + t * (T - S)))) <= 10 * big,
                        f"{cfg['cls']}: estimate is off the segment to the scaled identity")
                if cfg["cls"] == "ShrunkCovariance":
                    d = cfg["kw"].get("delta", 0.1)
                    require(abs(t - d) <= 1e-6, f"Shrunk: intensity {t}, asked for {d}")
                if cfg["cls"] == "OASCovariance":
                    ctx.label("rho=1" if t > 1 - 1e-9 else "rho<1")
                if cfg["cls"] == "LedoitWolfCovariance":
                    ctx.label("lw=0" if t < 1e-12 else "lw=1" if t > 1 - 1e-9 else "0<lw<1")
        ctx.counted(2)

    est, r, D, n = diffrun.run(cfg, spec["data"], ctx, on_step=more)
    ctx.hit(r.n > r.nb and n > 0 and r.p >= 2)
