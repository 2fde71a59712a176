"""C16: the factor estimator is low-rank plus diagonal and keeps the tracked variances."""

import numpy as np

from harness import diffrun, refspec
from harness.oracle import covtol, require

PROP = "C16"
RULE = ("A case feeds a stream to the factor estimator and to an independent model of it (component "
        "directions and strengths kept apart); the estimate must also be a diagonal plus a matrix "
        "of rank at most k, with the diagonal variances never below the tracked ones; non-trivial "
        "when compared on at least 5 rows with fewer factors than variables.")
CASES = {"quick": 6000, "thorough": 32000}


def spec():
    return refspec.cases(["FactorCovariance"], p=(1, 8), long_p=(2, 4))


def check(spec, ctx):
    cfg = spec["cfg"]
    k = cfg["kw"].get("k", 2)

    def more(i, est, r, D):
        cov = est.covariance_
        p = len(cov)
        tol = np.diag(covtol(D, 1e-8))
        require(np.all(np.diag(cov) >= r.v - tol),
                f"Factor: variances {np.diag(cov)} below the tracked {r.v}")
        ctx.counted()
        if p > 2 * k + 1:
            # off-diagonal blocks of a rank-k-plus-diagonal matrix have rank at most k
            B = cov[: p // 2, p // 2:]
            if min(B.shape) > k:
                s = np.linalg.svd(B, compute_uv=False)
                require(s[k] <= 1e-9 * np.trace(cov) + np.max(tol) * p,
                        f"Factor: off-diagonal rank above k={k}: {s}")
                ctx.counted()
                ctx.label("rank-checked")

    est, r, D, n = diffrun.run(cfg, spec["data"], ctx, on_step=more)
    ctx.label(f"k:{min(k, r.p)}")
    ctx.hit(n >= 2 and len(D) >= 5 and r.p > min(k, r.p))
