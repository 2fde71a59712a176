"""C10: exponential forgetting after a burn-in window: full, diagonal and block-diagonal."""

import numpy as np

from harness import diffrun, refspec
from harness.oracle import close, covtol, inverse_of

PROP = "C10"
RULE = ("A case feeds a stream to the exponentially weighted, diagonal or block-diagonal estimator "
        "and to an independent model (two-pass statistics of the burn-in window, then the documented "
        "recursion), comparing around the end of the window and along the stream; non-trivial when "
        "compared beyond the burn-in window.")
CASES = {"quick": 4000, "thorough": 40000}
NAMES = ["EwaCovariance", "DiagonalCovariance", "BlockCovariance"]


def spec():
    return refspec.cases(NAMES, p=(1, 8))


def check(spec, ctx):
    def more(i, est, r, D):
        if spec["cfg"]["cls"] == "BlockCovariance":
            ids, cov = r.ids, est.covariance_
            close("Block: covariance between different blocks", cov[ids[:, None] != ids[None, :]],
                  np.zeros(int(np.sum(ids[:, None] != ids[None, :]))), 0.0)
            prec = est.precision_
            for b in np.unique(ids):  # the precision inverts each block by itself
                k = np.where(ids == b)[0]
                sub = cov[np.ix_(k, k)]
                if np.linalg.cond(sub) < 1e8:
                    inverse_of(f"Block: precision_ of block {b}", prec[np.ix_(k, k)], sub, 1e-6)
            close("Block: precision between different blocks",
                  prec[ids[:, None] != ids[None, :]], 0.0 * cov[ids[:, None] != ids[None, :]], 0.0)
        elif spec["cfg"]["cls"] == "DiagonalCovariance":
            cov = est.covariance_
            close("Diagonal: off-diagonal", cov - np.diag(np.diag(cov)), 0 * cov, 0.0)

    est, r, D, n = diffrun.run(spec["cfg"], spec["data"], ctx, on_step=more)
    ctx.hit(r.n > r.nb and n > 0)
    if spec["cfg"]["cls"] == "EwaCovariance" and 0 < r.nb < r.n:
        # the same number as an explicit weighted sum over the rows
        w, nb = r.r, r.nb
        m = D[:nb].mean(axis=0)
        C = (D[:nb] - m).T @ (D[:nb] - m) / nb
        total = (1 - w) ** (r.n - nb) * C
        for t in range(nb, r.n):
            d = D[t] - m
            total = total + w * (1 - w) ** (r.n - 1 - t) * np.outer(d, d)
            m = (1 - w) * m + w * D[t]
        close("Ewa: covariance_ as an explicit weighted sum", est.covariance_, total, covtol(D, 1e-8))
        ctx.counted()
