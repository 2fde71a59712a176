"""C12: the block (Schur) estimators damp cross-block coupling, by a fixed or an estimated amount."""

import numpy as np
from hypothesis import strategies as st

from harness import diffrun, gen, refspec
from harness.oracle import close, covtol, require

PROP = "C12"
RULE = ("A case feeds a stream to one of the three block-damping estimators and to an independent "
        "model, comparing covariance, location and the reported damping; at damping 0 / 1 and with "
        "one block it is also compared with the block-diagonal / unrestricted exponentially weighted "
        "estimator of the same stream; non-trivial when compared beyond the burn-in window with at "
        "least two blocks.")
CASES = {"quick": 3200, "thorough": 32000}
NAMES = ["SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance"]


def spec():
    # and the same stream in other units: the damping is a pure number
    return st.tuples(refspec.cases(NAMES, p=(1, 7)), st.integers(-30, 30)).map(
        lambda t: {**t[0], "unit": t[1]})


def check(spec, ctx):
    cfg = spec["cfg"]
    name, kw = gen.cfg_label(cfg), cfg["kw"]
    r_, nb = kw.get("r", 0.05), kw.get("n_blocks", 4)
    ewa = gen.make({"cls": "EwaCovariance", "kw": {"r": r_}})
    blk = gen.make({"cls": "BlockCovariance", "kw": {"r": r_, "n_blocks": nb}})
    fed = [0]
    vary = [False]

    def more(i, est, r, D):
        for x in D[fed[0]:]:
            ewa.partial_fit(x)
            blk.partial_fit(x)
        fed[0] = len(D)
        got, full = est.covariance_, ewa.covariance_
        p = len(full)
        # 1e-8: the eigenvalue floor of these estimators, which re-compose the matrix from its eigenvectors
        tol = covtol(D, 1e-8) + r.extra + 1e-7 * p + 1e-14 * p * np.abs(full).max()
        if cfg["cls"] == "SchurCovariance":
            g = kw.get("gamma", 0.5)
        else:
            g = est.gamma_
            require(isinstance(g, float) and 0.0 <= g <= 1.0, f"{name}: gamma_ is {g!r}")
            # where the coupling is itself at rounding level its reliability is not determined
            if np.any(np.abs(full) > 1e4 * covtol(D, 1e-10)) and r.ok:
                R = full / np.sqrt(np.outer(np.diag(full), np.diag(full)) + 1e-300)
                ids = np.array([k for k, n in enumerate(np.array_split(np.arange(p), min(nb, p)))
                                for _ in n])
                cross = ids[:, None] != ids[None, :]
                if not cross.any():
                    require(g == 1.0, f"{name}: gamma_ is {g} with a single block")
                elif np.max(np.abs(R[cross])) > 1e-3 and np.all(np.diag(full) > 1e-9 * np.diag(full).max()):
                    close(f"{name}: gamma_ after {i + 1} rows", g, r.gamma, 1e-6,
                          lambda: diffrun.ref_sensitivity(cfg, D, gamma_of))
            vary[0] |= 0.0 < g < 1.0
        if cfg["cls"] == "SchurConditionalCovariance":
            close(f"{name}: variances of the first block", np.diag(got)[: -(-p // min(nb, p))],
                  np.diag(full)[: -(-p // min(nb, p))], 1e-6 * np.diag(full).max() + np.diag(tol).max())
        elif g == 1.0 or min(nb, p) == 1:
            close(f"{name}: undamped, against the full estimate", got, full, tol)
        elif g == 0.0:
            close(f"{name}: fully damped, against the block-diagonal estimate", got, blk.covariance_,
                  tol)
        ctx.counted(2)

    est, r, D, n = diffrun.run(cfg, spec["data"], ctx, on_step=more)
    if cfg["cls"] != "SchurCovariance" and spec["unit"] and len(D):
        X = gen.expand(spec["data"])
        mine, other = gen.make(cfg).fit(X), gen.make(cfg).fit(X * 2.0 ** spec["unit"])
        mine.covariance_, other.covariance_
        close(f"{name}: gamma_ in units of 2**{-spec['unit']}", other.gamma_, mine.gamma_, 1e-6)
        ctx.counted()
    ctx.label("interior-damping" if vary[0] else "no-interior-damping", f"blocks:{min(nb, r.p)}")
    ctx.hit(r.n > r.nb and n > 0 and min(nb, r.p) >= 2)


def gamma_of(r):
    r.cov()
    return np.array(r.gamma)
