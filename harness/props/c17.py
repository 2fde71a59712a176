"""C17: partial moments add up to the recency-weighted covariance; geodesic steps on the SPD cone."""

import numpy as np
from hypothesis import strategies as st

from harness import diffrun, gen, ref, refspec
from harness.oracle import require

PROP = "C17"
RULE = ("A case feeds a stream to the partial-moment or the geodesic estimator and to an independent "
        "model (plain weighted outer products; geodesic by generalised eigenvectors instead of "
        "matrix square roots); a geodesic step must also interpolate log-determinants linearly and "
        "commute with any rescaling of comparable size when the eigenvalue floor is out of play; "
        "non-trivial when compared beyond burn-in.")
CASES = {"quick": 4800, "thorough": 32000}


def spec():
    return st.one_of(
        refspec.cases(["PartialMomentsCovariance"], p=(1, 6)),
        refspec.cases(["GeodesicEwaCovariance"], p=(1, 4), kinds=gen.SMOOTH, exps=(-1, 1),
                      structure=False, offsets=False, units=False))


def check(spec, ctx):
    cfg = spec["cfg"]
    geo = cfg["cls"] == "GeodesicEwaCovariance"
    prev = {}

    def more(i, est, r, D):
        cov = np.array(est.covariance_)
        if geo and r.n > r.nb and prev.get("n") == r.n - 1:
            rate = cfg["kw"].get("r", 0.05)
            d = D[-1] - prev["loc"]
            _, a = np.linalg.slogdet(ref.floor_eigs(prev["cov"]))
            _, b = np.linalg.slogdet(ref.floor_eigs(np.outer(d, d)))
            _, got = np.linalg.slogdet(cov)
            if np.linalg.eigvalsh(prev["cov"])[0] > 1e-5:
                require(abs(got - ((1 - rate) * a + rate * b)) <= 1e-4 * (1 + abs(got)) + 4 * r.p * r.err,
                        f"Geodesic: log-determinant {got}, interpolated {(1 - rate) * a + rate * b}")
                ctx.counted()
                ctx.label("logdet-checked")
        prev.update(n=r.n, cov=cov, loc=np.array(est.location_))

    est, r, D, n = diffrun.run(cfg, spec["data"], ctx, on_step=more, steps=8 if not geo else 60,
                               rtol=1e-8 if not geo else 1e-6)
    ctx.hit(r.n > r.nb and n > 0)
