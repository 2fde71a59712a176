"""C15: conditional covariance is H = D R D with one-step-ahead standardisation."""

import numpy as np
from hypothesis import strategies as st

from harness import diffrun, gen, refspec
from harness.core import Violation
from harness.oracle import close, require

PROP = "C15"
RULE = ("A case is the dynamic conditional correlation estimator next to an independent model, or a "
        "composition of a per-series volatility model (registered estimator or foreign univariate "
        "model) with a correlation estimator next to the same composition done by hand with separate "
        "one-variable estimators; compared along the stream; non-trivial with at least 2 variables "
        "and (DCC) a stretch beyond burn-in or (composition) at least 6 rows.")
CASES = {"quick": 5600, "thorough": 30000}


KINDS = gen.SMOOTH + ["ints", "alt", "sparse"]


def spec():
    dcc = refspec.cases(["DCCCovariance"], p=(1, 6))
    comp = st.fixed_dictionaries({
        "cfg": st.one_of(
            gen.conditional_config(),
            st.fixed_dictionaries({"cls": st.just("skater"), "w": st.sampled_from([0.1, 0.3, 0.5]),
                                   "corr": gen.config(r=gen.R_SHORT, diff=False)}),
            st.just({"cls": "default"})),
        "data": gen.wider(gen.stream(p=(1, 5), n=(1, 50), kinds=KINDS), kinds=KINDS),
        "chunk": st.integers(1, 9),
    })
    return st.one_of(dcc, comp)


class Dist:
    def __init__(self, mean, std):
        self.mean, self.std = mean, std


class Foreign:
    """A univariate model with the foreign calling convention; records how it is called."""

    def __init__(self, w):
        self.w, self.calls = w, []

    def __call__(self, y, state):
        if type(y) is not float:
            raise Violation(f"a foreign volatility model is given {type(y).__name__}, not a float")
        self.calls.append(y)
        if state is None:
            state = (y, 1.0, 0)
        m, v, k = state
        d = y - m
        m, v = m + self.w * d, (1 - self.w) * v + self.w * d * d
        return ([Dist(m, (v + 0.25) ** 0.5), Dist(-1e9, 1e9), Dist(1e9, 1e9)], (m, v, k + 1))


def check(spec, ctx):
    if spec["cfg"]["cls"] == "DCCCovariance":
        est, r, D, n = diffrun.run(spec["cfg"], spec["data"], ctx)
        ctx.hit(r.n > r.nb and n > 0 and r.p >= 2)
        return
    import precise

    X = gen.expand(spec["data"])
    n, p = X.shape
    cfg = spec["cfg"]
    foreign = None
    if cfg["cls"] == "skater":
        foreign = Foreign(cfg["w"])
        est = precise.ConditionalCovariance(vol=precise.from_skater(foreign),
                                            corr=gen.make(cfg["corr"]))
        corr = gen.make(cfg["corr"])
        mine = Foreign(cfg["w"])
        states, last = [None] * p, [(0.0, 1.0)] * p
    elif cfg["cls"] == "default":
        est = precise.ConditionalCovariance()
        corr = precise.EwaCovariance()
        vols = [precise.EwaCovariance() for _ in range(p)]
    else:
        vol_t, corr_t = gen.make(cfg["vol"]), gen.make(cfg["corr"])
        est = precise.ConditionalCovariance(vol=vol_t, corr=corr_t)
        corr = gen.make(cfg["corr"])
        vols = [gen.make(cfg["vol"]) for _ in range(p)]

    def forecast(j):
        if foreign is not None:
            return last[j]
        if vols[j].n_samples_ == 0:
            return 0.0, 1.0
        return float(vols[j].location_[0]), float(vols[j].covariance_[0, 0])

    for a, b in gen.chunks([spec["chunk"]], n):
        est.partial_fit(X[a:b].copy())
        for x in X[a:b]:
            f = [forecast(j) for j in range(p)]
            eps = np.array([(x[j] - f[j][0]) / np.sqrt(max(f[j][1], 1e-12)) for j in range(p)])
            corr.partial_fit(eps)
            for j in range(p):
                if foreign is not None:
                    d, states[j] = mine(float(x[j]), states[j])
                    last[j] = (d[0].mean, d[0].std ** 2)
                else:
                    vols[j].partial_fit(np.array([x[j]]))
        now = [forecast(j) for j in range(p)]
        sd = np.sqrt([max(v, 1e-12) for _, v in now])
        H = corr.correlation_ * np.outer(sd, sd)
        close(f"composition after {b} rows: covariance_", est.covariance_, H,
              1e-9 * np.outer(sd, sd))
        close(f"composition after {b} rows: location_", est.location_, [m for m, _ in now],
              1e-9 * sd + 1e-12 * np.abs([m for m, _ in now]))
        require(est.n_samples_ == b, f"composition: n_samples_ {est.n_samples_} after {b} rows")
        ctx.counted(2)
    if foreign is not None:
        require(sorted(foreign.calls) == sorted(float(v) for v in X.ravel()),
                "composition: the foreign model does not see each value of each series once")
    elif cfg["cls"] != "default":
        require(vol_t.n_samples_ == 0 and corr_t.n_samples_ == 0,
                "composition: the template estimators it was given have been fed")
    try:
        precise.ConditionalCovariance(vol=3).partial_fit(X[0])
    except TypeError:
        pass
    else:
        raise Violation("composition: a volatility model that is neither is accepted")
    ctx.label("comp:" + cfg["cls"], *gen.stream_labels(spec["data"]))
    ctx.hit(p >= 2 and n >= 6)
