"""C04: copies, pickles, clones and parameters reproduce the estimator."""

import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import require
from harness.same import feed, same, scale, snap

PROP = "C04"
RULE = ("A case is an estimator (registered, composed, or composed with a foreign univariate model) "
        "fed part of a stream, copied by pickle (any protocol) or deepcopy, possibly repeatedly, "
        "after which original and copy are fed different data; plus a clone from get_params, "
        "set_params on a blank instance, and evaluation of repr; non-trivial when the copied "
        "estimator had seen at least 2 rows and was fed at least 2 more.")
CASES = {"quick": 3200, "thorough": 30000}


class Dist:
    def __init__(self, mean, std):
        self.mean, self.std = mean, std


def skater(y, state):
    """A toy univariate model: exponentially weighted mean and spread; state is a plain dict."""
    if state is None:
        state = {"m": y, "v": 1.0}
    d = y - state["m"]
    state = {"m": state["m"] + 0.2 * d, "v": 0.9 * state["v"] + 0.1 * d * d}
    return [Dist(state["m"], (state["v"] + 0.01) ** 0.5), Dist(state["m"], 99.0)], state


def make(cfg):
    if cfg["cls"] == "skater":
        import precise

        return precise.ConditionalCovariance(vol=precise.from_skater(skater),
                                             corr=gen.make(cfg["corr"]))
    return gen.make_any(cfg)


def spec():
    return st.fixed_dictionaries({
        "cfg": st.one_of(
            gen.config(r=gen.R_SHORT), gen.config(r=gen.R_SHORT), gen.config(),
            gen.conditional_config(),
            st.fixed_dictionaries({"cls": st.just("skater"),
                                   "corr": gen.config(r=gen.R_SHORT, diff=False)})),
        "data": gen.wider(gen.stream(p=(1, 5), n=(4, 60))),
        "at": st.lists(st.one_of(st.integers(0, 60), st.integers(0, 320)), min_size=1, max_size=3),
        "how": st.lists(st.sampled_from(["pickle0", "pickle2", "pickle5", "deepcopy"]), min_size=3,
                        max_size=3),
        "alt": st.integers(0, 999),
        "was": st.fixed_dictionaries({
            "r": gen.R_ANY, "diff": st.booleans(), "n_blocks": st.integers(1, 5),
            "gamma": st.sampled_from([0.1, 0.9]), "delta": st.sampled_from([0.2, 0.7]),
            "interpolation": st.sampled_from(["linear", "geodesic"]), "k": st.integers(1, 4),
            "target": st.sampled_from(["constant_correlation", "identity"]),
            "c": st.sampled_from([0.7, 3.0]), "max_r": st.sampled_from([0.6, 1.0]),
            "vol_r": st.sampled_from([0.05, 0.4])}),
    })


def dup(est, how):
    if how == "deepcopy":
        return copy.deepcopy(est)
    return pickle.loads(pickle.dumps(est, protocol=int(how[-1])))


def check(spec, ctx):
    X = gen.expand(spec["data"])
    n, p = X.shape
    cfg = spec["cfg"]
    name = cfg["cls"].replace("Covariance", "")
    mag = scale(X)
    other = X + np.random.default_rng([11, spec["alt"]]).standard_normal(X.shape)
    plain, est = make(cfg), make(cfg)
    cuts = sorted({min(a, n) for a in spec["at"]})
    i = 0
    for k, c in enumerate(cuts + [n]):
        feed(plain, X[i:c])
        feed(est, X[i:c])
        same(f"{name} after {c} rows and {k} copies", snap(est), snap(plain), mag=mag)
        ctx.counted()
        if c < n or k == 0:
            how = spec["how"][k % 3]
            twin = dup(est, how)
            require(type(twin) is type(est), f"{name}: {how} changes the class")
            require(repr(twin) == repr(est) or cfg["cls"] == "skater",
                    f"{name}: {how} gives {twin!r} for {est!r}")
            same(f"{name}: {how} after {c} rows", snap(twin), snap(est), mag=mag)
            before = snap(twin)
            feed(est, other[c:])          # the original goes elsewhere; the copy must not move
            same(f"{name}: {how} copy while the original is fed", snap(twin), before, mag=mag)
            fed = snap(est)
            est, old = twin, est
            feed(est, X[c:c + 1])
            same(f"{name}: original while its {how} copy is fed", snap(old), fed, mag=mag)
            feed(plain, X[c:c + 1])
            ctx.label("copy:" + how, "copied-unfitted" if before is None else "copied-fitted")
            ctx.hit(c >= 2 and n - c >= 2)
            c = min(n, c + 1)
        i = c
    same(f"{name} at the end of the stream, through copies", snap(est), snap(plain), mag=mag)

    # a clone has the parameters and none of the data
    params = est.get_params()
    clone = type(est)(**params)
    require(clone.n_samples_ == 0, f"{name}: a clone from get_params is already fitted")
    want = snap(feed(make(cfg), X))
    same(f"{name}: clone from get_params", snap(feed(clone, X)), want, mag=mag)
    blank = type(est)()
    require(blank.set_params(**params) is blank, f"{name}: set_params does not return the estimator")
    got = blank.get_params()
    require(set(got) == set(params), f"{name}: set_params changes the set of parameters")
    require(all(got[k] is params[k] or got[k] == params[k] for k in params),
            f"{name}: get_params {got} after set_params {params}")
    same(f"{name}: set_params on a blank instance", snap(feed(blank, X)), want, mag=mag)
    if cfg["cls"] not in ("skater", "ConditionalCovariance"):
        # an instance configured otherwise takes the parameters on
        was = type(est)(**{k: v for k, v in spec["was"].items() if k in params})
        require(was.set_params(**params) is was and was.get_params() == params,
                f"{name}: configured {spec['was']}, then set_params({params}) gives "
                f"{was.get_params()}")
        same(f"{name}: set_params on an instance configured {spec['was']}", snap(feed(was, X)), want,
             mag=mag)
        for k, v in cfg["kw"].items():
            require(params.get(k) == v, f"{name}: get_params gives {k}={params.get(k)!r}, not {v!r}")
    if cfg["cls"] != "skater":
        import precise

        try:
            back = eval(repr(est), {c: getattr(precise, c) for c in precise.__all__})
        except Exception as exc:
            raise Violation(f"{name}: repr {est!r} cannot be evaluated: {exc}") from exc
        same(f"{name}: estimator from repr {est!r}", snap(feed(back, X)), want, mag=mag)
    ctx.counted(4)
    ctx.label("est:" + name)
