"""C14: the adaptive estimator speeds up with surprise, within its limits."""


from harness import diffrun, refspec
from harness import gen
from harness.oracle import close, covtol
from harness.same import feed

PROP = "C14"
RULE = ("A case feeds a stream with regime changes (segments of different scale, level and shape) to "
        "the adaptive estimator and to an independent model; with max rate equal to the base rate it "
        "must be the plain exponentially weighted estimator; non-trivial when compared beyond the "
        "burn-in window and the model's rate left the base rate at least once.")
CASES = {"quick": 3200, "thorough": 32000}
KINDS = ["gauss", "iid", "factor", "heavy", "outlier", "walk", "ramp", "gauss", "iid"]


def spec():
    return refspec.cases(["AdaptiveEwaCovariance"], kinds=KINDS, p=(1, 4))


def check(spec, ctx):
    moved = [False]
    capped = [False]

    def more(i, est, r, D):
        if r.rate is not None:
            moved[0] |= r.rate > r.r
            capped[0] |= r.rate == r.max_r

    cfg = spec["cfg"]
    est, r, D, n = diffrun.run(cfg, spec["data"], ctx, on_step=more)
    ctx.label("rate:moved" if moved[0] else "rate:base", "rate:capped" if capped[0] else "rate:free")
    if r.ok and r.rate is not None:
        kw = {k: v for k, v in cfg["kw"].items() if k != "max_r"}
        flat = {"cls": "AdaptiveEwaCovariance", "kw": {**kw, "max_r": cfg["kw"].get("r", 0.05)}}
        import precise

        X = gen.expand(spec["data"])
        a = feed(gen.make(flat), X)
        b = feed(precise.EwaCovariance(**kw), X)
        close("Adaptive with max_r = r, against the plain estimator", a.covariance_, b.covariance_,
              covtol(D, 1e-8))
        ctx.counted()
    ctx.hit(r.n > r.nb and n > 0 and moved[0])
