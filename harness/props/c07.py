"""C07: estimating on first differences is estimating on the differenced stream."""

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import require
from harness.same import feed, same, scale, snap

PROP = "C07"
RULE = ("A case is an estimator with diff=True fed a stream in random batches (or through fit), next "
        "to the same estimator without diff fed the first differences; compared after every batch; "
        "also under a constant shift of the stream; non-trivial when there are at least 4 rows, "
        "split over more than one call.")
CASES = {"quick": 4000, "thorough": 40000}


def spec():
    return st.fixed_dictionaries({
        "cfg": st.one_of(gen.config(r=gen.R_SHORT, diff=False), gen.config(diff=False)),
        "data": gen.wider(gen.stream(p=(1, 5), n=(1, 70))),
        "cuts": st.lists(st.one_of(st.integers(1, 11), st.sampled_from([1, 20, 50, 100, 300])), min_size=1, max_size=4),
        "shift": st.sampled_from([0.0, 0.0, 16.0, -4096.0, 2.0**38]),
        "before": st.booleans(),
        "toggle": st.booleans(),
    })


def check(spec, ctx):
    X = gen.expand(spec["data"])
    n, p = X.shape
    D = np.diff(X, axis=0)
    cfg = spec["cfg"]
    name, mag = gen.cfg_label(cfg), scale(X)
    plain = gen.make(cfg)
    dcfg = {"cls": cfg["cls"], "kw": {**cfg["kw"], "diff": True}}
    if spec["toggle"]:
        est = gen.make(cfg).set_params(diff=True)
    else:
        est = gen.make(dcfg)
    require(est.get_params()["diff"] is True, f"{name}: diff parameter not reported")
    if spec["before"]:  # fit on something else first: the last row of it must not be differenced
        est.fit(np.arange(1.0, 1 + 4 * p).reshape(4, p) ** 2)
        first = True
    else:
        first = False
    parts = gen.chunks(spec["cuts"], n)
    for k, (a, b) in enumerate(parts):
        if k == 0 and first:
            est.fit(X[a:b].copy())
        else:
            est.partial_fit(X[a:b].copy())
        feed(plain, D[max(a - 1, 0):b - 1])
        if n <= 80 or k % 6 == 0 or b == n:
            same(f"{name}(diff=True) after {b} rows, against the differenced stream", snap(est),
                 snap(plain), mag=mag)
        require(est.n_samples_ == b - 1, f"{name}(diff=True): {est.n_samples_} samples from {b} rows")
        ctx.counted(2)
    if spec["shift"]:
        # adding a constant to every row changes no difference; a coarse grid keeps that exact
        Z = np.round(np.clip(X, -1e3, 1e3) * 16) / 16 + 0.0   # no negative zeros
        E = np.diff(Z, axis=0)
        c = spec["shift"] * np.arange(1, p + 1)
        a = feed(gen.make(dcfg), Z + c)
        b = feed(gen.make(cfg), E)
        same(f"{name}(diff=True) of a shifted stream", snap(a), snap(b), mag=scale(E))
        ctx.counted()
    ctx.label("est:" + name, "fit" if first else "stream", *gen.stream_labels(spec["data"]))
    ctx.hit(n >= 4 and len(parts) > 1)
