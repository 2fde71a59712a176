"""C19: memory and work per observation do not depend on how long the stream has been."""

import gc
import json
import sys
import tracemalloc

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness.oracle import require

PROP = "C19"
RULE = ("A case runs an estimator, composition or keyed adapter well past its window, then over two "
        "further stretches of equal length, and compares allocated memory, the size of the saved "
        "state and the calls made per observation; or feeds a wide observation to a diagonal, block "
        "or factor estimator and measures the peak allocation of one update; non-trivial when every "
        "stretch has at least 120 rows, or there are at least 250 variables.")
CASES = {"quick": 360, "thorough": 4000}
WIDE = ["DiagonalCovariance", "BlockCovariance", "FactorCovariance"]
LEAK = 3000  # bytes over a stretch: below two doubles in a list per row


def spec():
    long = st.fixed_dictionaries({
        "kind": st.just("long"),
        "cfg": st.one_of(gen.config(r=gen.R_SHORT), gen.config(r=gen.R_SHORT),
                         gen.conditional_config()),
        "p": st.integers(1, 5), "n": st.integers(120, 260), "seed": st.integers(0, 9999),
        "read": st.booleans(), "batch": st.sampled_from([1, 1, 7]),
    })
    keyed = st.fixed_dictionaries({
        "kind": st.just("keyed"), "cfg": gen.config(r=gen.R_SHORT, diff=False),
        "dynamic": st.booleans(), "max": st.integers(1, 4), "stale": st.integers(1, 10),
        "pool": st.sampled_from(["fresh", "rotate"]), "n": st.integers(120, 160),
        "seed": st.integers(0, 9999),
    })
    wide = st.fixed_dictionaries({
        "kind": st.just("wide"), "cfg": gen.config(names=WIDE, r=gen.R_SHORT),
        "p": st.integers(250, 420), "per": st.integers(2, 6), "seed": st.integers(0, 9999),
    })
    return st.one_of(long, long, keyed, wide)


def held():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def leaves(obj):
    if isinstance(obj, dict):
        return sum(leaves(v) for v in obj.values())
    if isinstance(obj, (list, tuple)):
        return sum(leaves(v) for v in obj)
    return 1


def calls(fn):
    count = [0]

    def hook(frame, event, arg):
        if event in ("call", "c_call"):
            count[0] += 1
    sys.setprofile(hook)
    try:
        fn()
    finally:
        sys.setprofile(None)
    return count[0]


def check(spec, ctx):
    {"long": check_long, "keyed": check_keyed, "wide": check_wide}[spec["kind"]](spec, ctx)


def check_long(spec, ctx):
    cfg, p, n = spec["cfg"], spec["p"], spec["n"]
    name = gen.cfg_label(cfg)
    g = gen.rng(51, spec["seed"])
    est = gen.make_any(cfg)
    X = g.standard_normal((40 + 2 * n, p)) @ gen.mix(spec["seed"] % 7, p).T

    def stretch(a, b):
        work = 0
        for i in range(a, b, spec["batch"]):
            rows = X[i:min(i + spec["batch"], b)]
            rows = rows[0] if len(rows) == 1 else rows
            if i >= b - 12 * spec["batch"]:
                work = max(work, calls(lambda rows=rows: est.partial_fit(rows)))
            else:
                est.partial_fit(rows)
            if spec["read"] and i % 9 == 5:
                est.covariance_, est.precision_, est.location_
        return work

    tracemalloc.start()
    try:
        w0 = stretch(0, 40)
        if cfg["cls"] != "ConditionalCovariance":
            l0 = leaves(est.get_state())
        w1 = stretch(40, 40 + n)
        m1 = held()
        w2 = stretch(40 + n, 40 + 2 * n)
        m2 = held()
        if m2 - m1 > LEAK:   # confirm over more stretches: a leak shows in every one
            marks = [m1, m2]
            for _ in range(6):
                stretch(40, 40 + n)
                marks.append(held())
            growth = [b - a for a, b in zip(marks, marks[1:])]
            require(min(growth) <= LEAK, f"{name}: holds {growth} more bytes after each further {n} "
                                         f"observations of {p} variables")
    finally:
        tracemalloc.stop()
    ctx.counted()
    if w2 > 3 * max(w0, w1) + 100:
        w3 = stretch(40, 40 + n)
        require(w3 <= 3 * max(w0, w1) + 100, f"{name}: {w0}, {w1}, {w2}, {w3} calls per update as the "
                                              "stream grows")
    require(w2 <= 2 * max(w0, 1) + 6 * w1 + 400, f"{name}: {w0}, {w1}, {w2} calls per update")
    ctx.counted()
    if cfg["cls"] != "ConditionalCovariance":
        l2 = leaves(est.get_state())
        require(l2 == l0, f"{name}: the saved state grew from {l0} to {l2} numbers")
        require(len(json.dumps(est.get_state())) < 40 * l2 + 400, f"{name}: saved state too long")
        ctx.counted()
    ctx.label("est:" + name, "long")
    ctx.hit(n >= 120)


def check_keyed(spec, ctx):
    import precise

    kw = {"max_universes": spec["max"], "max_staleness": spec["stale"]} if spec["dynamic"] else {}
    k = precise.keyed(gen.make(spec["cfg"]), dynamic=spec["dynamic"], **kw)
    g, n = gen.rng(53, spec["seed"]), spec["n"]
    serial = [0]

    def obs(i):
        if spec["pool"] == "fresh":
            names = [f"v{serial[0] + j}" for j in range(1 + i % 3)]
            serial[0] += 1 + i % 2
            if not spec["dynamic"]:
                names.append("v0")
        else:
            names = [f"n{(i // 5 + j) % 7}" for j in range(1 + i % 3)]
        return {m: float(v) for m, v in zip(names, g.standard_normal(len(names)))}

    tracemalloc.start()
    try:
        marks = []
        for s in range(4):
            for i in range(n):
                k.learn_one(obs(s * n + i))
                if spec["seed"] % 2 and i % 10 == 0:
                    k.covariance_
            marks.append(held())
    finally:
        tracemalloc.stop()
    growth = [b - a for a, b in zip(marks, marks[1:])]
    # names get longer and sets differ in size from one moment to the next: bounded, not cumulative
    require(min(growth) <= LEAK + 1500, f"keyed({'dynamic' if spec['dynamic'] else 'fixed'}): holds "
                                        f"{growth} more bytes after each further {n} observations")
    ctx.counted()
    ctx.label("keyed:" + ("dynamic" if spec["dynamic"] else "fixed"), "pool:" + spec["pool"])
    ctx.hit(n >= 120)


def check_wide(spec, ctx):
    cfg, p = spec["cfg"], spec["p"]
    kw = dict(cfg["kw"])
    name = gen.cfg_label(cfg)
    if name == "Block":
        kw["n_blocks"] = max(1, p // spec["per"])
        ids = ref.block_ids(p, kw["n_blocks"])
        units = float(np.sum(np.bincount(ids).astype(float) ** 2)) 
    elif name == "Factor":
        units = p * kw.get("k", 2)
    else:
        units = p
    est = gen.make({"cls": cfg["cls"], "kw": kw})
    X = gen.rng(57, spec["seed"]).standard_normal((9, p))
    est.partial_fit(X[:4])
    limit = 8 * (4 * units + 12 * p) + 2000 * kw.get("n_blocks", 0) + 20000
    peak = 0
    tracemalloc.start()
    try:
        for x in X[4:]:
            tracemalloc.reset_peak()
            before = tracemalloc.get_traced_memory()[0]
            est.partial_fit(x)
            peak = max(peak, tracemalloc.get_traced_memory()[1] - before)
    finally:
        tracemalloc.stop()
    require(peak <= limit, f"{name}: one update of {p} variables allocates {peak} bytes "
                           f"(limit {limit}, a full matrix is {8 * p * p})")
    size = leaves(est.get_state())
    require(size <= 4 * units + 8 * p + 12 * kw.get("n_blocks", 0) + 60, f"{name}: {size} numbers kept for {p} variables")
    ctx.counted(2)
    ctx.label("wide:" + name)
    ctx.hit(p >= 250)
