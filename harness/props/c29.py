"""C29: the rolling out-of-sample comparison trades only on the past and reports what it measured."""

import re

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import require

PROP = "C29"
RULE = ("A case is a panel of returns (2 to 6 series, several correlation structures, fat tails, "
        "regime changes) with generated window, holding and step lengths, overlapping and not; the "
        "whole table is recomputed window by window; then rows the comparison must not look at are "
        "changed. Or a generated table of volatilities, ties included, and its printed report. "
        "Non-trivial with at least 2 windows.")
CASES = {"quick": 960, "thorough": 7000}


def spec():
    vol = st.one_of(st.sampled_from([0.1, 0.2, 0.25, 0.1]),
                    st.floats(0.01, 2.0).map(lambda v: float(np.round(v, 4))))
    roll = st.fixed_dictionaries({
        "kind": st.just("roll"), "p": gen.tail(2, 6, (7, 14)),
        "train": st.one_of(st.integers(14, 40), st.integers(14, 40), st.integers(14, 40),
                           st.integers(41, 160)),
        "test": st.integers(1, 15), "step": st.integers(1, 30), "windows": gen.tail(1, 5, (6, 20)),
        "extra": st.integers(0, 40), "s": st.integers(0, 99999),
        "shape": st.sampled_from(["iid", "factor", "heavy", "regime", "hetero"]),
        "unit": st.sampled_from([0.01, 1.0, 0.3]), "list": st.booleans(),
        "mean": st.sampled_from([0.0, 0.0, 0.5])})
    table = st.fixed_dictionaries({
        "kind": st.just("table"), "vols": st.lists(vol, min_size=1, max_size=17), "rec": vol,
        "oracle": vol, "ew": vol, "pick": st.integers(0, 16), "same": st.booleans()})
    return st.one_of(roll, roll, table)


def panel(spec):
    g = gen.rng(131, spec["s"])
    p = spec["p"]
    n = spec["train"] + spec["test"] + (spec["windows"] - 1) * spec["step"] \
        + spec["extra"] % spec["step"]
    z = g.standard_normal((n, p))
    kind = spec["shape"]
    if kind in ("factor", "regime"):
        z = 0.7 * z + np.outer(g.standard_normal(n), g.uniform(0.3, 1.2, p))
    if kind == "regime":
        z[n // 2:] *= g.uniform(0.5, 3.0, p)
    if kind == "heavy":
        z /= np.sqrt(g.chisquare(4, (n, 1)) / 4)
    if kind == "hetero":
        z *= 10.0 ** g.uniform(-0.5, 0.5, p)
    return (z + spec["mean"]) * spec["unit"]


def expected(R, train, test, step):
    import precise

    T, p = R.shape
    per = {c.__name__: [] for c in precise.all_estimators()}
    rec, best, equal, counts = [], [], [], {}
    worst = 0.0
    t = 0
    while t + train + test <= T:
        past, future = R[t:t + train].copy(), R[t + train:t + train + test]
        now = {}
        for cls in precise.all_estimators():
            S = cls().fit(past).covariance_
            worst = max(worst, np.linalg.cond(S))
            if worst > 1e7:
                return None, worst
            x = np.linalg.solve(S, np.ones(p))
            x = x / np.sum(x)
            now[cls.__name__] = sum(float(np.dot(row, x)) ** 2 for row in future) / test
            per[cls.__name__].append(now[cls.__name__])
            worst = max(worst, np.abs(x).max() ** 2)
        pick = precise.suggest(past, top=1)[0].__name__
        counts[pick] = counts.get(pick, 0) + 1
        rec.append(now[pick])
        best.append(min(now.values()))
        equal.append(sum(float(np.mean(row)) ** 2 for row in future) / test)
        t += step

    def vol(v):
        return (252.0 * sum(v) / len(v)) ** 0.5

    return {k: vol(v) for k, v in per.items()}, vol(rec), vol(best), vol(equal), counts, worst


def agree(what, got, want, rtol):
    require(isinstance(got, tuple) and len(got) == 5, f"{what}: result is {type(got)}")
    fixed, rec, oracle, ew, counts = got
    require(list(fixed) == list(want[0]), f"{what}: estimators {list(fixed)}")
    for k, v in want[0].items():
        require(type(fixed[k]) is float and abs(fixed[k] - v) <= rtol * v + 1e-300,
                f"{what}: {k} has {fixed[k]!r}, expected {v!r}")
    for name, g, w in (("recommender", rec, want[1]), ("oracle", oracle, want[2]),
                       ("equal weight", ew, want[3])):
        require(type(g) is float and abs(g - w) <= rtol * w + 1e-300,
                f"{what}: {name} has {g!r}, expected {w!r}")
    require(counts == want[4], f"{what}: picks {counts}, expected {want[4]}")
    require(oracle <= rec * (1 + 1e-12) and all(oracle <= v * (1 + 1e-12) for v in fixed.values()),
            f"{what}: the oracle {oracle} is beaten")


def check(spec, ctx):
    from research import oos_equity

    if spec["kind"] == "table":
        return report(spec, ctx, oos_equity)
    R = panel(spec)
    kw = {"train_len": spec["train"], "test_len": spec["test"], "step": spec["step"]}
    *want, worst = expected(R, *kw.values())
    if worst > 1e7:
        ctx.label("ill-conditioned")
        return None
    tol = 1e-9 + 1e-14 * worst
    data = R.tolist() if spec["list"] else R.copy()
    got = oos_equity.rolling_oos(data, **kw)
    agree("rolling comparison", got, want, tol)
    require(np.array_equal(np.asarray(data), R), "the returns were modified")
    windows = sum(want[4].values())
    require(windows == spec["windows"], f"{windows} windows, expected {spec['windows']}")

    # rows after the last window, and rows between windows, do not matter
    used = np.zeros(len(R), dtype=bool)
    for k in range(windows):
        used[k * spec["step"]: k * spec["step"] + spec["train"] + spec["test"]] = True
    if not used.all():
        other = R.copy()
        other[~used] = 77.0
        require(oos_equity.rolling_oos(other, **kw) == got, "rows outside every window matter")
        ctx.label("unused-rows")
    # the picks cannot depend on what comes after the last training window
    last = (windows - 1) * spec["step"] + spec["train"]
    other = R.copy()
    other[last:] *= -3.0
    again = oos_equity.rolling_oos(other, **kw)
    require(again[4] == got[4], f"the future changes the picks: {got[4]} to {again[4]}")
    if windows == 1:  # a single holding period: everything in it scales
        for k, v in got[0].items():
            require(abs(again[0][k] - 3 * v) <= 1e-9 * v, f"{k}: {v} becomes {again[0][k]}")
    ctx.counted(6)
    ctx.label("shape:" + spec["shape"], "overlap" if spec["step"] < spec["train"] + spec["test"]
              else "disjoint", f"windows:{windows}")
    ctx.hit(windows >= 2)
    return None


def report(spec, ctx, oos_equity):
    import precise

    names = precise.estimator_names()[: len(spec["vols"])]
    fixed = dict(zip(names, spec["vols"]))
    rec = fixed[names[spec["pick"] % len(names)]] if spec["same"] else spec["rec"]
    counts = {names[0]: 3}
    text = oos_equity.report(dict(fixed), rec, spec["oracle"], spec["ew"], counts)
    rows = [(m.group(1), float(m.group(2))) for m in
            re.finditer(r"^(\w+Covariance)\s+([\d.]+)\s*$", text, re.MULTILINE)]
    require(sorted(n for n, _ in rows) == sorted(names), f"the report lists {rows}")
    require([v for _, v in rows] == sorted(v for _, v in rows), f"the report is not sorted: {rows}")
    for n, v in rows:
        require(abs(v - fixed[n]) <= 5.1e-5, f"{n} reported at {v}, measured {fixed[n]}")
    m = re.search(r"^RECOMMENDER.*?\s([\d.]+)\s+rank (\d+)/(\d+)\s*$", text, re.MULTILINE)
    if not m:
        raise Violation(f"no recommender line in the report:\n{text}")
    rank = 1 + sum(v < rec for v in fixed.values())
    require((int(m.group(2)), int(m.group(3))) == (rank, len(fixed))
            and abs(float(m.group(1)) - rec) <= 5.1e-5,
            f"recommender line {m.group(0)!r}, expected rank {rank} at {rec}")
    for label, value in (("equal_weight", spec["ew"]), ("ORACLE", spec["oracle"])):
        m = re.search(rf"^{label}.*?\s([\d.]+)\s*$", text, re.MULTILINE)
        require(m is not None and abs(float(m.group(1)) - value) <= 5.1e-5, f"{label} line: {m}")
    m = re.search(r"^best single fixed\s+([\d.]+)\s+\((\w+)\)", text, re.MULTILINE)
    require(m is not None and fixed[m.group(2)] == min(fixed.values())
            and abs(float(m.group(1)) - min(fixed.values())) <= 5.1e-5, f"best fixed line: {m}")
    ctx.counted(6)
    ctx.label("report")
    ctx.hit(len(names) >= 2)
