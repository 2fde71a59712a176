"""C32: the power experiments compare judges fairly and the judges compute what they are called."""

import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import require

PROP = "C32"
RULE = ("A case is a covariance, a sample and directions on which every judge of the power "
        "experiments is recomputed from its definition, or an experiment of generated size and "
        "seed run with recording judges added (which pairs, which samples, how ties count), with "
        "judges that must agree by construction, and with so much data that the better estimate "
        "must be recognised; or a generated table and its report. Non-trivial except for "
        "single-variable and single-row inputs.")
CASES = {"quick": 1440, "thorough": 14000}


def spec():
    s = st.integers(0, 99999)
    judges = st.fixed_dictionaries({
        "kind": st.just("judges"), "cov": gen.spd(p=(2, 8), exps=(-2, 2), cond=(0, 2)),
        "n": gen.tail(2, 60, (61, 600)), "dirs": st.integers(1, 8), "block": st.integers(1, 10),
        "s": s, "off": st.sampled_from([0.0, 0.0, 1.0])})
    power = st.fixed_dictionaries({
        "kind": st.just("power"), "p": st.integers(2, 6),
        "grid": st.lists(gen.tail(2, 40, (41, 300)), min_size=1, max_size=4, unique=True),
        "trials": st.integers(1, 12), "dirs": st.integers(1, 10), "seed": s,
        "eps": st.sampled_from([(0.05, 0.3), (0.1, 0.2), (0.3, 0.05), (0.2, 0.2)])})
    easy = st.fixed_dictionaries({
        "kind": st.just("easy"), "p": st.integers(2, 5), "seed": s, "trials": st.integers(3, 8)})
    same = st.fixed_dictionaries({
        "kind": st.just("same"), "p": st.integers(3, 8), "seed": s, "trials": st.integers(1, 10),
        "n": st.integers(2, 40), "k": st.integers(2, 8), "budget": st.integers(1, 40)})
    table = st.fixed_dictionaries({
        "kind": st.just("table"), "grid": st.lists(st.integers(1, 999), min_size=1, max_size=4,
                                                   unique=True),
        "power": st.lists(st.lists(st.integers(0, 20), min_size=4, max_size=4), min_size=1,
                          max_size=6), "gap": st.integers(0, 900)})
    return st.one_of(judges, judges, power, easy, same, table)


def check(spec, ctx):
    from research import metric_power as mp

    ctx.label("kind:" + spec["kind"])
    globals()[spec["kind"]](spec, ctx, mp)


def close(what, got, want, tol):
    require(isinstance(got, float) and abs(got - want) <= tol, f"{what}: {got!r}, expected {want!r}")


def gauss(S, X):
    """Mean Gaussian log-density without the constant, by whitening."""
    L = np.linalg.cholesky(S)
    Z = np.linalg.solve(L, X.T)
    return float(-np.sum(np.log(np.diag(L))) - 0.5 * np.mean(np.sum(Z * Z, axis=0)))


def judges(spec, ctx, mp):
    C = gen.expand_spd(spec["cov"])
    p, n = len(C), spec["n"]
    g = gen.rng(149, spec["s"])
    L = np.linalg.cholesky(C)
    X = (g.standard_normal((n, p)) + spec["off"]) @ L.T * g.uniform(0.5, 2.0)
    D = g.standard_normal((spec["dirs"], p))
    D /= np.linalg.norm(D, axis=1, keepdims=True)
    c0, x0 = C.copy(), X.copy()
    got = {k: f(C, X, D) for k, f in mp.METRICS.items()}
    require(set(got) >= {"loglik", "frobenius", "stein", "random_proj", "min_variance",
                         "maha_calib"}, f"judges {list(got)}")
    mean = sum(X) / n
    S = sum(np.outer(x - mean, x - mean) for x in X) / n
    size = float(np.abs(C).max())
    e = 1e-8 * (1 + p) * np.linalg.cond(C)
    Z = np.linalg.solve(L, X.T)
    q = np.sum(Z * Z, axis=0)
    close("loglik", got["loglik"], gauss(C, X), e * (1 + np.mean(q)))
    close("frobenius", got["frobenius"], -float(np.sqrt(np.sum((C - S) ** 2))),
          1e-9 * (size * p + float(np.abs(S).max())))
    if n > p + 1:
        K = np.linalg.solve(L, np.linalg.solve(L, S).T)
        close("stein", got["stein"], -(float(np.trace(K)) - float(np.linalg.slogdet(K)[1]) - p),
              e * (1 + np.trace(K)))
    rp = 0.0
    for d in D:
        v = float(d @ C @ d)
        for x in X:
            rp += -0.5 * np.log(v) - 0.5 * float(x @ d) ** 2 / v
    close("random_proj", got["random_proj"], rp / (len(D) * n), e * (1 + np.mean(q)))
    w = np.linalg.solve(L.T, np.linalg.solve(L, np.ones(p)))
    w = w / w.sum()
    close("min_variance", got["min_variance"], -float(np.mean([float(x @ w) ** 2 for x in X])),
          e * float(np.mean((np.abs(X) @ np.abs(w)) ** 2)))
    close("maha_calib", got["maha_calib"], -abs(float(np.mean(q)) - p), e * (1 + np.mean(q)))
    # block pseudo-likelihood
    b = spec["block"]
    want = 0.0
    for i in range(0, p, b):
        blk = C[i:i + b, i:i + b]
        lam, Q = np.linalg.eigh(blk)
        lam = np.maximum(lam, 1e-3 * lam[-1])
        k = len(blk)
        want += gauss((Q * lam) @ Q.T, X[:, i:i + b]) - 0.5 * k * np.log(2 * np.pi)
    close("block_pseudo_loglik", mp.block_pseudo_loglik(C, X, b), want, e * (1 + np.mean(q)))
    require(np.array_equal(C, c0) and np.array_equal(X, x0), "an argument was modified")
    ctx.counted(7)
    ctx.hit(p >= 2 and n >= 3)


def power(spec, ctx, mp):
    log = []
    saved = dict(mp.METRICS)
    kw = dict(p=spec["p"], eps_good=spec["eps"][0], eps_bad=spec["eps"][1],
              n_grid=tuple(spec["grid"]), trials=spec["trials"], n_dirs=spec["dirs"],
              min_gap=0.0, seed=spec["seed"])
    plain = mp.run(**kw)
    turn = [0]

    def spy(cov, X, dirs):
        log.append((cov.copy(), X.copy(), dirs.copy()))
        turn[0] += 1
        return float(turn[0])

    try:
        mp.METRICS.clear()
        mp.METRICS.update(saved)
        mp.METRICS["tie"] = lambda cov, X, dirs: 1.0
        mp.METRICS["spy"] = spy
        got, gap, grid = mp.run(**kw)
    finally:
        mp.METRICS.clear()
        mp.METRICS.update(saved)
    require(list(grid) == spec["grid"], f"grid {grid}")
    require({k: v for k, v in got.items() if k in saved} == plain[0] and gap == plain[1],
            "adding judges changes the others, or the same seed gives another result")
    require(all(v == 0.0 for v in got["tie"].values()), f"a judge that cannot tell scores "
                                                        f"{got['tie']}")
    t, p, big = spec["trials"], spec["p"], max(spec["grid"])
    require(gap >= 0 and np.isfinite(gap), f"mean gap {gap}")
    for m, per in got.items():
        require(list(per) == spec["grid"], f"{m} measured at {list(per)}")
        for v in per.values():
            require(0 <= v <= 1 and abs(v * t - round(v * t)) < 1e-9, f"{m}: power {v} of {t}")
    # what was shown: one pair per trial, the same sample for both, smaller samples nested
    require(len(log) == 2 * t * len(spec["grid"]), f"{len(log)} judgements")
    k = 2 * len(spec["grid"])
    right = {n: 0 for n in spec["grid"]}
    for i in range(t):
        part = log[k * i: k * (i + 1)]
        pair = [part[0][0], part[1][0]]
        pool = max((x for _, x, _ in part), key=len)
        require(pool.shape == (big, p), f"sample {pool.shape}")
        for j, n in enumerate(spec["grid"]):
            (c1, x1, d1), (c2, x2, d2) = part[2 * j], part[2 * j + 1]
            require(np.array_equal(x1, x2) and np.array_equal(d1, d2),
                    "the two estimates are judged on different data")
            require(np.array_equal(x1, pool[:n]), f"the sample of {n} is not the first {n} rows")
            require({c1.tobytes(), c2.tobytes()} == {c.tobytes() for c in pair},
                    "the pair changes within a trial")
            right[n] += saved["loglik"](pair[0], x1, d1) > saved["loglik"](pair[1], x1, d1)
            require(d1.shape == (spec["dirs"], p)
                    and np.allclose(np.linalg.norm(d1, axis=1), 1.0), f"directions {d1.shape}")
    # the pair is judged in one order throughout: better first
    first = got["loglik"] == {n: right[n] / t for n in right}
    second = got["spy"] == dict.fromkeys(spec["grid"], 1.0)
    require(first or second, f"power of loglik {got['loglik']}, recorded {right} of {t}")
    ctx.counted(4 + t)
    ctx.hit(spec["p"] >= 2)


def easy(spec, ctx, mp):
    """With ample data, proper judges recognise a clearly better estimate -- and its twin reversed."""
    p, s, t = spec["p"], spec["seed"], spec["trials"]
    for eps in ((0.02, 0.6), (0.6, 0.02)):
        try:
            got, gap, _ = mp.run(p=p, eps_good=eps[0], eps_bad=eps[1], n_grid=(6000,), trials=t,
                                 n_dirs=5, min_gap=0.3, seed=s)
        except ZeroDivisionError:  # no pair differs that clearly: nothing is promised
            ctx.label("no clear pair")
            continue
        require(gap >= 0.3, f"mean gap {gap} below the least gap admitted")
        for m in ("loglik", "stein"):
            require(got[m][6000] == 1.0, f"{m} misjudges clear pairs: power {got[m][6000]}")
    try:
        got, gap = mp.projection_power(p=p, k_list=(None, p), total_dirs=2 * p, eps_good=0.6,
                                       eps_bad=0.02, n_test=6000, trials=t, min_gap=0.3, seed=s)
        require(got[None] == got[p] == 1.0 and gap >= 0.3, f"projection on all of space: {got}")
    except ZeroDivisionError:
        ctx.label("no clear pair")
    got = mp.pseudo_likelihood_power("clean", block_sizes=(None,), p=p, bulk=1, eps_good=0.5,
                                     eps_bad=0.01, n_test=6000, trials=t, seed=s)
    require(got["full_loglik"] >= 0.5 and got[f"pll_b{p}"] >= 0.5, f"clean pairs: {got}")
    got = mp.schur_power(p=12, g=3, err_good=0.0, err_bad=0.3, sig_cross=0.005,
                         gammas=(0.0, 0.5, 1.0), n_test=3000, trials=t, seed=s)
    require(min(got.values()) == 1.0, f"identified groups: {got}")
    got = mp.schur_power(p=12, g=3, err_good=0.3, err_bad=0.0, sig_cross=0.005,
                         gammas=(0.0, 0.5, 1.0), n_test=3000, trials=t, seed=s)
    require(min(got.values()) == 1.0, f"identified groups, errors exchanged: {got}")
    for good, bad in ((0.0, 0.6), (0.6, 0.0)):
        got = mp.proof_high_dim(p=p + 4, bulk=4, sig_bulk_good=good, sig_bulk_bad=bad, sig_tail=0.0,
                                k_list=(None,), n_test=6000, trials=t, seed=s)
        require(min(got[k] for k in ("loglik", "stein", f"proj_k{p + 4}")) >= 0.6,
                f"identified bulk: {got}")
    ctx.counted(8)
    ctx.hit()


def same(spec, ctx, mp):
    """Judges that are the same thing under two names have the same power; seeds reproduce."""
    p, s, t, n = spec["p"], spec["seed"], spec["trials"], spec["n"]
    a = mp.projection_power(p=p, k_list=(1, p, None), total_dirs=2 * p, n_test=n, trials=t,
                            min_gap=0.0, seed=s)
    require(a[0][p] == a[0][None], f"k=p and the whole space: {a[0]}")
    require(a == mp.projection_power(p=p, k_list=(1, p, None), total_dirs=2 * p, n_test=n,
                                     trials=t, min_gap=0.0, seed=s), "same seed, another result")
    # a budget of directions is spent on whole subspaces, one at least
    k, budget = min(spec["k"], p), spec["budget"]
    kw = dict(p=p, k_list=(k,), n_test=n, trials=t + 6, min_gap=0.0, seed=s, eps_good=0.05,
              eps_bad=0.05)
    whole = max(budget // k, 1) * k
    if k > 1 and whole != budget:
        x = mp.projection_power(total_dirs=whole, **kw)
        y = mp.projection_power(total_dirs=budget, **kw)
        require(x == y, f"{budget} directions are not spent as {whole} in dimension {k}: {x}, {y}")
        ctx.label("part of a subspace")
    kw = dict(p=p + 4, bulk=4, k_list=(2, None), n_test=n, trials=t, seed=s)
    b = mp.proof_high_dim(**kw)
    require(list(b) == ["loglik", "stein", "frobenius", "proj_k2", f"proj_k{p + 4}"], f"{list(b)}")
    require(b["loglik"] == b[f"proj_k{p + 4}"], f"projection on all of space: {b}")
    require(b == mp.proof_high_dim(**kw), "same seed, another result")
    kw = dict(p=4 * p, g=p, gammas=(0.0, 1.0), n_test=n, trials=t, seed=s)
    c = mp.schur_power(**kw)
    require(list(c) == ["full", "gamma_0.0", "gamma_1.0"], f"{list(c)}")
    require(c["full"] == c["gamma_1.0"], f"undamped likelihood: {c}")
    require(c == mp.schur_power(**kw), "same seed, another result")
    kw = dict(block_sizes=(1, None), p=p, bulk=2, n_test=n, trials=t, seed=s)
    d = mp.pseudo_likelihood_power("clean", **kw)
    require(list(d) == ["frobenius", "full_loglik", "pll_b1", f"pll_b{p}"], f"{list(d)}")
    require(d["full_loglik"] == d[f"pll_b{p}"], f"one block: {d}")
    require(d == mp.pseudo_likelihood_power("clean", **kw), "same seed, another result")
    for r in (a[0], b, c, d):
        require(all(0 <= v <= 1 and abs(v * t - round(v * t)) < 1e-9 for v in r.values()),
                f"powers {r} over {t} trials")
    ctx.counted(8)
    ctx.hit(n >= 3)


def table(spec, ctx, mp):
    grid = spec["grid"]
    res = {f"judge_{i}": {n: v / 20 for n, v in zip(grid, row)}
           for i, row in enumerate(spec["power"])}
    gap = spec["gap"] / 100
    text = mp.report(res, gap, grid)
    rows = [ln.split() for ln in text.splitlines() if ln.startswith("judge_")]
    means = {k: sum(v.values()) / len(v) for k, v in res.items()}
    require(sorted(r[0] for r in rows) == sorted(res), f"report lists {rows}")
    require(all(means[a[0]] >= means[b[0]] - 1e-9 for a, b in zip(rows, rows[1:])),
            f"report is not sorted by mean power:\n{text}")
    for r in rows:
        want = [*(res[r[0]][n] for n in grid), means[r[0]]]
        require(len(r) == len(want) + 1 and all(abs(float(c) - w) < 0.00051
                                                for c, w in zip(r[1:], want)), f"row {r}, {want}")
    require(f"{gap:.3f}" in text and all(f"n={n}" in text for n in grid), f"header of {text}")
    by_k = {1: 0.5, 3: spec["gap"] / 900, None: 1.0}
    with contextlib.redirect_stdout(io.StringIO()):
        text = mp.projection_report(by_k, gap, p=7)
    found = re.findall(r"^\s*(p=7|\d+)\s+([\d.]+)\s*$", text, re.MULTILINE)
    require([k for k, _ in found] == ["1", "3", "p=7"]
            and all(abs(float(v) - w) < 0.00051 for (_, v), w in zip(found, by_k.values())),
            f"projection report:\n{text}")
    ctx.counted(3)
    ctx.hit(len(res) >= 2)
