"""C31: the bake-off scores what each estimator made of each scenario, and ranks it correctly."""

import re

import numpy as np
import scipy.stats
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import require

PROP = "C31"
RULE = ("A case is a bake-off of generated size and seed (scenarios compared with what their names "
        "promise, every score recomputed from the scenario), or a generated table of scores (ties, "
        "failures scored minus infinity, missing judges) whose printed leaderboard and winners are "
        "compared with a separate ranking; non-trivial with at least 2 estimators.")
CASES = {"quick": 1920, "thorough": 16000}
JUDGES = ["LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss",
          "FrobeniusToTruth", "GMVVariance", "VariogramScore"]


def spec():
    score = st.one_of(st.sampled_from([0.0, 1.0, -1.0, -1.0, None]),
                      st.floats(-500, 50).map(lambda v: float(np.round(v, 3))))
    table = st.integers(1, 17).flatmap(lambda k: st.integers(1, 5).flatmap(
        lambda c: st.fixed_dictionaries({
            "kind": st.just("table"), "judges": st.permutations(JUDGES).map(list),
            "primary": st.sampled_from([None, *JUDGES]),
            "scores": st.lists(st.lists(st.lists(score, min_size=7, max_size=7), min_size=c,
                                        max_size=c), min_size=k, max_size=k)})))
    bake = st.fixed_dictionaries({
        "kind": st.just("bake"), "d": st.integers(3, 6), "n": st.integers(20, 60),
        "n_test": st.integers(20, 60), "seed": st.integers(0, 99999)})
    scen = st.fixed_dictionaries({
        "kind": st.just("scenarios"), "d": st.integers(3, 10), "n": st.sampled_from([800, 1501]),
        "n_test": st.sampled_from([400, 1000]), "seed": st.integers(0, 99999)})
    return st.integers(0, 39).flatmap(
        lambda i: bake if i == 39 else scen if i >= 35 else table)


def check(spec, ctx):
    from research import bakeoff

    ctx.label("kind:" + spec["kind"])
    {"table": table, "bake": bake, "scenarios": scenarios}[spec["kind"]](spec, ctx, bakeoff)


def table(spec, ctx, bakeoff):
    import precise

    names = precise.estimator_names()[: len(spec["scores"])]
    cells = [f"case_{i}" for i in range(len(spec["scores"][0]))]
    res = {nm: {c: {j: (-np.inf if v is None else v) for j, v in zip(spec["judges"], row)}
                for c, row in zip(cells, rows)} for nm, rows in zip(names, spec["scores"])}
    frozen = repr(res)
    kw = {} if spec["primary"] is None else {"primary": spec["primary"]}
    primary = spec["primary"] or "SchurLikelihood"
    board = bakeoff.leaderboard(res, **kw)
    wins = bakeoff.per_scenario_winners(res, **kw)
    require(repr(res) == frozen, "the results were modified")

    ranks = {nm: [] for nm in names}
    for c in cells:
        for i, nm in enumerate(names):
            v = res[nm][c][primary]
            ranks[nm].append(1 + sum(res[o][c][primary] > v
                                     or (res[o][c][primary] == v and j < i)
                                     for j, o in enumerate(names)))
    avg = {nm: sum(r) / len(r) for nm, r in ranks.items()}
    others = [j for j in spec["judges"] if j != primary][:2]
    rows = [ln.split() for ln in board.splitlines() if ln.split()[:1] and ln.split()[0] in avg]
    require(sorted(r[0] for r in rows) == sorted(names), f"the leaderboard lists {rows}")
    require(all(avg[a[0]] <= avg[b[0]] + 1e-9 for a, b in zip(rows, rows[1:])),
            f"the leaderboard is not sorted by average rank:\n{board}")
    for row in rows:
        nm = row[0]
        require(abs(float(row[1]) - avg[nm]) <= 0.0051, f"{nm}: average rank {row[1]}, "
                                                        f"measured {avg[nm]}")
        for cell, j in zip(row[2:], [primary, *others]):
            vals = [m[j] for m in res[nm].values() if np.isfinite(m[j])]
            want = sum(vals) / len(vals) if vals else -np.inf
            got = float(cell)
            require(got == want or abs(got - want) <= 0.00051, f"{nm}: mean {j} is {cell}, "
                                                               f"expected {want}")
        require(len(row) == 3 + len(others), f"row {row}")
    require(f"ranked by {primary}" in board, f"the leaderboard does not name {primary}")
    found = dict(re.findall(r"^\s+(\w+)\s+-> (\w+)\s*$", wins, re.MULTILINE))
    require(list(found) == cells, f"winners of {list(found)}, expected {cells}")
    for c in cells:
        top = max(res[nm][c][primary] for nm in names)
        require(res[found[c]][c][primary] == top, f"{c}: {found[c]} wins with "
                f"{res[found[c]][c][primary]}, the best has {top}")
    ctx.counted(2 * len(names) + len(cells))
    ctx.hit(len(names) >= 2)


def bake(spec, ctx, bakeoff):
    import precise

    kw = {k: spec[k] for k in ("d", "n", "n_test", "seed")}
    res = bakeoff.run(**kw)
    scs = bakeoff.build_scenarios(**kw)
    require(list(res) == precise.estimator_names(), f"estimators {list(res)}")
    for cls in precise.all_estimators():
        got = res[cls.__name__]
        require(list(got) == [s[0] for s in scs], f"scenarios {list(got)}")
        for name, train, test, truth in scs:
            cov = cls().fit(train).covariance_
            for a in precise.all_assessors():
                try:
                    want = float(a.score(cov, X_test=test, true_cov=truth))
                except Exception:  # noqa: BLE001 - whatever the judge raises counts as a failure
                    want = -np.inf
                have = got[name][a.name]
                require(have == want or (np.isnan(have) and np.isnan(want))
                        or abs(have - want) <= 1e-9 * abs(want),
                        f"{cls.__name__} on {name}: {a.name} is {have}, expected {want}")
                ctx.counted()
            require(len(got[name]) == 7, f"judges {list(got[name])}")
    ctx.hit()


def scenarios(spec, ctx, bakeoff):
    kw = {k: spec[k] for k in ("d", "n", "n_test", "seed")}
    d, n, m = spec["d"], spec["n"], spec["n_test"]
    scs = bakeoff.build_scenarios(**kw)
    again = bakeoff.build_scenarios(**kw)
    require([s[0] for s in scs] == [s[0] for s in again]
            and all(np.array_equal(a, b) for s, t in zip(scs, again) for a, b in zip(s[1:], t[1:])),
            "the same seed builds other scenarios")
    by = {s[0]: s for s in scs}
    require(len(by) == len(scs) and list(by)[:7] == [
        "equicorr", "one_factor", "ar1_toeplitz", "high_dim_low_n", "regime_change", "contaminated",
        "heavy_tailed"], f"scenarios {list(by)}")
    i = np.arange(d)
    matrix("equicorr", by["equicorr"][3], np.full((d, d), 0.6) + 0.4 * np.eye(d))
    matrix("ar1_toeplitz", by["ar1_toeplitz"][3], 0.7 ** np.abs(i[:, None] - i[None, :]))
    matrix("regime_change", by["regime_change"][3], np.full((d, d), 0.85) + 0.15 * np.eye(d))
    g = gen.rng(139, spec["seed"])
    for name, train, test, truth in scs:
        p = 40 if name == "high_dim_low_n" else d
        rows = 60 if name == "high_dim_low_n" else 2 * (n // 2) if name == "regime_change" else n
        require(truth.shape == (p, p) and train.shape == (rows, p) and test.shape == (m, p),
                f"{name}: {train.shape}, {test.shape}, {truth.shape}")
        if name.startswith("randomcov"):  # another package's matrix, possibly singular
            continue
        require(np.allclose(truth, truth.T) and np.linalg.eigvalsh(truth)[0] > 0,
                f"{name}: the true covariance is not positive definite")
        require(not any(np.array_equal(r, q) for r in test[:5] for q in train),
                f"{name}: test rows occur in the training data")
        rank = factor_rank(truth) if name in ("one_factor", "high_dim_low_n") else None
        require(rank in (None, 1), f"{name}: the truth is not one-factor")
        law(name, test, truth, name == "heavy_tailed", g)
        if name == "regime_change":
            law(name + " (first half)", train[: n // 2], np.full((d, d), 0.2) + 0.8 * np.eye(d),
                False, g)
            law(name + " (second half)", train[n // 2:], truth, False, g)
        elif name == "contaminated":
            clean = distance(train, truth) < 40.0
            share = 1 - np.mean(clean)
            require(0.005 < share < 0.12, f"contaminated: {share:.3f} of the rows are outliers")
            require(np.abs(train[~clean]).max() > 10, "contaminated: outliers are not gross")
        else:
            law(name + " (train)", train, truth, name == "heavy_tailed", g)
    ctx.counted(3 * len(scs))
    ctx.hit()


def matrix(name, got, want):
    require(np.allclose(got, want, rtol=0, atol=1e-12), f"{name}: true covariance {got}")


def factor_rank(S):
    """1 when some diagonal makes S rank one: off-diagonal tetrads vanish."""
    p = len(S)
    worst = max(abs(S[0, 1] * S[j, k] - S[0, j] * S[1, k]) for j in range(2, p)
                for k in range(j + 1, p)) if p >= 4 else 0.0
    return 1 if worst < 1e-9 else 2


def distance(X, S):
    return np.sum(np.linalg.solve(np.linalg.cholesky(S), X.T) ** 2, axis=0)


def farthest(p, n):
    """A squared distance that one of n Gaussian rows exceeds with probability below 1e-9."""
    return scipy.stats.chi2.isf(1e-9 / n, p)


def law(name, X, S, heavy, g):
    p, n = len(S), len(X)
    d = distance(X, S)
    sim = g.chisquare(p, 40000)
    if heavy:
        sim = sim * 3.0 / g.chisquare(5, 40000)
    require(heavy or d.max() <= farthest(p, n), f"{name}: a row is {d.max():.1f} (squared) from the "
            f"centre, beyond what {n} Gaussian rows reach")
    for q in (0.25, 0.5, 0.75, 0.9, 0.97):
        share = np.mean(d <= np.quantile(sim, q))
        if abs(share - q) > 7 * np.sqrt(q * (1 - q) / n) + 0.02:
            raise Violation(f"{name}: {share:.3f} of the rows lie within the {q} quantile of the "
                            f"{'heavy-tailed' if heavy else 'Gaussian'} law of the truth")
    # each direction of the whitened sample carries the same energy, within what tails allow
    Z = np.linalg.solve(np.linalg.cholesky(S), X.T)
    for z in Z:
        share = np.mean(np.abs(z) <= (0.6745 if not heavy else 0.6745 * 0.834))
        up = np.mean(z > 0)
        if abs(up - 0.5) > 7 * 0.5 / np.sqrt(n):
            raise Violation(f"{name}: {up:.3f} of the rows lie on one side of the centre")
        turns = np.mean(z[1:] * z[:-1] > 0)
        if abs(turns - 0.5) > 7 * 0.5 / np.sqrt(n - 1):
            raise Violation(f"{name}: rows are not independent of the ones before ({turns:.3f} on "
                            "the same side)")
        if abs(share - 0.5) > 7 * 0.5 / np.sqrt(n) + 0.02:
            raise Violation(f"{name}: a direction of the sample has the wrong spread ({share:.3f} "
                            "within its quartiles)")
