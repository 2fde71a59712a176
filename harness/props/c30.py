"""C30: leave-one-out validation of the recommender is leak-free and ranks what it measured."""

import contextlib
import sys

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import require

PROP = "C30"
RULE = ("A case is a set of 2 to 4 generative families, sizes, a number of trials, a seed and a "
        "judge (economic, preferring a named estimator, constant, failing for some estimators) "
        "given to the leave-one-out harnesses or to the training set generator; every draw from a "
        "family, every score and every recommendation is recorded, and the result is recomputed "
        "from the record. Or a generated table of results and its report. Non-trivial with at "
        "least 3 families or 2 trials.")
CASES = {"quick": 160, "thorough": 3500}
FAMILIES = ["iid", "equal", "factor", "hetero", "chain"]


def spec():
    fams = st.lists(st.tuples(st.sampled_from(FAMILIES), st.booleans()), min_size=2, max_size=4)
    judge = st.sampled_from(["gmv", "gmv", "first", "variances", "constant", "fails", "loglik"])
    base = {"fams": fams, "p": st.integers(2, 5), "n_train": st.integers(8, 30),
            "n_test": st.integers(5, 30), "trials": st.integers(1, 4), "seed": st.integers(0, 9999),
            "judge": judge}
    rank = st.floats(1, 17).map(lambda v: float(np.round(v, 2)))
    return st.one_of(
        st.fixed_dictionaries({"kind": st.just("shipped"), **base}),
        st.fixed_dictionaries({"kind": st.just("shipped"), **base}),
        st.fixed_dictionaries({"kind": st.just("trained"), **base,
                               "problems": st.integers(2, 12)}),
        st.fixed_dictionaries({"kind": st.just("labels"), **base,
                               "problems": st.integers(1, 4)}),
        st.fixed_dictionaries({"kind": st.just("report"),
                               "rows": st.lists(st.tuples(rank, rank, st.booleans()), min_size=1,
                                                max_size=8)}))


def family(kind, p, g):
    if kind == "iid":
        return np.eye(p)
    if kind == "equal":
        return np.full((p, p), 0.5) + 0.5 * np.eye(p)
    if kind == "factor":
        b = g.uniform(0.5, 1.5, p)
        return np.outer(b, b) + np.diag(g.uniform(0.3, 1.0, p))
    if kind == "hetero":
        return np.diag(g.uniform(0.1, 5.0, p))
    i = np.arange(p)
    return 0.7 ** np.abs(i[:, None] - i[None, :])


class Judge:
    """Scores like an assessor and records (score, sample) in the order asked."""

    needs_data, needs_truth = True, False

    def __init__(self, kind, log):
        from precise.assessment import GMVVariance, LogLikelihood

        self.kind, self.log = kind, log
        self.inner = {"gmv": GMVVariance(), "fails": GMVVariance(), "loglik": LogLikelihood()}.get(
            kind)
        self.calls = 0

    def score(self, cov, *, X_test=None, true_cov=None):
        self.calls += 1
        cov = np.asarray(cov)
        value = -np.inf
        try:
            if self.inner is not None:
                if self.kind == "fails" and cov[0, 0] * 1e3 % 1 < 0.3:
                    raise ValueError("this judge refuses some estimates")
                value = self.inner.score(cov, X_test=X_test)
            elif self.kind == "first":
                value = float(cov[0, 0])
            elif self.kind == "variances":
                value = -float(np.sum(np.abs(cov - np.diag(np.diag(cov)))))
            else:
                value = 1.0
            return value
        finally:
            self.log.append(("score", value, np.array(X_test)))


@contextlib.contextmanager
def world(spec, log, few):
    """The harness modules with generated families, and every recommendation recorded."""
    import precise
    from research import oos, train_recommender  # noqa: F401

    saved = dict(oos.ENSEMBLES)
    undo = []

    def make(name, kind, heavy):
        def generate(p, rng):
            cov = family(kind, p, rng)
            log.append(("family", name, cov.copy(), heavy, p))
            return cov

        return generate

    def replace(attr, new, *modules):
        for name in modules:
            mod = sys.modules.get(name)
            if mod is not None and hasattr(mod, attr):
                undo.append((mod, attr, getattr(mod, attr)))
                setattr(mod, attr, new)

    suggest = precise.suggest

    def recorded(X, *a, **k):
        out = suggest(X, *a, **k)
        log.append(("suggest", np.array(X), out[0].__name__))
        return out

    oos.ENSEMBLES.clear()
    for i, (kind, heavy) in enumerate(spec["fams"]):
        name = f"{kind}{i}"
        oos.ENSEMBLES[name] = (make(name, kind, heavy), heavy)
    research = ("research.oos", "research.train_recommender")
    replace("suggest", recorded, "precise", "precise.recommend", *research)
    if few:
        ests = [precise.EmpiricalCovariance, precise.DiagonalCovariance, precise.EwaCovariance]
        replace("all_estimators", lambda: list(ests), *research)
    try:
        yield oos, [f"{k}{i}" for i, (k, _) in enumerate(spec["fams"])]
    finally:
        oos.ENSEMBLES.clear()
        oos.ENSEMBLES.update(saved)
        for mod, attr, old in reversed(undo):
            setattr(mod, attr, old)


def trials(log, names):
    """The record cut into trials: family drawn, then the scores of every estimator."""
    out = []
    import precise

    starts = [i for i, item in enumerate(log) if item[0] == "family"] + [len(log)]
    first = sum(item[0] == "score" for item in log[starts[0]:starts[1]]) if len(starts) > 1 else 0
    if first == len(precise.estimator_names()):
        names[:] = precise.estimator_names()
    for item in log:
        if item[0] == "family":
            out.append({"family": item[1], "cov": item[2], "heavy": item[3], "p": item[4],
                        "scores": {}, "tests": [], "picks": []})
        elif item[0] == "score":
            t = out[-1]
            require(len(t["scores"]) < len(names), f"{len(names)} estimators, more scores")
            t["scores"][names[len(t["scores"])]] = item[1]
            t["tests"].append(item[2])
        else:
            out[-1]["picks"].append((item[1], item[2]))
    for t in out:
        require(len(t["scores"]) == len(names), f"a trial scored {len(t['scores'])} estimators of "
                                                f"{len(names)}")
        require(all(np.array_equal(x, t["tests"][0]) for x in t["tests"]),
                "estimators were judged on different samples")
    return out


def rank(scores):
    """1 = best; the first listed wins a tie."""
    names = list(scores)
    return {k: 1 + sum(scores[o] > scores[k] or (scores[o] == scores[k] and i < j)
                       for i, o in enumerate(names)) for j, k in enumerate(names)}


def best(scores):
    names = list(scores)
    return names[int(np.argmax([scores[k] for k in names]))]


def check(spec, ctx):
    if spec["kind"] == "report":
        return report(spec, ctx)
    {"shipped": shipped, "trained": trained, "labels": labels}[spec["kind"]](spec, ctx)
    ctx.label("kind:" + spec["kind"], "judge:" + spec["judge"], f"families:{len(spec['fams'])}")
    ctx.hit(len(spec["fams"]) >= 3 or spec["trials"] >= 2)
    return None


def sample_ok(t, n_test):
    require(t["tests"][0].shape == (n_test, t["p"]), f"judged on {t['tests'][0].shape}")
    for X, _ in t["picks"]:
        require(not any(np.array_equal(row, r) for row in X for r in t["tests"][0]),
                "the recommender saw the sample it is judged on")


def shipped(spec, ctx):
    import precise

    names = precise.estimator_names()
    kw = {k: spec[k] for k in ("p", "n_train", "n_test", "trials", "seed")}
    log, log2 = [], []
    with world(spec, log, few=False) as (oos, fams):
        judge = Judge(spec["judge"], log)
        got = oos.leave_one_ensemble_out(**kw, assessor=judge)
    ts = trials(log, names)
    k = spec["trials"]
    require(list(got) == fams, f"held-out families {list(got)}, expected {fams}")
    require(len(ts) == 2 * k * len(fams), f"{len(ts)} trials, expected {2 * k * len(fams)}")
    for i, held in enumerate(fams):
        part = ts[2 * k * i: 2 * k * (i + 1)]
        first, last = part[:k], part[k:]
        evaluate(spec, got[held], held, first, last, names)
        for t in part:
            require(t["p"] == spec["p"], f"asked for {t['p']} variables")
            sample_ok(t, spec["n_test"])
            require(all(X.shape == (spec["n_train"], spec["p"]) for X, _ in t["picks"]),
                    "the recommender saw another window")
        require(all(len(t["picks"]) == 1 for t in last), "not one recommendation per trial")
        want = np.mean([rank(t["scores"])[t["picks"][0][1]] for t in last])
        require(abs(got[held]["rank_recommender"] - want) <= 1e-9,
                f"{held}: rank_recommender {got[held]['rank_recommender']}, measured {want}")
        # the pick is a function of the training window alone
        for t in last:
            X, pick = t["picks"][0]
            require(precise.suggest(X, top=1)[0].__name__ == pick, "the pick cannot be repeated")
    if spec["seed"] % 3 == 0:
        with world(spec, log2, few=False) as (oos, _):
            again = oos.leave_one_ensemble_out(**kw, assessor=Judge(spec["judge"], log2))
        require(again == got, f"the same seed gives {again}, then {got}")
        ctx.label("repeated")
    ctx.counted(4 * len(fams))
    tails(ts, spec, ctx)


def evaluate(spec, res, held, first, last, names):
    """Nothing from the held-out family is used to choose the fixed estimator."""
    require(set(res) == {"best_fixed", "rank_recommender", "rank_best_fixed"}, f"result {res}")
    require(all(t["family"] != held for t in first), f"{held}: the fixed estimator was chosen on "
            f"{[t['family'] for t in first]}")
    require(all(t["family"] == held for t in last), f"{held}: evaluated on "
            f"{[t['family'] for t in last]}")
    means = {n: np.mean([rank(t["scores"])[n] for t in first]) for n in names}
    bf = res["best_fixed"]
    require(means[bf] <= min(means.values()) + 1e-9, f"{held}: best_fixed {bf} has mean rank "
            f"{means[bf]}, the least is {min(means.values())}")
    want = np.mean([rank(t["scores"])[bf] for t in last])
    require(abs(res["rank_best_fixed"] - want) <= 1e-9,
            f"{held}: rank_best_fixed {res['rank_best_fixed']}, measured {want}")


def trained(spec, ctx):
    names = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance"]
    kw = {k: spec[k] for k in ("p", "n_train", "n_test", "trials", "seed")}
    m, k = spec["problems"], spec["trials"]
    log, log2 = [], []
    with world(spec, log, few=True) as (oos, fams):
        got = oos.leave_one_family_out_trained(**kw, n_problems=m,
                                               assessor=Judge(spec["judge"], log))
    ts = trials(log, names)
    require(list(got) == fams, f"held-out families {list(got)}, expected {fams}")
    per = m + 2 * k
    require(len(ts) == per * len(fams), f"{len(ts)} trials, expected {per * len(fams)}")
    for i, held in enumerate(fams):
        part = ts[per * i: per * (i + 1)]
        learn, first, last = part[:m], part[m:m + k], part[m + k:]
        require(all(t["family"] != held for t in learn),
                f"{held}: the recommender was trained on the family it is tested on")
        evaluate(spec, got[held], held, first, last, names)
        taught = {best(t["scores"]) for t in learn}
        lo = np.mean([min(rank(t["scores"])[n] for n in taught) for t in last])
        hi = np.mean([max(rank(t["scores"])[n] for n in taught) for t in last])
        r = got[held]["rank_recommender"]
        require(lo - 1e-9 <= r <= hi + 1e-9, f"{held}: rank_recommender {r}; what it was taught "
                f"({sorted(taught)}) ranks between {lo} and {hi}")
        if len(taught) == 1:
            ctx.label("one-class")
        for t in learn:
            sample_ok(t, 400)
            require(t["p"] in (15, 25, 40, 60), f"trained on {t['p']} variables")
        for t in first + last:
            sample_ok(t, spec["n_test"])
    if spec["seed"] % 3 == 0:
        with world(spec, log2, few=True) as (oos, _):
            again = oos.leave_one_family_out_trained(**kw, n_problems=m,
                                                     assessor=Judge(spec["judge"], log2))
        require(again == got, f"the same seed gives {again}, then {got}")
        ctx.label("repeated")
    ctx.counted(4 * len(fams))
    tails(ts, spec, ctx)


def labels(spec, ctx):
    """The training set: features of the window shown, label of the best on fresh data."""
    import precise
    from research import train_recommender as tr

    names = ["EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance"]
    log = []
    seen = []
    real = precise.covariance_features
    with world(spec, log, few=True):
        undo = []
        for mod in (tr, precise, precise.recommend, sys.modules["precise.recommend"]):
            for attr, new in (("GMVVariance", lambda: Judge("gmv", log)),
                              ("covariance_features", lambda X: (seen.append(np.array(X)),
                                                                 real(X))[1])):
                if hasattr(mod, attr):
                    undo.append((mod, attr, getattr(mod, attr)))
                    setattr(mod, attr, new)
        try:
            X, y, listed = tr.generate(n_problems=spec["problems"], seed=spec["seed"])
        finally:
            for mod, attr, old in reversed(undo):
                setattr(mod, attr, old)
    n = spec["problems"]
    require(X.shape == (n, len(tr.FEATURES)) and y.shape == (n,), f"training set {X.shape}")
    require(list(listed) == names, f"estimators {listed}")
    ts = trials(log, names) if log and any(i[0] == "score" for i in log) else None
    if ts is None or len(seen) != n:
        ctx.label("not-observed")  # the spies were bypassed: nothing is claimed
        return
    for i, t in enumerate(ts):
        require(y[i] == best(t["scores"]), f"problem {i} labelled {y[i]}, scores {t['scores']}")
        f = real(seen[i])
        require(np.array_equal(X[i], [float(f[k]) for k in tr.FEATURES]),
                f"problem {i}: features {X[i]} are not those of its window")
        require(f["p"] == t["p"], f"problem {i}: window of {f['p']} variables, drawn {t['p']}")
        require(not any(np.array_equal(r, q) for r in seen[i][:5] for q in t["tests"][0]),
                "labelled on the window it was fitted to")
        ctx.counted(4)
    tails(ts, spec, ctx)


def tails(ts, spec, ctx):
    """Samples have the covariance and the tails of their family (over all trials together)."""
    ratio = {True: [], False: []}
    for t in ts:
        X = t["tests"][0]
        d = np.sum(np.linalg.solve(np.linalg.cholesky(t["cov"]), X.T) ** 2, axis=0) / t["p"]
        ratio[t["heavy"]].append((d, t["p"]))
    g = gen.rng(137, spec["seed"])
    for heavy, parts in ratio.items():
        n = sum(len(d) for d, _ in parts)
        if n < 200:
            continue
        d = np.concatenate([d for d, _ in parts])
        sim = np.concatenate([g.chisquare(p, 20 * len(d)) / p
                              * ((3.0 / 5.0) * 5 / g.chisquare(5, 20 * len(d)) if heavy else 1.0)
                              for d, p in parts])
        for q in (0.25, 0.5, 0.75):
            level = np.quantile(sim, q)
            share = np.mean(d <= level)
            require(abs(share - q) <= 7 * np.sqrt(q * (1 - q) / n) + 0.01,
                    f"{'heavy' if heavy else 'light'}-tailed samples: {share:.3f} of the distances "
                    f"below the {q} quantile")
            ctx.label("tails")


def report(spec, ctx):
    import re

    from research import oos

    rows = spec["rows"]
    results = {f"family_{i}": {"best_fixed": "EwaCovariance", "rank_recommender": a,
                               "rank_best_fixed": a if tie else b}
               for i, (a, b, tie) in enumerate(rows)}
    text = oos.report(results)
    for name, r in results.items():
        m = re.search(rf"^{name}\s+EwaCovariance\s+([\d.]+)\s+([\d.]+)\s+(rec|fix)\s*$", text,
                      re.MULTILINE)
        require(m is not None, f"{name} is not reported:\n{text}")
        a, b = r["rank_recommender"], r["rank_best_fixed"]
        require(abs(float(m[1]) - a) < 0.0051 and abs(float(m[2]) - b) < 0.0051, f"line {m[0]!r}")
        require(m[3] == ("rec" if a <= b else "fix"), f"winner in {m[0]!r}")
    m = re.search(r"^MEAN rank.*?\)\s+([\d.]+)\s+([\d.]+)\s*$", text, re.MULTILINE)
    a = np.mean([r["rank_recommender"] for r in results.values()])
    b = np.mean([r["rank_best_fixed"] for r in results.values()])
    require(m is not None and abs(float(m[1]) - a) < 0.0051 and abs(float(m[2]) - b) < 0.0051,
            f"mean line {m and m[0]!r}, expected {a} and {b}")
    ctx.counted(len(rows) + 1)
    ctx.label("kind:report")
    ctx.hit(len(rows) >= 3)
