"""C25: suggest ranks the registered estimators by the frozen tree, then by the heuristics."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, scratchpkg
from harness.oracle import require

PROP = "C25"
RULE = ("A case is a frozen decision tree (random shape, features, standardisation, classes and leaf "
        "weights, the shipped one, or none) and up to four data windows; suggest, imported from a "
        "scratch copy of the package that holds that tree, is compared with an independent walk of "
        "the tree and an independent reading of the heuristic rules; non-trivial when a generated "
        "tree has at least two leaves, or without a tree when the windows get different rankings.")
CASES = {"quick": 2000, "thorough": 16000}
NAMES = ["p_over_n", "effective_rank", "sphericity", "condition_number", "mean_abs_offdiag_corr",
         "avg_excess_kurtosis", "p", "n"]
ORDER = list(gen.REGISTERED)
SHRINKERS = ["FactorCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance",
             "SchurCovariance"]


def windows():
    calm = gen.stream(p=(1, 8), n=(4, 120), kinds=["gauss", "iid", "factor", "heavy"],
                      explicit=False, structure=False, scales=False, max_segs=1)
    square = st.fixed_dictionaries({    # p/n on or near the boundary of the heuristics
        "p": st.integers(1, 6), "segs": st.tuples(st.fixed_dictionaries({
            "k": st.just("iid"), "n": st.integers(3, 26), "s": st.integers(0, 999)})).map(list)})
    return st.lists(st.one_of(calm, calm, square, gen.stream(p=(1, 8), n=(1, 60))),
                    min_size=1, max_size=4)


def spec():
    tree = st.fixed_dictionaries({
        "depth": st.integers(0, 5), "seed": st.integers(0, 99999), "features": st.permutations(NAMES),
        "drop": st.integers(0, 5), "exact": st.booleans(), "classes": st.permutations(ORDER),
        "keep": st.integers(1, 17), "values": st.sampled_from(["few", "frac", "counts", "zero"]),
    })
    return st.fixed_dictionaries({
        "model": st.one_of(tree, tree, tree, tree, st.just("shipped"), st.none()),
        "windows": windows(), "top": st.integers(0, 20),
        "as": st.sampled_from(["array", "list", "frame"]),
    })


def grow(t, feats, near):
    """A random tree in preorder, as the frozen format lays it out."""
    g = gen.rng(111, t["seed"])
    F, T, L, R, V = [], [], [], [], []
    k = t["keep"]

    def value():
        if t["values"] == "zero":
            return [0] * k
        if t["values"] == "few":
            return [int(v) for v in g.integers(0, 3, k)]
        if t["values"] == "counts":
            return [int(v) for v in g.integers(0, 40, k)]
        w = g.dirichlet(np.ones(k) * 0.4)
        return [round(float(v), 6) for v in w]

    def node(depth):
        i = len(F)
        for a in (F, T, L, R):
            a.append(None)
        V.append(value())
        if depth == 0 or (i and g.random() < 0.25):
            F[i], T[i], L[i], R[i] = -2, -2.0, -1, -1
            return i
        F[i] = int(g.integers(len(feats)))
        T[i] = round(float(near(feats[F[i]], g)), 6)
        L[i] = node(depth - 1)
        R[i] = node(depth - 1)
        return i

    node(t["depth"])
    return F, T, L, R, V


def build(t, seen):
    """Model text and its parts; ``seen``: the features of the windows, to split between."""
    feats = t["features"][: max(1, len(NAMES) - t["drop"])]
    g = gen.rng(112, t["seed"])
    mean, std = [], []
    for f in feats:
        v = np.array([s[f] for s in seen], dtype=float)
        if t["exact"]:
            mean.append(0.0)
            std.append(1.0)
        else:
            mean.append(round(float(np.mean(v) + g.standard_normal() * np.std(v)), 6))
            std.append(round(float((np.std(v) + 0.1 + abs(np.mean(v)) * 0.1) * np.exp(
                g.standard_normal() * 0.5)), 6))

    def near(f, g):
        j = feats.index(f)
        a = (float(seen[int(g.integers(len(seen)))][f]) - mean[j]) / std[j]
        b = (float(seen[int(g.integers(len(seen)))][f]) - mean[j]) / std[j]
        if t["exact"] and f in ("p", "n"):
            return a
        return (a + b) / 2 + (0.3 * g.standard_normal() if g.random() < 0.5 else 0.0)

    F, T, L, R, V = grow(t, feats, near)
    classes = t["classes"][: t["keep"]]
    text = "\n".join([
        '"""A generated frozen model."""', f"FEATURES = {feats!r}", f"MEAN = {mean!r}",
        f"STD = {std!r}", f"CLASSES = {classes!r}", f"FEATURE = {F!r}", f"THRESHOLD = {T!r}",
        f"LEFT = {L!r}", f"RIGHT = {R!r}", f"VALUE = {V!r}", ""])
    return text, (feats, mean, std, classes, F, T, L, R, V)


def walk(model, f):
    """Weights at the leaf the features reach, or None if a split is too close to call."""
    feats, mean, std, classes, F, T, L, R, V = model
    i = 0
    while L[i] != -1:
        j = F[i]
        exact = mean[j] == 0.0 and std[j] == 1.0
        x = f[feats[j]] if exact else (f[feats[j]] - mean[j]) / std[j]
        if not exact and abs(x - T[i]) <= 1e-9 * (1 + abs(x)):
            return None
        i = L[i] if x <= T[i] else R[i]
    return dict(zip(classes, V[i]))


def heuristics(f):
    if abs(f["sphericity"] - 0.6) < 1e-9 or abs(f["condition_number"] / 50 - 1) < 1e-9 \
            or abs(f["avg_excess_kurtosis"] - 1) < 1e-9:
        return None
    s = dict.fromkeys(ORDER, 0.0)
    if f["p_over_n"] > 0.25 or f["sphericity"] < 0.6 or f["condition_number"] > 50:
        favoured = SHRINKERS
    else:
        favoured = ["EmpiricalCovariance", "EwaCovariance"]
    for k in favoured:
        s[k] += 2
    if f["avg_excess_kurtosis"] > 1:
        s["HuberCovariance"] += 1.5
        s["TylerCovariance"] += 1.5
    s["LedoitWolfCovariance"] += 0.5
    return s


def shipped_parts():
    space = {}
    exec(scratchpkg.SHIPPED, space)  # the shipped tables: data only
    return tuple(space[k] for k in ("FEATURES", "MEAN", "STD", "CLASSES", "FEATURE", "THRESHOLD",
                                    "LEFT", "RIGHT", "VALUE"))


def check(spec, ctx):
    from precise import covariance_features

    scratchpkg.root()
    Xs = [gen.expand(w) for w in spec["windows"]]
    form = {"array": np.copy, "list": np.ndarray.tolist, "frame": frame}[spec["as"]]
    seen = [covariance_features(form(X)) for X in Xs]
    t = spec["model"]
    if t is None:
        text, model = None, None
    elif t == "shipped":
        text, model = "shipped", shipped_parts()
    else:
        text, model = build(t, seen)
    ranks = []
    with scratchpkg.imported(text):
        import precise

        registry = precise.all_estimators()
        order = [c.__name__ for c in registry]
        require(set(ORDER) <= set(order), f"registered estimators are {order}")
        for X, f in zip(Xs, seen):
            arg = form(X)
            got = precise.suggest(arg, top=len(order))
            require(isinstance(got, list) and sorted(map(id, got)) == sorted(map(id, registry)),
                    f"suggest(top=17) gives {got}, not every registered estimator once")
            require(np.array_equal(np.asarray(arg), X), "suggest modified the data")
            names = [c.__name__ for c in got]
            require(names == [c.__name__ for c in precise.suggest(arg, len(order) + 5)],
                    "suggest is not deterministic, or leaves out some when asked for more")
            for k in (spec["top"], 1, 0):
                require([c.__name__ for c in precise.suggest(arg, top=k)] == names[:k],
                        f"suggest(top={k}) is not the beginning of the full ranking")
            require([c.__name__ for c in precise.suggest(arg)] == names[:3], "default top is not 3")
            ctx.counted(4)
            h, w = heuristics(f), {} if model is None else walk(model, f)
            if h is None or w is None:
                ctx.label("too-close")
                continue
            want = sorted(order, key=lambda c: (-w.get(c, 0), -h.get(c, 0.0), order.index(c)))
            require(names == want, f"features {f}, leaf {w}: suggest ranks {names}, expected {want}")
            ctx.counted()
            ranks.append(names)
            ctx.label("heavy" if f["avg_excess_kurtosis"] > 1 else "light",
                      "p/n=1/4" if f["p_over_n"] == 0.25 else "p/n")
    kind = t if isinstance(t, str) else "none" if t is None else "tree:" + t["values"]
    ctx.label("model:" + kind, "as:" + spec["as"])
    if len({tuple(r) for r in ranks}) > 1:
        ctx.label("rankings-differ")
    ctx.hit((model is not None and len(model[4]) > 1) if t != "shipped" and t is not None
            else len({tuple(r) for r in ranks}) > 1)


def frame(a):
    try:
        import pandas as pd
    except ImportError:
        return a
    return pd.DataFrame(a)
