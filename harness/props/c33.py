"""C33: freezing a trained recommender into the package keeps its decisions."""

import hashlib

import numpy as np
from hypothesis import strategies as st

from harness import gen, scratchpkg
from harness.oracle import require
from harness.props.c25 import ORDER, heuristics, shipped_parts, windows

PROP = "C33"
RULE = ("A case trains a scikit-learn decision tree on generated problems (features of generated "
        "windows, jittered; labels that depend on them), freezes it with the training script's "
        "export in a scratch copy of the package, imports the frozen model through suggest and "
        "compares its rankings of fresh windows with the training labels that share the classifier's "
        "own leaf; or reads the shipped model's leaves; non-trivial when the tree has at least two "
        "leaves.")
CASES = {"quick": 800, "thorough": 8000}


def spec():
    train = st.fixed_dictionaries({
        "kind": st.just("train"), "windows": windows(), "fresh": windows(),
        "seed": st.integers(0, 99999), "n": st.integers(12, 300), "depth": st.integers(1, 6),
        "leaf": st.sampled_from([1, 2, 5, 10]), "classes": st.integers(1, 9),
        "noise": st.sampled_from([0.0, 0.3, 0.9]),
    })
    return st.one_of(*[train] * 19, st.just({"kind": "shipped"}))



def check(spec, ctx):
    scratchpkg.root()
    if spec["kind"] == "shipped":
        return shipped(ctx)
    from sklearn.tree import DecisionTreeClassifier

    from precise import covariance_features

    seen = [covariance_features(gen.expand(w)) for w in spec["windows"]]
    fresh = [gen.expand(w) for w in spec["fresh"]]
    g = gen.rng(121, spec["seed"])
    with scratchpkg.imported(None) as path:
        import research.train_recommender as tr

        feats = list(tr.FEATURES)
        base = np.array([[float(f[k]) for k in feats] for f in seen + [
            covariance_features(X) for X in fresh]])
        X = base[g.integers(len(base), size=spec["n"])]
        X = X * np.exp(0.2 * g.standard_normal(X.shape)) + 0.05 * g.standard_normal(X.shape)
        names = [ORDER[i] for i in g.permutation(len(ORDER))[: spec["classes"]]]
        mean, std = X.mean(axis=0), X.std(axis=0) + 1e-9
        Z = (X - mean) / std
        code = (Z @ g.standard_normal((len(feats), len(names)))).argmax(axis=1)
        swap = g.random(len(code)) < spec["noise"]
        code[swap] = g.integers(len(names), size=int(swap.sum()))
        y = np.array([names[c] for c in code])
        clf = DecisionTreeClassifier(max_depth=spec["depth"], min_samples_leaf=spec["leaf"],
                                     random_state=0).fit(Z, y)
        tr.export(clf, mean, std)
        with open(path) as fh:
            text = fh.read()
    leaf_of = clf.apply(Z)
    differ = set()
    with scratchpkg.imported(text):
        import precise

        for W in fresh:
            f = covariance_features(W)
            got = [c.__name__ for c in precise.suggest(W, top=len(ORDER))]
            x = (np.array([float(f[k]) for k in feats]) - mean) / std
            h = heuristics(f)
            if h is None or near_a_split(clf, x, std):
                ctx.label("too-close")
                continue
            leaf = clf.apply(x[None, :])[0]
            counts = {c: int(np.sum(y[leaf_of == leaf] == c)) for c in ORDER}
            want = sorted(ORDER, key=lambda c: (-counts[c], -h[c], ORDER.index(c)))
            require(got == want, f"features {f}: the frozen tree ranks {got}; the trained tree's leaf "
                                 f"holds {({k: v for k, v in counts.items() if v})}, so {want}")
            require(got[0] == want[0] and clf.predict_proba(x[None, :])[0].max() > 0, "harness")
            ctx.counted()
            differ.add(leaf)
    ctx.label(f"leaves:{min(clf.get_n_leaves(), 9)}", f"classes:{len(set(y.tolist()))}")
    ctx.hit(clf.get_n_leaves() >= 2)


def near_a_split(clf, x, std):
    """Whether rounding the tables to 6 decimals, or to single precision, can change a decision."""
    t, i = clf.tree_, 0
    while t.children_left[i] != -1:
        j = t.feature[i]
        slack = 2e-6 * (1 + abs(x[j])) * (1 + 1 / std[j])
        if abs(x[j] - t.threshold[i]) <= slack:
            return True
        i = t.children_left[i] if x[j] <= t.threshold[i] else t.children_right[i]
    return False


def shipped(ctx):
    model = shipped_parts()
    dead = [i for i, left in enumerate(model[6]) if left == -1 and not any(v > 0 for v in model[8][i])]
    ctx.label("shipped")
    ctx.counted()
    require(not dead, f"{len(dead)} leaves of the shipped tree carry no weight, so it decides nothing "
                      f"there [{fingerprint(dead, model)}]")


def fingerprint(dead, model):
    return hashlib.sha1(repr((dead, list(model[6]), list(model[8]))).encode()).hexdigest()[:16]


def matches_known(spec, msg, match):
    return spec["kind"] == "shipped" and f"[{match['leaves']}]" in msg
