"""C20: the fixed-universe keyed adapter is the wrapped estimator on named, imputed rows."""

import copy

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import close, corr_of, require
from harness.same import scale

PROP = "C20"
RULE = ("A case wraps an estimator (instance or class) and feeds named observations with random "
        "missing names, new names and key orders, in random verbs; rows are rebuilt by an independent "
        "imputation model and fed to the bare estimator; compared, with random selections of names, "
        "after every observation; non-trivial with at least 5 observations of which at least 2 miss "
        "a name.")
CASES = {"quick": 1600, "thorough": 32000}


def spec():
    return st.fixed_dictionaries({
        "cfg": st.one_of(gen.config(r=gen.R_SHORT), gen.config(r=gen.R_SHORT),
                         gen.conditional_config(), st.none()),
        "data": gen.wider(gen.stream(p=(1, 5), n=(1, 30)), p=(6, 12), n=(60, 300)),
        "impute": st.sampled_from(["ffill", "ffill", "mean", "zero", None]),
        "keys": st.sampled_from([None, None, "given", "reversed"]),
        "names": st.sampled_from(["str", "int", "tuple", "mixed"]),
        "miss": st.sampled_from([0.0, 0.2, 0.5, 0.9]),
        "extra": st.booleans(), "shuffle": st.booleans(),
        "via": st.sampled_from(["keyed", "class", "klass"]),
        "types": st.sampled_from(["float", "float32", "int", "np", "wide", "fraction", "array0"]),
        "seed": st.integers(0, 9999),
        "copy": st.booleans(), "many": st.lists(st.integers(0, 4), max_size=5),
    })


def name_of(kind, j):
    if j > 13:
        return {"str": f"n{j}", "int": j * 3, "tuple": ("v", j), "mixed": [f"m{j}", 100 + j, ("m", j)][j % 3]}[kind]
    return {"str": "abcdefghijklmn"[j], "int": j * 3, "tuple": ("v", j),
            "mixed": ["x", 1, ("t",), 2.5, "yy", 7, "z", "q", 0.5, "", ("t", 1), -4, ("w",), "last"][j]}[kind]


def check(spec, ctx):
    import precise

    X = gen.expand(spec["data"])
    if spec["types"] == "int":
        X = np.round(X)
    elif spec["types"] == "float32":
        X = X.astype(np.float32).astype(float)
    elif spec["types"] == "wide":   # integers single precision cannot hold
        X = np.round(X * 2.0**10) + 2.0**26 + 1
    cast = {"wide": int, "fraction": Fraction, "array0": np.array, "float": float, "np": np.float64, "float32": np.float32, "int": int
            }[spec["types"]]
    n, p = X.shape
    g = gen.rng(61, spec["seed"])
    cfg = spec["cfg"] or {"cls": "EwaCovariance", "kw": {}}
    names = [name_of(spec["names"], j) for j in range(p)]
    kw = {} if spec["impute"] is None else {"impute": spec["impute"]}
    impute = spec["impute"] or "ffill"
    universe = None
    if spec["keys"]:
        universe = list(names) if spec["keys"] == "given" else names[::-1]
        given = list(universe)
        kw["keys"] = given
    template = None
    if spec["cfg"] is None:
        k = precise.keyed(**kw) if spec["via"] == "keyed" else precise.FixedUniverse(**kw)
    elif spec["via"] == "klass" and cfg["cls"] != "ConditionalCovariance":
        k = precise.FixedUniverse(getattr(precise, cfg["cls"]), **kw, **cfg["kw"])
    else:
        template = gen.make_any(cfg)
        k = (precise.keyed if spec["via"] == "keyed" else precise.FixedUniverse)(template, **kw)
        try:
            precise.FixedUniverse(template, r=0.5)
            raise Violation("FixedUniverse: estimator arguments accepted with an instance")
        except ValueError:
            pass
    if universe is not None:
        given.append("caller's own list")
    bare = gen.make_any(cfg)
    what = f"FixedUniverse({gen.cfg_label(cfg)})"
    for read in (lambda: k.covariance_, lambda: k.get_cov(), lambda: k.get_corr()):
        try:
            read()
            raise Violation(f"{what}: readable before the first observation")
        except ValueError:
            pass
    last, missed, t = {}, 0, 0
    groups = list(spec["many"])
    while t < n:
        take = min(n - t, groups.pop(0)) if groups else 1
        batch, sent = [], []
        for i in range(t, t + take):
            here = [j for j in range(p) if g.random() >= spec["miss"]]
            if universe is None and not here:
                here = [int(g.integers(p))]
            if spec["shuffle"]:
                g.shuffle(here)
            x = {names[j]: cast(X[i, j]) for j in here}
            if spec["extra"] and universe is not None and g.random() < 0.5:
                x = {"stranger": cast(3), **x}
            if universe is None:
                universe = list(x)
            missed += any(m not in x for m in universe)
            batch.append(x)
            sent.append(dict(x))
            row = []
            for m in universe:
                if m in x:
                    last[m] = float(x[m])
                    row.append(last[m])
                elif impute == "ffill":
                    row.append(last.get(m, 0.0))
                elif impute == "mean":
                    # nothing estimated yet: the last value, if any
                    row.append(float(bare.location_[universe.index(m)]) if bare.n_samples_
                               else last.get(m, 0.0))
                else:
                    row.append(0.0)
            bare.partial_fit(np.array(row))
        if len(groups) % 2 or take != 1:
            out = k.learn_many(batch)
        else:
            out = k.learn_one(batch[0]) if g.random() < 0.5 else k.update(batch[0])
        require(out is k, f"{what}: an update does not return the adapter")
        require(batch == sent, f"{what}: the caller's observation was modified")
        t += take
        if bare.n_samples_ == 0:
            continue
        if spec["copy"] and t % 5 == 0:
            # a deep copy goes on alike, whatever becomes of the original
            k, old = copy.deepcopy(k), k
            old.learn_many([{m: cast(70 + i) for m in universe} for i in range(2)])
        want = bare.covariance_
        mag = scale(X)
        compare(what, k, want, universe, g, mag, ctx)
    if template is not None:
        require(template.n_samples_ == 0, f"{what}: the wrapped instance itself was fed")
    ctx.label("est:" + gen.cfg_label(cfg), "impute:" + impute, "names:" + spec["names"])
    ctx.hit(n >= 5 and missed >= 2)


def compare(what, k, want, universe, g, mag, ctx):
    sd = np.sqrt(np.maximum(np.diag(want), 0))
    tol = 1e-9 * np.outer(sd, sd) + 1e-13 * mag * (sd[:, None] + sd[None, :]) + 1e-25 * mag**2
    got, keys = k.cov_array()
    require(list(keys) == universe, f"{what}: names {keys}, expected {universe}")
    close(f"{what}: cov_array", got, want, tol)
    C = k.covariance_
    require(list(C) == universe and all(list(r) == universe for r in C.values()),
            f"{what}: covariance_ is keyed {list(C)}, expected {universe}")
    full = np.array([[C[a][b] for b in universe] for a in universe]).reshape(want.shape)
    close(f"{what}: covariance_", full, want, tol)
    require(k.covariance == C, f"{what}: covariance differs from covariance_")
    corr = corr_of(full)
    np.fill_diagonal(corr, 1.0)
    R = k.correlation_
    close(f"{what}: correlation_", [[R[a][b] for b in universe] for a in universe], corr, 1e-9)
    pick = [universe[i] for i in g.permutation(len(universe))[: 1 + int(g.integers(len(universe)))]]
    at = [universe.index(m) for m in pick]
    close(f"{what}: get_cov{pick}", k.get_cov(pick), full[np.ix_(at, at)], 0.0)
    close(f"{what}: get_corr{pick}", k.get_corr(pick), corr[np.ix_(at, at)], 1e-9)
    twice = pick + [pick[0]]
    a2 = [universe.index(m) for m in twice]
    close(f"{what}: get_cov{twice}", k.get_cov(twice), full[np.ix_(a2, a2)], 0.0)
    got, keys = k.cov_array(tuple(pick))
    require(list(keys) == pick, f"{what}: cov_array returns names {keys} for {pick}")
    try:
        frame = k.to_frame(pick)
    except ImportError:
        frame = None
    if frame is not None:
        require(list(frame.index) == pick and list(frame.columns) == pick,
                f"{what}: to_frame is labelled {list(frame.index)}")
        close(f"{what}: to_frame", frame.to_numpy(), full[np.ix_(at, at)], 0.0)
    try:
        k.get_cov([universe[0], "no such name"])
        raise Violation(f"{what}: an unknown name is answered")
    except (ValueError, KeyError):
        pass
    # a returned matrix is the caller's own
    got, _ = k.cov_array()
    got[...] = -1.0
    close(f"{what}: after overwriting a returned matrix", k.cov_array()[0], full, 0.0)
    ctx.counted(6)
