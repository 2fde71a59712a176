"""Generators: data streams, estimator configurations, matrices -- all JSON-able specifications.

Every random choice is drawn by Hypothesis.  Long stretches of data are expanded from a drawn
integer (``seed``) by a fixed function, so a specification stays small, replays exactly, and shrinks
by losing segments, rows, features and magnitude.
"""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

# --------------------------------------------------------------------------- streams
KINDS = ["gauss", "iid", "factor", "heavy", "outlier", "ints", "const", "repeat", "ramp", "alt",
         "zero", "lowrank", "walk", "sparse"]
SMOOTH = ["gauss", "iid", "factor", "heavy", "outlier", "walk"]  # generic position, full rank


def _seed():
    return st.integers(0, 2**20 - 1)


@st.composite
def segment(draw, kinds, max_len):
    kind = draw(st.sampled_from(kinds))
    return {"k": kind, "n": draw(st.integers(1, max_len)), "s": draw(_seed())}


_VAL = st.one_of(
    st.integers(-5, 5).map(float),
    st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-3, -2.5, 10.0, 100.0]),
    st.floats(-100, 100, allow_nan=False).map(lambda v: float(np.round(v, 6))),
)


@st.composite
def stream(draw, *, p=(1, 6), n=(1, 60), kinds=None, scales=True, offsets=True, structure=True,
           explicit=True, max_segs=4, min_total=1, exps=(-2, 2)):
    """A stream specification: features, segments, per-feature scale and offset, structure."""
    kinds = KINDS if kinds is None else kinds
    dim = draw(st.integers(*p))
    spec = {"p": dim}
    if explicit and draw(st.integers(0, 7)) == 0:
        rows = draw(st.lists(st.lists(_VAL, min_size=dim, max_size=dim), min_size=max(1, min_total),
                             max_size=max(12, min_total)))
        spec["rows"] = rows
        return spec
    segs = draw(st.lists(segment(kinds, n[1]), min_size=1, max_size=max_segs))
    total = 0
    for s in segs:  # construct (never reject) a total length within the bound
        s["n"] = max(1, min(s["n"], n[1] - total))
        total += s["n"]
    if total < max(n[0], min_total):
        segs[0]["n"] += max(n[0], min_total) - total
    spec["segs"] = segs
    if scales and draw(st.booleans()):
        spec["exp"] = draw(st.lists(st.integers(*exps), min_size=dim, max_size=dim))
    if offsets and draw(st.booleans()):
        spec["off"] = draw(st.lists(st.sampled_from([0.0, 1.0, -3.0, 10.0, 100.0, -250.0]),
                                    min_size=dim, max_size=dim))
    if structure and dim >= 2 and draw(st.integers(0, 3)) == 0:
        which = draw(st.sampled_from(["flat", "dup", "late", "neg", "blank"]))
        spec["st"] = {"k": which, "j": draw(st.integers(0, dim - 1))}
    return spec


def tail(lo, hi, *more, odds=15):
    """Integers from lo to hi, and once in ``odds`` one of the larger ones (lo, hi pairs)."""
    rest = st.one_of(*[st.integers(*m) for m in more])
    return st.integers(1, odds).flatmap(lambda i: rest if i == odds else st.integers(lo, hi))


def wider(base, *, p=(6, 14), n=(255, 330), **kw):
    """``base`` three times out of four; else streams of more variables (once in a while, of over a
    hundred), or longer than any window."""
    many = stream(p=p, n=(2, 40), explicit=False, **kw)
    long = stream(p=(1, 3), n=n, explicit=False, max_segs=3, **kw)
    huge = stream(p=(p[1] + 1, 140), n=(2, 14), explicit=False, max_segs=3, **kw)
    pick = 3 * [base, base, base, base, base, base, many, long] + [huge]
    return st.sampled_from(pick).flatmap(lambda s: s)


def mix(seed, p):
    """A well-conditioned random mixing matrix (cond of the covariance roughly below 100)."""
    g = np.random.default_rng([17, seed])
    q, _ = np.linalg.qr(g.standard_normal((p, p)))
    lam = np.exp(g.uniform(-1.0, 1.0, p))
    q2, _ = np.linalg.qr(g.standard_normal((p, p)))
    return (q * lam) @ q2


def _segment(seg, p, last):
    kind, n, s = seg["k"], seg["n"], seg["s"]
    g = np.random.default_rng([3, s])
    z = g.standard_normal((n, p))
    if kind == "iid":
        return z
    if kind == "gauss":
        return z @ mix(s % 7, p).T
    if kind == "factor":
        b = g.uniform(0.4, 1.4, p)
        return np.outer(g.standard_normal(n), b) + 0.6 * z
    if kind == "heavy":
        return z / np.sqrt(g.chisquare(3, size=(n, 1)) / 3)
    if kind == "outlier":
        hit = g.random(n) < 0.15
        return np.where(hit[:, None], z * 50.0, z)
    if kind == "ints":
        return g.integers(-2, 3, size=(n, p)).astype(float)
    if kind == "const":
        return np.tile(np.round(g.uniform(-3, 3, p), 2), (n, 1))
    if kind == "repeat":
        return np.tile(np.zeros(p) if last is None else last, (n, 1))
    if kind == "ramp":
        return np.outer(np.arange(1, n + 1), np.round(g.uniform(-1, 1, p), 3))
    if kind == "alt":
        a = np.round(g.uniform(-2, 2, (2, p)), 2)
        return a[np.arange(n) % 2]
    if kind == "zero":
        return np.zeros((n, p))
    if kind == "lowrank":
        return np.outer(g.standard_normal(n), g.standard_normal(p))
    if kind == "walk":
        return np.cumsum(z, axis=0)
    if kind == "sparse":
        return np.where(g.random((n, p)) < 0.6, 0.0, z)
    raise ValueError(kind)


def expand(spec) -> np.ndarray:
    """The (n, p) array a stream specification stands for (a fresh array each time)."""
    p = spec["p"]
    if "rows" in spec:
        return np.array(spec["rows"], dtype=float).reshape(-1, p)
    parts, last = [], None
    for seg in spec["segs"]:
        a = _segment(seg, p, last)
        last = a[-1]
        parts.append(a)
    X = np.vstack(parts)
    struct = spec.get("st")
    if struct:
        j, n = struct["j"], len(X)
        if struct["k"] == "flat":
            X[:, j] = 1.5
        elif struct["k"] == "dup":
            X[:, j] = X[:, (j + 1) % p]
        elif struct["k"] == "neg":
            X[:, j] = -X[:, (j + 1) % p] + 0.25 * X[:, j]
        elif struct["k"] == "blank":
            X[:, j] = 0.0
        elif struct["k"] == "late":
            X[: n // 2, j] = 0.0
    if "exp" in spec:
        X = X * (10.0 ** np.array(spec["exp"], dtype=float))
    if "off" in spec:
        X = X + np.array(spec["off"], dtype=float)
    if "unit" in spec:  # everything in other units
        X = X * 10.0 ** spec["unit"]
    return np.ascontiguousarray(X)


def stream_labels(spec):
    if "rows" in spec:
        return ["data:explicit"]
    out = {"data:" + s["k"] for s in spec["segs"]}
    if len(spec["segs"]) > 1:
        out.add("data:segments>1")
    for key in ("exp", "off"):
        if key in spec:
            out.add("data:" + key)
    if "st" in spec:
        out.add("data:struct-" + spec["st"]["k"])
    return sorted(out)


# --------------------------------------------------------------------------- estimators
R_ANY = st.one_of(
    st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.5, 1.0, 0.02, 1 / 3, 2 / 17, 0.99, 0.003]),
    st.floats(0.01, 1.0).map(lambda v: float(np.round(v, 4))),
)
R_SHORT = st.one_of(  # burn-in of at most 20 observations
    st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.5, 0.07, 1 / 7, 5 / 11]),
    st.floats(0.05, 0.6).map(lambda v: float(np.round(v, 4))),
)

REGISTERED = [
    "EmpiricalCovariance", "DiagonalCovariance", "BlockCovariance", "EwaCovariance",
    "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance",
    "SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance",
    "PartialMomentsCovariance", "HuberCovariance", "TylerCovariance", "GeodesicEwaCovariance",
    "DCCCovariance", "FactorCovariance",
]


@st.composite
def config(draw, names=None, r=R_ANY, diff=None, defaults=True):
    name = draw(st.sampled_from(names or REGISTERED))
    kw = {}
    if defaults and draw(st.integers(0, 9)) == 0:
        pass  # constructor defaults
    else:
        if name != "EmpiricalCovariance":
            kw["r"] = draw(r)
        if name in ("BlockCovariance", "SchurCovariance", "SchurConditionalCovariance",
                    "SchurLedoitWolfCovariance"):
            kw["n_blocks"] = draw(tail(1, 5, (6, 12)))
        if name == "SchurCovariance":
            kw["gamma"] = draw(st.sampled_from([0.0, 0.25, 0.5, 0.8, 1.0, 2 / 3, 0.01, 0.99]))
            kw["interpolation"] = draw(st.sampled_from(["linear", "linear", "geodesic"]))
        if name == "ShrunkCovariance":
            kw["delta"] = draw(st.sampled_from([0.0, 0.1, 0.35, 0.9, 1.0, 1 / 6, 0.01, 0.99]))
            kw["target"] = draw(st.sampled_from(["constant_correlation", "identity"]))
        if name == "HuberCovariance":
            kw["c"] = draw(st.sampled_from([0.5, 1.0, 1.5, 2.5, 4.0, 7 / 3, 0.1, 12.0]))
        if name == "AdaptiveEwaCovariance":
            kw["max_r"] = draw(st.sampled_from([0.5, 0.3, 0.9, 1.0, 5 / 7, 0.05]))
        if name == "DCCCovariance":
            kw["vol_r"] = draw(st.one_of(st.none(), r))
        if name == "FactorCovariance":
            kw["k"] = draw(tail(1, 4, (5, 12)))
    if diff is None:
        if draw(st.integers(0, 4)) == 0:
            kw["diff"] = True
    elif diff:
        kw["diff"] = True
    return {"cls": name, "kw": kw}


def make(cfg):
    import precise

    return getattr(precise, cfg["cls"])(**cfg["kw"])


@st.composite
def conditional_config(draw, r=R_SHORT, vol_names=None, corr_names=None):
    return {
        "cls": "ConditionalCovariance",
        "vol": draw(config(names=vol_names or ["EwaCovariance", "EmpiricalCovariance",
                                               "DiagonalCovariance", "HuberCovariance",
                                               "LedoitWolfCovariance", "OASCovariance",
                                               "AdaptiveEwaCovariance"], r=r, diff=False)),
        "corr": draw(config(names=corr_names, r=r, diff=False)),
    }


def make_any(cfg):
    if cfg["cls"] == "ConditionalCovariance":
        import precise

        return precise.ConditionalCovariance(vol=make(cfg["vol"]), corr=make(cfg["corr"]))
    return make(cfg)


def cfg_label(cfg):
    return cfg["cls"].replace("Covariance", "")


def chunks(draw_list, n):
    """Split range(n) into consecutive chunks whose sizes come from a drawn list."""
    out, i, k = [], 0, 0
    while i < n:
        size = max(1, draw_list[k % len(draw_list)]) if draw_list else n
        out.append((i, min(n, i + size)))
        i += size
        k += 1
    return out


# --------------------------------------------------------------------------- matrices
@st.composite
def spd(draw, p=(1, 6), exps=(-2, 2), cond=(0, 4), many=None, far=None):
    dim = draw(tail(*p, many) if many else st.integers(*p))
    return {"p": dim, "s": draw(_seed()),
            "c": draw(st.integers(*cond)),
            "e": draw(tail(*exps, *far, odds=8) if far else st.integers(*exps)),
            "shape": draw(st.sampled_from(["eig", "eig", "factor", "diag", "equi", "ident"]))}


def expand_spd(spec) -> np.ndarray:
    p, g = spec["p"], np.random.default_rng([5, spec["s"]])
    if spec["shape"] == "ident":
        A = np.eye(p)
    elif spec["shape"] == "diag":
        A = np.diag(10.0 ** g.uniform(-spec["c"] / 2, spec["c"] / 2, p))
    elif spec["shape"] == "equi":
        rho = g.uniform(0.0, 0.9)
        d = np.exp(g.uniform(-0.5, 0.5, p))
        A = ((1 - rho) * np.eye(p) + rho) * np.outer(d, d)
    elif spec["shape"] == "factor":
        B = g.standard_normal((p, max(1, p // 3)))
        A = B @ B.T + np.diag(g.uniform(0.2, 1.0, p))
    else:
        q, _ = np.linalg.qr(g.standard_normal((p, p)))
        lam = 10.0 ** g.uniform(-spec["c"] / 2, spec["c"] / 2, p)
        A = (q * lam) @ q.T
    A = (A + A.T) / 2 * 10.0 ** spec["e"]
    return A


def rng(*key):
    return np.random.default_rng(list(key))
