"""C18: estimates follow a change of origin, of order, of sign and of units."""

import numpy as np
from hypothesis import strategies as st

from harness import diffrun, gen, ref
from harness.core import HarnessError
from harness.oracle import close, covtol, pick_steps, require, spread

PROP = "C18"
RULE = ("A case feeds a stream and its image under a map x -> A x + c to two estimators of the same "
        "configuration and compares the images of the estimates along the stream; the map is a "
        "translation, a reordering, a sign flip, a common change of units (powers of two from 2^-30 "
        "to 2^30 where nothing is floored), a change of each variable's units, a rotation or any "
        "linear map, whichever the estimator follows; non-trivial with at least 6 rows and a map "
        "that moves the data.")
CASES = {"quick": 4800, "thorough": 48000}

BLOCK = ["BlockCovariance", "SchurCovariance", "SchurConditionalCovariance",
         "SchurLedoitWolfCovariance"]
EACH = ["EmpiricalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "HuberCovariance",
        "DiagonalCovariance", "PartialMomentsCovariance", "DCCCovariance", "ShrunkCC",
        "SchurConditionalCovariance"]
LINEAR = ["EmpiricalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "HuberCovariance"]
ROTATE = LINEAR + ["LedoitWolfCovariance", "OASCovariance", "ShrunkId", "GeodesicEwaCovariance"]
COMMON = EACH + ROTATE[:-1] + ["TylerCovariance"] + BLOCK
FLOORED = BLOCK + ["DCCCovariance"]
MAPS = ["shift", "perm", "sign", "common", "common", "each", "rotate", "linear"]


def spec():
    plain = gen.config(r=gen.R_SHORT, diff=False)
    smooth = {"kinds": gen.SMOOTH, "structure": False, "exps": (-1, 1)}
    return st.fixed_dictionaries({
        "cfg": st.one_of(plain, plain, plain, gen.config(r=gen.R_SHORT, diff=True),
                         gen.conditional_config()),
        "data": gen.wider(gen.stream(p=(1, 6), n=(2, 50), **smooth), **smooth),
        "rough": gen.wider(gen.stream(p=(1, 5), n=(2, 50))),
        "map": st.sampled_from(MAPS),
        "seed": st.integers(0, 9999),
        "e": st.lists(st.one_of(st.sampled_from([-30, -24, 30]), st.integers(-30, 30)),
                      min_size=14, max_size=14),
    })


def kind_of(cfg):
    if cfg["cls"] == "ShrunkCovariance":
        return "ShrunkId" if cfg["kw"].get("target") == "identity" else "ShrunkCC"
    return cfg["cls"]


def pick_map(kind, want):
    """The drawn kind of map, or a weaker one this estimator follows."""
    if kind == "ConditionalCovariance":
        return want if want in ("perm", "sign") else "perm"
    follows = {"linear": LINEAR, "rotate": ROTATE, "each": EACH, "common": COMMON}
    for w in {"linear": ["linear", "rotate", "each", "common"], "rotate": ["rotate", "each", "common"],
              "each": ["each", "common"], "common": ["common"]}.get(want, []):
        if kind in follows[w]:
            return w
    if want == "sign" and kind == "ShrunkCC":
        return "perm"
    return want if want in ("shift", "perm", "sign") else "shift"


def perm_for(cfg, p, g):
    if cfg["cls"] not in BLOCK:
        return g.permutation(p)
    ids = ref.block_ids(p, cfg["kw"].get("n_blocks", 4))
    out = np.arange(p)
    for b in np.unique(ids):
        k = np.where(ids == b)[0]
        out[k] = g.permutation(k)
    return out


def uses_blocks(cfg):
    return cfg["cls"] in BLOCK or (cfg["cls"] == "ConditionalCovariance"
                                   and cfg["corr"]["cls"] in BLOCK)


def check(spec, ctx):
    kind = kind_of(spec["cfg"])
    which = pick_map(kind, spec["map"])
    compare(spec, ctx, kind, which)
    if which != "common" and pick_map(kind, "common") == "common":
        compare(spec, ctx, kind, "common")


def compare(spec, ctx, kind, which):
    cfg, g = spec["cfg"], gen.rng(41, spec["seed"])
    name = gen.cfg_label(cfg)
    exact = which == "common"     # powers of two: rounding is the same in both runs
    data = spec["rough"] if exact and kind not in FLOORED else spec["data"]
    X = gen.expand(data)
    n, p = X.shape
    A, c = np.eye(p), np.zeros(p)
    if which == "shift":
        c = np.round(g.uniform(-1, 1, p) * 10.0 ** g.integers(0, 5), 3)
    elif which == "perm":
        inner = cfg["corr"] if kind == "ConditionalCovariance" else cfg
        A = np.eye(p)[perm_for(inner, p, g)]
    elif which == "sign":
        if kind == "ConditionalCovariance" and kind_of(cfg["corr"]) == "ShrunkCC":
            return
        A = np.diag(g.choice([-1.0, 1.0], p))
    elif which == "common":
        lo = 0 if kind in FLOORED else -30
        A = np.eye(p) * 2.0 ** max(lo, spec["e"][0])
    elif which == "each":
        lo = 0 if kind in FLOORED else -20
        A = np.diag([2.0 ** max(lo, e) for e in (spec["e"] * (p // 14 + 1))[:p]])
    elif which == "rotate":
        A = np.linalg.qr(g.standard_normal((p, p)))[0]
    elif which == "linear":
        A = gen.mix(spec["seed"], p) * 2.0 ** (spec["e"][0] // 3)
    Y = X @ A.T + c if which not in ("common", "each") else X * np.diag(A)
    one, two = gen.make_any(cfg), gen.make_any(cfg)
    at = pick_steps(n, 5)
    diff = cfg.get("kw", {}).get("diff", False)
    for i in range(n):
        one.partial_fit(X[i].copy())
        two.partial_fit(Y[i].copy())
        require(one.n_samples_ == two.n_samples_, f"{name}: sample counts differ after a {which} map")
        if i not in at or one.n_samples_ == 0:
            continue
        cov = one.covariance_
        want = cov if kind == "TylerCovariance" and exact else A @ cov @ A.T
        loc = A @ one.location_ + (0.0 if diff else c)
        pre, img = (np.diff(X[: i + 1], axis=0), np.diff(Y[: i + 1], axis=0)) if diff else (
            X[: i + 1], Y[: i + 1])
        if kind in FLOORED and which in ("common", "each"):
            r = ref.build(cfg, p)
            for x in np.diff(X[: i + 1], axis=0) if diff else X[: i + 1]:
                r.push(x)
            low = np.min(r.h) if kind == "DCCCovariance" else np.linalg.eigvalsh(r.C)[0]
            if low < 1e-5:   # eigenvalues or variances near an absolute floor
                ctx.label("floor-in-play")
                continue
        if exact and kind not in FLOORED:
            sd = np.sqrt(np.maximum(np.diag(want), 0))
            ctol = 1e-9 * np.outer(sd, sd) + 1e-9 * covtol(img, 1e-9) + 1e-14 * np.max(sd) ** 2
            ltol = 1e-12 * np.abs(img).max(axis=0)
            sens = None
        else:
            (s1, m1), (s2, m2) = spread(pre), spread(img)
            sd, m = np.abs(A) @ s1 + s2, np.abs(A) @ m1 + m2 + np.abs(c)
            ctol = 1e-8 * np.outer(sd, sd) + 1e-13 * (np.outer(m, sd) + np.outer(sd, m)) \
                + 1e-25 * np.outer(m, m)
            if kind in ("ConditionalCovariance", "DCCCovariance"):   # variances of at least 1e-12
                ctol = ctol + 1e-8 * np.outer(np.maximum(sd, 1e-6), np.maximum(sd, 1e-6))
            if kind == "TylerCovariance":
                ctol = np.full((p, p), 1e-8)
            ltol = 1e-9 * sd + 1e-13 * m
            sens = (lambda pre=pre, img=img: sensitivity(cfg, pre, img, A, "c"))
        close(f"{name}: covariance_ after {i + 1} rows under a {which} map", two.covariance_, want,
              ctol, sens)
        close(f"{name}: location_ after {i + 1} rows under a {which} map", two.location_, loc, ltol,
              None if sens is None else (lambda: sensitivity(cfg, pre, img, A, "m")))
        ctx.counted(2)
    ctx.label("est:" + name, "map:" + which, *gen.stream_labels(data))
    ctx.hit(n >= 6 and not (np.array_equal(A, np.eye(p)) and not c.any()))


def sensitivity(cfg, pre, img, A, what):
    """What rounding alone may do to this stream and its image, by the reference model."""
    if cfg["cls"] == "ConditionalCovariance":
        touchy = {"HuberCovariance", "AdaptiveEwaCovariance", "TylerCovariance", "OASCovariance",
                  "GeodesicEwaCovariance", "SchurConditionalCovariance", "SchurCovariance",
                  "FactorCovariance"}
        return None if touchy & {cfg["corr"]["cls"], cfg["vol"]["cls"]} else 0.0
    if len(pre) == 0:
        raise HarnessError("nothing observed")
    read = (lambda q: q.cov()) if what == "c" else (lambda q: q.mean())
    out = diffrun.ref_sensitivity(cfg, img, read)
    if out is None:
        return None
    first = diffrun.ref_sensitivity(cfg, pre, read)
    if first is None:
        return None
    r = ref.build(cfg, pre.shape[1])
    for x in img:
        r.push(x)
    if what == "c":
        r.cov()
    size = np.abs(A).sum(axis=1).max()
    return out + first * (size ** 2 if what == "c" else size) + 2 * r.extra * (1 if what == "c" else 0)
