"""C05: reading never changes anything, and nothing is shared with the caller or other instances."""

import numpy as np
from hypothesis import strategies as st

from harness import fresh, gen
from harness.oracle import require
from harness.same import feed, same, scale, snap

PROP = "C05"
RULE = ("A case feeds the same stream to a plain estimator and to one that is also read between "
        "rows (random attributes, in random order and multiplicity), has every array it returns "
        "overwritten in place, is fed from one reused buffer that is overwritten afterwards, shares "
        "the process with other instances of its class (of the same and of other parameters, some "
        "used before it was made), and sees the global random state reseeded; the undisturbed run is "
        "also made in a process in which nothing else ever happened; non-trivial with at least 3 rows and 3 interfering actions.")
CASES = {"quick": 4800, "thorough": 40000}

ACTS = ["covariance_", "correlation_", "precision_", "location_", "get_precision", "mahalanobis",
        "score", "get_state", "repr", "get_params", "n_samples_", "other", "reseed", "sibling",
        "cousin"]


def spec():
    some = st.one_of(gen.config(r=gen.R_SHORT), gen.config(r=gen.R_SHORT), gen.config(),
                     gen.conditional_config())

    def with_cousin(cfg):
        again = gen.conditional_config() if cfg["cls"] == "ConditionalCovariance" \
            else gen.config(names=[cfg["cls"]])
        return st.tuples(st.just(cfg), again)
    return st.fixed_dictionaries({
        "cfg_cousin": some.flatmap(with_cousin),
        "first": st.booleans(),
        "cfg2": gen.config(r=gen.R_SHORT),
        "data": st.one_of(gen.stream(p=(1, 5), n=(2, 40)), gen.stream(p=(1, 5), n=(2, 40)),
                          gen.stream(p=(4, 10), n=(2, 40), explicit=False)),
        "acts": st.lists(st.tuples(st.one_of(st.integers(0, 2), st.integers(0, 39)),
                                   st.sampled_from(ACTS)), min_size=2, max_size=14),
        "feed": st.sampled_from(["buffer", "list", "batch", "slices"]),
        "size": st.integers(1, 7),
    })


def spoil(a):
    if isinstance(a, np.ndarray) and a.size:
        try:
            a[...] = -12345.678
        except ValueError:
            pass  # a read-only result cannot be spoiled, which is as good


def undisturbed(cfg, data):
    return snap(feed(gen.make_any(cfg), gen.expand(data)))


def check(spec, ctx):
    fresh.start()
    X = gen.expand(spec["data"])
    n, p = X.shape
    cfg, kin = spec["cfg_cousin"]
    name, mag = gen.cfg_label(cfg), scale(X)
    cousin = gen.make_any(kin)
    probe = np.linspace(-1, 1, 2 * p).reshape(2, p)
    if spec["first"]:
        feed(cousin, 4.0 * X + np.arange(1, p + 1))
        if cousin.n_samples_:
            read(cousin, "covariance_", probe, name)
    plain, est = gen.make_any(cfg), gen.make_any(cfg)
    sibling, other = gen.make_any(cfg), gen.make(spec["cfg2"])
    todo = {}
    for at, what in spec["acts"]:
        todo.setdefault(at % n, []).append(what)
    todo.setdefault(n - 1, []).append("covariance_")
    buf = np.zeros((spec["size"], p))
    done = i = 0
    while i < n:
        j = min(n, i + (spec["size"] if spec["feed"] in ("batch", "slices") else 1))
        if spec["feed"] == "slices":
            j = i + 1
        feed(plain, X[i:j])
        if spec["feed"] == "buffer":
            buf[0] = X[i]
            row = buf[0]
            est.partial_fit(row)
            require(np.array_equal(row, X[i]), f"{name}: partial_fit changed the row it was given")
            buf[...] = 1e6
        elif spec["feed"] == "batch":
            part = buf[: j - i]
            part[...] = X[i:j]
            est.partial_fit(part)
            require(np.array_equal(part, X[i:j]),
                    f"{name}: partial_fit changed the batch it was given")
            buf[...] = 1e6
        elif spec["feed"] == "slices":
            wide = np.full((3, 2 * p), 77.0)
            wide[1, ::2] = X[i]
            est.partial_fit(wide[1:2, ::2])
            require(np.array_equal(wide[1, ::2], X[i]) and np.all(wide[1, 1::2] == 77.0),
                    f"{name}: partial_fit changed the array it was given a view of")
            wide[...] = 1e6
        else:
            row = X[i].tolist()
            keep = list(row)
            est.partial_fit(row)
            require(row == keep, f"{name}: partial_fit changed the list it was given")
            row[:] = [1e6] * p
        for k in range(i, j):
            for what in todo.get(k, []):
                done += 1
                if what == "other":
                    feed(other, 3.0 * X[: k + 1][-3:] + 1.0)
                elif what == "sibling":
                    feed(sibling, 5.0 - 2.0 * X[: k + 1][-2:])
                elif what == "cousin":
                    feed(cousin, 2.0 - 3.0 * X[: k + 1][-2:])
                    if cousin.n_samples_:
                        read(cousin, "covariance_", probe, name)
                elif what == "reseed":
                    np.random.seed(k)
                    import random

                    random.seed(k)
                elif est.n_samples_ == 0:
                    continue
                else:
                    rng_before = np.random.get_state()[1].copy(), np.random.get_state()[2]
                    read(est, what, probe, name)
                    rng_after = np.random.get_state()
                    require(np.array_equal(rng_before[0], rng_after[1])
                            and rng_before[1] == rng_after[2],
                            f"{name}: reading {what} moved the global random state")
                ctx.label("act:" + what)
        same(f"{name} after row {j - 1}, with interference, against the undisturbed run", snap(est),
             snap(plain), mag=mag)
        ctx.counted()
        i = j
    how, alone = fresh.call(undisturbed, cfg, spec["data"])
    require(how == "ok", f"{name} fails in a process of its own only: {alone}")
    same(f"{name} after {n} rows, with interference, against a process of its own", snap(est),
         alone, mag=mag)
    same(f"{name} after {n} rows against a process of its own", snap(plain), alone, mag=mag)
    ctx.counted(2)
    ctx.label("est:" + name, "feed:" + spec["feed"],
              "diff" if cfg.get("kw", {}).get("diff") else "level")
    ctx.hit(n >= 3 and done >= 3)


def read(est, what, probe, name):
    if what in ("mahalanobis", "score"):
        keep = probe.copy()
        out = getattr(est, what)(probe)
        require(np.array_equal(keep, probe), f"{name}: {what} changed its argument")
        spoil(out)
    elif what == "get_state":
        try:
            state = est.get_state()
        except NotImplementedError:
            return
        for v in state.values():
            spoil(v)
    elif what == "repr":
        repr(est)
    elif what == "get_params":
        est.get_params().clear()
    elif what == "get_precision":
        spoil(est.get_precision())
    else:
        a, b = getattr(est, what), getattr(est, what)
        require(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True),
                f"{name}: {what} read twice differs")
        spoil(a)
        require(np.array_equal(np.asarray(getattr(est, what)), np.asarray(b), equal_nan=True),
                f"{name}: {what} changes when the array it returned before is overwritten")
