"""C21: the dynamic-universe keyed adapter tracks key-sets that come and go."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import close, corr_of, require

PROP = "C21"
RULE = ("A case is a history of named observations whose names enter and leave (sets drawn from a "
        "small pool by a random walk, with bursts, subsets, supersets and returns), for random "
        "limits; an independent model keeps one bare estimator per key-set and answers the same "
        "queries pair by pair; non-trivial with at least 8 observations over at least 3 different "
        "key-sets.")
CASES = {"quick": 1800, "thorough": 24000}


def spec():
    step = st.tuples(st.integers(0, 63), st.integers(1, 12), st.integers(0, 999))
    return st.fixed_dictionaries({
        "cfg": st.one_of(
            gen.config(names=["EwaCovariance", "EmpiricalCovariance"], r=gen.R_SHORT, diff=False),
            gen.config(r=gen.R_SHORT, diff=False),
            gen.config(r=gen.R_SHORT), st.none()),
        "pool": gen.tail(2, 6, (7, 14), odds=10), "copy": st.booleans(),
        "steps": gen.tail(3, 14, (15, 40)).flatmap(
            lambda k: st.lists(step, min_size=k, max_size=k) if k > 14
            else st.lists(step, min_size=3, max_size=14)),
        "max": st.one_of(st.integers(1, 6), st.none()),
        "stale": st.one_of(st.integers(0, 8), st.integers(0, 25), st.none()),
        "order": st.booleans(), "ask": st.integers(0, 9999), "corr": st.sampled_from([0.0, 0.6, 0.95]),
        "via": st.booleans(), "exp": st.integers(-2, 2), "nothing": st.booleans(),
    })


class Universe:
    def __init__(self, keys, est):
        self.keys, self.est, self.stale, self.long = list(keys), est, 0, 0

    def push(self, x):
        self.est.partial_fit(np.array([x[k] for k in self.keys], dtype=float))
        self.stale, self.long = 0, self.long + 1


class Model:
    def __init__(self, make, top, stale):
        self.make, self.top, self.limit = make, top, stale
        self.tracked, self.ambiguous = [], False

    def update(self, x):
        have = set(x)
        for u in self.tracked:
            if set(u.keys) <= have:
                u.push(x)
            else:
                u.stale += 1
        self.tracked = [u for u in self.tracked if u.stale <= self.limit]
        if not have or any(set(u.keys) == have for u in self.tracked):
            return
        u = Universe(list(x), self.make())
        u.push(x)
        self.tracked.append(u)
        if len(self.tracked) > self.top:
            # the stalest goes; among equally stale ones, the shortest-lived
            worst = max((u.stale, -u.long) for u in self.tracked)
            out = [u for u in self.tracked if (u.stale, -u.long) == worst]
            if len(out) > 1:
                self.ambiguous = True
            self.tracked = [u for u in self.tracked if u is not out[0]]

    def entry(self, a, b):
        """Covariance of a pair from the longest-lived, least stale key-set with both; None if none."""
        c = [u for u in self.tracked if a in u.keys and b in u.keys and u.est.n_samples_ > 0]
        if not c:
            return None
        best = max((u.long, -u.stale) for u in c)
        top = [u for u in c if (u.long, -u.stale) == best]
        vals = [float(u.est.covariance_[u.keys.index(a), u.keys.index(b)]) for u in top]
        if max(vals) != min(vals):
            self.ambiguous = True
        return vals[0]


def observations(spec):
    g = gen.rng(71, len(spec["steps"]))
    for mask, times, seed in spec["steps"]:
        g = gen.rng(71, seed)
        pool = [f"k{j}" for j in range(spec["pool"])]
        keys = [k for j, k in enumerate(pool) if (mask | seed << 6) >> j & 1]
        if not keys and not spec["nothing"]:
            keys = [pool[seed % len(pool)]]
        for _ in range(times):
            f = g.standard_normal()
            order = list(keys)
            if spec["order"]:
                g.shuffle(order)
            c = spec["corr"]
            vals = {k: float((c * f + (1 - c) * g.standard_normal()) * 10.0 ** spec["exp"]) for k in pool}
            yield {k: vals[k] for k in order}


def check(spec, ctx):
    import precise

    cfg = spec["cfg"] or {"cls": "EwaCovariance", "kw": {}}
    kw = {}
    if spec["max"] is not None:
        kw["max_universes"] = spec["max"]
    if spec["stale"] is not None:
        kw["max_staleness"] = spec["stale"]
    template = None if spec["cfg"] is None else gen.make(cfg)
    k = (precise.keyed(template, dynamic=True, **kw) if spec["via"]
         else precise.DynamicUniverse(template, **kw))
    what = f"DynamicUniverse({gen.cfg_label(cfg)})"
    try:
        k.covariance_
        raise Violation(f"{what}: readable before the first observation")
    except ValueError:
        pass
    m = Model(lambda: gen.make(cfg), spec["max"] if spec["max"] is not None else 10,
              spec["stale"] if spec["stale"] is not None else 50)
    g = gen.rng(73, spec["ask"])
    seen, sets, count, compared, x = [], set(), 0, 0, {}
    obs = list(observations(spec))
    for i, x in enumerate(obs):
        sent = dict(x)
        out = k.learn_one(x) if i % 2 else k.update(x)
        require(out is k and x == sent and list(x) == list(sent), f"{what}: learn_one({sent})")
        m.update(x)
        x.clear()     # the caller reuses the dict
        count += 1
        sets.add(frozenset(sent))
        seen += [q for q in sent if q not in seen]
        if m.ambiguous:
            ctx.label("tie")
            return
        if spec["copy"] and i % 4 == 3:
            # a deep copy goes on alike, whatever becomes of the original
            k, old = copy.deepcopy(k), k
            old.learn_many([{q: 1e3 * t for q in sent} for t in range(1, 4)])
            old.learn_one({"stranger": 1.0})
            ctx.label("copied")
        last = i == len(obs) - 1
        if not last and i % 5:
            continue
        compared += ask(what, k, m, None, list(sent), ctx)
        if seen:
            pick = [str(q) for q in g.permutation(seen)[: 1 + int(g.integers(len(seen)))]]
            if i % 3 == 0:
                pick += pick[: 1 + i % 2]      # named twice
            compared += ask(what, k, m, pick, pick, ctx)
    if template is not None:
        require(template.n_samples_ == 0, f"{what}: the wrapped instance itself was fed")
    require(count == len(obs), "harness")
    ctx.label("est:" + gen.cfg_label(cfg), f"sets:{min(len(sets), 8)}",
              f"limit:{spec['max']}", "answered" if compared else "unanswered")
    ctx.hit(count >= 8 and len(sets) >= 3 and compared > 0)


def ask(what, k, m, keys, want_keys, ctx):
    n = len(want_keys)
    if n == 0:
        return 0
    got, names = k.cov_array(keys)
    require(list(names) == want_keys, f"{what}: names {names}, expected {want_keys}")
    got = np.array(got, dtype=float)
    require(got.shape == (n, n) and np.all(np.isfinite(got)), f"{what}: not finite: {got}")
    require(np.array_equal(got, got.T), f"{what}: not symmetric: {got}")
    size = float(np.max(np.abs(got), initial=0.0))
    require(np.linalg.eigvalsh(got)[0] >= -1e-9 * size, f"{what}: not positive semi-definite: {got}")
    ctx.counted(2)
    M = np.array([[np.nan if (v := m.entry(a, b)) is None else v for b in want_keys]
                  for a in want_keys]).reshape(n, n)
    if m.ambiguous:
        ctx.label("tie")
        return 0
    if np.any(np.isnan(np.diag(M))):
        ctx.label("untracked-name")
        if np.all(np.isnan(M)):
            return 0
    off = M[~np.eye(n, dtype=bool)]
    known = off[~np.isnan(off)]
    fill = float(np.mean(known)) if len(known) else 0.0
    ctx.label("filled" if np.any(np.isnan(M)) else "complete")
    if np.any(np.isnan(np.diag(M))):
        return 0          # what stands for a name no tracked set has is not specified
    M = np.where(np.isnan(M), fill, M)
    w, v = np.linalg.eigh(M)
    if w[0] < 0:
        ctx.label("projected")
        want = (v * np.maximum(w, 0.0)) @ v.T
    else:
        want = M
    tol = 1e-8 * np.max(np.abs(M)) + 1e-290
    close(f"{what}: covariance of {want_keys}", got, want, tol)
    if keys is None:
        C = k.covariance_
        require(list(C) == want_keys and all(list(r) == want_keys for r in C.values()),
                f"{what}: covariance_ is keyed {list(C)}")
        close(f"{what}: covariance_", [[C[a][b] for b in want_keys] for a in want_keys], got, 0.0)
        R = k.correlation_
        corr = corr_of(got)
        np.fill_diagonal(corr, 1.0)
        close(f"{what}: correlation_", [[R[a][b] for b in want_keys] for a in want_keys], corr, 1e-9)
        ctx.counted(2)
    else:
        close(f"{what}: get_cov", k.get_cov(keys), got, 0.0)
        try:
            frame = k.to_frame(keys)
        except ImportError:
            frame = None
        if frame is not None:
            require(list(frame.index) == want_keys == list(frame.columns), f"{what}: to_frame labels")
            close(f"{what}: to_frame", frame.to_numpy(), got, 0.0)
    ctx.counted()
    return 1
