"""C03: a checkpoint taken at any point, sent through JSON, resumes the stream exactly."""

import json

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.oracle import require
from harness.same import feed, same, scale, snap

PROP = "C03"
RULE = ("A case is a registered estimator (with and without diff) and a random history of feeding "
        "rows, saving the state (through JSON text), rolling back to any saved state in the same, "
        "a fresh or a differently used estimator, and going on; the model is the list of rows the "
        "current branch has seen, replayed into a new estimator; non-trivial when at least one "
        "restore is followed by more rows.")
CASES = {"quick": 3600, "thorough": 40000}

OPS = st.lists(st.one_of(
    st.tuples(st.just("feed"), st.integers(1, 14)),
    st.tuples(st.just("feed"), st.one_of(st.integers(1, 14), st.sampled_from([14, 40, 120, 260]))),
    st.tuples(st.just("save"), st.just(0)),
    st.tuples(st.sampled_from(["back", "fresh", "other"]), st.integers(0, 5)),
), min_size=3, max_size=12)


def spec():
    return st.fixed_dictionaries({
        "cfg": st.one_of(gen.config(r=gen.R_SHORT), gen.config(r=gen.R_SHORT), gen.config()),
        "data": st.integers(0, 5).flatmap(lambda i: gen.wider(gen.stream(p=(1, 5), n=(6, 90))) if i
                                          else gen.stream(p=(2, 5), n=(6, 90), exps=(-12, 6))),
        "ops": OPS,
        "np": st.integers(0, 5).map(lambda i: i == 0),    # parameters of numpy's own types
    })


def make(cfg, numpy):
    if not numpy:
        return gen.make(cfg)
    of = {float: np.float64, int: np.int64, bool: bool}
    return gen.make({**cfg, "kw": {k: of.get(type(v), lambda u: u)(v)
                                   for k, v in cfg["kw"].items()}})


def scramble(v):
    """Overwrite every number of a nested structure in place."""
    if isinstance(v, dict):
        for k in list(v):
            v[k] = scramble(v[k])
        return v
    if isinstance(v, list):
        for i in range(len(v)):
            v[i] = scramble(v[i])
        return v
    return 7.0e6 if isinstance(v, float) else v


def check(spec, ctx):
    X = gen.expand(spec["data"])
    cfg, name, mag = spec["cfg"], gen.cfg_label(spec["cfg"]), scale(X)
    est, seen, at = make(cfg, spec["np"]), [], 0
    saves = []          # (JSON text, rows seen, what was readable)
    restored = resumed = False

    def expect(what):
        plain = feed(gen.make(cfg), [X[i] for i in seen])
        same(f"{name}: {what}", snap(est), snap(plain), mag=mag)
        ctx.counted()

    ops = list(spec["ops"])
    if not any(o[0] in ("back", "fresh", "other") for o in ops):
        ops += [("save", 0), ("fresh", 0), ("feed", 5)]
    for op, arg in ops:
        if op == "feed":
            take = [(at + i) % len(X) for i in range(arg)]
            at += arg
            feed(est, X[take])
            seen = seen + take
            expect(f"after {len(seen)} rows" + (" since a restore" if restored else ""))
            resumed |= restored
        elif op == "save":
            state = est.get_state()
            text = json.dumps(state, allow_nan=False)
            saves.append((text, list(seen), snap(est)))
            scramble(state)
            expect("after its saved state was overwritten by the caller")
        else:
            text, rows, then = saves[arg % len(saves)] if saves else ("null", [], None)
            if op == "fresh":
                est = make(cfg, spec["np"])
            elif op == "other":
                g = np.random.default_rng(arg)
                est = feed(gen.make(cfg), g.standard_normal((2 + 3 * arg, 1 + arg)))
            state = json.loads(text)
            keep = json.loads(text)
            require(est.set_state(state) is est, f"{name}: set_state does not return the estimator")
            require(state == keep, f"{name}: set_state changed the state it was given")
            scramble(state)
            seen = list(rows)
            restored = True
            same(f"{name}: restored ({op}), against the estimator that saved", snap(est), then)
            expect(f"right after restoring ({op}) a state saved at {len(rows)} rows")
            again = est.get_state()
            require(json.loads(json.dumps(again)) == keep or text == "null",
                    f"{name}: a restored state does not save as what was restored")
            ctx.label("restore:" + op, "restore-empty" if not rows else "restore-fitted")
    ctx.label("est:" + name, "diff" if cfg["kw"].get("diff") else "level")
    ctx.hit(resumed)
