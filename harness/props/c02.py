"""C02: however a stream is cut into calls, and whatever came before a fit, the estimate is the same."""

from hypothesis import strategies as st

from harness import gen
from harness.oracle import require
from harness.same import feed, same, scale, snap

PROP = "C02"
RULE = ("A case is an estimator (17 registered or a composition, random hyper-parameters, with and "
        "without diff), a stream and a random cut of it into 1d rows, 1-row and multi-row 2d "
        "batches, plus earlier unrelated data for fit(); compared with the row-by-row run at every "
        "cut; non-trivial when some batch has several rows and there are at least 3 rows.")
CASES = {"quick": 4000, "thorough": 40000}


SIZES = st.sampled_from([1, 2, 5, 12, 30, 64, 130, 260])


def spec():
    return st.fixed_dictionaries({
        "cfg": st.one_of(gen.config(), gen.config(), gen.config(r=gen.R_SHORT),
                         gen.conditional_config()),
        "data": gen.wider(gen.stream(p=(1, 5), n=(1, 60))),
        "cuts": st.lists(st.tuples(st.one_of(st.integers(1, 12), SIZES), st.sampled_from(["1d", "2d"])), min_size=1,
                         max_size=5),
        "before": st.one_of(st.none(), gen.stream(p=(1, 4), n=(1, 30)),
                            gen.stream(p=(1, 8), n=(1, 120), explicit=False)),
        "split": st.one_of(st.integers(0, 60), st.integers(0, 320)),
    })


def check(spec, ctx):
    X = gen.expand(spec["data"])
    n, p = X.shape
    cfg = spec["cfg"]
    name, mag = gen.cfg_label(cfg), scale(X)
    plain, cut = gen.make_any(cfg), gen.make_any(cfg)
    i = k = big = 0
    while i < n:
        size, how = spec["cuts"][k % len(spec["cuts"])]
        k += 1
        j = min(n, i + size)
        feed(plain, X[i:j])
        if j - i == 1 and how == "1d":
            out = cut.partial_fit(X[i].copy())
        else:
            out = cut.partial_fit(X[i:j].copy())
            big += j - i > 1
        require(out is cut, f"{name}: partial_fit does not return the estimator")
        if n <= 80 or k % 8 == 0 or j == n:
            same(f"{name} rows {i}..{j - 1} as one batch", snap(cut), snap(plain), mag=mag)
            ctx.counted()
        i = j
    want = snap(plain)
    # fit() forgets what was there, whatever it was, and continues like any other stream
    est = gen.make_any(cfg)
    if spec["before"] is not None:
        feed(est, gen.expand(spec["before"]))
        ctx.label("refit", "refit-other-dim" if spec["before"]["p"] != p else "refit-same-dim")
    # a batch of one row, or none, forgets it too
    few = spec["split"] % 3
    if few < 2:
        new = gen.make_any(cfg).fit(X[:few].copy())
        same(f"{name}: fit on {few} rows", snap(est.fit(X[:few].copy())), snap(new), mag=mag)
        require(est.n_features_in_ == new.n_features_in_,
                f"{name}: fit on {few} rows leaves n_features_in_ {est.n_features_in_}, a new "
                f"estimator has {new.n_features_in_}")
        est.partial_fit(X[:0].copy())
        same(f"{name}: an empty batch", snap(est.partial_fit(X[few:].copy())), want, mag=mag)
    require(est.fit(X.copy()) is est, f"{name}: fit does not return the estimator")
    same(f"{name}: fit on the whole batch", snap(est), want, mag=mag)
    same(f"{name}: fit twice", snap(est.fit(X.copy())), want, mag=mag)
    s = min(max(1, spec["split"]), n)
    est.fit(X[:s].copy())
    if s < n:
        est.partial_fit(X[s:].copy())
    same(f"{name}: fit on {s} rows then partial_fit on the rest", snap(est), want, mag=mag)
    ctx.counted(3)
    ctx.label("est:" + name, "diff" if cfg.get("kw", {}).get("diff") else "level",
              *gen.stream_labels(spec["data"]))
    ctx.hit(big > 0 and n >= 3)
