"""Case strategy shared by the reference-model checks."""

from hypothesis import strategies as st

from harness import gen

R_LONG = st.sampled_from([0.002, 0.004, 0.0041, 0.005, 0.01, 0.0034])


def cases(names, kinds=None, p=(1, 6), n=(2, 60), exps=(-2, 2), defaults=True, offsets=True,
          long_p=(1, 3), structure=True, diff=None, explicit=True, units=True):
    def one(r, p, n, expl=explicit, dfl=defaults):
        return st.fixed_dictionaries({
            "cfg": gen.config(names=names, r=r, defaults=dfl, diff=diff),
            "data": gen.stream(p=p, n=n, kinds=kinds, exps=exps, offsets=offsets,
                               structure=structure, explicit=expl),
        })
    usual = one(gen.R_SHORT, p, n)
    # windows that end after 5 .. 20 rows, so that most of the stream lies beyond the burn-in
    beyond = one(gen.R_SHORT, p, (max(26, n[0]), max(60, n[1])), expl=False)
    # slow decay: the burn-in window is clamped to 250 rows
    slow = one(R_LONG, long_p, (240, 320), expl=False, dfl=False)
    # far past the window, and many variables (with rows enough to tell them apart)
    far = one(gen.R_SHORT, long_p, (350, 700), expl=False)
    many = one(gen.R_SHORT, (p[1] + 1, p[1] + 6), (30, 90), expl=False)
    longest = one(gen.R_SHORT, long_p, (2000, 5000), expl=False)
    hundred = one(gen.R_SHORT, (20, 140), (2, 14), expl=False)
    pick = [usual, beyond, beyond, beyond, usual, slow, usual, beyond, beyond, usual, slow, far, many]
    home = st.one_of(st.just([]), st.just([]),
                     st.lists(st.integers(1, 40), min_size=1, max_size=3))
    case = st.sampled_from(3 * pick + [longest, hundred]).flatmap(lambda s: s)
    unit = gen.tail(0, 0, (-6, -3), (3, 6), odds=4) if units else st.just(0)

    def build(t):
        data = {**t[0]["data"], **({"home": t[1]} if t[1] else {})}
        # (the reference for geodesics has no precision to spare against an absolute floor)
        if t[2] and t[0]["cfg"]["kw"].get("interpolation") != "geodesic":
            data["unit"] = t[2]
        return {**t[0], "data": data}

    return st.tuples(case, home, unit).map(build)
