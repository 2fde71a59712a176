"""C26: the registries enumerate what the package ships, and cannot be spoilt by their callers."""

import importlib
import inspect

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness.core import Violation
from harness.oracle import require
from harness.same import same, scale, snap

PROP = "C26"
RULE = ("A case is a history of up to 14 uses of the registries by a careless caller (lists edited "
        "in place, instances re-parameterised, instances fed data, unknown and near-miss names "
        "looked up, names of the removed API imported) with every answer compared with the shipped "
        "catalogue; plus a stream on which one estimator built with no arguments must equal the one "
        "built with its documented defaults; non-trivial when a shared object was edited and the "
        "registry was asked again.")
CASES = {"quick": 4800, "thorough": 40000}

E = "Covariance"
D = {"diff": False}
R = {"r": 0.05, "diff": False}
B = {"r": 0.05, "n_blocks": 4, "diff": False}
SHIPPED = {
    "EmpiricalCovariance": D, "DiagonalCovariance": R, "BlockCovariance": B, "EwaCovariance": R,
    "AdaptiveEwaCovariance": dict(R, max_r=0.5), "LedoitWolfCovariance": R, "OASCovariance": R,
    "ShrunkCovariance": dict(R, delta=0.1, target="constant_correlation"),
    "SchurCovariance": dict(B, gamma=0.5, interpolation="linear"),
    "SchurConditionalCovariance": B, "SchurLedoitWolfCovariance": B,
    "PartialMomentsCovariance": R, "HuberCovariance": dict(R, c=2.5), "TylerCovariance": R,
    "GeodesicEwaCovariance": R, "DCCCovariance": dict(R, vol_r=None),
    "FactorCovariance": dict(R, k=2),
}
NAMES = list(SHIPPED)
JUDGES = {
    "LogLikelihood": {}, "BlockPseudoLikelihood": {"block_size": 10},
    "SchurLikelihood": {"gamma": 0.5, "n_blocks": 4, "interpolation": "linear"}, "SteinLoss": {},
    "FrobeniusToTruth": {}, "GMVVariance": {}, "VariogramScore": {},
}
PUBLIC = NAMES + ["BaseOnlineCovariance", "ConditionalCovariance", "from_skater", "keyed",
                  "FixedUniverse", "DynamicUniverse", "all_estimators", "estimator_from_name",
                  "estimator_names", "all_assessors", "assessor_from_name", "suggest",
                  "covariance_features", "__version__"]
EDITS = ["clear", "reverse", "pop", "append", "sort", "swap"]
OLD = ["covariance", "covariance.ewapm", "covariance.runemp", "covarianceutil.covfunctions",
       "portfoliostatic", "portfolioutil", "managers", "managerutil", "locationutil"]


def _near(name):
    return st.sampled_from([name.lower(), name.upper(), name[:-1], name + " ", " " + name,
                            name + "s", name.replace(E, ""), name.replace(E, "_covariance"),
                            "precise." + name, name[1:], name.swapcase(), "", name + "()"])


def _unknown():
    return st.one_of(
        st.sampled_from(NAMES + list(JUDGES)).flatmap(_near),
        st.sampled_from(["ConditionalCovariance", "BaseOnlineCovariance", "FixedUniverse",
                         "DynamicUniverse", "Assessor", "keyed", "ewa_pm_emp_scov_r005_n100"]),
        st.text(max_size=12))


def spec():
    i = st.integers(0, 30)
    op = st.one_of(
        st.tuples(st.just("estimators"), st.sampled_from(EDITS), i),
        st.tuples(st.just("names"), st.sampled_from(EDITS), i),
        st.tuples(st.just("assessors"), st.sampled_from(EDITS), i),
        st.tuples(st.just("find"), st.sampled_from(NAMES), i),
        st.tuples(st.just("unknown"), _unknown(), i),
        st.tuples(st.just("judge"), st.sampled_from(list(JUDGES)), i),
        st.tuples(st.just("no-judge"), _unknown(), i),
        st.tuples(st.just("spoil"), st.sampled_from(list(JUDGES)), i),
        st.tuples(st.just("use"), st.sampled_from(NAMES + ["ConditionalCovariance", "FixedUniverse",
                                                           "DynamicUniverse", "keyed"]), i),
        st.tuples(st.just("reparam"), st.sampled_from(NAMES), i),
        st.tuples(st.just("params"), st.sampled_from(NAMES), i),
        st.tuples(st.just("skaters"), st.sampled_from(OLD), i),
    )
    return st.fixed_dictionaries({
        "ops": st.lists(op, min_size=1, max_size=14),
        "cls": st.sampled_from(NAMES + ["ConditionalCovariance"]),
        "data": gen.stream(p=(1, 7), n=(1, 45), kinds=gen.SMOOTH + ["ints", "const"]),
    })


def edit(lst, how, i):
    if how == "clear":
        lst.clear()
    elif how == "reverse":
        lst.reverse()
    elif how == "pop" and lst:
        lst.pop(i % len(lst))
    elif how == "append":
        lst.append(None)
    elif how == "sort":
        lst.sort(key=repr)
    elif lst:
        lst[i % len(lst)] = lst[0]


def catalogue(what):
    import precise

    got = precise.all_estimators()
    require(type(got) is list and [c.__name__ for c in got] == NAMES,
            f"{what}: all_estimators() is {[getattr(c, '__name__', c) for c in got]}")
    names = precise.estimator_names()
    require(type(names) is list and names == NAMES, f"{what}: estimator_names() is {names}")
    for cls, name in zip(got, NAMES):
        require(cls is getattr(precise, name), f"{what}: {name} is not precise.{name}")
    judges = precise.all_assessors()
    require(type(judges) is list and [j.name for j in judges] == list(JUDGES),
            f"{what}: all_assessors() is {judges}")
    return got, names, judges


def judge_ok(j, name, what):
    from precise import assessment

    require(type(j) is getattr(assessment, name), f"{what}: {name} is a {type(j).__name__}")
    require(isinstance(j, assessment.Assessor) and j.name == name, f"{what}: {j!r} is not {name}")
    want = dict(JUDGES[name])
    got = {k: getattr(j, k, "missing") for k in want}
    require(got == want, f"{what}: {name} has {got}, documented {want}")
    require(j.needs_truth is (name == "FrobeniusToTruth"), f"{what}: {name}.needs_truth")


def missing(look, name, what):
    try:
        got = look(name)
    except KeyError:
        return
    raise Violation(f"{what}({name!r}) returned {got!r}, not KeyError")


def fresh(name, what):
    """A default instance, checked against the catalogue."""
    import precise

    est = getattr(precise, name)()
    require(isinstance(est, precise.BaseOnlineCovariance), f"{what}: {name} is not an estimator")
    if name != "ConditionalCovariance":
        got = est.get_params()
        require(got == SHIPPED[name], f"{what}: {name}() has {got}, documented {SHIPPED[name]}")
        require(all(type(got[k]) is type(v) for k, v in SHIPPED[name].items()),
                f"{what}: {name}() parameter types {got}")
    require(est.n_samples_ == 0, f"{what}: a new {name} has seen {est.n_samples_} rows")
    return est


def check(spec, ctx):
    import precise

    X = gen.expand(spec["data"])
    if not ctx_static.get("done"):
        require(set(PUBLIC) <= set(precise.__all__), "missing from the public names: "
                f"{sorted(set(PUBLIC) - set(precise.__all__))}")
        space = {}
        exec("from precise import *", space)
        require(all(n in space for n in PUBLIC), "a public name cannot be imported")
        concrete = [n for n, c in space.items()
                    if inspect.isclass(c) and issubclass(c, precise.BaseOnlineCovariance)
                    and n not in ("BaseOnlineCovariance", "ConditionalCovariance")]
        require(sorted(concrete) == sorted(NAMES), f"exported estimators are {sorted(concrete)}")
        ctx_static["done"] = True
    edited = False
    for k, (what, arg, i) in enumerate(spec["ops"]):
        where = f"after {k} uses"
        ests, names, judges = catalogue(where)
        if what == "estimators":
            edit(ests, arg, i)
            edited = True
        elif what == "names":
            edit(names, arg, i)
            edited = True
        elif what == "assessors":
            edit(judges, arg, i)
            edited = True
        elif what == "find":
            cls = precise.estimator_from_name(arg)
            require(cls is getattr(precise, arg), f"estimator_from_name({arg!r}) is {cls}")
            fresh(arg, where)
        elif what == "unknown" and arg not in SHIPPED:
            missing(precise.estimator_from_name, arg, "estimator_from_name")
        elif what == "judge":
            judge_ok(precise.assessor_from_name(arg), arg, where)
            judge_ok(judges[list(JUDGES).index(arg)], arg, where)
        elif what == "no-judge" and arg not in JUDGES:
            missing(precise.assessor_from_name, arg, "assessor_from_name")
        elif what == "spoil":
            for j in (precise.assessor_from_name(arg), judges[list(JUDGES).index(arg)]):
                for key in JUDGES[arg]:
                    setattr(j, key, "geodesic" if key == "interpolation" else 1)
                j.needs_data = j.needs_truth = False
            edited = True
        elif what == "reparam":
            est = fresh(arg, where)
            est.set_params(**({"r": 0.3} if "r" in SHIPPED[arg] else {"diff": True}))
            est.partial_fit(X[: 1 + i])
            fresh(arg, where + " (set_params on another instance)")
            edited = True
        elif what == "params":
            prm = fresh(arg, where).get_params()
            prm.update(r=0.9, extra=1)
            fresh(arg, where + " (a returned parameter dict edited)")
            edited = True
        elif what == "use":
            use(arg, X[: 1 + i], where)
            edited = True
        elif what == "skaters":
            removed("precise.skaters" if i % 3 == 0 else "precise.skaters." + arg)
        ctx.label("op:" + what)
        ctx.counted(3)
    for name, j in zip(JUDGES, catalogue("at the end")[2]):
        judge_ok(j, name, "at the end")

    # defaults, behaviourally
    name = spec["cls"]
    a = fresh(name, "defaults").fit(X)
    if name == "ConditionalCovariance":
        ewa = precise.EwaCovariance
        b = precise.ConditionalCovariance(ewa(r=0.05), ewa(r=0.05)).fit(X)
        ctx.counted(fresh(name, "again").n_samples_ + 1)
        require(a.vol is not fresh(name, "again").vol, "default models are shared by instances")
    else:
        b = precise.estimator_from_name(name)(**SHIPPED[name]).fit(X)
    same(f"{name}() against {name}({SHIPPED.get(name)}) on a stream", snap(a), snap(b),
         mag=scale(X))
    ctx.counted()
    ctx.label("cls:" + name.replace(E, ""))
    ctx.hit(edited)


ctx_static = {}


def use(name, X, where):
    """Feed a default-built object; a later default-built one has seen nothing."""
    import precise

    if name in ("FixedUniverse", "DynamicUniverse", "keyed"):
        make = getattr(precise, name)
        row = {f"v{j}": float(v) for j, v in enumerate(X[-1])}
        a = make()
        for x in X:
            a.update({f"v{j}": float(v) for j, v in enumerate(x)})
        b = make()
        b.update(row)
        want = precise.EwaCovariance(r=0.05).fit(X[-1:])
        got = np.array([[b.covariance_[i][j] for j in row] for i in row])
        require(np.allclose(got, want.covariance_, rtol=0, atol=1e-12), f"{where}: a new {name}() is not blank")
        got = np.array([[a.covariance_[i][j] for j in row] for i in row])
        require(np.allclose(got, precise.EwaCovariance(r=0.05).fit(X).covariance_, rtol=1e-9,
                            atol=1e-9 * (1 + scale(X)) ** 2),
                f"{where}: {name}() is not the default estimator on named rows")
        return
    fresh(name, where).partial_fit(X)
    fresh(name, where + f" (another {name} fed)")


def removed(module):
    import sys

    for _ in range(2):
        try:
            importlib.import_module(module)
        except ImportError as exc:
            text = str(exc)
            require("MIGRATING.md" in text and "EwaCovariance" in text,
                    f"importing {module} fails with {text!r}")
        else:
            raise Violation(f"{module} can be imported")
        require("precise.skaters" not in sys.modules, "a removed module stays half-imported")
