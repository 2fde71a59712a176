"""Runner shared by every check: generated-input search with Hypothesis, sharded over processes.

A property module defines

    PROP    = "C01"
    RULE    = "how cases are made and what makes one non-trivial"
    CASES   = {"quick": n, "thorough": n}          # total over all shards
    spec()  -> Hypothesis strategy of JSON-able case specifications
    check(spec, ctx)                               # raises Violation if the property is broken

``check`` is a pure function of ``spec`` and the code under test.  ``ctx`` collects labels (the
distribution of what was generated) and the non-triviality flag.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHARDS = 8
CASE_CPU = 60.0  # CPU seconds one case may take (ordinary cases: milliseconds): more is a hang


class Violation(Exception):
    """The property is broken: the message says how."""


class CaseTimeout(BaseException):
    """A case used CASE_CPU seconds of CPU time."""


class HarnessError(Exception):
    pass


def setup_path():
    sys.dont_write_bytecode = True
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)
    import warnings

    warnings.filterwarnings("ignore")
    import precise

    if not os.path.abspath(precise.__file__).startswith(REPO + os.sep):
        raise HarnessError(f"precise imported from {precise.__file__}, not {REPO}")


class Ctx:
    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.checks = 0

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True

    def counted(self, n=1):
        self.checks += n


def canon(spec) -> str:
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def digest(spec) -> str:
    return hashlib.sha1(canon(spec).encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, spec):
    """Run one case. Returns (verdict, message, ctx); verdict in ok / violation / timeout."""
    import numpy as np

    ctx = Ctx()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        with np.errstate(all="ignore"):
            mod.check(spec, ctx)
        return "ok", "", ctx
    except Violation as exc:
        return "violation", str(exc), ctx
    except CaseTimeout:
        return "timeout", f"did not finish within {CASE_CPU:g} CPU seconds", ctx
    except (HarnessError, MemoryError, ImportError):
        raise
    except Exception as exc:  # an exception the property's domain does not allow
        tb = traceback.extract_tb(exc.__traceback__)
        where = next((f"{os.path.relpath(f.filename, REPO)}:{f.lineno}" for f in reversed(tb)
                      if f.filename.startswith(REPO + os.sep)), "while reading its result")
        return "violation", f"unexpected {type(exc).__name__}: {exc} ({where})", ctx
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def load(prop):
    return importlib.import_module(f"harness.props.{prop.lower()}")


# ---------------------------------------------------------------- one shard (a worker process)
def worker(prop, tier, seed, shard, nshards, out):
    setup_path()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = load(prop)
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "open"]
    total = mod.CASES[tier]
    shrink_s = 20.0 if tier == "quick" else 60.0
    n = total // nshards + (1 if shard < total % nshards else 0)
    st = {
        "evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "checks": 0,
        "fail": None, "first_fail": None, "error": None, "timeouts": 0, "known": {}, "wall": 0.0,
    }
    seen = set()
    t0 = time.time()
    fail = {"t": None, "spec": None, "msg": None, "size": None, "first": None}

    def body(spec):
        if fail["t"] is not None and time.time() - fail["t"] > shrink_s:
            return  # shrinking budget spent: keep the smallest failure seen so far
        if st["timeouts"] >= 2:
            return
        shrinking = fail["t"] is not None
        verdict, msg, ctx = run_case(mod, spec)
        if not shrinking:
            st["evaluations"] += 1
            st["checks"] += ctx.checks
            for lab in set(ctx.labels):
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if ctx.nontrivial:
                d = digest(spec)
                if d not in seen:
                    seen.add(d)
                    if len(st["samples"]) < 2 and st["evaluations"] > 3:
                        st["samples"].append(spec)
        if verdict == "timeout":
            st["timeouts"] += 1
            if not getattr(mod, "TIMEOUT_IS_VIOLATION", True):
                return
            verdict = "violation"
        if verdict == "violation":
            for k in known:
                if mod.matches_known(spec, msg, k["match"]):
                    st["known"][k["id"]] = st["known"].get(k["id"], 0) + 1
                    return
            size = len(canon(spec))
            if fail["t"] is None:
                fail["t"] = time.time()
                fail["first"] = spec
            if fail["size"] is None or size <= fail["size"]:
                fail.update(spec=spec, msg=msg, size=size)
            raise Violation(msg)

    sd = int.from_bytes(hashlib.sha256(f"{prop}|{seed}|{shard}".encode()).digest()[:6], "big")
    test = settings(
        max_examples=max(1, n), database=None, deadline=None, derandomize=False,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(hypothesis.seed(sd)(given(mod.spec())(body)))
    try:
        if n > 0:
            test()
    except BaseException as exc:  # noqa: BLE001
        if fail["t"] is None:
            st["error"] = "".join(traceback.format_exception(exc))[-4000:]
    if fail["t"] is not None:
        st["fail"] = {"spec": fail["spec"], "msg": fail["msg"]}
        st["first_fail"] = fail["first"]
    st["nontrivial"] = sorted(seen)
    st["wall"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(st, f)


# ---------------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


# ---------------------------------------------------------------- parent
def child_env(scratch):
    env = dict(os.environ)
    env.update(
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
        PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
        PYTHONPATH=VERIF,
    )
    env.pop("PYTHONWARNINGS", None)
    return env


def replay_once(prop, path, scratch):
    """Replay in a fresh process: 1 = violation, 0 = holds, anything else = error."""
    r = subprocess.run(
        [sys.executable, os.path.join(VERIF, "run.py"), prop, "--replay", path, "--child"],
        env=child_env(scratch), cwd=VERIF, capture_output=True, text=True,
    )
    return r.returncode, r.stdout + r.stderr


def main(argv):
    import argparse
    import shutil
    import tempfile

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--shards", type=int, default=SHARDS)
    ap.add_argument("--worker", type=int, default=None)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--child", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    if a.setup:
        setup_path()
        import hypothesis
        import numpy

        print("ready: hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
        return 0
    a.tier = "thorough" if a.tier == "thorough" else "quick"

    if a.worker is not None:
        worker(a.prop, a.tier, a.seed, a.worker, a.shards, a.out)
        return 0

    scratch = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    try:
        if a.replay:
            if not a.child:
                code, text = replay_once(a.prop, os.path.abspath(a.replay), scratch)
                sys.stdout.write(text)
                return code
            return do_replay(a)
        return campaign(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(a):
    setup_path()
    with open(a.replay) as f:
        rep = json.load(f)
    if rep.get("kind") == "shard":
        out = a.replay + ".shard.out"
        worker(a.prop, rep["tier"], rep["seed"], rep["shard"], rep["nshards"], out)
        with open(out) as f:
            st = json.load(f)
        os.remove(out)
        if st["fail"]:
            print(f"VIOLATION property={a.prop} replay={a.replay}\n  {st['fail']['msg']}")
            return 1
        return 0
    mod = load(a.prop)
    verdict, msg, _ = run_case(mod, rep["spec"])
    if verdict == "violation" or (
        verdict == "timeout" and getattr(mod, "TIMEOUT_IS_VIOLATION", True)
    ):
        print(f"VIOLATION property={a.prop} replay={a.replay}\n  {msg}")
        return 1
    print(f"held: property={a.prop} replay={a.replay}")
    return 0


def campaign(a, scratch):
    t0 = time.time()
    env = child_env(scratch)
    procs = []
    for s in range(a.shards):
        out = os.path.join(scratch, f"shard{s}.json")
        err = open(os.path.join(scratch, f"shard{s}.err"), "w")
        p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, "run.py"), a.prop, "--tier", a.tier,
             "--seed", str(a.seed), "--shards", str(a.shards), "--worker", str(s), "--out", out],
            env=env, cwd=VERIF, stdout=err, stderr=err,
        )
        procs.append((s, p, out, err))
    results, failed_at = {}, None
    pending = list(procs)
    while pending:
        time.sleep(0.05)
        for item in list(pending):
            s, p, out, err = item
            if p.poll() is None:
                continue
            pending.remove(item)
            err.close()
            if os.path.exists(out):
                with open(out) as f:
                    results[s] = json.load(f)
            else:
                with open(err.name) as f:
                    tail = f.read()[-3000:]
                results[s] = {"error": f"shard {s} ended with code {p.returncode}\n{tail}"}
            if results[s].get("fail") and failed_at is None:
                failed_at = time.time()
        if failed_at is not None and time.time() - failed_at > 15:
            for s, p, out, err in pending:
                p.kill()
                p.wait()
                err.close()
            pending = []

    evaluations = sum(r.get("evaluations", 0) for r in results.values())
    checks = sum(r.get("checks", 0) for r in results.values())
    nontrivial, labels, samples, known = set(), {}, [], {}
    timeouts = sum(r.get("timeouts", 0) for r in results.values())
    for s in sorted(results):
        r = results[s]
        nontrivial.update(r.get("nontrivial", []))
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r.get("known", {}).items():
            known[k] = known.get(k, 0) + v
        samples += r.get("samples", [])
    errors = [r["error"] for r in results.values() if r.get("error")]
    fails = [(len(canon(r["fail"]["spec"])), s) for s, r in results.items() if r.get("fail")]

    violations, lines = 0, []
    if fails:
        fails.sort()
        replay_dir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(replay_dir, exist_ok=True)
        chosen = None
        for _, s in fails:
            r = results[s]
            for spec in (r["fail"]["spec"], r["first_fail"]):
                path = os.path.join(replay_dir, f"{a.prop}-{digest(spec)}.json")
                with open(path, "w") as f:
                    json.dump({"kind": "case", "property": a.prop, "seed": a.seed,
                               "message": r["fail"]["msg"], "spec": spec}, f, indent=1)
                code, text = replay_once(a.prop, path, scratch)
                if code == 1:
                    chosen = (path, r["fail"]["msg"], "reproduced alone")
                    break
            if chosen:
                break
        if chosen is None:
            # The failure needs what earlier cases of the shard did (state kept between calls).
            s = fails[0][1]
            path = os.path.join(replay_dir, f"{a.prop}-shard{s}.json")
            with open(path, "w") as f:
                json.dump({"kind": "shard", "property": a.prop, "tier": a.tier, "seed": a.seed,
                           "shard": s, "nshards": a.shards, "message": results[s]["fail"]["msg"],
                           "spec": results[s]["fail"]["spec"]}, f, indent=1)
            chosen = (path, results[s]["fail"]["msg"], "needs the history of the whole shard")
        violations = 1
        lines.append(f"VIOLATION property={a.prop} replay={chosen[0]}")
        lines.append(f"  {chosen[1]}")
        lines.append(f"  ({chosen[2]})")

    open_known = [k for k in known_findings()
                  if k.get("property") == a.prop and k.get("status") == "open"]
    for k in open_known:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")

    if not a.no_evidence:
        setup_path()
        mod = load(a.prop)
        write_evidence(a, mod, evaluations, checks, nontrivial, labels, samples, known, timeouts,
                       violations, time.time() - t0)
    if lines:
        print("\n".join(lines))
        return 1
    if errors:
        print(f"HARNESS-ERROR property={a.prop}\n{errors[0]}", file=sys.stderr)
        return 2
    if not nontrivial:
        print(f"HARNESS-ERROR property={a.prop}: no non-trivial case", file=sys.stderr)
        return 2
    print(f"held: property={a.prop} tier={a.tier} seed={a.seed} cases={evaluations} "
          f"nontrivial={len(nontrivial)} comparisons={checks} timeouts={timeouts} "
          f"wall={time.time() - t0:.1f}s")
    return 0


def write_evidence(a, mod, evaluations, checks, nontrivial, labels, samples, known, timeouts,
                   violations, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[:6],
            "oracle_comparisons": checks,
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:60]),
            "inconclusive_timeouts": timeouts,
            "known_finding_hits": known,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
