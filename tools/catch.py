"""Which checks catch which planted changes (run by hand): catch.py [--all] [id ...].

Applies each seeded/<id>/patch.diff to a scratch clone of /repo and runs its property's quick check
(with --all every check) on it. Prints one line per change.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "--all" in args
seeds = [a.split("=")[1] for a in args if a.startswith("--seed=")] or ["1"]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
checks = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
for i in ids:
    where = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(where, "meta.json")))["property"]
    base = tempfile.mkdtemp(prefix="catch-")
    try:
        tree = os.path.join(base, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        subprocess.run(["git", "apply", os.path.join(where, "patch.diff")], cwd=tree, check=True)
        res = []
        for p in (checks if every else [prop]):
            for seed in seeds:
                t = time.time()
                env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED=seed, VERIF_TIER="quick")
                r = subprocess.run([os.path.join(ROOT, "run.py"), p, "--tier", "quick",
                                    "--no-evidence"], capture_output=True, text=True, env=env)
                hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
                if hit or not every:
                    res.append(f"{p}:{'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode}"
                               f"({time.time() - t:.0f}s)")
        print(f"{i:30} [{prop}] {' '.join(res)}", flush=True)
    finally:
        shutil.rmtree(base)
