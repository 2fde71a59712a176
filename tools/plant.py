"""Build seeded/<id>/ from a definitions file and confirm each (run by hand; no check uses this).

plant.py DEFS.py [id ...]: DEFS.py holds BUGS, dicts with id, property, edits [(file, old, new)],
demo (Python text, run with cwd = the tree under test), needs, breaks. Each is applied to a scratch
copy of /repo; it is kept only if the existing tests pass there and the demo tells it from /repo.
"""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n' \
          'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
HEAD = "import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n"


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env={**ENV, **env})


def plant(b):
    base = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = os.path.join(base, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        for f, old, new in b["edits"]:
            path = os.path.join(tree, f)
            with open(path) as h:
                s = h.read()
            if s.count(old) != 1:
                return b["id"], f"{f}: {s.count(old)} matches of {old!r}"
            with open(path, "w") as h:
                h.write(s.replace(old, new))
        out = os.path.join(base, "out")
        os.makedirs(out)
        diff = run(["git", "diff"], tree).stdout
        with open(os.path.join(out, "patch.diff"), "w") as h:
            h.write(diff)
        with open(os.path.join(out, "demo.py"), "w") as h:
            h.write(HEAD + b["demo"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as h:
            h.write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "meta.json"), "w") as h:
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]}, h, indent=1)
            h.write("\n")
        demo = ["bash", os.path.join(out, "demo.sh")]
        clean = run(demo, "/repo", PYTHONPATH="/repo")
        if clean.returncode:
            return b["id"], "demo fails on the unchanged tree: " + clean.stderr[-600:]
        bad = run(demo, tree, PYTHONPATH=tree)
        if not bad.returncode:
            return b["id"], "demo passes with the patch"
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "-n", "2"], tree,
                PYTHONPATH=tree)
        if t.returncode:
            return b["id"], "tests fail: " + "; ".join(
                line for line in t.stdout.splitlines() if line.startswith("FAILED"))
        dest = os.path.join(ROOT, "seeded", b["id"])
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        return b["id"], "kept; demo says: " + (bad.stderr.strip().splitlines() or ["?"])[-1][:160]
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    defs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(defs)
    todo = [b for b in defs.BUGS if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for name, what in pool.map(plant, todo):
            print(f"{name:28} {what}", flush=True)
