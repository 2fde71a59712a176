"""A scratch copy of precise/ and research/, imported in place of the real one, so that a frozen
recommender model can be generated, written and loaded without touching the repository."""

import atexit
import contextlib
import importlib
import os
import shutil
import sys
import tempfile

from harness.core import REPO

_ROOT = None
MODEL = "_recommender_model.py"


def root():
    """The scratch copy's directory (made once per process, removed when it ends)."""
    global _ROOT
    if _ROOT is None:
        base = os.path.dirname(sys.pycache_prefix) if sys.pycache_prefix else None
        base = base if base and os.path.isdir(base) else None
        _ROOT = tempfile.mkdtemp(prefix="pkg-", dir=base)
        atexit.register(shutil.rmtree, _ROOT, ignore_errors=True)
        skip = shutil.ignore_patterns("__pycache__", "data", "legacy*", "*.ipynb", "*.csv", "*.json")
        for part in ("precise", "research"):
            shutil.copytree(os.path.join(REPO, part), os.path.join(_ROOT, part), ignore=skip)
        with open(os.path.join(_ROOT, "precise", MODEL)) as f:
            global SHIPPED
            SHIPPED = f.read()
    return _ROOT


SHIPPED = None


def ours(name):
    return name.split(".")[0] in ("precise", "research")


@contextlib.contextmanager
def imported(model):
    """Import the copy with the given frozen model: text, None (absent) or "shipped"."""
    top = root()
    path = os.path.join(top, "precise", MODEL)
    if os.path.exists(path):
        os.remove(path)
    if model is not None:
        with open(path, "w") as f:
            f.write(SHIPPED if model == "shipped" else model)
    away = {k: sys.modules.pop(k) for k in list(sys.modules) if ours(k)}
    old, cwd = list(sys.path), os.getcwd()
    sys.path.insert(0, top)
    os.chdir(top)
    importlib.invalidate_caches()
    try:
        yield path
    finally:
        os.chdir(cwd)
        for k in [k for k in sys.modules if ours(k)]:
            del sys.modules[k]
        sys.modules.update(away)
        sys.path[:] = old
