"""Mechanical mutation of /repo's sources, to find what the checks do not notice.

mutate.py FILE... [--out DIR] [--jobs N] [--max N] [--seed N] [--only C01,C02]
Each mutant is a scratch copy of the package with one small edit; the checks anchored in the file are
run against it until one reports a violation. Survivors are listed for reading by hand: most are
equivalent, the rest show where a check is weak. Development aid, registered nowhere.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*",
       ast.Mod: "//"}
CALLS = {"min": "max", "max": "min", "maximum": "minimum", "minimum": "maximum", "mean": "median",
         "outer": None, "sqrt": "abs", "argmax": "argmin", "triu": "tril", "append": None,
         "any": "all", "all": "any", "array": "asarray", "sum": "max"}


def seg(src, node):
    return ast.get_source_segment(src, node)


def span(lines, node):
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    return (off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset)


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        body = getattr(n, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) \
                and isinstance(body[0].value, ast.Constant):
            doc.add(id(body[0]))
    out = []

    def sub(node, text, what):
        a, b = span(lines, node)
        raw = src.encode()
        out.append((node.lineno, what, (raw[:a] + text.encode() + raw[b:]).decode()))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = CMP[type(n.ops[0])]
            sub(n, f"({seg(src, n.left)} {new} {seg(src, n.comparators[0])})",
                f"{seg(src, n)} -> {new}")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                flip = ">" if isinstance(n.ops[0], (ast.Lt, ast.LtE)) else "<"
                sub(n, f"({seg(src, n.left)} {flip} {seg(src, n.comparators[0])})",
                    f"{seg(src, n)} -> {flip}")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(
                    getattr(n.left, "value", None), str):
                continue
            sub(n, f"({seg(src, n.left)} {OPS[type(n.op)]} {seg(src, n.right)})",
                f"{seg(src, n)} -> {OPS[type(n.op)]}")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            sub(n, "(" + op.join(f"({seg(src, v)})" for v in n.values) + ")",
                f"{seg(src, n)} ->{op}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            sub(n, f"({seg(src, n.operand)})", f"{seg(src, n)} -> without the sign")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            for w in ({v + 1, max(v - 1, 0)} if isinstance(v, int) else {v * 2, v * 0.9}) - {v}:
                sub(n, repr(w), f"constant {v} -> {w}")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            sub(n, repr(not n.value), f"constant {n.value} flipped")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if CALLS.get(name):
                if isinstance(f, ast.Attribute):
                    text = f"{seg(src, f.value)}.{CALLS[name]}"
                else:
                    text = CALLS[name]
                sub(f, text, f"{seg(src, n)} -> {CALLS[name]}")
            if name == "copy" and not n.args and isinstance(f, ast.Attribute):
                sub(n, seg(src, f.value), f"{seg(src, n)} -> no copy")
            if name in ("abs", "float", "sorted", "list", "deepcopy", "try_invert", "symmetrize",
                        "nearest_pos_def", "make_pos_def") and len(n.args) == 1 and not n.keywords:
                sub(n, f"({seg(src, n.args[0])})", f"{seg(src, n)} -> its argument")
        elif isinstance(n, ast.IfExp):
            sub(n, f"({seg(src, n.body)})", f"{seg(src, n)} -> first branch")
            sub(n, f"({seg(src, n.orelse)})", f"{seg(src, n)} -> second branch")
        elif isinstance(n, ast.If):
            sub(n.test, f"(not ({seg(src, n.test)}))", f"if {seg(src, n.test)} -> negated")
            sub(n.test, "False", f"if {seg(src, n.test)} -> never")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if id(n) not in doc and not isinstance(n, ast.Assign):
                sub(n, "pass", f"{seg(src, n)} -> dropped")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
                sub(n, "pass", f"{seg(src, n)} -> dropped")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            sub(n, seg(src, n.value), f"{seg(src, n)} -> not transposed")
    good = []
    for line, what, text in out:
        try:
            compile(text, path, "exec")
            good.append((line, what, text))
        except SyntaxError:
            pass
    return good


def plan(rel, most):
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    hits = [p for p in props if rel in p["anchors"]["files"]]
    return [p["id"] for p in sorted(hits, key=lambda p: len(p["anchors"]["files"]))][:most]


def one(i, rel, line, what, text, checks, seed, verif):
    d = f"/tmp/mut/w{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for part in ("precise", "research"):
        shutil.copytree(os.path.join(REPO, part), os.path.join(d, part),
                        ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(d, rel), "w") as fh:
        fh.write(text)
    env = dict(os.environ, VERIF_REPO=d, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    res = "SURVIVED"
    t = subprocess.run(["/opt/venv/bin/python", "-c", "import precise"], cwd=d, env=env, timeout=120,
                       capture_output=True)
    if t.returncode:
        res = "no-import"
    else:
        for c in checks:
            try:
                p = subprocess.run([os.path.join(verif, "run.py"), c, "--seed", str(seed),
                                    "--shards", "1", "--no-evidence"], env=env, timeout=1500,
                                   capture_output=True, text=True)
            except subprocess.TimeoutExpired:
                res = f"timeout {c}"
                break
            if p.returncode == 1:
                res = f"caught {c}"
                break
            if p.returncode:
                res = f"error {c}: {(p.stdout + p.stderr)[-200:]!r}"
                break
    shutil.rmtree(d, ignore_errors=True)
    return f"{res:12} {rel}:{line} {' '.join(what.split())}"


def main():
    a = argparse.ArgumentParser()
    a.add_argument("files", nargs="+")
    a.add_argument("--jobs", type=int, default=8)
    a.add_argument("--max", type=int, default=10**9)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--only", default="")
    a.add_argument("--most", type=int, default=6)
    a.add_argument("--list", action="store_true")
    a.add_argument("--verif", default=HERE)
    a = a.parse_args()
    todo = []
    for rel in a.files:
        ms = mutants(os.path.join(REPO, rel))
        random.Random(a.seed).shuffle(ms)
        todo += [(rel, *m) for m in sorted(ms[: a.max], key=lambda m: m[0])]
    if a.list:
        for rel, line, what, _ in todo:
            print(f"{rel}:{line} {' '.join(what.split())}")
        print(len(todo))
        return
    with ThreadPoolExecutor(a.jobs) as ex:
        jobs = []
        for i, (rel, line, what, text) in enumerate(todo):
            checks = a.only.split(",") if a.only else plan(rel, a.most)
            jobs.append(ex.submit(one, f"{os.getpid()}_{i}", rel, line, what, text, checks, a.seed,
                                  a.verif))
        for j in jobs:
            print(j.result(), flush=True)


main()
