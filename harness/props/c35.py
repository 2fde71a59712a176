"""C35: the web edition of a paper numbers its equations as LaTeX does and changes nothing else."""

import contextlib
import glob
import io
import locale
import os
import runpy
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from harness.core import REPO, Violation
from harness.oracle import require

PROP = "C35"
RULE = ("A case is a LaTeX text put together from prose, numbered and unnumbered equations, labels "
        "and references (before and after the equation they name, also inside equations), so that "
        "the converted text is known by construction; or one with a reference to no equation, which "
        "must be refused; or one of the shipped papers, read line by line; non-trivial with at least "
        "two equations and two references.")
CASES = {"quick": 4800, "thorough": 60000}

PROSE = [
    "The gap", " is ", "\n", "\n\n", "$x_1$", "5\\%", "\\1", "\\g<0>", "\\\\", "~", "{", "}", "[2]",
    "\\[ a = b \\]", "\\begin{align} a &= b \\end{align}", "\\label{sec:one}", "\\ref{sec:one}",
    "\\begin{table}\\label{tab:t}\\end{table}", "\\cite{cotton2024}", "equation", "\\emph{eq:a}",
    "\\begin{equation*} z \\end{equation*}", "\\begin{equation*}\n y\n\\end{equation*}", "(1)",
    "\\tag{9}", "--", "  ", "\t", "\\end{document}", "\\begin{eqnarray} e \\end{eqnarray}", "eq:b",
]
WIDE = ["γ ≤ 1", "Schäfer", "→", "“so”"]
BODY = ["x", " = ", "\\frac{a}{b}", "\n", "\\\\", "\\1", "_{ij}", "&", "\\quad", "\\text{if }", "[", "]",
        "\\begin{cases} 1 \\\\ 0 \\end{cases}", "\\begin{pmatrix} a & b \\end{pmatrix}", "{", "}", " ",
        "\\gamma", "(2)", "\\nonumber x", "."]
KEYS = ["eq:a", "eq:ab", "eq:abc", "eq:1", "eq:12", "eq:a-b", "eq:a_b", "eq:a b", "eq:x.y", "eq:eq:a",
        "eq:A", "eq:+", "eq:a*", "eq:(", "eq:\\1", "eq:schur", "eq:"]


def spec():
    text = st.lists(st.integers(0, 60), max_size=4)
    item = st.one_of(
        st.tuples(st.just("text"), text, st.just(0), st.just(0)),
        st.tuples(st.just("eq"), text, st.integers(0, 3), st.integers(0, 30)),
        st.tuples(st.just("ref"), text, st.integers(0, 30), st.just(0)),
        st.tuples(st.just("refin"), text, st.integers(0, 30), st.integers(0, 30)),
    )
    doc = st.fixed_dictionaries({
        "items": st.one_of(*[st.lists(item, min_size=1, max_size=14)] * 9,
                           st.lists(item, min_size=20, max_size=60)),
        "lost": st.sampled_from([None] * 7 + ["eq:nowhere", "eq:aa", "eq:"]),
        "keys": st.permutations(KEYS),
    })
    return st.one_of(*[doc] * 40, st.just({"paper": True}))


def convert(text):
    """The script's output for a text, or None when it refuses."""
    d = tempfile.mkdtemp(prefix="web-")
    try:
        src, out = os.path.join(d, "in.tex"), os.path.join(d, "out.tex")
        with open(src, "w") as f:
            f.write(text)
        argv, sys.argv = sys.argv, ["_webtex.py", src, out]
        said = io.StringIO()
        try:
            with contextlib.redirect_stdout(said), contextlib.redirect_stderr(said):
                runpy.run_path(os.path.join(REPO, "docs", "_webtex.py"), run_name="__main__")
        except SystemExit as e:
            if e.code not in (None, 0):
                return None
        finally:
            sys.argv = argv
        with open(src) as f:
            require(f.read() == text, "the source text was changed")
        with open(out) as f:
            return f.read()
    finally:
        shutil.rmtree(d)


def build(spec):
    """The source, the text expected, and how many equations and references there are."""
    words = PROSE + (WIDE if "utf" in locale.getpreferredencoding(False).lower() else [])
    fresh = list(spec["keys"])
    plan, number, n = [], {}, 0
    for kind, text, a, b in spec["items"]:
        key = None
        if kind in ("eq", "refin"):
            n += 1
            if (kind == "refin" or a) and fresh:       # a == 0: an equation without a label
                key = fresh.pop()
                number[key] = n
        plan.append((kind, text, a, b, key, n))
    names, src, out, refs = list(number), [], [], 0
    for kind, text, a, b, key, k in plan:
        if kind == "text" or (kind == "ref" and not names):
            s = "".join(words[i % len(words)] for i in text)
            src.append(s)
            out.append(s)
        elif kind == "ref":
            m = names[a % len(names)]
            s = "".join(words[i % len(words)] for i in text)
            src.append(s + "\\eqref{" + m + "}")
            out.append(f"{s}({number[m]})")
            refs += 1
        else:
            parts = [BODY[i % len(BODY)] for i in text]
            done = list(parts)
            if kind == "refin" and names:
                m = names[a % len(names)]
                at = b % (len(parts) + 1)
                parts.insert(at, "\\eqref{" + m + "}")
                done.insert(at, f"({number[m]})")
                refs += 1
            if key is not None:
                at = b % (len(parts) + 1)
                parts.insert(at, "\\label{" + key + "}")
                done.insert(at, f"\\tag{{{k}}}")
            src.append("\\begin{equation}" + "".join(parts) + "\\end{equation}")
            out.append("\\[" + "".join(done) + "\\]")
    return "".join(src), "".join(out), n, refs, number


def check(spec, ctx):
    if spec.get("paper"):
        return papers(ctx)
    src, want, n, refs, number = build(spec)
    lost = spec["lost"]
    if lost is not None and lost not in number:
        at = len(src) if len(src) % 2 else 0
        bad = src[:at] + " \\eqref{" + lost + "} " + src[at:]
        require(convert(bad) is None, f"a reference to no equation ({lost}) is accepted in:\n{bad}")
        ctx.label("lost")
        ctx.counted()
    got = convert(src)
    if got is None:
        raise Violation(f"refused, though every reference has its equation:\n{src}")
    require(got == want, f"source:\n{src}\nconverted:\n{got}\nexpected:\n{want}")
    require(convert(want) == want, f"a text without numbered equations is changed:\n{want}")
    ctx.counted(2)
    ctx.label(f"equations:{min(n, 9)}", f"references:{min(refs, 9)}")
    ctx.hit(n >= 2 and refs >= 2)


def papers(ctx):
    """Shipped papers: equation by equation, with a scanner that knows no regular expressions."""
    for path in sorted(glob.glob(os.path.join(REPO, "papers", "*.tex"))):
        with open(path) as f:
            text = f.read()
        got = convert(text)
        require(got is not None, f"{path} is refused")
        B, E = "\\begin{equation}", "\\end{equation}"
        blocks = [piece.split(E, 1) for piece in text.split(B)[1:]]
        number = {}
        for k, (body, _) in enumerate(blocks, 1):
            if "\\label{eq:" in body:
                number["eq:" + body.split("\\label{eq:", 1)[1].split("}", 1)[0]] = k
        want = text.split(B)[0]
        for k, (body, after) in enumerate(blocks, 1):
            for m in number:
                body = body.replace("\\label{" + m + "}", f"\\tag{{{k}}}")
            want += "\\[" + body + "\\]" + after
        for m, k in number.items():
            want = want.replace("\\eqref{" + m + "}", f"({k})")
        require(got == want, f"{path}: converted otherwise than equation by equation")
        ctx.counted()
        ctx.label("paper:" + os.path.basename(path))
    ctx.hit(True)
