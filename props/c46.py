"""C46 Web editions keep the paper's equation numbers (docs/_webtex.py)."""
import os
import re
import runpy
import subprocess
import sys
import tempfile

from lib import core
from lib.util import case_rng

RULE = ("a case is a LaTeX document assembled from random pieces whose web form is assembled alongside, converted by the real "
        "script (imported, or run as the site build runs it), or a paper of the repository; non-trivial: at least two "
        "equations and one reference")
CLAUSES = ["text", "numbers", "tags", "unknown-label", "input-kept", "repeatable", "paper", "as-script", "comments"]

PROSE = ["Let $x \\in \\mathbb{R}^p$ be given.", "Costs rose by 5\\% in \\S\\ref{sec:a}.", "\\section{Model}\\label{sec:a}",
         "\\emph{An} aside: $a_{1}=\\{b\\}$, see \\cite{ref}.", "Schur — größer, naïve γ ∈ [0,1].", "\\[ y = z \\]", "",
         "\\begin{itemize}\\item one\\end{itemize}", "\\begin{equation*} u = v \\end{equation*}", "\\label{fig:one}",
         "\\begin{figure}\\caption{As \\ref{fig:one}}\\label{fig:two}\\end{figure}", "$$ m = n $$", "\\\\[2pt] A\\&B \\tag in text",
         "\\begin{equationarray} k \\end{equationarray}", "\\ref{sec:a} and \\pageref{sec:a}"]
BODY = ["x = y", "\\frac{a}{b} + \\sqrt{c}", "S_\\gamma = A - \\gamma B D^{-1} B^\\top", "\\begin{pmatrix}1&0\\\\0&1\\end{pmatrix}",
        "\\ell(\\theta) =\n  -\\tfrac12 \\log\\det\\Sigma", "\\text{if } x > 5\\%", "{}",
        " + ".join(f"a_{{{i}}} x^{{{i}}}" for i in range(300))]


def cases(tier, seed):
    n = 1 if tier == "quick" else 10
    return ([dict(what="made", rep=j) for j in range(300 * n)] + [dict(what="script", rep=j) for j in range(12 * n)]
            + [dict(what="papers", rep=0)])


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def document(rng, comments, size=24):
    """(source, web form, equations, references): both built piece by piece."""
    src, web, n, nrefs, labels = [], [], 0, 0, []
    names = [f"eq:{pick(rng, ['a', 'schur', 'long-name', 'x_1', 'Γ', 'fig:b', 'n.2'])}{i}" for i in range(size // 2)]
    rng.shuffle(names)
    pieces = [pick(rng, ["prose", "eq", "eq", "ref", "ref", "note"]) for _ in range(int(rng.integers(0 if size < 100 else size // 2, size + 1)))]
    plan = []
    for k in pieces:  # decide the labels first: references may point forward
        if k == "eq":
            n += 1
            lab = names.pop() if rng.random() < 0.7 and names else None
            if lab:
                labels.append((lab, n))
            plan.append((k, n, lab))
        else:
            plan.append((k, None, None))
    for k, num, lab in plan:
        if k == "prose" or (k == "ref" and not labels) or (k == "note" and not comments):
            s = w = pick(rng, PROSE)
        elif k == "note":
            l, _ = pick(rng, labels) if labels else ("eq:none", 0)
            s = w = pick(rng, ["% \\begin{equation} old \\end{equation}", "text % see \\eqref{eq:gone}", "%", "% 50\\% off",
                               "%\\begin{equation}\\label{" + l + "z} q \\end{equation}", "as \\\\% \\eqref{" + l + "}",
                           "% \\begin{equation}\n%   w = \\eqref{eq:gone}\n  % \\end{equation}"]) + "\nnext line"
        elif k == "ref":
            (l, m), (l2, m2) = pick(rng, labels), pick(rng, labels)
            t = pick(rng, ["by %s.", "(%s)", "see %s and %s", "%s", "$x$ in %s,\n%s", "~%s", "{%s}", "3\\%% of %s"])
            c = t.replace("%%", "").count("%s")
            s = t % (("\\eqref{%s}" % l, "\\eqref{%s}" % l2)[:c])
            w = t % (("(%d)" % m, "(%d)" % m2)[:c])
            nrefs += c
        else:
            b, pad = pick(rng, BODY), pick(rng, ["", " ", "\n", "\n  "])
            inner = ""
            if labels and rng.random() < 0.2:
                inner = pick(rng, labels)
            ref_s, ref_w = (" \\text{by \\eqref{%s}}" % inner[0], " \\text{by (%d)}" % inner[1]) if inner else ("", "")
            nrefs += bool(inner)
            if comments and rng.random() < 0.3:
                b += " % was \\label{eq:old} \\eqref{eq:gone}\n"
            L, G = ("\\label{%s}" % lab, "\\tag{%d}" % num) if lab else ("", "")
            if rng.random() < 0.5:
                s, w = L + pad + b + ref_s, G + pad + b + ref_w
            else:
                s, w = pad + b + ref_s + L + pad, pad + b + ref_w + G + pad
            s, w = "\\begin{equation}" + s + "\\end{equation}", "\\[" + w + "\\]"
        sep = pick(rng, ["\n", " ", "\n\n"]) if k != "note" else "\n"
        src.append(s + sep)
        web.append(w + sep)
    return "".join(src), "".join(web), n, nrefs


def load():
    return runpy.run_path(os.path.join(core._REPO, "docs", "_webtex.py"), run_name="webtex")["main"]


def put(path, s):
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(s)


def get(path):
    with open(path, encoding="utf-8", newline="") as f:
        return f.read()


def run(case, mon):
    with tempfile.TemporaryDirectory(prefix="verif-c46-") as d:
        globals()["do_" + case["what"]](case, mon, case_rng(case), d)


def do_made(case, mon, rng, d):
    main = load()
    comments = case["rep"] % 3 == 0
    src, web, n, refs = document(rng, comments, 900 if case["rep"] % 40 == 7 else 24)
    a, b = os.path.join(d, "a.tex"), os.path.join(d, "b.tex")
    put(a, src)
    if rng.random() < 0.3:
        put(b, "stale " * 500)
    main(a, b)
    got = get(b)
    mon.ok("input-kept", get(a) == src, "the source was changed")
    i = next((i for i, (x, y) in enumerate(zip(got + "\0", web + "\0")) if x != y), None)
    mon.ok("comments" if comments else "text", got == web,
           lambda: f"document of {n} equations: ...{got[max(0, i - 60):i + 60]!r} where {web[max(0, i - 60):i + 60]!r} is expected")
    mon.evals["numbers"] += refs
    mon.evals["tags"] += n
    main(a, b)
    mon.ok("repeatable", get(b) == web, "a second conversion differs")
    gone = src + "\n\\eqref{eq:nowhere}\n"
    put(a, gone)
    c = os.path.join(d, "c.tex")
    try:
        main(a, c)
        mon.ok("unknown-label", False, "a reference to a label no equation has was accepted")
    except SystemExit as e:
        mon.ok("unknown-label", e.code not in (0, None) and "eq:nowhere" in str(e.code), f"exit {e.code!r}")
        mon.ok("unknown-label", not os.path.exists(c), "a page was written in spite of a dangling reference")
    mon.see("equations", n)
    mon.see("references", refs)
    if n > 1 and refs:
        mon.keys.add(src)
    mon.sample = {"source": src[:200], "web": web[:200]}


def do_script(case, mon, rng, d):
    src, web, n, refs = document(rng, False)
    a, b = os.path.join(d, "a.tex"), os.path.join(d, "b.tex")
    put(a, src)
    cmd = [sys.executable, os.path.join(core._REPO, "docs", "_webtex.py"), a, b]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=d)
    mon.ok("as-script", r.returncode == 0 and get(b) == web, f"exit {r.returncode} {r.stderr[-300:]}")
    put(a, src + "\\eqref{eq:nowhere}")
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=d)
    mon.ok("as-script", r.returncode != 0 and "eq:nowhere" in r.stderr and get(b) == web,
           f"dangling reference: exit {r.returncode} {r.stderr[-300:]}")


def do_papers(case, mon, rng, d):
    """The repository's papers: every equation numbered in order, every reference resolved, nothing else touched."""
    main = load()
    folder = os.path.join(core._REPO, "papers")
    for f in sorted(os.listdir(folder)):
        if not f.endswith(".tex"):
            continue
        src, b = get(os.path.join(folder, f)), os.path.join(d, f)
        main(os.path.join(folder, f), b)
        got = get(b)
        # walk the source with a scanner of its own
        want, num, n, pos, parts = [], {}, 0, 0, []
        while True:
            i = src.find("\\begin{equation}", pos)
            if i < 0:
                parts.append(("text", src[pos:]))
                break
            j = src.index("\\end{equation}", i)
            parts += [("text", src[pos:i]), ("eq", src[i + 16:j])]
            pos = j + 14
        for k, s in parts:
            if k == "eq":
                n += 1
                while "\\label{eq:" in s:
                    i = s.index("\\label{eq:")
                    j = s.index("}", i)
                    num[s[i + 7:j]] = n
                    s = s[:i] + "\\tag{%d}" % n + s[j + 1:]
                s = "\\[" + s + "\\]"
            want.append(s)
        want = "".join(want)
        for k, v in num.items():
            want = want.replace("\\eqref{%s}" % k, "(%d)" % v)
        mon.ok("paper", got == want and "\\eqref{eq:" not in got and get(os.path.join(folder, f)) == src, f"{f}: differs")
        mon.see("paper equations", n)
        mon.see("paper references", len(re.findall(r"\\eqref\{eq:", src)))
        mon.keys.add(f)
