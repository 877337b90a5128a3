"""Edits of a scratch copy of the package: refactorings (checks must stay quiet) and mutants."""
import ast, os, shutil, textwrap

MAIN = "DeterministicParticleFlowControl.py"
SFE = "score_estimators/score_function_estimators.py"
SC2 = "score_estimators/score.py"
TSF = "score_estimators/score_function_estimators_pytorch.py"
RBF = "kernels/RBF_pytorch.py"
OT = "reweighting/optimal_transport_reweighting.py"
PKG = "DeterministicParticleFlowControl"


def copy(dst, src="/repo"):
    shutil.copytree(os.path.join(src, PKG), os.path.join(dst, PKG))
    for f in os.listdir(src):
        p = os.path.join(src, f)
        if os.path.isfile(p):
            shutil.copy(p, dst)


def find(tree, qual):
    cur = tree
    for part in qual.split("."):
        for n in ast.walk(cur):
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == part and n is not cur:
                cur = n
                break
        else:
            raise KeyError(qual)
    return cur


def span(src, qual):
    n = find(ast.parse(src), qual)
    a = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
    return a, n.end_lineno, n.col_offset


def replace(src, qual, code):
    """replace the function `qual` (Class.method or function) by code"""
    a, b, col = span(src, qual)
    lines = src.split("\n")
    new = textwrap.indent(textwrap.dedent(code).strip("\n"), " " * col).split("\n")
    return "\n".join(lines[:a] + new + lines[b:])


def before(src, qual, code):
    a, b, col = span(src, qual)
    lines = src.split("\n")
    new = textwrap.indent(textwrap.dedent(code).strip("\n"), " " * col).split("\n")
    return "\n".join(lines[:a] + new + [""] + lines[a:])


def sub(src, old, new, count=1, which=None):
    n = src.count(old)
    if which is not None:
        i = -1
        for _ in range(which + 1):
            i = src.index(old, i + 1)
        return src[:i] + new + src[i + len(old):]
    if n < 1 or (count and n != count):
        raise KeyError(f"{n} occurrences of {old!r}")
    return src.replace(old, new)


def within(src, qual, old, new, count=1):
    """substitute inside one function"""
    a, b, _ = span(src, qual)
    lines = src.split("\n")
    part = "\n".join(lines[a:b])
    return "\n".join(lines[:a] + [sub(part, old, new, count)] + lines[b:])


def apply(root, edits):
    for f, op, *args in edits:
        p = os.path.join(root, PKG, f)
        s = open(p).read()
        s = {"replace": replace, "before": before, "sub": sub, "within": within}[op](s, *args)
        ast.parse(s)
        open(p, "w").write(s)
