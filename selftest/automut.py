"""Mutation testing of the checks: every single-point mutant of the sources; prints the mutants no check reports.
automut.py OUT.jsonl [--files main,sfe,..] [--stride n] [--offset k] [--workers n]"""
import argparse, ast, copy, json, os, shutil, subprocess, sys, tempfile
from multiprocessing.pool import ThreadPool
import common

FILES = {"main": common.MAIN, "sfe": common.SFE, "sc2": common.SC2, "tsf": common.TSF, "rbf": common.RBF, "ot": common.OT, "tu": "utils/utils_pytorch.py"}
SWAP = {"Z": ["B", "Ztr"], "B": ["Z"], "Ztr": ["Z"], "y1": ["y2"], "y2": ["y1"], "f": ["f_true"], "f_true": ["f"], "N": ["dim", "N_sparse"],
        "N_sparse": ["N"], "dim": ["N"], "min": ["max"], "max": ["min"], "mean": ["median"], "std": ["var"], "exp": ["log"], "sum": ["max"], "zeros": ["ones"],
        "sqrt": ["abs"], "t1": ["t2"], "t2": ["t1"], "float64": ["float32"], "uniform": ["normal"], "normal": ["uniform"], "normal_": ["uniform_"], "T": [None]}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def functions(tree):
    out = []

    def rec(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                rec2 = q + [c.name]
                if isinstance(c, ast.FunctionDef):
                    out.append((".".join(rec2), c))
                else:
                    rec(c, rec2)
    rec(tree, [])
    return out


def mutants(src):
    """yield (function, description, new source)"""
    tree = ast.parse(src)
    for q, fn in functions(tree):
        names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)}
        skip = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(("logging", "plt", "print", "warnings")):
                skip |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Tuple)):
                skip |= {id(x) for x in ast.walk(n)}
        nodes = [n for n in ast.walk(fn) if id(n) not in skip and n is not fn]
        parent = {}
        for n in ast.walk(fn):
            for c in ast.iter_child_nodes(n):
                parent[id(c)] = n
        for n in nodes:
            for desc, do in points(n, parent.get(id(n)), names):
                undo = do()
                if undo is None:
                    continue
                try:
                    new = ast.unparse(ast.fix_missing_locations(tree))
                    ast.parse(new)
                except Exception:
                    new = None
                undo()
                if new:
                    yield q, f"L{getattr(n, 'lineno', 0)} {desc}", new


def setter(o, a, v):
    def do():
        old = getattr(o, a)
        setattr(o, a, v)
        return lambda: setattr(o, a, old)
    return do


def points(n, par, names):
    u = lambda x: ast.unparse(x)[:70]
    if isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            yield f"{v}->{not v} in {u(par)}", setter(n, "value", not v)
        elif isinstance(v, int):
            yield f"{v}->{v + 1} in {u(par)}", setter(n, "value", v + 1)
            if v > 1:
                yield f"{v}->{v - 1} in {u(par)}", setter(n, "value", v - 1)
        elif isinstance(v, float):
            yield f"{v}->{v * 2 + 1e-9} in {u(par)}", setter(n, "value", v * 2 + 1e-9)
        elif isinstance(v, str) and par is not None and isinstance(par, ast.Compare):
            yield f"{v!r}->'zz' in {u(par)}", setter(n, "value", "zz")
    if isinstance(n, ast.BinOp):
        if type(n.op) in BIN:
            yield f"op of {u(n)}", setter(n, "op", BIN[type(n.op)]())
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)) and par is not None:
            yield f"drop right of {u(n)}", replacer(par, n, n.left)
            yield f"drop left of {u(n)}", replacer(par, n, n.right)
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
        o = n.ops[0]

        def do(o=o):
            n.ops[0] = CMP[type(o)]()

            def un():
                n.ops[0] = o
            return un
        yield f"cmp of {u(n)}", do
    if isinstance(n, ast.BoolOp):
        yield f"bool of {u(n)}", setter(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and par is not None:
        yield f"drop unary {u(n)} in {u(par)}", replacer(par, n, n.operand)
    if isinstance(n, ast.Attribute):
        for s in SWAP.get(n.attr, []):
            if s is None:
                yield f"drop .T of {u(n)} in {u(par)}", replacer(par, n, n.value)
            elif isinstance(n.ctx, ast.Load) or n.attr in ("Z", "B", "Ztr"):
                yield f"{n.attr}->{s} in {u(par)}", setter(n, "attr", s)
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        for m in sorted(names):
            if m != n.id and near(m, n.id):
                yield f"{n.id}->{m} in {u(par)}", setter(n, "id", m)
    if isinstance(n, ast.Call):
        if ast.unparse(n.func) in ("torch.t", "min", "max"):
            if ast.unparse(n.func) == "torch.t":
                yield f"drop t() {u(n)}", replacer(par, n, n.args[0])
            else:
                yield f"swap {u(n)}", setter(n.func, "id", "min" if n.func.id == "max" else "max")
        for k in range(len(n.keywords)):
            def do(k=k):
                kw = n.keywords[k]
                del n.keywords[k]

                def un():
                    n.keywords.insert(k, kw)
                return un
            if n.keywords[k].arg not in ("loc",):
                yield f"drop {n.keywords[k].arg}= of {u(n)}", do
    for fld in ("body", "orelse"):
        L = getattr(n, fld, None)
        if not isinstance(L, list):
            continue
        for i, s in enumerate(L):
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.For)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and "logging" not in u(s) and "plt" not in u(s):
                def do(L=L, i=i, s=s):
                    L[i] = ast.Pass()

                    def un():
                        L[i] = s
                    return un
                yield f"delete {u(s)}", do
    if isinstance(n, ast.If):
        yield f"if True: {u(n.test)}", setter(n, "test", ast.Constant(True))
        yield f"if False: {u(n.test)}", setter(n, "test", ast.Constant(False))


def near(a, b):
    if abs(len(a) - len(b)) > 1 or min(len(a), len(b)) < 2:
        return len(a) == len(b) == 1 and {a, b} <= set("ij") or {a, b} in ({"X", "Z"}, {"x", "y"}, {"ti", "tt"}, {"n", "m"})
    d = sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))
    return d == 1


def replacer(par, old, new):
    def do():
        for f, v in ast.iter_fields(par):
            if v is old:
                setattr(par, f, new)
                return lambda: setattr(par, f, old)
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new

                        def un():
                            v[i] = old
                        return un
        return None
    return do


def one(job):
    file, q, desc, new = job
    d = tempfile.mkdtemp(prefix="avn_")
    try:
        common.copy(d)
        open(os.path.join(d, common.PKG, FILES[file]), "w").write(new)
        try:
            p = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "first.py"), d, file, q], capture_output=True, text=True, timeout=900)
            out = p.stdout.strip().split("\n")[-1] if p.stdout.strip() else "ERR " + p.stderr[-300:]
        except subprocess.TimeoutExpired:
            out = "TIMEOUT"
    finally:
        shutil.rmtree(d)
    return dict(file=file, fn=q, mut=desc, out=out)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--files", default="main,sfe,sc2,tsf,rbf,ot,tu")
    a.add_argument("--stride", type=int, default=1)
    a.add_argument("--offset", type=int, default=0)
    a.add_argument("--workers", type=int, default=6)
    a.add_argument("--fn", default="")
    a.add_argument("--list", action="store_true")
    a = a.parse_args()
    jobs = []
    for f in a.files.split(","):
        src = open(os.path.join("/repo", common.PKG, FILES[f])).read()
        for q, d, new in mutants(src):
            if a.fn in q:
                jobs.append((f, q, d, new))
    jobs = jobs[a.offset::a.stride]
    if a.list:
        for j in jobs:
            print(*j[:3])
        print(len(jobs))
        return
    with open(a.out, "a") as fh, ThreadPool(a.workers) as p:
        for r in p.imap_unordered(one, jobs):
            fh.write(json.dumps(r) + "\n")
            fh.flush()


if __name__ == "__main__":
    main()
