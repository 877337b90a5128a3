"""Generator functions of the package.  A `for` over a generator runs the generator's body in the
consumer's frame with the loop body in place of each `yield` (so effects interleave as at run time);
any other use collects the yielded values, which is only done for generators without effects."""
import ast
import copy
from .terms import Undecided
from .values import *


class GenCall:
    def __init__(self, f, bound):
        self.f, self.bound = f, bound

    def __repr__(self):
        return f"<generator {self.f.qual}>"


def is_generator(node):
    c = getattr(node, "_gen", None)
    if c is None:
        c = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(node))
        node._gen = c
    return c


def own(fn):
    """nodes of the function itself, without nested functions"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


class Rename(ast.NodeTransformer):
    def __init__(self, names, emit):
        self.names, self.emit = names, emit

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.copy_location(ast.Name(self.names[n.id], n.ctx), n)
        return n

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            w = v.value if v.value is not None else ast.copy_location(ast.Constant(None), v)
            return self.emit(self.visit(w), isinstance(v, ast.YieldFrom), n)
        return self.generic_visit(n)


def prepare(f, tag, emit):
    fn = f.node
    for x in own(fn):
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.AsyncFor, ast.Await)):
            raise Undecided(f"generator function {f.qual} with {type(x).__name__}")
    body = list(fn.body)
    if body and isinstance(body[-1], ast.Return) and body[-1].value is None:
        body = body[:-1]
    free = set()
    stmts = ast.Module(body, [])
    if any(isinstance(x, ast.Return) for st in body for x in ast.walk(st)):
        raise Undecided(f"generator function {f.qual} that returns early")
    yields = sum(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn))
    plain = sum(isinstance(x, ast.Expr) and isinstance(x.value, (ast.Yield, ast.YieldFrom)) for x in own(fn))
    if yields != plain:
        raise Undecided(f"generator function {f.qual} that receives values")
    a = fn.args
    local = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [q for q in (a.vararg, a.kwarg) if q]}
    for x in ast.walk(stmts):
        if isinstance(x, ast.Name):
            (local if isinstance(x.ctx, ast.Store) else free).add(x.id)
    names = {n: f"{n}@{tag}" for n in local}
    r = Rename(names, emit)
    out = []
    for st in body:
        z = r.visit(copy.deepcopy(st))
        out += z if isinstance(z, list) else [z]
    for st in out:
        ast.fix_missing_locations(st)
    return out, names, free - local


def _breaks(body):
    for st in body:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, (ast.For, ast.While)):
            if _breaks(st.orelse):
                return True
            continue
        for fld in ("body", "orelse", "finalbody"):
            if _breaks(getattr(st, fld, None) or []):
                return True
        if any(_breaks(h.body) for h in getattr(st, "handlers", []) or []):
            return True
        if any(_breaks(c.body) for c in getattr(st, "cases", []) or []):
            return True
    return False


def consume(I, g, s):
    """for s.target in g: s.body"""
    f = g.f
    if _breaks(s.body):
        raise Undecided(f"break in a loop over the generator {f.qual}")
    cache = I.__dict__.setdefault("genbodies", {})
    key = (f.node, s)
    if key not in cache:
        def emit(v, many, at):
            it = v if many else ast.Tuple([v], ast.Load())
            n = ast.For(s.target, it, s.body, [])
            n.lineno, n.col_offset = at.lineno, at.col_offset
            return n
        cache[key] = prepare(f, f"gen{len(cache)}", emit)
    body, names, free = cache[key]
    fr = I.frames[-1]
    if fr.module is not f.module or f.frame is not f.module.frame:
        raise Undecided(f"generator {f.qual} used outside its module")
    hid = {x for x in free if x in fr.vars} if fr is not f.module.frame else set()
    if hid:
        raise Undecided(f"generator {f.qual} and its consumer share the names {sorted(hid)}")
    for n, v in g.bound.items():
        fr.vars[names[n]] = v
    I.touched.add(f.qual)
    return I.exec_block(list(body) + list(s.orelse))


def _continues(body):
    for st in body:
        if isinstance(st, ast.Continue):
            return True
        if isinstance(st, (ast.For, ast.While)):
            if _continues(st.orelse):
                return True
            continue
        for fld in ("body", "orelse", "finalbody"):
            if _continues(getattr(st, fld, None) or []):
                return True
    return False


def around(I, g, target, s):
    """with g as target: s.body, for a generator made a context manager"""
    if not any(d.endswith("contextmanager") for d in g.f.deco):
        raise Undecided(f"with statement over the generator {g.f.qual}")
    if _continues(s.body) or any(isinstance(x, ast.Return) for st in s.body for x in ast.walk(st)):
        raise Undecided("context manager left early")
    cache = I.__dict__.setdefault("genwith", {})
    if s not in cache:
        t = target if target is not None else ast.copy_location(ast.Name(f"@with{len(cache)}", ast.Store()), s)
        cache[s] = ast.copy_location(ast.For(t, None, s.body, []), s)
    return consume(I, g, cache[s])


def nested(I, it, s):
    """for a, b in product(x, y): body as nested loops over the parts"""
    if _breaks(s.body) or s.orelse:
        raise Undecided("break in a loop over a product")
    cache = I.__dict__.setdefault("products", {})
    k = len(it.parts)
    if (s, k) not in cache:
        tag = f"@prod{len(cache)}."
        tup = ast.Tuple([ast.Name(f"{tag}v{i}", ast.Load()) for i in range(k)], ast.Load())
        body = [ast.Assign([s.target], tup)] + list(s.body)
        for i in range(k - 1, -1, -1):
            body = [ast.For(ast.Name(f"{tag}v{i}", ast.Store()), ast.Name(f"{tag}p{i}", ast.Load()), body, [])]
        for x in ast.walk(body[0]):
            if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, "lineno"):
                ast.copy_location(x, s)
        ast.fix_missing_locations(body[0])
        cache[(s, k)] = (tag, body)
    tag, body = cache[(s, k)]
    for i, (n, get, conc) in enumerate(it.parts):
        I.frames[-1].vars[f"{tag}p{i}"] = PyList(conc) if conc is not None else Iter(n, get)
    return I.exec_block(body)


PURE = {"range", "enumerate", "zip", "len", "reversed", "min", "max", "int", "float", "abs", "sum", "sorted", "tuple", "list"}


def collect(I, g):
    """the yielded values as a list, for generators without effects"""
    f = g.f
    for x in own(f.node):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
            raise Undecided(f"generator function {f.qual} with effects used as a sequence")
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in PURE):
            raise Undecided(f"generator function {f.qual} with calls used as a sequence")
    cache = I.__dict__.setdefault("genlists", {})
    if f.node not in cache:
        def emit(v, many, at):
            c = ast.Expr(ast.Call(ast.Attribute(ast.Name("@out", ast.Load()), "extend" if many else "append", ast.Load()), [v], []))
            c.lineno, c.col_offset = at.lineno, at.col_offset
            return ast.fix_missing_locations(ast.copy_location(c, at))
        body, names, _ = prepare(f, "list", emit)
        first = ast.parse("x = []\nreturn_ = x").body
        first[0].targets[0].id = "@out"
        ret = ast.Return(ast.Name("@out", ast.Load()))
        fn = ast.FunctionDef(f.node.name, ast.arguments([], [], None, [], [], None, []), [first[0]] + body + [ret], [], None)
        fn.lineno, fn.col_offset = f.node.lineno, f.node.col_offset
        for x in ast.walk(fn):
            if not hasattr(x, "lineno") and isinstance(x, (ast.stmt, ast.expr)):
                x.lineno, x.col_offset = fn.lineno, 0
        fn._gen = False
        cache[f.node] = (fn, names)
    fn, names = cache[f.node]
    h = Func(fn, f.frame, f.module, f.name, cls=f.cls)
    fr = Frame(f.frame, f.module, h)
    return I.run_body(h, fr, {names[n]: v for n, v in g.bound.items()})
