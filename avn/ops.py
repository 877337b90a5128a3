"""Array operations of the analysis: elementwise, reductions, products, reshaping."""
from . import terms as T
from .terms import E, B, CTX, num, sym, ite, and_, or_, not_, ge, gt, eq, ind, ZERO, ONE, TRUE, FALSE, Undecided, app, bapp
from .values import *
from . import interp as IT


def one(s):
    return s.const == 1


def asnum(b):
    return ind(b) if isinstance(b, B) else b


def asbool(b):
    return b if isinstance(b, B) else T.boolE(b)


def arrs(I, vs):
    """values -> arrays; None when one is unknown (then second item is it)"""
    out = []
    for v in vs:
        a = I.toarray(v)
        if isinstance(a, Unk):
            return None, a
        out.append(a)
    return out, None


def check_mix(I, xs, what="operation"):
    th = [x for x in xs if isinstance(x, Arr) and x.lib == "th"]
    big = [x for x in xs if isinstance(x, Arr) and x.lib == "np" and x.ndim > 0]
    if th and big:
        I.event("device", f"{what} mixes NumPy arrays and tensors")


def ew(I, fn, xs, dtype=None, what="operation", boolin=False):
    """elementwise function of broadcast arrays; fn gets and returns terms"""
    xs, bad = arrs(I, xs)
    if xs is None:
        return bad
    check_mix(I, xs, what)
    shape = I.bshape([x.shape for x in xs], I.node, what)
    bs = [I.expand(x, shape) for x in xs]
    bs = [asbool(b) if boolin else b for b in bs]
    with I.axes(shape):
        r = fn(*bs)
    res = I.derived(shape, r, *xs, dtype=dtype)
    if len(shape) == 3 and isinstance(r, E):
        pair_meta(what, xs, bs, r, res)
    return res


def pair_meta(what, xs, bs, r, res):
    """remember differences of all pairs of points and their squares, so that the sum over the
    coordinates can stay a folded distance"""
    from .lib import plain
    if what == "-" and len(xs) == 2:
        a, b = [frozenset(x.free) & {"@0", "@1", "@2"} for x in bs]
        c = a & b
        if len(a) == len(b) == 2 and len(c) == 1 and not (plain(bs[0]) and plain(bs[1])):
            c = min(c)
            res.meta = ("pairdiff", r.key, c, min(a - {c}), min(b - {c}), bs[0], bs[1])
    elif len(xs) in (1, 2) and isinstance(xs[0], Arr) and xs[0].meta and xs[0].meta[0] == "pairdiff" and isinstance(bs[0], E):
        d = bs[0]
        if d.key == xs[0].meta[1] and r.key == (d * d).key:
            res.meta = ("pairsq", r.key) + xs[0].meta[2:]


def pair_sum(I, a, axes, body):
    """sum of squared pair differences over the coordinates, folded; None when it is not that"""
    m = a.meta
    if not m or m[0] != "pairsq" or len(axes) != 1 or body.key != m[1]:
        return None
    c, ai, bi, A, B_ = m[2:]
    if f"@{axes[0]}" != c:
        return None
    n = a.shape[axes[0]]
    rest = [f"@{i}" for i in range(3) if f"@{i}" != c]
    v = T.fresh()
    shape = [a.shape[int(x[1:])] for x in rest]
    with I.axes(shape), CTX.bounds({v: n}):
        mp = {x: ph(j) for j, x in enumerate(rest)}
        mp[c] = sym(v)
        xa, xb = T.subst(A, mp), T.subst(B_, mp)
        if ai != rest[0]:
            xa, xb = xb, xa
        return app("eucl2", T.lam((n,), (v,), xa), T.lam((n,), (v,), xb))


def nfn(fn):
    return lambda *bs: fn(*[asnum(b) for b in bs])


def float_dtype(xs):
    """result dtype of an operation that always gives floats"""
    fl = [x for x in xs if isinstance(x, Arr) and x.dtype in ("float32", "float64")]
    if any(isinstance(x, Arr) and x.lib == "th" for x in xs):
        if not any(x.lib == "th" for x in fl):
            return "float32"
        return None
    return "float64" if not any(x.dtype == "float32" for x in fl) else None


_ARITH = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
          "Div": lambda a, b: a / b}


def _pow(a, b):
    c = b.const
    if c is not None:
        return T.power(a, c)
    if isinstance(a, E) and a.const is not None and a.const == 1:
        return ONE
    return app("pow", a, b)


def _mod(a, b):
    if a.const is not None and b.const is not None and b.const != 0:
        return num(a.const - b.const * (a.const / b.const).__floor__())
    return a - b * T.floordiv(a, b)


INPLACE = {"Add", "Sub", "Mult", "Div", "Pow", "MatMult"}


def binop(I, op, a, b):
    a, b = I.force(a), I.force(b)
    if isinstance(a, Choice):
        return I.lift(a, lambda x: binop(I, op, x, b))
    if isinstance(b, Choice):
        return I.lift(b, lambda x: binop(I, op, a, x))
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and op == "Mod":
            return "<formatted>"
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b if "<" not in a + b else "<formatted>"
        if op == "Mult":
            return "<formatted>"
        I.event("type", f"bad operands for {op}: {describe(a)} and {describe(b)}")
        return I.unk("string operation")
    pyseq = (PyList,)
    if isinstance(a, pyseq) and isinstance(b, pyseq) and op == "Add":
        ca, cb = I.items(a), I.items(b)
        if isinstance(ca, tuple) and isinstance(cb, tuple):
            return PyList(ca + cb, a.kind)
        if isinstance(ca, tuple) and isinstance(cb, SymSeq):
            return PyList(SymSeq(cb.n, cb.v, cb.elem, list(ca) + list(cb.head)), a.kind)
        return I.unk("list concatenation")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, PyList) and op == "Mult" and isinstance(y, Arr) and y.ndim == 0 and y.dtype == "int" and y.lib in ("py", "np"):
            c = I.items(x)
            n = I.asE(y)
            if isinstance(c, tuple) and n.const is not None:
                return PyList(c * int(n.const), x.kind)
            if isinstance(c, tuple) and len(c) == 1:
                v = T.fresh("%l")
                T.INTS.add(v)
                return PyList(SymSeq(n, v, I.freeze(c[0])), x.kind)
            if isinstance(c, SymSeq):
                I.event("type", "a list is repeated instead of scaled")
            return I.unk("list repetition")
    ok = (Arr, PyList, Iter, Range)
    if not isinstance(a, ok) or not isinstance(b, ok):
        if isinstance(a, (Lib, Dist)) or isinstance(b, (Lib, Dist)):
            return I.unk("operation on a library object")
        I.event("type", f"bad operands for {op}: {describe(a)} and {describe(b)}")
        return I.unk("bad operands")
    # list and array
    if isinstance(a, PyList) and isinstance(b, Arr) and b.lib in ("py", "th") or \
            isinstance(b, PyList) and isinstance(a, Arr) and a.lib in ("py", "th"):
        I.event("type", f"bad operands for {op}: {describe(a)} and {describe(b)}")
        return I.unk("bad operands")
    xs, bad = arrs(I, [a, b])
    if xs is None:
        return bad
    a, b = xs
    if op == "MatMult":
        return matmul(I, a, b)
    if op in _ARITH:
        if a.dtype == b.dtype == "bool" and a.lib != "py" and b.lib != "py" and op in ("Add", "Mult"):
            return ew(I, (lambda x, y: or_(x, y)) if op == "Add" else (lambda x, y: and_(x, y)), xs, boolin=True)
        dt = float_dtype(xs) if op == "Div" else None
        if dt is None and a.dtype == b.dtype == "bool":
            dt = "int"
        return ew(I, nfn(_ARITH[op]), xs, dtype=dt, what={"Add": "+", "Sub": "-", "Mult": "*", "Div": "/"}[op])
    if op == "Pow":
        return ew(I, nfn(_pow), xs, what="**", dtype="float64" if a.dtype == "int" and b.dtype == "int" and I.nbody(b).const is not None and I.nbody(b).const < 0 else None)
    if op == "FloorDiv":
        return ew(I, nfn(T.floordiv), xs)
    if op == "Mod":
        return ew(I, nfn(_mod), xs)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a.dtype == "bool" and b.dtype == "bool":
            f = {"BitAnd": lambda x, y: and_(x, y), "BitOr": lambda x, y: or_(x, y),
                 "BitXor": lambda x, y: or_(and_(x, not_(y)), and_(not_(x), y))}[op]
            return ew(I, f, xs, boolin=True)
        return I.unk("integer bit operation")
    return I.unk(f"operator {op}")


def compare(I, op, a, b):
    a, b = I.force(a), I.force(b)
    if op in ("Is", "IsNot"):
        if isinstance(a, Choice) or isinstance(b, Choice):
            c, o = (a, b) if isinstance(a, Choice) else (b, a)
            return I.lift(c, lambda x: compare(I, op, x, o))
        if isinstance(a, Unk) or isinstance(b, Unk):
            return a if isinstance(a, Unk) else b
        r = same_object(a, b)
        if r is None:
            return I.unk("identity test")
        return pynum(r == (op == "Is"))
    if op in ("In", "NotIn"):
        if isinstance(b, Unk):
            return b
        r = contains(I, a, b)
        if r is None:
            return I.unk("membership test")
        return pynum(r if op == "In" else not_(r)) if isinstance(r, B) else pynum(r == (op == "In"))
    if isinstance(a, Choice):
        return I.lift(a, lambda x: compare(I, op, x, b))
    if isinstance(b, Choice):
        return I.lift(b, lambda x: compare(I, op, a, x))
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    scal = lambda v: v is None or isinstance(v, (str, Lib, Func, Class, Obj, UserFn, Module))
    if scal(a) or scal(b):
        if op in ("Eq", "NotEq"):
            if isinstance(a, Arr) and b is None or isinstance(b, Arr) and a is None:
                x = a if isinstance(a, Arr) else b
                if x.lib == "np" and x.ndim:
                    return mk(x.shape, T.boolc(op == "NotEq"), "np", "bool")
            if isinstance(a, str) and isinstance(b, str):
                if "<formatted>" in a or "<formatted>" in b:
                    return I.unk("string comparison")
                return pynum((a == b) == (op == "Eq"))
            r = same_object(a, b)
            return pynum((r is True) == (op == "Eq"))
        if isinstance(a, str) and isinstance(b, str):
            return pynum({"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op])
        if isinstance(a, Lib) or isinstance(b, Lib):
            return I.unk("comparison with a library object")
        I.event("type", f"cannot compare {describe(a)} and {describe(b)}")
        return I.unk("comparison")
    if isinstance(a, PyList) and isinstance(b, PyList):
        ca, cb = I.items(a), I.items(b)
        if isinstance(ca, tuple) and isinstance(cb, tuple):
            if op in ("Eq", "NotEq"):
                if len(ca) != len(cb) or a.kind != b.kind:
                    return pynum(op == "NotEq")
                r = and_(*[I.truth(compare(I, "Eq", x, y)) for x, y in zip(ca, cb)])
                return pynum(r if op == "Eq" else not_(r))
        return I.unk("list comparison")
    if not isinstance(a, (Arr, PyList, Range)) or not isinstance(b, (Arr, PyList, Range)):
        r = same_object(a, b)
        if op in ("Eq", "NotEq"):
            return pynum((r is True) == (op == "Eq"))
        return I.unk("comparison")
    f = {"Eq": lambda x, y: _eqv(x, y), "NotEq": lambda x, y: not_(_eqv(x, y)),
         "Lt": lambda x, y: gt(asnum(y) - asnum(x)), "LtE": lambda x, y: ge(asnum(y) - asnum(x)),
         "Gt": lambda x, y: gt(asnum(x) - asnum(y)), "GtE": lambda x, y: ge(asnum(x) - asnum(y))}[op]
    ff = lambda x, y: _simp(f(x, y))
    # python numbers against lists
    r = ew(I, ff, [a, b], dtype="bool", what="comparison")
    return r


def _simp(b):
    d = CTX.decide(b)
    return b if d is None else T.boolc(d)


def _eqv(x, y):
    if isinstance(x, B) and isinstance(y, B):
        return or_(and_(x, y), and_(not_(x), not_(y)))
    # boolean == 1 / 0 / True / False
    for p, q in ((x, y), (y, x)):
        if isinstance(p, B) and isinstance(q, E) and q.const is not None:
            return p if q.const == 1 else not_(p) if q.const == 0 else FALSE
    return eq(asnum(x), asnum(y))


def same_object(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, Lib) and isinstance(b, Lib):
        return a.path == b.path
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.lib == "py" and b.lib == "py" and a.ndim == 0 and b.ndim == 0:
            x, y = a.store.init, b.store.init
            if a.dtype == b.dtype == "bool" and isinstance(x, T.BConst) and isinstance(y, T.BConst):
                return x.val == y.val
            return None if a.dtype == b.dtype else False
        if a.store is b.store and a.shape == b.shape:
            return None
        return False if a.store is not b.store else None
    if type(a) is not type(b):
        return False
    if isinstance(a, (Obj, Class, Func, PyList, PyDict, Module)):
        return False
    return None


def contains(I, a, b):
    b = I.force(b)
    if isinstance(b, str):
        return a in b if isinstance(a, str) else None
    if isinstance(b, PyList):
        c = I.items(b)
        if isinstance(c, tuple):
            return or_(*[I.truth(compare(I, "Eq", a, x)) for x in c])
        return None
    if isinstance(b, Range):
        e = I.asE(a)
        if b.step == 1:
            return and_(ge(e - b.start), ge(b.start + b.n - 1 - e))
        return None
    if isinstance(b, PyDict):
        return I.dfind(I.items(b), I.dkey(a))
    return None


# ------------------------------------------------------------------ reductions
def red1(op, body, v, n):
    if op == "sum":
        return T.sum_over(asnum(body), v, n)
    if op == "prod":
        return T.red("prod", asnum(body), v, n)
    if op == "min":
        return T.red("redmin", asnum(body), v, n)
    if op == "max":
        return T.red("redmax", asnum(body), v, n)
    return T.redall(asbool(body), v, n, op)


def norm_axes(I, a, axis):
    """axis argument -> sorted list of axes, or None for a bad axis"""
    axis = I.force(axis)
    if axis is None:
        return list(range(a.ndim))
    items = list(I.items(axis)) if isinstance(axis, PyList) else [axis]
    out = []
    for x in items:
        c = I.concrete_int(x)
        if c is None:
            raise Undecided("axis")
        if not -max(a.ndim, 1) <= c < max(a.ndim, 1):
            I.event("index", f"axis {c} is out of bounds for {describe(a)}")
            return None
        if a.ndim:
            out.append(c % a.ndim)
    return sorted(out)


def reduce_(I, op, a, axis=None, keep=False, dtype=None, lamfn=None):
    a = I.toarray(a)
    if isinstance(a, Unk):
        return a
    axes = norm_axes(I, a, axis)
    if axes is None:
        return I.unk("bad axis")
    body = I.body(a)
    vs = {ax: T.fresh() for ax in axes}
    rest = [i for i in range(a.ndim) if i not in vs]
    mp = {f"@{ax}": sym(v) for ax, v in vs.items()}
    for j, i in enumerate(rest):
        if keep:
            continue
        if i != j:
            mp[f"@{i}"] = ph(j)
    shape = [a.shape[i] for i in rest] if not keep else [ONE if i in vs else a.shape[i] for i in range(a.ndim)]
    with CTX.bounds({v: a.shape[ax] for ax, v in vs.items()}), I.axes(shape):
        b = T.subst(body, mp) if mp else body
        if lamfn is not None:
            b = lamfn(tuple(a.shape[ax] for ax in axes), tuple(vs[ax] for ax in axes), b)
        else:
            fold = pair_sum(I, a, axes, body) if op == "sum" and not keep and a.ndim == 3 and a.meta else None
            if fold is not None:
                b = fold
            else:
                for ax in reversed(axes):
                    b = red1(op, b, vs[ax], a.shape[ax])
    if dtype is None and op in ("all", "any"):
        dtype = "bool"
    if dtype is None and a.dtype == "bool" and op in ("sum", "prod"):
        dtype = "int"
    if op in ("min", "max") and lamfn is None:
        for ax in axes:
            if CTX.decide_ge(a.shape[ax] - 1) is not True:
                I.event("shape", f"{op} of an empty axis", cond=not_(ge(a.shape[ax] - 1)))
    r = I.derived(shape, b, a, dtype=dtype)
    if r.lib == "py":
        r.lib = "np"
    return r


def count_of(shape, axes):
    n = ONE
    for i in axes:
        n = n * shape[i]
    return n


def mean(I, a, axis=None, keep=False):
    a = I.toarray(a)
    if isinstance(a, Unk):
        return a
    axes = norm_axes(I, a, axis)
    if axes is None:
        return I.unk("bad axis")
    s = reduce_(I, "sum", a, axis, keep)
    n = count_of(a.shape, axes)
    return ew(I, lambda x: asnum(x) / n, [s], dtype=float_dtype([a]))


def std(I, a, axis=None, keep=False, ddof=ZERO, p=1):
    def f(ns, vs, b):
        b = asnum(b)
        if not any(v in b.free for v in vs):
            return ZERO
        return T.power(app("std", T.lam(ns, vs, b), ddof), p)
    a = I.toarray(a)
    if isinstance(a, Unk):
        return a
    return reduce_(I, "std", a, axis, keep, dtype=float_dtype([a]) or ("float64" if a.lib != "th" else None), lamfn=f)


def opaque_reduce(I, name, a, axis=None, keep=False, dtype=None):
    return reduce_(I, name, a, axis, keep, dtype=dtype, lamfn=lambda ns, vs, b: app(name, T.lam(ns, vs, asnum(b))))


# ------------------------------------------------------------------ products
def matmul(I, a, b):
    (xs, bad) = arrs(I, [a, b])
    if xs is None:
        return bad
    a, b = xs
    check_mix(I, xs, "@")
    if a.ndim == 0 or b.ndim == 0:
        I.event("type", f"matrix product of {describe(a)} and {describe(b)}")
        return I.unk("matmul of scalars")
    if a.lib == b.lib == "th" and {a.dtype, b.dtype} == {"float32", "float64"}:
        I.event("dtype", "matrix product of single and double precision tensors")
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = I.view(a, (None, Slice(None, None, None)))
    if b1:
        b = I.view(b, (Slice(None, None, None), None))
    n, m = a.shape[-1], b.shape[-2]
    if I.same_size(n, m) is not True:
        I.event("shape", f"matrix product of inner sizes {T.show(n)} and {T.show(m)}", cond=not_(eq(n, m)))
    batch = I.bshape([a.shape[:-2], b.shape[:-2]], I.node, "@")
    nb = len(batch)
    shape = list(batch) + [a.shape[-2], b.shape[-1]]
    v = T.fresh()

    def place(x, last):
        off = nb - (x.ndim - 2)
        mp = {}
        for i in range(x.ndim - 2):
            mp[f"@{i}"] = ZERO if one(x.shape[i]) and not one(batch[i + off]) else ph(i + off)
        mp[f"@{x.ndim - 2}"] = ph(nb) if last == "v" else sym(v)
        mp[f"@{x.ndim - 1}"] = sym(v) if last == "v" else ph(nb + 1)
        return mp
    with I.axes(shape), CTX.bounds({v: n}):
        p = T.subst(I.nbody(a), place(a, "v"))
        q = T.subst(I.nbody(b), place(b, "c"))
        body = T.sum_over(p * q, v, n)
    r = I.derived(shape, body, a, b)
    if r.lib == "py":
        r.lib = "np"
    if a1:
        r = I.view(r, tuple([Slice(None, None, None)] * nb + [pynum(0)]))
    if b1:
        r = I.view(r, tuple([Slice(None, None, None)] * (r.ndim - 1) + [pynum(0)]))
    return r


def einsum(I, spec, xs):
    xs, bad = arrs(I, xs)
    if xs is None:
        return bad
    check_mix(I, xs, "einsum")
    spec = spec.replace(" ", "")
    if "." in spec:
        return I.unk("einsum with ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if not _:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    if len(ins) != len(xs):
        I.event("shape", "einsum operand count")
        return I.unk("einsum")
    size = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim:
            I.event("shape", f"einsum subscript '{s}' for {describe(x)}")
            return I.unk("einsum")
        for c, n in zip(s, x.shape):
            if c in size and not one(n) and not one(size[c]):
                if I.same_size(size[c], n) is not True:
                    I.event("shape", f"einsum index '{c}' has sizes {T.show(size[c])} and {T.show(n)}",
                            cond=and_(not_(eq(size[c], n)), not_(eq(n, 1)), not_(eq(size[c], 1))))
            if c not in size or one(size[c]):
                size[c] = n
    shape = [size[c] for c in out]
    sv = {c: T.fresh() for c in size if c not in out}
    with I.axes(shape), CTX.bounds({v: size[c] for c, v in sv.items()}):
        p = ONE
        for s, x in zip(ins, xs):
            mp = {}
            for i, c in enumerate(s):
                if one(x.shape[i]) and not one(size[c]):
                    mp[f"@{i}"] = ZERO
                else:
                    mp[f"@{i}"] = ph(out.index(c)) if c in out else sym(sv[c])
            p = p * T.subst(I.nbody(x), mp)
        for c, v in sv.items():
            p = T.sum_over(p, v, size[c])
    r = I.derived(shape, p, *xs)
    if r.lib == "py":
        r.lib = "np"
    return r


def matfun(I, name, a):
    """matrix function of square matrices, e.g. inv"""
    a = I.toarray(a)
    if isinstance(a, Unk):
        return a
    if a.ndim < 2:
        I.event("shape", f"{name} of {describe(a)}")
        return I.unk(name)
    n, m = a.shape[-2], a.shape[-1]
    if I.same_size(n, m) is not True:
        I.event("shape", f"{name} of a non-square matrix ({T.show(n)} by {T.show(m)})", cond=not_(eq(n, m)))
    i, j = T.fresh(), T.fresh()
    k = a.ndim - 2
    with CTX.bounds({i: n, j: n}):
        b = T.subst(I.nbody(a), {f"@{k}": sym(i), f"@{k + 1}": sym(j)})
    with I.axes(a.shape):
        r = app(name, T.lam((n, n), (i, j), b), ph(k), ph(k + 1))
    out = I.derived(a.shape, r, a)
    if out.lib == "py":
        out.lib = "np"
    if out.dtype in ("int", "bool"):
        out.dtype = "float64"
    return out


def solve(I, a, b):
    inv = matfun(I, "inv", a)
    b = I.toarray(b)
    if isinstance(inv, Unk) or isinstance(b, Unk):
        return inv if isinstance(inv, Unk) else b
    return matmul(I, inv, b)


# ------------------------------------------------------------------ reshaping
def permute(I, a, order):
    """axes of the result, in terms of axes of a"""
    pos = {o: i for i, o in enumerate(order)}
    mp = tuple(m if m[0] == "fix" else ("ax", pos[m[1]], m[2], m[3]) for m in a.map)
    r = Arr([a.shape[o] for o in order], a.store, mp, a.lib if a.lib != "py" else "np", a.dtype, a.dev)
    r.nowrite, r.alias = a.nowrite, a.alias
    return r


def transpose(I, a, axes=None):
    if axes is None:
        return permute(I, a, list(range(a.ndim))[::-1])
    return permute(I, a, [x % a.ndim for x in axes])


def reaxes(I, a, spec):
    """spec: list of old axis numbers or None (new axis of size 1); dropped axes must have size 1"""
    key = []
    pos = {o: i for i, o in enumerate(spec) if o is not None}
    mp = []
    for m in a.map:
        if m[0] == "fix":
            mp.append(m)
        elif m[1] in pos:
            mp.append(("ax", pos[m[1]], m[2], m[3]))
        else:
            mp.append(("fix", m[2]))
    r = Arr([ONE if o is None else a.shape[o] for o in spec], a.store, tuple(mp), a.lib if a.lib != "py" else "np", a.dtype, a.dev)
    r.nowrite, r.alias = a.nowrite, a.alias
    return r


def reshape(I, a, shape):
    """shape: list of size terms, -1 for the rest"""
    total = count_of(a.shape, range(a.ndim))
    neg = [i for i, s in enumerate(shape) if s.const == -1]
    shape = list(shape)
    oldbig = [i for i in range(a.ndim) if not one(a.shape[i])]
    if neg:
        p = ONE
        for i, s in enumerate(shape):
            if i != neg[0]:
                p = p * s
        rest = total / p
        if not (T.is_int(rest)):
            cands = [a.shape[i] for i in oldbig]
            rest2 = None
            for c in cands:
                if (c * p - total).const == 0:
                    rest2 = c
            rest = rest2 if rest2 is not None else rest
        shape[neg[0]] = rest
    else:
        p = ONE
        for s in shape:
            p = p * s
        if I.same_size(p, total) is not True:
            I.event("shape", f"cannot reshape {describe(a)} to ({', '.join(map(T.show, shape))})", cond=not_(eq(p, total)))
    newbig = [i for i, s in enumerate(shape) if not one(s)]
    if len(oldbig) == len(newbig) and all(I.same_size(a.shape[i], shape[j]) is True for i, j in zip(oldbig, newbig)):
        spec = [None] * len(shape)
        for i, j in zip(oldbig, newbig):
            spec[j] = i
        return reaxes(I, a, spec)
    # row-major renumbering
    with I.axes(shape):
        flat = ZERO
        for i, s in enumerate(shape):
            flat = flat * s + ph(i)
        idx = {}
        rem = flat
        for i in range(a.ndim - 1, -1, -1):
            if i == 0:
                idx[f"@{i}"] = rem
            else:
                n = a.shape[i]
                q = _fdiv(rem, n)
                idx[f"@{i}"] = rem - q * n
                rem = q
        nb = T.subst(I.body(a), idx)
    r = I.derived(shape, nb, a, dtype=a.dtype)
    r.lib = a.lib if a.lib != "py" else "np"
    r.nowrite = True
    return r


def _fdiv(e, n):
    """e div n, seeing through n*q + r with 0 <= r < n"""
    for i in range(8):
        s = sym(f"@{i}")
        # try remainder candidates: the placeholder itself
        for r in (s, ZERO):
            q = (e - r) / n
            if T.is_int(q) and CTX.decide_ge(r) is True and (r.const == 0 or CTX.decide_ge(n - 1 - r) is True):
                return q
    return T.floordiv(e, n)


def broadcast_view(I, a, shape):
    nb = I.broadcast_to(a, shape)
    r = I.derived(shape, nb, a, dtype=a.dtype)
    r.lib = a.lib if a.lib != "py" else "np"
    r.nowrite = True
    if a.store.owner or a.alias is not None:
        r.alias = a if a.store.owner else a.alias
    return r


def concat(I, xs, axis=0):
    xs, bad = arrs(I, xs)
    if xs is None:
        return bad
    check_mix(I, xs, "concatenate")
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs) or nd == 0:
        I.event("shape", "concatenation of arrays of different dimension")
        return I.unk("concatenate")
    axis %= nd
    off = [ZERO]
    for x in xs:
        for i in range(nd):
            if i != axis and I.same_size(x.shape[i], xs[0].shape[i]) is not True:
                I.event("shape", f"concatenation of sizes {T.show(x.shape[i])} and {T.show(xs[0].shape[i])}",
                        cond=not_(eq(x.shape[i], xs[0].shape[i])))
        off.append(off[-1] + x.shape[axis])
    shape = list(xs[0].shape)
    shape[axis] = off[-1]
    with I.axes(shape):
        r = None
        for k in range(len(xs) - 1, -1, -1):
            c = ge(off[k + 1] - 1 - ph(axis))
            with CTX.fact(c, ge(ph(axis) - off[k])):
                b = T.subst(I.body(xs[k]), {f"@{axis}": ph(axis) - off[k]}) if off[k].const != 0 else I.body(xs[k])
            if r is None:
                r = b
            elif isinstance(r, B) and isinstance(b, B):
                r = T.bite(c, b, r)
            else:
                r = ite(c, asnum(b), asnum(r))
    out = I.derived(shape, r, *xs)
    if out.lib == "py":
        out.lib = "np"
    return out


def seq_values(I, v):
    """concrete python list of values of an iterable, or None if of symbolic length"""
    n, get, conc = I.iterable(v)
    if conc is None and n.const is not None:
        conc = [get(num(i)) for i in range(int(n.const))]
    return conc


def stack_values(I, v, axis=0, lib="np"):
    v = I.force(v)
    if isinstance(v, Unk):
        return v
    conc = seq_values(I, v)
    if conc is not None:
        return I.stack(conc, axis, lib)
    if isinstance(v, PyList):
        return I.stack_seq(I.items(v), lib, axis)
    a = I.toarray(v, lib)
    if isinstance(a, Unk):
        return a
    if axis in (0, -a.ndim):
        return a
    order = list(range(1, a.ndim))
    order.insert(axis if axis >= 0 else axis + a.ndim, 0)
    return permute(I, a, order)


def concat_values(I, v, axis=0, lib="np"):
    v = I.force(v)
    if isinstance(v, Unk):
        return v
    conc = seq_values(I, v)
    if conc is not None:
        return concat(I, conc, axis)
    a = stack_values(I, v, 0, lib)
    if isinstance(a, Unk):
        return a
    # (n, ..., s, ...) -> n*s along axis; only for s == 1
    ax = axis % (a.ndim - 1)
    if one(a.shape[ax + 1]):
        b = reaxes(I, a, [0] + [i for i in range(1, a.ndim) if i != ax + 1])
        order = list(range(1, b.ndim))
        order.insert(ax, 0)
        return permute(I, b, order)
    if a.ndim == 2:
        return reshape(I, a, [num(-1)])
    return I.unk("concatenation of a sequence")
