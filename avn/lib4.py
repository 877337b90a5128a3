"""Library model, fourth part: less common array functions, iterators, records."""
import ast
import itertools
from . import terms as T
from .terms import E, B, CTX, num, sym, ite, and_, or_, not_, ge, gt, eq, ZERO, ONE, Undecided
from .values import *
from .ops import binop, ew, nfn, reduce_, matmul, solve, transpose, concat, reshape
from . import lib as L
from .lib import FN, fn, take, kwbool, need_tensor, np_of_tensor, axis_kw, dtype_of
from .lib2 import conc_or_iter, call_lib

FULL = Slice(None, None, None)


def lib_of(I):
    return "torch" if I.libname.startswith("torch") else "numpy"


def array_arg(I, v):
    """argument of a library function as an array, with the library check"""
    x = I.toarray(v)
    if isinstance(x, Unk):
        return x
    if lib_of(I) == "torch":
        need_tensor(I, x, I.libname)
    else:
        np_of_tensor(I, x, I.libname)
    return x


def fresh_copy(I, a):
    return mk(a.shape, I.body(a), a.lib if a.lib != "py" else "np", a.dtype, a.dev)


# ------------------------------------------------------------------ selection
@fn("numpy.take", "torch.index_select", "torch.take")
def np_take(I, args, kw):
    kw = dict(kw)
    for k, n in (("dim", "axis"), ("index", "indices"), ("input", "a")):
        if k in kw:
            kw[n] = kw.pop(k)
    if I.libname == "torch.index_select":
        a, axis, idx = take(args, kw, "a axis indices")
    else:
        a, idx, axis = take(args, {k: v for k, v in kw.items() if k not in ("mode", "out")}, "a indices axis=None")
    a = array_arg(I, a)
    if isinstance(a, Unk):
        return a
    if I.force(axis) is None:
        a = a if a.ndim == 1 else reshape(I, a, [num(-1)])
        ax = 0
    else:
        ax = I.concrete_int(axis)
        if ax is None:
            raise Undecided("axis of take")
        if not -a.ndim <= ax < a.ndim:
            I.event("index", f"axis {ax} is out of bounds for {describe(a)}")
            return I.unk("take")
        ax %= a.ndim
    i = I.force(idx)
    if isinstance(i, PyList):
        i = I.toarray(i)
    if isinstance(i, Unk):
        return i
    r = I.view(a, tuple([FULL] * ax + [i])) if not (isinstance(i, Arr) and i.ndim) else I.fancy(a, [FULL] * ax + [i] + [FULL] * (a.ndim - ax - 1), I.node)
    return r if isinstance(r, Unk) else fresh_copy(I, r)


@fn("torch.select")
def th_select(I, args, kw):
    a, d, i = take(args, {{"input": "a", "dim": "d", "index": "i"}.get(k, k): v for k, v in kw.items()}, "a d i")
    a = array_arg(I, a)
    if isinstance(a, Unk):
        return a
    d = I.concrete_int(d) % a.ndim
    return I.view(a, tuple([FULL] * d + [I.force(i)]))


@fn("torch.narrow")
def th_narrow(I, args, kw):
    a, d, s, n = take(args, {{"input": "a", "dim": "d", "start": "s", "length": "n"}.get(k, k): v for k, v in kw.items()}, "a d s n")
    a = array_arg(I, a)
    if isinstance(a, Unk):
        return a
    d = I.concrete_int(d) % a.ndim
    s = I.force(s)
    return I.view(a, tuple([FULL] * d + [Slice(s, binop(I, "Add", s, n), None)]))


@fn("torch.masked_fill")
def th_masked_fill(I, args, kw):
    a, m, v = take(args, kw, "input mask value")
    return ew(I, lambda c, x, y: ite(c if isinstance(c, B) else not_(eq(c, 0)), y, x), [I.toarray(m), I.toarray(a), I.toarray(v)], dtype=I.toarray(a).dtype, boolin=True)


@fn("numpy.append")
def np_append(I, args, kw):
    a, v, axis = take(args, {{"arr": "a", "values": "v"}.get(k, k): x for k, x in kw.items()}, "a v axis=None")
    a, v = array_arg(I, a), array_arg(I, v)
    if isinstance(a, Unk) or isinstance(v, Unk):
        return I.unk("append")
    if I.force(axis) is None:
        a, v = [x if x.ndim == 1 else reshape(I, x, [num(-1)]) for x in (a, v)]
        return concat(I, [a, v], 0)
    return concat(I, [a, v], I.concrete_int(axis) % a.ndim)


@fn("numpy.dstack", "torch.dstack")
def np_dstack(I, args, kw):
    xs = conc_or_iter(I, args[0])[2]
    if xs is None:
        raise Undecided("dstack of a sequence of symbolic length")
    out = []
    for x in xs:
        x = array_arg(I, x)
        if isinstance(x, Unk):
            return x
        while x.ndim < 3:
            x = I.view(x, (None, FULL) if x.ndim == 1 else (FULL, FULL, None) if x.ndim == 2 else (None,))
        out.append(x)
    return concat(I, out, 2)


@fn("numpy.broadcast_arrays", "torch.broadcast_tensors")
def np_broadcast_arrays(I, args, kw):
    xs = [I.toarray(a) for a in args]
    if any(isinstance(x, Unk) for x in xs):
        return I.unk("broadcast_arrays")
    sh = I.bshape([x.shape for x in xs], I.node)
    if sh is None:
        return I.unk("broadcast_arrays")
    rs = []
    for x in xs:
        r = I.broadcast_to(x, sh, I.node)
        rs.append(r)
    return PyList(rs, "list" if lib_of(I) == "numpy" else "tuple")


# ------------------------------------------------------------------ arithmetic
def softmax(I, args, kw, log=False):
    kw = axis_kw(kw)
    kw.pop("_stacklevel", None)
    a, ax = take(args, kw, "a axis=None")
    a = I.toarray(a)
    if isinstance(a, Unk):
        return a
    e = ew(I, nfn(T.exp), [a])
    return binop(I, "Div", e, reduce_(I, "sum", e, ax, True))


for _p in ("torch.softmax", "torch.nn.functional.softmax", "scipy.special.softmax"):
    FN[_p] = softmax


@fn("torch.logsumexp", "scipy.special.logsumexp")
def logsumexp(I, args, kw):
    kw = axis_kw(kw)
    b = kw.pop("b", None)
    a, ax, keep = take(args, kw, "a axis=None keepdims=False")
    a = I.toarray(a)
    if isinstance(a, Unk):
        return a
    e = ew(I, nfn(T.exp), [a])
    if b is not None:
        e = binop(I, "Mult", e, b)
    return ew(I, nfn(T.log), [reduce_(I, "sum", e, ax, kwbool(I, keep))])


@fn("torch.addcmul", "torch.addcdiv")
def addcmul(I, args, kw):
    kw = dict(kw)
    v = kw.pop("value", None)
    a, x, y = take(args, kw, "input tensor1 tensor2")
    r = binop(I, "Mult" if I.libname.endswith("mul") else "Div", x, y)
    if v is not None:
        r = binop(I, "Mult", v, r)
    return binop(I, "Add", a, r)


@fn("torch.addmm", "torch.addmv", "torch.baddbmm")
def addmm(I, args, kw):
    kw = dict(kw)
    beta, alpha = kw.pop("beta", None), kw.pop("alpha", None)
    a, x, y = take(args, {{"mat1": "m1", "mat2": "m2", "mat": "m1", "vec": "m2", "batch1": "m1", "batch2": "m2"}.get(k, k): v for k, v in kw.items()}, "input m1 m2")
    r = matmul(I, x, y)
    if alpha is not None:
        r = binop(I, "Mult", alpha, r)
    if beta is not None:
        a = binop(I, "Mult", beta, a)
    return binop(I, "Add", a, r)


@fn("torch.lerp")
def lerp(I, args, kw):
    a, b, w = take(args, kw, "input end weight")
    return binop(I, "Add", a, binop(I, "Mult", w, binop(I, "Sub", b, a)))


@fn("numpy.linalg.multi_dot", "torch.linalg.multi_dot", "torch.chain_matmul")
def multi_dot(I, args, kw):
    xs = list(args) if I.libname.endswith("chain_matmul") else conc_or_iter(I, args[0])[2]
    if xs is None:
        raise Undecided("multi_dot of a sequence of symbolic length")
    r = xs[0]
    for x in xs[1:]:
        r = matmul(I, r, x)
        if isinstance(r, Unk):
            return r
    return r


REDUCERS = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "fmax": "max", "fmin": "min", "logical_and": "all", "logical_or": "any"}
for _u, _op in REDUCERS.items():
    def _red(I, args, kw, _op=_op):
        kw = dict(kw)
        if "array" in kw:
            kw["a"] = kw.pop("array")
        a, ax, dt, out, keep = take(args, kw, "a axis=0 dtype=None out=None keepdims=False")
        x = I.toarray(a)
        if isinstance(x, Unk):
            return x
        np_of_tensor(I, x, "numpy ufunc reduction")
        return L.finish(I, reduce_(I, _op, x, ax, kwbool(I, keep)), {"out": out} if out is not None else {})
    FN[f"numpy.{_u}.reduce"] = _red
for _u, _b in {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow"}.items():
    def _out(I, args, kw, _b=_b):
        a, b = I.toarray(args[0]), I.toarray(args[1])
        if isinstance(a, Unk) or isinstance(b, Unk):
            return I.unk("outer")
        return binop(I, _b, I.view(a, tuple([FULL] * a.ndim + [None] * b.ndim)) if b.ndim else a, b)
    FN[f"numpy.{_u}.outer"] = _out


# ------------------------------------------------------------------ linear systems from a factor
@fn("scipy.linalg.cho_factor")
def cho_factor(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    return PyList([Factored(a), pynum(True)], "tuple")


class Factored:
    """Cholesky factorisation of a matrix, of which only the solutions of systems are used"""
    def __init__(self, a):
        self.a = a


@fn("scipy.linalg.cho_solve")
def cho_solve(I, args, kw):
    f = I.force(args[0])
    c = I.items(f) if isinstance(f, PyList) else ()
    if c and isinstance(c[0], Factored):
        return solve(I, c[0].a, args[1])
    return I.unk("cho_solve")


# ------------------------------------------------------------------ iterators
@fn("numpy.ndindex")
def ndindex(I, args, kw):
    sh = args
    if len(args) == 1 and isinstance(I.force(args[0]), PyList):
        sh = I.items(I.force(args[0]))
        if isinstance(sh, SymSeq):
            raise Undecided("ndindex")
    return product_iter(I, [Range(I.size_arg(n), ZERO, ONE) for n in sh])


def product_iter(I, seqs):
    """row-major product; a lazy iterable when a length is symbolic"""
    parts = [conc_or_iter(I, s) for s in seqs]
    if all(p[2] is not None for p in parts):
        return PyList([PyList(list(t), "tuple") for t in itertools.product(*[p[2] for p in parts])])
    if len(parts) == 1:
        n, get, _ = parts[0]
        return Iter(n, lambda i: PyList([get(i)], "tuple"))
    return ProductIter(parts)


@fn("itertools.product")
def it_product(I, args, kw):
    rep = I.concrete_int(kw["repeat"]) if "repeat" in kw else 1
    return product_iter(I, list(args) * rep)


@fn("itertools.chain", "itertools.chain.from_iterable")
def it_chain(I, args, kw):
    if I.libname.endswith("from_iterable"):
        outer = conc_or_iter(I, args[0])[2]
        if outer is None:
            raise Undecided("chain of a symbolic number of sequences")
        args = outer
    parts = [conc_or_iter(I, a) for a in args]
    if all(p[2] is not None for p in parts):
        return PyList([x for p in parts for x in p[2]])
    # at most one part of symbolic length, preceded by concrete ones
    k = next(i for i, p in enumerate(parts) if p[2] is None)
    if k == len(parts) - 1:
        head = [x for p in parts[:-1] for x in p[2]]
        n, get, _ = parts[-1]
        v = T.fresh()
        with CTX.bounds({v: n}):
            el = get(sym(v))
        return PyList(SymSeq(n, v, el, tuple(head)))
    raise Undecided("chain of symbolic sequences")


@fn("itertools.repeat")
def it_repeat(I, args, kw):
    if len(args) + len(kw) == 1:
        return Iter(None, lambda i: args[0])
    n = I.size_arg(args[1] if len(args) > 1 else kw["times"])
    return Iter(n, lambda i: args[0])


@fn("itertools.count")
def it_count(I, args, kw):
    a = [I.asE(x) for x in list(args) + list(kw.values())]
    lo, st = (a + [ZERO, ONE][len(a):])[:2]
    return Iter(None, lambda i: mk((), lo + i * st, "py", "int"))


@fn("itertools.islice")
def it_islice(I, args, kw):
    it = I.force(args[0])
    n, get, conc = (None, it.get, None) if isinstance(it, Iter) and it.n is None else conc_or_iter(I, it)
    a = [I.force(x) for x in args[1:]]
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], 1
    else:
        lo = ZERO if a[0] is None else I.size_arg(a[0])
        hi, st = a[1], (1 if len(a) < 3 or a[2] is None else I.concrete_int(a[2]))
    if conc is not None and lo.const is not None and st is not None and (hi is None or I.concrete_int(hi) is not None):
        return PyList(conc[int(lo.const):None if hi is None else I.concrete_int(hi):st])
    if st != 1:
        raise Undecided("islice with a step")
    m = n if hi is None else (I.size_arg(hi) if n is None else T.minE(I.size_arg(hi), n))
    if m is None:
        raise Undecided("islice of an endless iterator")
    return Iter(T.maxE(m - lo, ZERO) if CTX.decide_ge(m - lo) is not True else m - lo, lambda i: get(i + lo))


@fn("itertools.pairwise")
def it_pairwise(I, args, kw):
    n, get, conc = conc_or_iter(I, args[0])
    if conc is not None:
        return PyList([PyList([a, b], "tuple") for a, b in zip(conc, conc[1:])])
    m = n - 1
    if CTX.decide_ge(m) is not True:
        m = T.maxE(m, ZERO)
    return Iter(m, lambda i: PyList([get(i), get(i + 1)], "tuple"))


@fn("itertools.starmap")
def it_starmap(I, args, kw):
    f = args[0]
    n, get, conc = conc_or_iter(I, args[1])

    def one(t):
        xs = conc_or_iter(I, t)[2]
        if xs is None:
            raise Undecided("starmap")
        return I.call(f, list(xs), {}, I.node)
    if conc is not None:
        return PyList([one(t) for t in conc])
    return Iter(n, lambda i: one(get(i)))


class Getter:
    def __init__(self, keys, attr):
        self.keys, self.attr = keys, attr

    def apply(self, I, args, kw, node):
        if self.attr:
            def one(k):
                r = args[0]
                for p in k.split("."):
                    r = I.getattr(r, p)
                return r
        else:
            def one(k):
                return I.subscript(args[0], k)
        rs = [one(k) for k in self.keys]
        return rs[0] if len(rs) == 1 else PyList(rs, "tuple")


@fn("operator.itemgetter")
def itemgetter(I, args, kw):
    return Getter([I.force(a) for a in args], False)


@fn("operator.attrgetter")
def attrgetter(I, args, kw):
    ks = [I.force(a) for a in args]
    if not all(isinstance(k, str) for k in ks):
        raise Undecided("attrgetter")
    return Getter(ks, True)


class MethodCaller:
    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw

    def apply(self, I, args, kw, node):
        return I.call(I.getattr(args[0], self.name), self.args, self.kw, node)


@fn("operator.methodcaller")
def methodcaller(I, args, kw):
    if not isinstance(I.force(args[0]), str):
        raise Undecided("methodcaller")
    return MethodCaller(I.force(args[0]), list(args[1:]), dict(kw))


# ------------------------------------------------------------------ records
def record_class(I, name, fields, defaults, frozen_tuple):
    """Class with an __init__ storing its fields, in order"""
    src = f"class {name}:\n    def __init__(self" + "".join(f", {f}" for f in fields) + "):\n" + "".join(f"        self.{f} = {f}\n" for f in fields) + ("" if fields else "        pass\n")
    tree = ast.parse(src).body[0]
    c = I.make_class(tree)
    f = c.members["__init__"]
    f.defaults = list(defaults)
    c.fields = list(fields)
    c.record = frozen_tuple
    return c


@fn("collections.namedtuple", "typing.NamedTuple")
def namedtuple(I, args, kw):
    name = I.force(args[0])
    fs = I.force(args[1] if len(args) > 1 else kw.get("field_names"))
    if isinstance(fs, str):
        names = fs.replace(",", " ").split()
    else:
        names = [I.force(x) for x in conc_or_iter(I, fs)[2]]
        if I.libname.endswith("NamedTuple"):
            names = [I.force(I.items(x)[0]) for x in names]
    if not isinstance(name, str) or not all(isinstance(n, str) for n in names):
        raise Undecided("namedtuple")
    d = kw.get("defaults")
    return record_class(I, name, names, conc_or_iter(I, d)[2] if d is not None else [], True)


@fn("types.SimpleNamespace", "argparse.Namespace")
def simple_namespace(I, args, kw):
    c = record_class(I, "SimpleNamespace", list(kw), [], False)
    return I.instantiate(c, [], kw, I.node)


@fn("dataclasses.dataclass")
def dataclass(I, args, kw):
    if args and isinstance(args[0], Class):
        return make_dataclass(I, args[0])
    return Lib("dataclasses.dataclass")


@fn("dataclasses.field")
def dc_field(I, args, kw):
    if "default" in kw:
        return kw["default"]
    if "default_factory" in kw:
        return FieldFactory(kw["default_factory"])
    return FieldFactory(None)


class FieldFactory:
    def __init__(self, f):
        self.f = f


def make_dataclass(I, c):
    fields, defaults = [], []
    for k in reversed(c.mro()):
        for x in getattr(k.node, "body", []):
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and "ClassVar" not in ast.unparse(x.annotation):
                n = x.target.id
                if n in fields:
                    i = fields.index(n)
                    fields.pop(i)
                fields.append(n)
    if "__init__" not in c.members:
        src = f"class {c.name}:\n    def __init__(self" + "".join(f", {f}" for f in fields) + "):\n" + "".join(f"        self.{f} = {f}\n" for f in fields)
        if c.lookup("__post_init__") is not None:
            src += "        self.__post_init__()\n"
        if not fields and c.lookup("__post_init__") is None:
            src += "        pass\n"
        k = I.make_class(ast.parse(src).body[0])
        f = k.members["__init__"]
        f.cls = c
        ds = []
        for n in fields:
            if any(n in b.members for b in c.mro()):
                v = c.lookup(n)
                if isinstance(v, FieldFactory):
                    raise Undecided("dataclass field with a factory")
                ds.append(v)
            elif ds:
                raise Undecided("dataclass field without default after one with")
        f.defaults = ds
        c.members["__init__"] = f
    c.fields = fields
    return c


@fn("dataclasses.replace")
def dc_replace(I, args, kw):
    o = I.force(args[0])
    if not isinstance(o, Obj) or not hasattr(o.cls, "fields"):
        raise Undecided("dataclasses.replace")
    return I.instantiate(o.cls, [], {f: kw[f] if f in kw else I.getattr(o, f) for f in o.cls.fields}, I.node)


@fn("abc.abstractmethod", "typing.overload", "typing.final", "typing.override")
def ident(I, args, kw):
    return args[0]
