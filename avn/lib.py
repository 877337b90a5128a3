"""Model of the external libraries (NumPy, PyTorch, SciPy, POT, pyemd, builtins)."""
import ast
from fractions import Fraction
from . import terms as T
from .terms import E, B, CTX, num, sym, ite, and_, or_, not_, ge, gt, eq, ind, ZERO, ONE, TRUE, FALSE, Undecided, app, bapp
from .values import *
from .ops import *
from .ops import binop, compare, INPLACE
from . import ops as O
from . import interp as IT

FN = {}        # library path -> handler(I, args, kw)


def fn(*paths):
    def deco(f):
        for p in paths:
            FN[p] = f
        return f
    return deco


class BadArgs(Exception):
    pass


def take(args, kw, spec):
    """bind arguments to 'a b=default ...' ; default None"""
    names = []
    dflt = {}
    for w in spec.split():
        n, _, d = w.partition("=")
        names.append(n)
        if _:
            dflt[n] = {"None": None, "True": pynum(True), "False": pynum(False)}.get(d, None) if not d.lstrip("-").isdigit() else pynum(int(d))
    out = dict(zip(names, args))
    if len(args) > len(names):
        raise BadArgs("too many arguments")
    for k, v in kw.items():
        if k not in names:
            raise BadArgs(f"argument {k}")
        if k in out:
            raise BadArgs(f"argument {k} given twice")
        out[k] = v
    res = []
    for n in names:
        if n in out:
            res.append(out[n])
        elif n in dflt:
            res.append(dflt[n])
        else:
            raise BadArgs(f"missing {n}")
    return res


def site(I):
    """identity of the current call site together with its call chain"""
    n = I.node
    parts = []
    for q, nd in I.calls:
        parts.append(f"{getattr(nd, 'lineno', 0)}.{getattr(nd, 'col_offset', 0)}" if nd is not None else "0")
    fr = I.frames[-1] if I.frames else None
    parts.append(f"{fr.func.qual.split(':')[-1] if fr and fr.func else ''}:{getattr(n, 'lineno', 0)}.{getattr(n, 'col_offset', 0)}")
    return "/".join(parts[-4:])


DTYPES = {"float64": "float64", "double": "float64", "float32": "float32", "float": "float64", "int": "int", "int64": "int", "int32": "int", "long": "int",
          "short": "int", "int8": "int", "int16": "int", "uint8": "int", "bool": "bool", "bool_": "bool", "float_": "float64", "float16": "float32",
          "half": "float32", "object": "obj", "intp": "int", "complex128": "complex", "complex": "complex", "longdouble": "float64", "single": "float32"}


def dtype_of(I, v, default=None):
    v = I.force(v)
    if v is None:
        return default
    if isinstance(v, Lib):
        last = v.path.split(".")[-1]
        if v.path == "torch.float":
            return "float32"
        return DTYPES.get(last, default)
    if isinstance(v, str):
        if v.startswith("dtype:"):
            return v[6:]
        return DTYPES.get(v, default)
    return default


def device_of(I, v):
    v = I.force(v)
    if v is None:
        return "cpu"
    if isinstance(v, str):
        return v
    if isinstance(v, Dist) and v.kind == "device":
        return v.kw["name"]
    if isinstance(v, Choice):
        x, y = device_of(I, v.a), device_of(I, v.b)
        return x if x == y else f"{x}|{y}"
    return "?"


def shape_of(I, *vs):
    if len(vs) == 1:
        v = I.force(vs[0])
        if isinstance(v, PyList):
            c = I.items(v)
            if isinstance(c, tuple):
                return [int_size(I, x) for x in c]
            raise Undecided("shape of symbolic length")
        if isinstance(v, Arr) and v.ndim == 1:
            raise Undecided("shape from an array")
        return [int_size(I, v)]
    return [int_size(I, x) for x in vs]


def int_size(I, v):
    v = I.force(v)
    if isinstance(v, Arr) and v.dtype not in ("int", "bool"):
        I.event("type", f"{describe(v)} used as a size")
    return I.asE(v, "size")


def kwbool(I, v, default=False):
    v = I.force(v)
    if v is None:
        return default
    if isinstance(v, Arr):
        b = I.truth(v)
        if isinstance(b, T.BConst):
            return b.val
    return default


def need_tensor(I, v, name):
    v = I.force(v)
    if isinstance(v, Arr) and v.lib != "th":
        I.event("type", f"{name} needs a tensor, gets {describe(v)}")
    elif isinstance(v, (PyList, str)) or v is None:
        I.event("type", f"{name} needs a tensor, gets {describe(v)}")


def np_of_tensor(I, v, name):
    if isinstance(v, Arr) and v.lib == "th":
        I.event("device", f"{name} is applied to a tensor")


# ------------------------------------------------------------------ creation
def new(I, lib, shape, body, dtype=None, device=None, default="float64"):
    if lib == "torch":
        dt = dtype_of(I, dtype, "float32" if default == "float64" else default)
        if default == "int" and dtype is None:
            dt = "int"
        return mk(shape, body, "th", dt, device_of(I, device))
    dt = dtype_of(I, dtype, default)
    return mk(shape, body, "np", dt)


def split_size(I, lib, args, kw):
    """positional sizes of torch.zeros(2,3) / zeros((2,3)) / np.zeros((2,3))"""
    kw = dict(kw)
    dtype = kw.pop("dtype", None)
    device = kw.pop("device", None)
    for k in ("requires_grad", "order", "layout", "pin_memory", "like", "generator"):
        kw.pop(k, None)
    if "size" in kw:
        args = [kw.pop("size")]
    if "shape" in kw:
        args = [kw.pop("shape")]
    if kw:
        raise BadArgs(next(iter(kw)))
    if lib == "numpy":
        if len(args) > 1:
            dtype = args[1]
        sh = shape_of(I, args[0])
    else:
        sh = shape_of(I, *args)
    return sh, dtype, device


def _filled(lib, val):
    def h(I, args, kw):
        sh, dt, dv = split_size(I, lib, args, kw)
        d = dtype_of(I, dt)
        body = val
        if d == "bool":
            body = T.boolc(bool(val.const))
        return new(I, lib, sh, body, dt, dv)
    return h


for _l in ("numpy", "torch"):
    FN[_l + ".zeros"] = _filled(_l, ZERO)
    FN[_l + ".ones"] = _filled(_l, ONE)

    def _empty(I, args, kw, _l=_l):
        sh, dt, dv = split_size(I, _l, args, kw)
        nm = "uninit:" + site(I)
        idx = list(I.rngctx) + [ph(i) for i in range(len(sh))]
        return new(I, _l, sh, app(nm, *idx), dt, dv)
    FN[_l + ".empty"] = _empty

    def _full(I, args, kw, _l=_l):
        kw = dict(kw)
        kw.pop("requires_grad", None)
        if _l == "torch":
            size, val, dt, dv = take(args, kw, "size fill_value dtype=None device=None")
        else:
            size, val, dt = take(args, kw, "shape fill_value dtype=None")
            dv = None
        sh = shape_of(I, size)
        v = I.toarray(val)
        if isinstance(v, Unk):
            return v
        b = I.broadcast_to(v, tuple(sh))
        d = dt if dt is not None else "dtype:" + ("float32" if _l == "torch" and v.dtype == "float64" and v.lib == "py" else v.dtype)
        if dtype_of(I, d) != "bool":
            b = asnum(b)
        return new(I, _l, sh, b, d, dv)
    FN[_l + ".full"] = _full

    def _like(val, _l=_l):
        def h(I, args, kw):
            kw = dict(kw)
            a = I.toarray(args[0] if args else kw.pop("a", kw.pop("input", None)))
            if isinstance(a, Unk):
                return a
            dt = kw.get("dtype", args[1] if len(args) > 1 and _l == "numpy" and val is not None else None)
            dtp = dtype_of(I, dt, a.dtype)
            if val == "full":
                v = I.toarray(args[1] if len(args) > 1 else kw["fill_value"])
                body = I.broadcast_to(v, a.shape)
            elif val is None:
                body = app("uninit:" + site(I), *(list(I.rngctx) + [ph(i) for i in range(a.ndim)]))
            else:
                body = val
            if dtp == "bool":
                body = asbool(body)
            dev = device_of(I, kw["device"]) if kw.get("device") is not None else a.dev
            return mk(a.shape, body, "th" if _l == "torch" else "np", dtp, dev if _l == "torch" else None)
        return h
    FN[_l + ".zeros_like"] = _like(ZERO)
    FN[_l + ".ones_like"] = _like(ONE)
    FN[_l + ".empty_like"] = _like(None)
    FN[_l + ".full_like"] = _like("full")

    def _eye(I, args, kw, _l=_l):
        kw = dict(kw)
        dt, dv = kw.pop("dtype", None), kw.pop("device", None)
        kw.pop("requires_grad", None)
        n, m = take(args, {("n" if k == "N" else "m" if k == "M" else k): v for k, v in kw.items()}, "n m=None")
        n = int_size(I, n)
        m = n if m is None else int_size(I, m)
        with I.axes((n, m)):
            b = ind(eq(ph(0), ph(1)))
        return new(I, _l, (n, m), b, dt, dv)
    FN[_l + ".eye"] = _eye

    def _arange(I, args, kw, _l=_l):
        kw = dict(kw)
        dt, dv = kw.pop("dtype", None), kw.pop("device", None)
        kw.pop("requires_grad", None)
        a = list(args)
        vals = []
        if "start" in kw or "end" in kw or "stop" in kw or "step" in kw:
            st = kw.get("start")
            en = kw.get("end", kw.get("stop"))
            sp = kw.get("step")
            if len(a) >= 1 and st is None and (en is not None or len(a) > 1):
                st = a.pop(0)
            if en is None:
                en = a.pop(0)
            if sp is None and a:
                sp = a.pop(0)
            vals = [st, en, sp]
        elif len(a) == 1:
            vals = [None, a[0], None]
        else:
            vals = [a[0], a[1], a[2] if len(a) > 2 else None]
        arr = [None if v is None else I.force(v) for v in vals]
        e = [d if v is None else I.asE(v) for v, d in zip(arr, (ZERO, ZERO, ONE))]
        isint = all(v is None or (isinstance(v, Arr) and v.dtype == "int") for v in arr)
        q = (e[1] - e[0]) / e[2]
        n = T.rounding("ceil", q)
        n = size_of(I, n)
        d = "dtype:int" if isint and dt is None else dt
        if _l == "torch":
            for v in arr:
                if isinstance(v, Arr) and v.lib == "th" and v.ndim:
                    I.event("type", "arange bound is not a scalar")
        if dt is not None and dtype_of(I, dt) == "int" and not isint:
            raise Undecided("integer arange of floats")
        return new(I, _l, (n,), e[0] + e[2] * ph(0), d, dv)
    FN[_l + ".arange"] = _arange

    def _linspace(I, args, kw, _l=_l):
        kw = dict(kw)
        dt, dv = kw.pop("dtype", None), kw.pop("device", None)
        kw.pop("requires_grad", None)
        if "end" in kw:
            kw["stop"] = kw.pop("end")
        if "steps" in kw:
            kw["num"] = kw.pop("steps")
        a, b, n, ep, rs = take(args, kw, "start stop num=50 endpoint=True retstep=False")
        a, b, n = I.asE(a), I.asE(b), int_size(I, n)
        n = size_of(I, n)
        den = n - 1 if kwbool(I, ep, True) else n
        step = (b - a) / den
        r = new(I, _l, (n,), a + ph(0) * step, dt, dv)
        if kwbool(I, rs):
            return PyList([r, mk((), step, "np", "float64")], "tuple")
        return r
    FN[_l + ".linspace"] = _linspace
FN["numpy.identity"] = FN["numpy.eye"]


def size_of(I, n):
    """a size computed from real numbers: assumed nonnegative; grids are assumed long enough"""
    if n.const is not None:
        return n if n.const > 0 else ZERO
    if getattr(I, "longgrid", None) and (n.free & I.longgrid[0]):
        CTX.add(ge(n - I.longgrid[1]))
        for m, c in n.t.items():
            # remember a lower bound of the rounded atom itself
            if len(m.factors) == 1 and m.factors[0][0].kind == "app" and c == 1:
                a = m.factors[0][0]
                k = I.longgrid[1] + 3
                if a.key not in CTX.lo:
                    CTX.lo[a.key] = num(k)
    elif CTX.decide_ge(n) is not True:
        n = T.maxE(n, ZERO)
    return n


def as_array(I, v, lib, dtype=None, device=None, copy=True, name="array"):
    v = I.force(v)
    if isinstance(v, Choice):
        r = I.lift(v, lambda x: as_array(I, x, lib, dtype, device, copy, name))
        return r if isinstance(r, Arr) else I.unk("array of values of different shape")
    if isinstance(v, str) or v is None:
        I.event("type", f"{name} of {describe(v)}")
        return I.unk("array of a non-number")
    if isinstance(v, (Func, Lib, UserFn, Obj, Class)):
        return I.unk("array of an object")
    if isinstance(v, PyList) and v.kind == "set":
        I.event("type", f"{name} of a set")
        return I.unk("array of a set")
    src = I.toarray(v)
    if isinstance(src, Unk):
        return src
    isarr = isinstance(v, Arr) and v.lib != "py"
    if lib == "numpy":
        if src.lib == "th":
            I.event("device", f"numpy.{name} is applied to a tensor")
        dt = dtype_of(I, dtype, src.dtype)
        if not copy and isarr and dt == src.dtype and src.lib == "np":
            return v
        r = mk(src.shape, conv(I, I.body(src), src.dtype, dt), "np", dt)
    else:
        if isarr:
            dd = src.dtype
        elif src.lib == "th":
            dd = src.dtype
        else:
            dd = "float32" if src.dtype == "float64" and not has_np(I, v) else src.dtype
        dt = dtype_of(I, dtype, dd)
        if device is None and isarr and src.lib == "th":
            dv = src.dev
        else:
            dv = device_of(I, device)
        if src.lib == "th" and dt == "float64" and src.dtype == "float32":
            I.event("dtype", "single precision values are promoted to double precision")
        if not copy and isarr and dt == src.dtype:
            r = Arr(src.shape, src.store, src.map, "th", dt, dv)
            r.alias, r.nowrite = src.alias, src.nowrite
            return r
        r = mk(src.shape, conv(I, I.body(src), src.dtype, dt), "th", dt, dv)
    r.meta = src.meta
    return r


def has_np(I, v):
    """list holding NumPy numbers"""
    if isinstance(v, PyList):
        c = I.items(v)
        if isinstance(c, tuple):
            return any(has_np(I, x) for x in c)
        return has_np(I, c.elem)
    return isinstance(v, Arr) and v.lib == "np"


def conv(I, b, a, d):
    if d == "bool":
        return asbool(b)
    b = asnum(b)
    if d == "int" and a not in ("int", "bool") and not T.is_int(b):
        return app("trunc", b)
    return b


@fn("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.asfarray", "numpy.asfortranarray")
def np_array(I, args, kw):
    kw = dict(kw)
    for k in ("order", "subok", "ndmin", "like"):
        kw.pop(k, None)
    cp = kwbool(I, kw.pop("copy", None), I.libname == "numpy.array")
    a, dt = take(args, kw, "object dtype=None")
    return as_array(I, a, "numpy", dt, None, cp, I.libname.split(".")[-1])


@fn("numpy.copy")
def np_copy(I, args, kw):
    return as_array(I, args[0], "numpy", None, None, True, "copy")


@fn("torch.tensor")
def th_tensor(I, args, kw):
    kw = dict(kw)
    kw.pop("requires_grad", None)
    kw.pop("pin_memory", None)
    a, dt, dv = take(args, kw, "data dtype=None device=None")
    a = I.force(a)
    if isinstance(a, PyList) and has_big_tensor(I, a):
        I.event("type", "torch.tensor of a list of tensors")
    return as_array(I, a, "torch", dt, dv, True, "tensor")


def has_big_tensor(I, l):
    c = I.items(l)
    els = c if isinstance(c, tuple) else (c.elem,)
    return any(isinstance(x, Arr) and x.lib == "th" and x.ndim > 0 for x in els)


@fn("torch.as_tensor", "torch.asarray")
def th_as_tensor(I, args, kw):
    a, dt, dv = take(args, kw, "data dtype=None device=None")
    return as_array(I, a, "torch", dt, dv, False, "as_tensor")


@fn("torch.from_numpy")
def th_from_numpy(I, args, kw):
    return as_array(I, args[0], "torch", None, None, False, "from_numpy")


@fn("torch.clone")
def th_clone(I, args, kw):
    return as_array(I, args[0], "torch", None, None, True, "clone")


@fn("torch.is_tensor")
def th_is_tensor(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Choice):
        return I.lift(v, lambda x: pynum(isinstance(x, Arr) and x.lib == "th"))
    return pynum(isinstance(v, Arr) and v.lib == "th")


@fn("torch.device")
def th_device(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, str) or v is None:
        return Dist("device", name=v if v is not None else "cpu")
    return v


# ------------------------------------------------------------------ elementwise
def _safe_log(x):
    return T.log(x)


UN = {"exp": T.exp, "log": _safe_log, "sqrt": T.sqrt, "abs": T.absE, "absolute": T.absE, "fabs": T.absE, "square": lambda x: x * x,
      "negative": lambda x: -x, "neg": lambda x: -x, "positive": lambda x: x, "reciprocal": lambda x: ONE / x,
      "rsqrt": lambda x: T.power(x, Fraction(-1, 2)), "exp2": lambda x: app("pow", num(2), x),
      "log10": lambda x: app("log10", x), "log1p": lambda x: T.log(x + 1), "expm1": lambda x: T.exp(x) - 1, "log2": lambda x: app("log2", x),
      "deg2rad": lambda x: app("deg2rad", x), "floor": lambda x: T.rounding("floor", x), "ceil": lambda x: T.rounding("ceil", x),
      "nan_to_num": lambda x: app("nan_to_num", x), "real": lambda x: x, "conj": lambda x: x}
for _n in ("sin", "cos", "tan", "sinh", "cosh", "tanh", "arcsin", "arccos", "arctan", "sign", "sigmoid", "erf", "cbrt", "rint", "round", "trunc", "heaviside"):
    UN[_n] = (lambda _n: lambda x: x if _n in ("rint", "round", "trunc") and T.is_int(x) else app(_n, x))(_n)
UN["relu"] = lambda x: T.maxE(x, ZERO)
BOOLUN = {"isnan": lambda x: bapp("isnan", x), "isinf": lambda x: bapp("isinf", x),
          "isfinite": lambda x: and_(not_(bapp("isnan", x)), not_(bapp("isinf", x)))}
KEEPINT = {"abs", "absolute", "square", "negative", "neg", "positive", "sign", "real", "conj"}


def finish(I, r, kw):
    """out= argument"""
    o = kw.get("out")
    if o is not None:
        o = I.force(o)
        if isinstance(o, PyList):
            o = I.items(o)[0]
        if isinstance(o, Arr) and isinstance(r, Arr):
            I.write(o, r)
            return o
    return r


def strip(kw, *extra):
    return {k: v for k, v in kw.items() if k not in ("out", "casting", "order", "subok", "dtype") + extra}


def mk_unary(name, f, lib, b=False):
    def h(I, args, kw):
        k = strip(kw)
        if k:
            if set(k) == {"input"} or set(k) == {"x"}:
                args = [next(iter(k.values()))]
            else:
                raise BadArgs(next(iter(k)))
        if len(args) == 2 and lib == "numpy" and isinstance(I.force(args[1]), Arr):
            kw = dict(kw)
            kw["out"] = args[1]
            args = args[:1]
        if len(args) != 1:
            raise BadArgs("arguments")
        v = I.force(args[0])
        if isinstance(v, Choice):
            return I.lift(v, lambda x: h(I, [x], kw))
        if lib == "torch":
            need_tensor(I, v, "torch." + name)
        elif lib == "numpy":
            np_of_tensor(I, v, "numpy." + name)
        elif lib == "math":
            v = mk((), I.asE(v), "py", "float64")
        if isinstance(v, Arr) and v.lib == "py" and lib == "numpy":
            v = mk((), I.body(v), "np", v.dtype)
        if v is None or isinstance(v, str):
            I.event("type", f"{lib}.{name} of {describe(v)}")
            return I.unk("bad operand")
        a = I.toarray(v)
        if isinstance(a, Unk):
            return a
        if b:
            r = ew(I, nfn(f), [a], dtype="bool")
        else:
            r = ew(I, nfn(f), [a], dtype=None if name in KEEPINT else float_dtype([a]))
        if isinstance(r, Arr) and r.lib == "py" and lib == "numpy":
            r.lib = "np"
        return finish(I, r, kw)
    return h


for _l in ("numpy", "torch", "math"):
    for _n, _f in UN.items():
        FN[f"{_l}.{_n}"] = mk_unary(_n, _f, _l)
    for _n, _f in BOOLUN.items():
        FN[f"{_l}.{_n}"] = mk_unary(_n, _f, _l, True)
FN["torch.special.expit"] = FN["torch.sigmoid"]
FN["torch.nn.functional.relu"] = FN["torch.relu"]
FN["math.fabs"] = FN["math.abs"]
for _a, _b in (("asin", "arcsin"), ("acos", "arccos"), ("atan", "arctan")):
    FN["math." + _a] = FN["math." + _b]
    FN["torch." + _a] = FN["torch." + _b]


def mk_bin(op, name, lib):
    def h(I, args, kw):
        k = strip(kw)
        a2 = list(args)
        for nm in ("input", "other", "x1", "x2"):
            if nm in k:
                a2.append(k.pop(nm))
        alpha = k.pop("alpha", None)
        k.pop("rounding_mode", None) if k.get("rounding_mode") is None else None
        if k:
            raise BadArgs(next(iter(k)))
        if len(a2) == 3 and lib == "numpy":
            kw = dict(kw)
            kw["out"] = a2.pop()
        if len(a2) != 2:
            raise BadArgs("arguments")
        x, y = I.force(a2[0]), I.force(a2[1])
        if lib == "torch":
            if not (isinstance(x, Arr) and x.lib == "th") and not (isinstance(y, Arr) and y.lib == "th"):
                need_tensor(I, x, "torch." + name)
            for q in (x, y):
                if isinstance(q, Arr) and q.lib == "np" and q.ndim:
                    I.event("type", f"torch.{name} gets a NumPy array")
        else:
            np_of_tensor(I, x, "numpy." + name)
            np_of_tensor(I, y, "numpy." + name)
        if alpha is not None:
            y = binop(I, "Mult", y, alpha)
        if isinstance(x, (Arr, PyList, Choice, Iter)) and isinstance(y, (Arr, PyList, Choice, Iter)):
            if isinstance(x, PyList):
                x = I.toarray(x)
            if isinstance(y, PyList):
                y = I.toarray(y)
        r = compare(I, op, x, y) if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE") else binop(I, op, x, y)
        return finish(I, r, kw)
    return h


for _l in ("numpy", "torch"):
    for _op, _ns in {"Add": "add", "Sub": "subtract sub", "Mult": "multiply mul", "Div": "divide div true_divide", "Pow": "power pow float_power",
                     "FloorDiv": "floor_divide", "Mod": "mod remainder fmod", "Eq": "equal eq", "NotEq": "not_equal ne", "Lt": "less lt",
                     "LtE": "less_equal le", "Gt": "greater gt", "GtE": "greater_equal ge"}.items():
        for _n in _ns.split():
            FN[f"{_l}.{_n}"] = mk_bin(_op, _n, _l)
    for _n, _f in (("maximum", T.maxE), ("minimum", T.minE), ("fmax", T.maxE), ("fmin", T.minE)):
        def _mm(I, args, kw, _f=_f, _n=_n, _l=_l):
            if len(args) != 2:
                raise BadArgs("arguments")
            if _l == "torch":
                for q in args:
                    need_tensor(I, q, "torch." + _n)
            return finish(I, ew(I, nfn(_f), list(args)), kw)
        FN[f"{_l}.{_n}"] = _mm
    for _n, _f in (("logical_and", lambda a, b: and_(a, b)), ("logical_or", lambda a, b: or_(a, b)),
                   ("logical_xor", lambda a, b: or_(and_(a, not_(b)), and_(not_(a), b)))):
        FN[f"{_l}.{_n}"] = (lambda I, args, kw, _f=_f: finish(I, ew(I, _f, list(args), dtype="bool", boolin=True), kw))
    FN[f"{_l}.logical_not"] = lambda I, args, kw: finish(I, ew(I, not_, list(args), dtype="bool", boolin=True), kw)
    for _n in ("bitwise_and", "bitwise_or", "bitwise_xor"):
        FN[f"{_l}.{_n}"] = (lambda I, args, kw, _o={"bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor"}[_n]: binop(I, _o, *args))
    FN[f"{_l}.hypot"] = lambda I, args, kw: ew(I, nfn(lambda a, b: T.sqrt(a * a + b * b)), list(args))
    FN[f"{_l}.arctan2"] = lambda I, args, kw: ew(I, nfn(lambda a, b: app("arctan2", a, b)), list(args))
for _n, _o in {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "matmul": "MatMult", "floordiv": "FloorDiv", "mod": "Mod",
               "and_": "BitAnd", "or_": "BitOr", "iadd": "Add", "imul": "Mult"}.items():
    FN["operator." + _n] = (lambda I, args, kw, _o=_o: binop(I, _o, *args))
for _n, _o in {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}.items():
    FN["operator." + _n] = (lambda I, args, kw, _o=_o: compare(I, _o, *args))
FN["operator.neg"] = lambda I, args, kw: I.unop("USub", args[0])
FN["operator.not_"] = lambda I, args, kw: I.unop("Not", args[0])
FN["operator.getitem"] = lambda I, args, kw: I.subscript(args[0], args[1])
FN["math.pow"] = lambda I, args, kw: binop(I, "Pow", *args)


@fn("math.hypot")
def math_hypot(I, args, kw):
    s = ZERO
    for a in args:
        e = I.asE(a)
        s = s + e * e
    return mk((), T.sqrt(s), "py", "float64")


@fn("math.fsum", "math.prod")
def math_sum(I, args, kw):
    return b_sum(I, args, kw) if I.libname == "math.fsum" else fold_reduce(I, "Mult", args[0], kw.get("start", pynum(1)))


@fn("numpy.clip", "torch.clip", "torch.clamp")
def clip(I, args, kw):
    k = strip(kw)
    if "min" in k:
        k["a_min"] = k.pop("min")
    if "max" in k:
        k["a_max"] = k.pop("max")
    a, lo, hi = take(args, k, "a a_min=None a_max=None")
    r = I.toarray(a)
    if isinstance(r, Unk):
        return r
    if lo is not None:
        r = ew(I, nfn(T.maxE), [r, lo])
    if hi is not None and not isinstance(r, Unk):
        r = ew(I, nfn(T.minE), [r, hi])
    return finish(I, r, kw)


@fn("numpy.where", "torch.where")
def where(I, args, kw):
    if len(args) == 1:
        return I.unk("where with one argument")
    c, a, b = args

    def f(x, y, z):
        if isinstance(y, B) and isinstance(z, B):
            return T.bite(asbool(x), y, z)
        return ite(asbool(x), asnum(y), asnum(z))
    xs, bad = O.arrs(I, [c, a, b])
    if xs is None:
        return bad
    r = ew(I, f, xs)
    if isinstance(r, Arr):
        r.dtype = I.join_dtype(xs[1:])
        if r.lib == "py":
            r.lib = "np"
    return r


@fn("numpy.isclose", "torch.isclose")
def isclose(I, args, kw):
    return ew(I, nfn(lambda a, b: bapp("isclose", a, b)), list(args[:2]), dtype="bool")


@fn("numpy.allclose", "torch.allclose", "numpy.array_equal", "torch.equal")
def allclose(I, args, kw):
    nm = I.libname.split(".")[-1]
    if nm in ("array_equal", "equal"):
        r = ew(I, lambda a, b: O._eqv(a, b), list(args[:2]), dtype="bool")
    else:
        r = ew(I, nfn(lambda a, b: bapp("isclose", a, b)), list(args[:2]), dtype="bool")
    if isinstance(r, Unk):
        return r
    r = reduce_(I, "all", r)
    r.lib = "py"
    return r


# ------------------------------------------------------------------ reductions
def axis_kw(kw):
    kw = dict(kw)
    if "dim" in kw:
        kw["axis"] = kw.pop("dim")
    if "keepdim" in kw:
        kw["keepdims"] = kw.pop("keepdim")
    if "input" in kw:
        kw["a"] = kw.pop("input")
    kw.pop("dtype", None)
    return kw


def as_reducible(I, a, lib, name):
    a = I.force(a)
    if isinstance(a, Choice):
        return a
    if lib == "torch":
        need_tensor(I, a, "torch." + name)
    else:
        np_of_tensor(I, a, "numpy." + name)
    if a is None or isinstance(a, (str, Func, Obj)):
        I.event("type", f"{lib}.{name} of {describe(a)}")
        return I.unk("bad operand")
    if isinstance(a, PyList) and lib == "numpy":
        c = I.items(a)
        return I.toarray(a)
    return I.toarray(a)


def mk_red(op, name, lib):
    def h(I, args, kw):
        k = axis_kw(kw)
        out = k.pop("out", None)
        k.pop("initial", None) if False else None
        if lib == "torch" and name in ("min", "max") and len(args) == 2:
            o = I.force(args[1])
            if isinstance(o, Arr) and o.lib == "th":
                return ew(I, nfn(T.minE if name == "min" else T.maxE), list(args))
        a, ax, keep = take(args, k, "a axis=None keepdims=False") if not (lib == "numpy" and len(args) > 2) else (args[0], args[1], k.get("keepdims"))
        if isinstance(I.force(a), Choice):
            return I.lift(I.force(a), lambda x: h(I, [x] + list(args[1:]), kw))
        x = as_reducible(I, a, lib, name)
        if isinstance(x, Unk):
            return x
        if lib == "torch" and op == "prod" and ax is None and x.ndim > 1:
            pass
        r = reduce_(I, op, x, ax, kwbool(I, keep))
        if lib == "torch" and name in ("min", "max") and ax is not None:
            return PyList([r, Unk("indices of extremes")], "tuple")
        return finish(I, r, {"out": out})
    return h


for _l in ("numpy", "torch"):
    for _op, _ns in {"sum": "sum nansum", "prod": "prod", "min": "min amin nanmin", "max": "max amax nanmax", "all": "all alltrue", "any": "any sometrue"}.items():
        for _n in _ns.split():
            FN[f"{_l}.{_n}"] = mk_red(_op, _n, _l)

    def _mean(I, args, kw, _l=_l):
        k = axis_kw(kw)
        a, ax, keep = take(args, k, "a axis=None keepdims=False")
        x = as_reducible(I, a, _l, "mean")
        return x if isinstance(x, Unk) else mean(I, x, ax, kwbool(I, keep))
    FN[_l + ".mean"] = _mean
    FN[_l + ".nanmean"] = _mean

    def _std(I, args, kw, _l=_l):
        p = 2 if I.libname.endswith("var") else 1
        k = axis_kw(kw)
        dd = None
        if "ddof" in k:
            dd = I.asE(k.pop("ddof"))
        if "correction" in k:
            dd = I.asE(k.pop("correction"))
        if "unbiased" in k:
            dd = ONE if kwbool(I, k.pop("unbiased"), True) else ZERO
        k.pop("out", None)
        a = list(args)
        keep = k.pop("keepdims", None)
        x = a.pop(0) if a else k.pop("a")
        ax = k.pop("axis", None)
        if a and ax is None:
            q = I.force(a.pop(0))
            if isinstance(q, Arr) and q.dtype == "bool":
                dd = ONE if kwbool(I, q) else ZERO
            else:
                ax = q
        if a and _l == "torch":
            q = I.force(a.pop(0))
            if isinstance(q, Arr) and q.dtype == "bool":
                dd = ONE if kwbool(I, q) else ZERO
        if k or a:
            raise BadArgs("std arguments")
        if dd is None:
            dd = ONE if _l == "torch" else ZERO
        x = as_reducible(I, x, _l, "std")
        return x if isinstance(x, Unk) else std(I, x, ax, kwbool(I, keep), dd, p)
    FN[_l + ".std"] = _std
    FN[_l + ".var"] = _std
    FN[_l + ".nanstd"] = _std
    for _n in ("median", "argmin", "argmax", "nanmedian"):
        def _opq(I, args, kw, _n=_n):
            k = axis_kw(kw)
            a, ax, keep = take(args, k, "a axis=None keepdims=False")
            return opaque_reduce(I, _n, a, ax, kwbool(I, keep), "int" if _n.startswith("arg") else None)
        FN[f"{_l}.{_n}"] = _opq

    def _cum(I, args, kw, _l=_l):
        op = "sum" if "sum" in I.libname else "prod"
        k = axis_kw(kw)
        a, ax = take(args, k, "a axis=None")
        x = I.toarray(a)
        if isinstance(x, Unk):
            return x
        if ax is None:
            if x.ndim != 1:
                return I.unk("cumulative sum of a matrix")
            ax = pynum(0)
        axs = norm_axes(I, x, ax)
        if not axs:
            return I.unk("axis")
        d = axs[0]
        v = T.fresh()
        with I.axes(x.shape):
            n = ph(d) + 1
            with CTX.bounds({v: n}):
                b = O.red1(op, T.subst(I.body(x), {f"@{d}": sym(v)}), v, n)
        return I.derived(x.shape, b, x)
    FN[_l + ".cumsum"] = _cum
    FN[_l + ".cumprod"] = _cum

    def _norm(I, args, kw, _l=_l):
        k = axis_kw(kw)
        if "p" in k:
            k["ord"] = k.pop("p")
        a, od, ax, keep = take(args, {("a" if q == "x" else q): v for q, v in k.items()}, "a ord=None axis=None keepdims=False")
        x = I.toarray(a)
        if isinstance(x, Unk):
            return x
        o = I.force(od)
        p = None
        if o is None or o == "fro":
            p = 2
        elif isinstance(o, Arr):
            p = I.asE(o).const
        if p is None:
            return I.unk("norm order")
        if ax is None and x.ndim == 2 and o is not None and o != "fro" and _l == "numpy":
            return I.unk("matrix norm")
        if p == 2:
            r = reduce_(I, "sum", ew(I, nfn(lambda q: q * q), [x]), ax, kwbool(I, keep))
            return ew(I, nfn(T.sqrt), [r])
        if p == 1:
            return reduce_(I, "sum", ew(I, nfn(T.absE), [x]), ax, kwbool(I, keep))
        return I.unk("norm order")
    FN[_l + ".linalg.norm"] = _norm
    FN[_l + ".linalg.vector_norm"] = _norm
FN["torch.norm"] = FN["torch.linalg.norm"]


@fn("numpy.ptp")
def ptp(I, args, kw):
    k = axis_kw(kw)
    a, ax, keep = take(args, k, "a axis=None keepdims=False")
    return binop(I, "Sub", reduce_(I, "max", a, ax, kwbool(I, keep)), reduce_(I, "min", a, ax, kwbool(I, keep)))


@fn("torch.aminmax")
def aminmax(I, args, kw):
    k = axis_kw(kw)
    a, ax, keep = take(args, k, "a axis=None keepdims=False")
    return PyList([reduce_(I, "min", a, ax, kwbool(I, keep)), reduce_(I, "max", a, ax, kwbool(I, keep))], "tuple")


@fn("torch.std_mean", "torch.var_mean")
def std_mean(I, args, kw):
    s = call_lib(I, "torch.std" if "std" in I.libname else "torch.var", args, kw, I.node)
    k = {q: v for q, v in kw.items() if q in ("dim", "axis", "keepdim")}
    return PyList([s, call_lib(I, "torch.mean", args[:2], k, I.node)], "tuple")


@fn("numpy.average")
def average(I, args, kw):
    k = axis_kw(kw)
    a, ax, w = take(args, k, "a axis=None weights=None")
    if w is None:
        return mean(I, a, ax)
    x, w = I.toarray(a), I.toarray(w)
    if isinstance(x, Unk) or isinstance(w, Unk):
        return I.unk("average")
    axs = norm_axes(I, x, ax)
    if w.ndim == 1 and len(axs) == 1 and x.ndim > 1:
        key = [None] * x.ndim
        w2 = reaxes(I, w, [0 if i == axs[0] else None for i in range(x.ndim)])
    else:
        w2 = w
    s = reduce_(I, "sum", binop(I, "Mult", x, w2), ax)
    return binop(I, "Div", s, reduce_(I, "sum", w))


@fn("numpy.count_nonzero")
def count_nonzero(I, args, kw):
    k = axis_kw(kw)
    a, ax, keep = take(args, k, "a axis=None keepdims=False")
    x = ew(I, lambda b: ind(asbool(b)), [a], dtype="int")
    return reduce_(I, "sum", x, ax, kwbool(I, keep))


@fn("numpy.diff")
def np_diff(I, args, kw):
    a, n, ax = take(args, kw, "a n=1 axis=-1")
    x = I.toarray(a)
    if isinstance(x, Unk):
        return x
    d = norm_axes(I, x, ax)[0]
    sl = [Slice(None, None, None)] * x.ndim
    s1, s0 = list(sl), list(sl)
    s1[d] = Slice(pynum(1), None, None)
    s0[d] = Slice(None, pynum(-1), None)
    return binop(I, "Sub", I.view(x, tuple(s1)), I.view(x, tuple(s0)))


@fn("numpy.unique", "torch.unique", "numpy.argsort", "torch.argsort")
def np_unique(I, args, kw):
    return I.unk(I.libname)


def order_reduce(I, x, ax, k, keep=False):
    """k: E (0-based rank)"""
    n = x.shape[ax]
    bad = not_(and_(ge(k), ge(n - 1 - k)))
    if bad is not T.FALSE:
        I.event("index", f"rank {T.show(k + 1)} of {T.show(n)} values", cond=bad)
    return reduce_(I, "order", x, pynum(ax), keep, lamfn=lambda ns, vs, b: T.order(T.lam(ns, vs, asnum(b)), k))


def one_axis(I, x, ax, default=-1):
    a = norm_axes(I, x, pynum(default) if I.force(ax) is None else ax)
    return a[0] if a else None


@fn("numpy.sort", "torch.sort", "torch.msort")
def np_sort(I, args, kw):
    k = axis_kw(kw)
    k.pop("stable", None)
    k.pop("kind", None)
    k.pop("keepdims", None)
    desc = k.pop("descending", None)
    a, ax = take(args, k, "a axis=None")
    x = I.toarray(a)
    if isinstance(x, Unk):
        return x
    th = I.libname.startswith("torch")
    d = one_axis(I, x, ax, 0 if I.libname.endswith("msort") else -1)
    if d is None or (desc is not None and not isinstance(I.truth(desc), T.BConst)):
        return I.unk("sort axis")
    if x.ndim == 0 or len(args) > 2:
        return I.unk("sort arguments")
    down = desc is not None and kwbool(I, desc)
    n = x.shape[d]
    v = T.fresh()
    body = I.body(x)
    with I.axes(x.shape):
        with CTX.bounds({v: n}):
            b = T.subst(body, {f"@{d}": sym(v)})
            k0 = ph(d) if not down else n - 1 - ph(d)
            if n.const == 1:
                b = body
            else:
                b = T.order(T.lam((n,), (v,), asnum(b)), k0)
    r = I.derived(x.shape, b, x)
    if r.lib == "py":
        r.lib = "np"
    r.meta = None
    return r if not th or I.libname.endswith("msort") else PyList([r, Unk("sorting permutation")], "tuple")


@fn("torch.kthvalue", "torch.topk")
def kthvalue(I, args, kw):
    k = axis_kw(kw)
    if I.libname.endswith("topk"):
        return I.unk("topk")
    a, kk, ax, keep = take(args, k, "a k axis=None keepdims=False")
    x = I.toarray(a)
    if isinstance(x, Unk):
        return x
    d = one_axis(I, x, ax)
    if d is None:
        return I.unk("axis")
    e = I.asE(I.force(kk))
    return PyList([order_reduce(I, x, d, e - 1, kwbool(I, keep)), Unk("index of the k-th value")], "tuple")


@fn("numpy.quantile", "numpy.percentile", "torch.quantile", "numpy.nanquantile", "numpy.nanpercentile")
def quantile(I, args, kw):
    k = axis_kw(kw)
    k.pop("interpolation", None), k.pop("method", None)
    a, q, ax, keep = take(args, k, "a q axis=None keepdims=False")
    x = I.toarray(a)
    qv = I.toarray(q)
    if isinstance(x, Unk) or isinstance(qv, Unk):
        return I.unk("quantile")
    full = 100 if "percentile" in I.libname else 1
    one = lambda e: (reduce_(I, "min", x, ax, kwbool(I, keep)) if e.const == 0 else reduce_(I, "max", x, ax, kwbool(I, keep)) if e.const == full
                     else reduce_(I, "quantile", x, ax, kwbool(I, keep), lamfn=lambda ns, vs, b: T.app("quantile", T.lam(ns, vs, asnum(b)), e / full)))
    if qv.ndim == 0:
        return one(I.asE(qv))
    if qv.ndim == 1 and qv.shape[0].const is not None:
        from .lib2 import call_lib
        its = [one(T.subst(asnum(I.body(qv)), {"@0": T.num(i)})) for i in range(int(qv.shape[0].const))]
        return call_lib(I, ("torch" if x.lib == "th" else "numpy") + ".stack", [PyList(its, "list")], {}, I.node)
    return I.unk("quantile")


# ------------------------------------------------------------------ products, linear algebra
FN["numpy.matmul"] = FN["torch.matmul"] = FN["torch.mm"] = FN["torch.bmm"] = FN["torch.mv"] = lambda I, args, kw: finish(I, matmul(I, *args[:2]), kw)


@fn("numpy.dot", "torch.dot", "numpy.inner", "numpy.vdot", "torch.inner")
def dot(I, args, kw):
    a, b = I.toarray(args[0]), I.toarray(args[1])
    if isinstance(a, Unk) or isinstance(b, Unk):
        return I.unk("dot")
    if a.ndim == 0 or b.ndim == 0:
        return binop(I, "Mult", a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        if "inner" in I.libname and b.ndim == 2:
            b = transpose(I, b)
        return finish(I, matmul(I, a, b), kw)
    return I.unk("dot of higher arrays")


FN["numpy.einsum"] = FN["torch.einsum"] = lambda I, args, kw: einsum(I, I.force(args[0]), args[1:]) if isinstance(I.force(args[0]), str) else I.unk("einsum")


@fn("numpy.outer", "torch.outer", "torch.ger")
def outer(I, args, kw):
    a, b = [x if isinstance(x, Unk) else reshape(I, x, [num(-1)]) for x in (I.toarray(args[0]), I.toarray(args[1]))]
    if isinstance(a, Unk) or isinstance(b, Unk):
        return I.unk("outer")
    return binop(I, "Mult", I.view(a, (Slice(None, None, None), None)), I.view(b, (None, Slice(None, None, None))))


@fn("numpy.tensordot", "torch.tensordot")
def tensordot(I, args, kw):
    return I.unk("tensordot")


@fn("numpy.linalg.inv", "torch.linalg.inv", "torch.inverse", "scipy.linalg.inv", "numpy.linalg.pinv", "torch.linalg.pinv", "scipy.linalg.pinv", "torch.pinverse")
def inv(I, args, kw):
    return matfun(I, "inv", args[0])


@fn("numpy.linalg.solve", "torch.linalg.solve", "scipy.linalg.solve")
def lsolve(I, args, kw):
    return solve(I, args[0], args[1])


@fn("numpy.linalg.cholesky", "torch.linalg.cholesky", "scipy.linalg.cholesky")
def chol(I, args, kw):
    return matfun(I, "cholesky", args[0])


@fn("numpy.linalg.det", "torch.linalg.det", "torch.det")
def det(I, args, kw):
    return opaque_reduce(I, "det", args[0])


@fn("numpy.trace", "torch.trace")
def trace(I, args, kw):
    return reduce_(I, "sum", diagonal(I, args[0]))


def diagonal(I, a):
    a = I.toarray(a)
    if isinstance(a, Unk) or a.ndim != 2:
        return I.unk("diagonal")
    n = a.shape[0]
    with I.axes((n,)):
        return I.derived((n,), T.subst(I.body(a), {"@1": ph(0)}), a)


@fn("numpy.diag", "torch.diag", "numpy.diagonal", "torch.diagonal", "torch.diag_embed")
def diag(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk) or len(args) > 1 or kw:
        return I.unk("diag")
    if a.ndim == 2:
        return diagonal(I, a)
    n = a.shape[0]
    with I.axes((n, n)):
        b = ind(eq(ph(0), ph(1))) * I.nbody(a)
    r = I.derived((n, n), b, a)
    r.lib = "th" if a.lib == "th" else "np"
    return r


@fn("numpy.fill_diagonal")
def fill_diagonal(I, args, kw):
    a, v = I.force(args[0]), I.toarray(args[1])
    if not isinstance(a, Arr) or a.ndim != 2 or isinstance(v, Unk) or v.ndim:
        return I.unk("fill_diagonal")
    with I.axes(a.shape):
        b = ite(eq(ph(0), ph(1)), I.nbody(v), I.nbody(a))
    I.write(a, mk(a.shape, b, a.lib, a.dtype, a.dev))
    return None


# ------------------------------------------------------------------ distances
def metric_body(name, d, v, n, p=None):
    if name == "sqeuclidean":
        return T.sum_over(d * d, v, n)
    if name == "euclidean":
        return T.sqrt(T.sum_over(d * d, v, n))
    if name in ("cityblock", "manhattan", "l1"):
        return T.sum_over(T.absE(d), v, n)
    if name == "chebyshev":
        return T.red("redmax", T.absE(d), v, n)
    if name == "minkowski":
        if p is None:
            p = 2
        if p == 1:
            return T.sum_over(T.absE(d), v, n)
        if p == 2:
            return T.sqrt(T.sum_over(d * d, v, n))
        return T.power(T.sum_over(T.power(T.absE(d), p), v, n), Fraction(1) / Fraction(p))
    return None


def plain(e):
    """a single named quantity"""
    if len(e.t) != 1:
        return False
    (m, c), = e.t.items()
    return not m.bound and m.ex is None and all(a.kind == "sym" or (a.kind == "app" and not any(isinstance(q, T.Lam) for q in a.args)) for a, _ in m.factors)


def pair_dist(I, x, y, metric, p=None):
    for q in (x, y):
        if q.ndim != 2:
            I.event("shape", f"pairwise distances of {describe(q)}")
            return I.unk("distance of a vector")
    n = x.shape[1]
    if I.same_size(n, y.shape[1]) is not True:
        I.event("shape", f"pairwise distances between {T.show(n)} and {T.show(y.shape[1])} columns", cond=not_(eq(n, y.shape[1])))
    shape = (x.shape[0], y.shape[0])
    v = T.fresh()
    with I.axes(shape), CTX.bounds({v: n}):
        xa, ya = T.subst(I.nbody(x), {"@1": sym(v)}), T.subst(I.nbody(y), {"@0": ph(1), "@1": sym(v)})
        eu = metric in ("sqeuclidean", "euclidean") or (metric == "minkowski" and p in (None, 2))
        if eu and not (plain(xa) and plain(ya)):
            # composite points: keep the distance folded (terms.unfold expands it)
            b = app("eucl2", T.lam((n,), (v,), xa), T.lam((n,), (v,), ya))
            if metric != "sqeuclidean":
                b = T.sqrt(b)
        else:
            b = metric_body(metric, xa - ya, v, n, p)
    if b is None:
        return I.unk(f"distance {metric}")
    r = I.derived(shape, b, x, y)
    if r.dtype in ("int", "bool"):
        r.dtype = "float64"
    return r


@fn("scipy.spatial.distance.cdist")
def cdist(I, args, kw):
    a, b, m, p = take(args, {{"XA": "a", "XB": "b"}.get(k, k): v for k, v in kw.items()}, "a b metric=None p=None")
    m = I.force(m)
    m = "euclidean" if m is None else m
    xs, bad = O.arrs(I, [a, b])
    if xs is None:
        return bad
    for x in xs:
        np_of_tensor(I, x, "cdist")
    if not isinstance(m, str):
        return I.unk("metric")
    return pair_dist(I, xs[0], xs[1], m, I.asE(p).const if p is not None else None)


@fn("torch.cdist")
def tcdist(I, args, kw):
    a, b, p = take(args, {{"x1": "a", "x2": "b"}.get(k, k): v for k, v in kw.items() if k != "compute_mode"}, "a b p=2")
    xs, bad = O.arrs(I, [a, b])
    if xs is None:
        return bad
    for x in xs:
        need_tensor(I, x, "torch.cdist")
    return pair_dist(I, xs[0], xs[1], "minkowski", I.asE(p).const)


@fn("scipy.spatial.distance_matrix")
def distance_matrix(I, args, kw):
    a, b, p = take(args, kw, "x y p=2")
    return pair_dist(I, I.toarray(a), I.toarray(b), "minkowski", I.asE(p).const)


@fn("scipy.spatial.distance.pdist")
def pdist(I, args, kw):
    a, m, p = take(args, {("a" if k == "X" else k): v for k, v in kw.items()}, "a metric=None p=None")
    m = I.force(m)
    m = "euclidean" if m is None else m
    x = I.toarray(a)
    if isinstance(x, Unk) or not isinstance(m, str):
        return I.unk("pdist")
    full = pair_dist(I, x, x, m, I.asE(p).const if p is not None else None)
    if isinstance(full, Unk):
        return full
    n = x.shape[0]
    q = n * (n - 1) * Fraction(1, 2)
    r = mk((q,), app("condensed", T.lam((n, n), ("?a", "?b"), T.subst(I.nbody(full), {"@0": sym("?a"), "@1": sym("?b")})), ph(0)), "np", "float64")
    r.meta = ("pdist", full)
    return r


@fn("scipy.spatial.distance.squareform")
def squareform(I, args, kw):
    x = I.force(args[0])
    if isinstance(x, Arr) and x.meta and x.meta[0] == "pdist":
        f = x.meta[1]
        return mk(f.shape, I.body(f), "np", "float64")
    if isinstance(x, Arr) and x.ndim == 1 and len(I.body(x).t) == 1:
        # scaled condensed distances
        e = I.nbody(x)
        cs = [a for a in T.walk(e) if isinstance(a, T.Atom) and a.kind == "app" and a.args[0] == "condensed"]
        if len(cs) == 1:
            l = cs[0].args[1]
            n = l.sizes[0]
            with I.axes((n, n)):
                full = T.lam_apply(l, [ph(0), ph(1)])
                body = T.rewrite(e, lambda f: f == "condensed", lambda f, args: full)
                if "@0" not in (e - e).free:
                    return mk((n, n), body, "np", "float64")
    return I.unk("squareform")


# ------------------------------------------------------------------ optimal transport
def plan(I, a, b, M, lib, name):
    xs, bad = O.arrs(I, [a, b, M])
    if xs is None:
        return bad
    a, b, M = xs
    for x, nm in ((a, "source weights"), (b, "target weights")):
        if x.ndim != 1:
            I.event("shape", f"{name}: {nm} must be a vector, not {describe(x)}")
            return I.unk("weights shape")
    if M.ndim != 2:
        I.event("shape", f"{name}: cost must be a matrix")
        return I.unk("cost shape")
    for x, n, nm in ((a, M.shape[0], "source"), (b, M.shape[1], "target")):
        if I.same_size(x.shape[0], n) is not True:
            I.event("shape", f"{name}: {nm} weights of size {T.show(x.shape[0])} for a cost of size {T.show(n)}", cond=not_(eq(x.shape[0], n)))
    n, m = M.shape
    i, j = T.fresh(), T.fresh()
    with CTX.bounds({i: n, j: m}):
        la = T.lam((n,), (i,), T.subst(I.nbody(a), {"@0": sym(i)}))
        lb = T.lam((m,), (j,), T.subst(I.nbody(b), {"@0": sym(j)}))
        lm = T.lam((n, m), (i, j), T.subst(I.nbody(M), {"@0": sym(i), "@1": sym(j)}))
    r = I.derived((n, m), app("otplan", la, lb, lm, ph(0), ph(1)), a, b, M)
    r.lib = lib
    return r


@fn("pyemd.emd_with_flow")
def emd_with_flow(I, args, kw):
    a, b, M, pen = take(args, {{"first_histogram": "a", "second_histogram": "b", "distance_matrix": "M"}.get(k, k): v for k, v in kw.items()},
                        "a b M extra_mass_penalty=-1")
    for x in (a, b, M):
        np_of_tensor(I, I.force(x), "emd_with_flow")
    p = plan(I, a, b, M, "np", "emd_with_flow")
    if isinstance(p, Unk):
        return p
    i, j = T.fresh("%l"), T.fresh("%l")
    T.INTS.update((i, j))
    n, m = p.shape
    with CTX.bounds({i: n, j: m}):
        el = mk((), T.subst(I.nbody(p), {"@0": sym(i), "@1": sym(j)}), "py", "float64")
    row = PyList(SymSeq(m, j, el), "list")
    return PyList([mk((), app("otcost", num(newid())), "py", "float64"), PyList(SymSeq(n, i, row), "list")], "tuple")


@fn("pyemd.emd")
def emd_cost(I, args, kw):
    return mk((), app("otcost", num(newid())), "py", "float64")


@fn("ot.emd", "ot.lp.emd")
def ot_emd(I, args, kw):
    k = {q: v for q, v in kw.items() if q not in ("numItermax", "numThreads", "center_dual", "check_marginals")}
    if kwbool(I, k.pop("log", None)):
        return I.unk("ot.emd with log")
    a, b, M = take(args[:3], k, "a b M")
    xs, bad = O.arrs(I, [a, b, M])
    if xs is None:
        return bad
    libs = {x.lib for x in xs if x.lib != "py"}
    if len(libs) > 1:
        I.event("type", "ot.emd mixes NumPy arrays and tensors")
    return plan(I, a, b, M, xs[2].lib, "ot.emd")


@fn("ot.sinkhorn", "ot.bregman.sinkhorn")
def ot_sinkhorn(I, args, kw):
    a, b, M = args[:3]
    p = plan(I, a, b, M, I.toarray(M).lib, "ot.sinkhorn")
    if isinstance(p, Unk):
        return p
    body = T.rewrite(I.nbody(p), lambda f: f == "otplan", lambda f, args: app("sinkhornplan", *args))
    return I.derived(p.shape, body, p)


@fn("ot.dist", "ot.utils.dist")
def ot_dist(I, args, kw):
    a, b, m, p = take(args, {{"x1": "a", "x2": "b"}.get(k, k): v for k, v in kw.items() if k != "w"}, "a b=None metric=None p=None")
    x = I.toarray(a)
    y = x if b is None else I.toarray(b)
    m = I.force(m)
    m = "sqeuclidean" if m is None else m
    if isinstance(x, Unk) or isinstance(y, Unk) or not isinstance(m, str):
        return I.unk("ot.dist")
    check_mix(I, [x, y], "ot.dist")
    return pair_dist(I, x, y, m, I.asE(p).const if p is not None else None)


@fn("ot.unif", "ot.utils.unif")
def ot_unif(I, args, kw):
    n = int_size(I, args[0])
    if len(args) > 1 or kw:
        return I.unk("ot.unif")
    return mk((n,), ONE / n, "np", "float64")


# ------------------------------------------------------------------ shape functions
SL = Slice(None, None, None)


@fn("numpy.transpose", "torch.permute", "numpy.permute_dims")
def np_transpose(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    ax = args[1] if len(args) > 1 else kw.get("axes", kw.get("dims"))
    if ax is None:
        return transpose(I, a)
    return transpose(I, a, [I.concrete_int(x) for x in I.items(I.force(ax))])


@fn("torch.t")
def th_t(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    need_tensor(I, a, "torch.t")
    if a.ndim > 2:
        I.event("shape", f"torch.t of {describe(a)}")
        return I.unk("t")
    return transpose(I, a) if a.ndim == 2 else a


@fn("numpy.swapaxes", "torch.swapaxes", "torch.transpose", "torch.swapdims")
def swapaxes(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    rest = list(args[1:]) + [v for k, v in kw.items()]
    i, j = [I.concrete_int(x) % a.ndim for x in rest[:2]]
    o = list(range(a.ndim))
    o[i], o[j] = o[j], o[i]
    return permute(I, a, o)


@fn("numpy.moveaxis", "torch.movedim")
def moveaxis(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    i, j = [I.concrete_int(x) % a.ndim for x in args[1:3]]
    o = [x for x in range(a.ndim) if x != i]
    o.insert(j, i)
    return permute(I, a, o)


@fn("numpy.reshape", "torch.reshape")
def np_reshape(I, args, kw):
    a = I.toarray(args[0] if args else kw["a"])
    if isinstance(a, Unk):
        return a
    sh = shape_of(I, *(list(args[1:]) or [kw.get("newshape", kw.get("shape"))]))
    return reshape(I, a, sh)


@fn("numpy.ravel", "torch.ravel", "torch.flatten")
def ravel(I, args, kw):
    a = I.toarray(args[0])
    return a if isinstance(a, Unk) else reshape(I, a, [num(-1)])


@fn("numpy.squeeze", "torch.squeeze")
def squeeze(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    ax = args[1] if len(args) > 1 else kw.get("axis", kw.get("dim"))
    if ax is None:
        for s in a.shape:
            if not one(s) and CTX.decide_ge(s - 2) is not True:
                # an axis of symbolic size that may be 1 would be dropped
                I.event("shape", f"squeeze drops an axis of size {T.show(s)} when it is 1", cond=eq(s, 1))
        return reaxes(I, a, [i for i in range(a.ndim) if not one(a.shape[i])])
    axs = norm_axes(I, a, ax)
    for i in axs:
        if not one(a.shape[i]):
            if I.libname.startswith("numpy"):
                I.event("shape", f"squeeze of an axis of size {T.show(a.shape[i])}", cond=not_(eq(a.shape[i], 1)))
            else:
                I.event("shape", f"squeeze drops an axis of size {T.show(a.shape[i])} when it is 1", cond=eq(a.shape[i], 1))
                return a
    return reaxes(I, a, [i for i in range(a.ndim) if i not in axs])


@fn("numpy.expand_dims", "torch.unsqueeze")
def expand_dims(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    ax = I.concrete_int(args[1] if len(args) > 1 else kw.get("axis", kw.get("dim")))
    o = list(range(a.ndim))
    o.insert(ax if ax >= 0 else ax + a.ndim + 1, None)
    return reaxes(I, a, o)


@fn("numpy.atleast_1d", "torch.atleast_1d")
def atleast_1d(I, args, kw):
    a = as_array(I, args[0], "torch" if I.libname.startswith("torch") else "numpy", copy=False)
    return a if isinstance(a, Unk) or a.ndim else reaxes(I, a, [None])


@fn("numpy.atleast_2d", "torch.atleast_2d")
def atleast_2d(I, args, kw):
    a = as_array(I, args[0], "torch" if I.libname.startswith("torch") else "numpy", copy=False)
    if isinstance(a, Unk):
        return a
    return reaxes(I, a, [None, None] if a.ndim == 0 else [None, 0]) if a.ndim < 2 else a


@fn("numpy.broadcast_to", "torch.broadcast_to")
def broadcast_to(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    return broadcast_view(I, a, tuple(shape_of(I, args[1] if len(args) > 1 else kw.get("shape"))))


@fn("numpy.tile", "torch.tile")
def tile(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    reps = shape_of(I, args[1] if len(args) > 1 else kw.get("reps", kw.get("dims")))
    return tile_(I, a, reps)


def tile_(I, a, reps):
    nd = max(a.ndim, len(reps))
    a = reaxes(I, a, [None] * (nd - a.ndim) + list(range(a.ndim)))
    reps = [ONE] * (nd - len(reps)) + list(reps)
    shape, mp = [], {}
    for i in range(nd):
        if one(reps[i]):
            shape.append(a.shape[i])
        elif one(a.shape[i]):
            shape.append(reps[i])
            mp[f"@{i}"] = ZERO
        else:
            return I.unk("tile of a long axis")
    with I.axes(shape):
        r = I.derived(shape, T.subst(I.body(a), mp) if mp else I.body(a), a)
    if r.lib == "py":
        r.lib = "np"
    return r


@fn("numpy.repeat", "torch.repeat_interleave")
def repeat(I, args, kw):
    k = axis_kw(kw)
    a, n, ax = take(args, k, "a repeats axis=None")
    a = I.toarray(a)
    if isinstance(a, Unk):
        return a
    n = int_size(I, n)
    if ax is None:
        a = reshape(I, a, [num(-1)])
        ax = pynum(0)
    d = norm_axes(I, a, ax)[0]
    if one(a.shape[d]):
        reps = [ONE] * a.ndim
        reps[d] = n
        return tile_(I, a, reps)
    shape = list(a.shape)
    shape[d] = shape[d] * n
    with I.axes(shape):
        return I.derived(shape, T.subst(I.body(a), {f"@{d}": T.floordiv(ph(d), n)}), a)


@fn("numpy.flip", "numpy.flipud", "numpy.fliplr", "torch.flip", "torch.flipud", "torch.fliplr")
def flip(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    nm = I.libname.split(".")[-1]
    ax = {"flipud": pynum(0), "fliplr": pynum(1)}.get(nm, args[1] if len(args) > 1 else kw.get("axis", kw.get("dims")))
    axs = norm_axes(I, a, ax)
    return I.view(a, tuple(Slice(None, None, pynum(-1)) if i in axs else SL for i in range(a.ndim)))


@fn("numpy.roll", "torch.roll")
def roll(I, args, kw):
    k = axis_kw(kw)
    if "dims" in k:
        k["axis"] = k.pop("dims")
    if "shifts" in k:
        k["shift"] = k.pop("shifts")
    a, s, ax = take(args, k, "a shift axis=None")
    a = I.toarray(a)
    if isinstance(a, Unk):
        return a
    c = I.concrete_int(s)
    if c is None or (ax is None and a.ndim != 1):
        return I.unk("roll")
    d = norm_axes(I, a, ax)[0] if ax is not None else 0
    n = a.shape[d]
    with I.axes(a.shape):
        i = ph(d) - c
        e = ite(ge(i), i, i + n) if c > 0 else ite(ge(n - 1 - i), i, i - n)
        return I.derived(a.shape, T.subst(I.body(a), {f"@{d}": e}), a)


@fn("numpy.stack", "torch.stack")
def stack(I, args, kw):
    k = axis_kw(kw)
    k.pop("out", None)
    if "tensors" in k:
        k["arrays"] = k.pop("tensors")
    xs, ax = take(args, k, "arrays axis=0")
    return stack_values(I, xs, I.concrete_int(ax), "th" if I.libname.startswith("torch") else "np")


@fn("numpy.concatenate", "torch.cat", "torch.concat", "torch.concatenate")
def concatenate(I, args, kw):
    k = axis_kw(kw)
    k.pop("out", None)
    if "tensors" in k:
        k["arrays"] = k.pop("tensors")
    xs, ax = take(args, k, "arrays axis=0")
    return concat_values(I, xs, I.concrete_int(ax), "th" if I.libname.startswith("torch") else "np")


@fn("numpy.vstack", "numpy.row_stack", "torch.vstack")
def vstack(I, args, kw):
    lib = "th" if I.libname.startswith("torch") else "np"
    conc = seq_values(I, args[0])
    if conc is not None:
        xs, bad = O.arrs(I, conc)
        if xs is None:
            return bad
        return concat(I, [reaxes(I, x, [None, 0] if x.ndim == 1 else [None, None]) if x.ndim < 2 else x for x in xs], 0)
    a = stack_values(I, args[0], 0, lib)
    if isinstance(a, Unk) or a.ndim == 2:
        return a
    return reaxes(I, a, [0, None]) if a.ndim == 1 else concat_values(I, args[0], 0, lib)


@fn("numpy.hstack", "torch.hstack")
def hstack(I, args, kw):
    lib = "th" if I.libname.startswith("torch") else "np"
    conc = seq_values(I, args[0])
    if conc is not None:
        xs, bad = O.arrs(I, conc)
        if xs is None:
            return bad
        xs = [reaxes(I, x, [None]) if x.ndim == 0 else x for x in xs]
        return concat(I, xs, 0 if xs[0].ndim == 1 else 1)
    a = stack_values(I, args[0], 0, lib)
    if isinstance(a, Unk) or a.ndim == 1:
        return a
    return concat_values(I, args[0], 0 if a.ndim == 2 else 1, lib)


@fn("numpy.column_stack", "torch.column_stack")
def column_stack(I, args, kw):
    lib = "th" if I.libname.startswith("torch") else "np"
    conc = seq_values(I, args[0])
    if conc is not None:
        xs, bad = O.arrs(I, conc)
        if xs is None:
            return bad
        return concat(I, [reaxes(I, x, [0, None]) if x.ndim == 1 else x for x in xs], 1)
    a = stack_values(I, args[0], 0, lib)
    if isinstance(a, Unk):
        return a
    return transpose(I, a) if a.ndim == 2 else concat_values(I, args[0], 1, lib)


@fn("numpy.shape")
def np_shape(I, args, kw):
    a = I.toarray(args[0])
    return a if isinstance(a, Unk) else PyList([IT.pyint(s) for s in a.shape], "tuple")


@fn("numpy.size", "torch.numel")
def np_size(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    if len(args) > 1 or kw:
        ax = I.concrete_int(args[1] if len(args) > 1 else kw.get("axis"))
        return IT.pyint(a.shape[ax])
    return IT.pyint(count_of(a.shape, range(a.ndim)))


@fn("numpy.ndim")
def np_ndim(I, args, kw):
    a = I.toarray(args[0])
    return a if isinstance(a, Unk) else pynum(a.ndim)


@fn("numpy.isscalar")
def np_isscalar(I, args, kw):
    a = I.force(args[0])
    return pynum(isinstance(a, (str,)) or isinstance(a, Arr) and a.ndim == 0 and a.lib in ("py", "np"))


@fn("numpy.copyto")
def copyto(I, args, kw):
    I.write(args[0], args[1])
    return None


@fn("numpy.meshgrid", "torch.meshgrid")
def meshgrid(I, args, kw):
    xs, bad = O.arrs(I, args)
    ij = I.force(kw.get("indexing")) or ("xy" if I.libname.startswith("numpy") else "ij")
    if xs is None or len(xs) != 2 or any(x.ndim != 1 for x in xs):
        return I.unk("meshgrid")
    a, b = xs
    if ij == "ij":
        sh = (a.shape[0], b.shape[0])
        return PyList([broadcast_view(I, reaxes(I, a, [0, None]), sh), broadcast_view(I, reaxes(I, b, [None, 0]), sh)], "list")
    sh = (b.shape[0], a.shape[0])
    return PyList([broadcast_view(I, reaxes(I, a, [None, 0]), sh), broadcast_view(I, reaxes(I, b, [0, None]), sh)], "list")


@fn("numpy.apply_along_axis")
def apply_along_axis(I, args, kw):
    f, ax, a = args[0], I.concrete_int(args[1]), I.toarray(args[2])
    if isinstance(a, Unk) or a.ndim != 2 or len(args) > 3:
        return I.unk("apply_along_axis")
    ax %= 2
    w = T.fresh("%c")
    T.INTS.add(w)
    n = a.shape[1 - ax]
    with CTX.bounds({w: n}):
        i = mk((), sym(w), "py", "int")
        row = I.view(a, (SL, i) if ax == 0 else (i, SL))
        el = I.freeze(I.call(f, [row], kw, I.node))
    r = I.stack_seq(SymSeq(n, w, el), "np")
    if isinstance(r, Arr) and r.ndim == 2 and ax == 0:
        return transpose(I, r)
    return r


@fn("numpy.fromiter")
def fromiter(I, args, kw):
    return I.toarray(args[0])


@fn("numpy.fromfunction")
def fromfunction(I, args, kw):
    sh = shape_of(I, args[1] if len(args) > 1 else kw["shape"])
    xs = [mk(sh, ph(i), "np", "int" if "dtype" in kw else "float64") for i in range(len(sh))]
    return I.call(args[0], xs, {}, I.node)


@fn("numpy.split", "numpy.array_split", "torch.split", "torch.chunk")
def split(I, args, kw):
    return I.unk("split")


@fn("torch.unbind")
def unbind(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    ax = I.concrete_int(args[1]) if len(args) > 1 else I.concrete_int(kw["dim"]) if "dim" in kw else 0
    o = list(range(a.ndim))
    o.insert(0, o.pop(ax))
    b = permute(I, a, o)
    return Iter(b.shape[0], lambda i: I.view(b, (mk((), i, "py", "int"),)))


# ------------------------------------------------------------------ random numbers
def rnd(I, lib, kind, shape):
    idx = list(I.rngctx) + [ph(i) for i in range(len(shape))]
    I.rngsites.append((lib, kind, I.event_loc(I.node)))
    return app(f"rnd:{kind}:{site(I)}", *idx)


def sample(I, lib, kind, size, params, dtype="float64", dev=None):
    """params: arrays broadcast against the sample shape"""
    ps, bad = O.arrs(I, params)
    if ps is None:
        return bad
    if size is None:
        shape = list(I.bshape([p.shape for p in ps], I.node, "random")) if ps else []
    else:
        shape = list(size)
    bs = [asnum(I.broadcast_to(p, tuple(shape))) for p in ps]
    u = rnd(I, lib, kind, shape)
    with I.axes(shape):
        if kind == "uniform":
            b = bs[0] + (bs[1] - bs[0]) * u if bs else u
        else:
            b = bs[0] + bs[1] * u if bs else u
    return mk(shape, b, "th" if lib == "torch" else "np", dtype, dev)


def opt_size(I, v):
    v = I.force(v)
    if v is None:
        return None
    return shape_of(I, v)


@fn("numpy.random.normal")
def rn_normal(I, args, kw):
    lo, sc, size = take(args, kw, "loc=0 scale=1 size=None")
    return sample(I, "numpy", "normal", opt_size(I, size), [lo, sc])


@fn("numpy.random.uniform")
def rn_uniform(I, args, kw):
    lo, hi, size = take(args, kw, "low=0 high=1 size=None")
    return sample(I, "numpy", "uniform", opt_size(I, size), [lo, hi])


@fn("numpy.random.randn", "numpy.random.rand")
def rn_randn(I, args, kw):
    return sample(I, "numpy", "normal" if "randn" in I.libname else "uniform", shape_of(I, *args) if args else [], [])


@fn("numpy.random.standard_normal", "numpy.random.random_sample", "numpy.random.random", "numpy.random.ranf")
def rn_std(I, args, kw):
    (size,) = take(args, kw, "size=None")
    return sample(I, "numpy", "normal" if "normal" in I.libname else "uniform", opt_size(I, size) or [], [])


@fn("torch.randn", "torch.rand")
def th_randn(I, args, kw):
    if I.force(kw.get("generator")) is not None:
        I.event("rng", "uses a private random generator")
    sh, dt, dv = split_size(I, "torch", args, kw)
    return sample(I, "torch", "normal" if "randn" in I.libname else "uniform", sh, [], dtype_of(I, dt, "float32"), device_of(I, dv))


@fn("torch.randn_like", "torch.rand_like")
def th_randn_like(I, args, kw):
    a = I.toarray(args[0])
    if isinstance(a, Unk):
        return a
    return sample(I, "torch", "normal" if "randn" in I.libname else "uniform", list(a.shape), [], dtype_of(I, kw.get("dtype"), a.dtype),
                  a.dev if kw.get("device") is None else device_of(I, kw["device"]))


@fn("torch.normal")
def th_normal(I, args, kw):
    kw = dict(kw)
    if I.force(kw.pop("generator", None)) is not None:
        I.event("rng", "uses a private random generator")
    dt, dv = kw.pop("dtype", None), kw.pop("device", None)
    m, s, size = take(args, kw, "mean=0 std=1 size=None")
    ts = [x for x in (I.force(m), I.force(s)) if isinstance(x, Arr) and x.lib == "th"]
    dtype = ts[0].dtype if ts else dtype_of(I, dt, "float32")
    if not ts and dt is not None:
        dtype = dtype_of(I, dt)
    return sample(I, "torch", "normal", opt_size(I, size), [m, s], dtype, ts[0].dev if ts and dv is None else device_of(I, dv))


@fn("torch.bernoulli", "torch.randint", "torch.randperm", "torch.multinomial", "numpy.random.randint", "numpy.random.choice", "numpy.random.shuffle",
    "numpy.random.permutation", "numpy.random.exponential", "numpy.random.gamma", "numpy.random.beta", "numpy.random.multivariate_normal",
    "numpy.random.poisson", "numpy.random.binomial", "numpy.random.laplace", "numpy.random.standard_t", "numpy.random.triangular")
def other_random(I, args, kw):
    I.rngsites.append((I.libname.split(".")[0], I.libname.split(".")[-1], I.event_loc(I.node)))
    return I.unk(f"random distribution {I.libname}")


@fn("torch.distributions.Uniform", "torch.distributions.uniform.Uniform", "torch.distributions.Normal", "torch.distributions.normal.Normal")
def th_dist(I, args, kw):
    kw = dict(kw)
    kw.pop("validate_args", None)
    u = "Uniform" in I.libname
    a, b = take(args, kw, "low high" if u else "loc scale")
    xs, bad = O.arrs(I, [a, b])
    if xs is None:
        return bad
    xs = [I.freeze(x) for x in xs]
    return Dist("uniform" if u else "normal", params=xs)


def dist_sample(I, d, args, kw):
    xs = d.kw["params"]
    size = args[0] if args else kw.get("sample_shape")
    sh = shape_of(I, size) if size is not None else []
    base = I.bshape([x.shape for x in xs], I.node, "distribution")
    th = [x for x in xs if x.lib == "th"]
    dt = I.join_dtype(th) if th else "float32"
    dev = I.join_dev(th) if th else "cpu"
    return sample(I, "torch", d.kind, list(sh) + list(base), xs, dt, dev)


RNG_PREFIX = ("numpy.random.seed", "numpy.random.set_state", "numpy.random.get_state", "numpy.random.default_rng", "numpy.random.RandomState",
              "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "torch.manual_seed", "torch.seed",
              "torch.initial_seed", "torch.Generator", "torch.random.", "torch.get_rng_state", "torch.set_rng_state", "torch.cuda.manual_seed",
              "random.", "secrets.", "uuid.", "torch.default_generator", "torch.cuda.set_rng_state", "torch.cuda.get_rng_state")


from .lib2 import call_lib, b_sum, fold_reduce        # noqa: E402
from .lib3 import builtin_attr, call_method, call_user        # noqa: E402
from . import lib4    # noqa: E402, F401
