"""Library model, third part: attributes and methods of values, user callables."""
from . import terms as T
from .terms import E, B, CTX, num, sym, ite, and_, or_, not_, ge, gt, eq, ind, ZERO, ONE, TRUE, FALSE, Undecided, app, bapp
from .values import *
from . import ops as O
from .ops import binop, compare, ew, nfn, reduce_, asnum, asbool
from . import interp as IT
from . import lib as L
from . import lib2
from .lib import FN, take, BadArgs, kwbool, shape_of, dtype_of, device_of, as_array
from .lib2 import call_lib

NPMETH = set("""sum prod min max mean std var all any cumsum cumprod dot ravel reshape transpose squeeze swapaxes repeat round clip ptp copy
 tolist item astype fill sort argsort argmin argmax flatten take trace diagonal conj nonzero tofile dump dumps view setflags put itemset tobytes resize
 partition searchsorted __len__ __getitem__ __add__ __mul__ __array__ sort byteswap getfield newbyteorder __setitem__""".split())
LISTMETH = {"append", "extend", "insert", "pop", "index", "count", "copy", "remove", "reverse", "sort", "clear", "__len__", "__getitem__"}
THUN = """abs absolute exp log sqrt square sin cos tan tanh sinh cosh sign sigmoid relu log1p expm1 log2 log10 reciprocal rsqrt neg negative floor ceil round trunc
 isnan isinf isfinite logical_not erf""".split()
THBIN = "add sub subtract mul multiply div divide true_divide pow fmod remainder floor_divide eq ne lt le gt ge less greater maximum minimum matmul mm mv bmm dot outer inner logical_and logical_or logical_xor".split()


def builtin_attr(I, b, name):
    if isinstance(b, Arr):
        th = b.lib == "th"
        if b.lib == "py":
            if name == "real":
                return b
            if name in ("imag",):
                return pynum(0)
            if name in ("is_integer", "bit_length", "conjugate", "item"):
                if name == "item":
                    I.event("attr", "a Python number has no attribute 'item'")
                    return I.unk("attribute of a number")
                return Meth(b, name)
            I.event("attr", f"{describe(b)} has no attribute '{name}'")
            return I.unk(f"attribute {name} of a number")
        if name == "shape":
            return PyList([mk((), s, "py", "int") for s in b.shape], "tuple")
        if name == "ndim":
            return pynum(b.ndim)
        if name == "size" and not th:
            return mk((), O.count_of(b.shape, range(b.ndim)), "py", "int")
        if name in ("T", "mT", "H", "mH"):
            if name == "T":
                if th and b.ndim not in (0, 1, 2):
                    pass
                return O.transpose(I, b)
            return O.permute(I, b, list(range(b.ndim - 2)) + [b.ndim - 1, b.ndim - 2])
        if name == "dtype":
            return Lib(("torch." if th else "numpy.") + ({"int": "int64", "bool": "bool" if th else "bool_"}.get(b.dtype, b.dtype)))
        if name == "device":
            return Dist("device", name=b.dev or "cpu") if th else I.unk("device of an array")
        if name in ("real", "data", "flat", "base"):
            if name in ("real", "data"):
                return b
            return I.unk(f"attribute {name}")
        if name == "imag":
            return mk(b.shape, ZERO, b.lib, b.dtype, b.dev)
        if name == "is_cuda":
            return pynum(bool(b.dev and "cuda" in str(b.dev))) if b.dev in (None, "cpu") else mk((), bapp("is_cuda", sym(str(b.dev))), "py", "bool")
        if name in ("requires_grad", "is_leaf"):
            return pynum(False)
        if name == "grad":
            return None
        if name in ("nbytes", "itemsize", "strides", "flags"):
            return I.unk("memory attribute")
        if name == "values" and False:
            return b
        if known_method(b, name):
            return Meth(b, name)
        I.event("attr", f"{describe(b)} has no attribute '{name}'")
        return I.unk(f"attribute {name}")
    if isinstance(b, PyList):
        if b.kind == "tuple" and name in ("values", "indices", "U", "S", "mean"):
            c = I.items(b)
            return c[{"values": 0, "indices": 1, "U": 0, "S": 1, "mean": 1}[name]]
        if name in LISTMETH or (b.kind == "set" and name in ("add", "union", "issubset")):
            return Meth(b, name)
        I.event("attr", f"{b.kind} has no attribute '{name}'")
        return I.unk(f"attribute {name} of a {b.kind}")
    if isinstance(b, (PyDict, str)):
        return Meth(b, name)
    if isinstance(b, Dist):
        if b.kind == "device":
            if name == "type":
                n = b.kw["name"]
                if n in ("cpu", "cuda"):
                    return n
                return mk((), sym("?devtype:" + str(n)), "py", "str") if False else I.unk("type of the device")
            if name == "index":
                return None
        return Meth(b, name)
    if isinstance(b, (Range, Iter)):
        return Meth(b, name)
    if isinstance(b, (Func, Bound, UserFn, Partial)):
        if name in ("__name__", "__doc__", "__qualname__", "__module__"):
            return "<formatted>"
        if name == "__wrapped__" or name == "py_func":
            return b
        return I.unk(f"attribute {name} of a function")
    if b is None:
        I.event("attr", f"None has no attribute '{name}'")
        return I.unk(f"attribute {name} of None")
    if isinstance(b, Slice):
        return {"start": b.lo, "stop": b.hi, "step": b.st}.get(name)
    if hasattr(b, "attr"):
        return b.attr(I, name)
    return I.unk(f"attribute {name} of {describe(b)}")


def known_method(b, name):
    if b.lib == "np":
        return name in NPMETH
    if f"torch.{name}" in FN or name in THM or (name.endswith("_") and (name[:-1] in THUN or name[:-1] in THBIN)):
        return name not in ("zeros", "ones", "eye", "arange", "stack", "cat", "where_", "einsum", "rand", "randn", "linspace", "full", "tensor", "from_numpy", "astype")
    return False


THM = set("""copy_ normal_ uniform_ fill_ zero_ clamp_ clip_ add_ mul_ div_ sub_ pow_ numpy cpu to double float long int bool half item tolist size numel dim ndimension view
 view_as reshape_as expand expand_as repeat new_zeros new_ones new_full new_empty new_tensor type_as type cuda detach clone contiguous requires_grad_ detach_ is_contiguous
 element_size get_device fill_diagonal_ masked_fill masked_fill_ index_select gather scatter scatter_ sum_to_size unsqueeze unsqueeze_ squeeze_ t_ transpose_ nelement
 is_floating_point stride storage backward register_hook retain_grad share_memory_ diag triu tril log_normal_ exponential_ random_ bernoulli_ sort topk argmin argmax
 norm addmm baddbmm __len__ inverse det logdet view flatten select narrow masked_select nonzero __getitem__ exp_ sqrt_ neg_ abs_ square_ unfold""".split())


def rebind(I, a, r):
    """in-place result written to a"""
    if isinstance(r, Unk):
        I.write(a, r)
        return a
    I.write(a, r)
    return a


def call_method(I, obj, name, args, kw, node):
    obj = I.force(obj)
    if isinstance(obj, Unk):
        return obj
    for x in list(args) + list(kw.values()):
        if isinstance(x, Unk) and not isinstance(obj, (PyList, PyDict, str)):
            return x
    try:
        if isinstance(obj, Arr):
            return arr_method(I, obj, name, list(args), dict(kw), node)
        if isinstance(obj, PyList):
            return list_method(I, obj, name, list(args), dict(kw), node)
        if isinstance(obj, PyDict):
            return dict_method(I, obj, name, list(args), dict(kw), node)
        if isinstance(obj, str):
            return str_method(I, obj, name, args, kw)
        if isinstance(obj, Dist):
            if obj.kind in ("uniform", "normal") and name in ("sample", "rsample"):
                return L.dist_sample(I, obj, list(args), dict(kw))
            if obj.kind == "context":
                return None
            return I.unk(f"method {name} of a {obj.kind} object", node)
        if isinstance(obj, (Range, Iter)):
            if name == "index":
                return args[0]
    except BadArgs as e:
        return I.unk(f"arguments of method {name}: {e}", node)
    except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
        for k, a in enumerate(args):
            a = I.force(a)
            if isinstance(a, Choice):
                return I.lift(a, lambda x, k=k: call_method(I, obj, name, list(args[:k]) + [x] + list(args[k + 1:]), kw, node))
        if I.debug:
            raise
        return I.unk(f"arguments of method {name}: {type(e).__name__} {e}", node)
    return I.unk(f"method {name} of {describe(obj)}", node)


def arr_method(I, a, name, args, kw, node):
    th = a.lib == "th"
    pre = "torch." if th else "numpy."
    if a.lib == "py":
        if name == "is_integer":
            return pynum(True) if T.is_int(I.nbody(a)) else pynum(bapp("isint", I.nbody(a)))
        return I.unk(f"method {name} of a number", node)
    if name in ("clone", "contiguous") or (name == "copy" and not th) or name == "flatten" and not args and not kw:
        if name == "contiguous":
            return a
        if name == "flatten":
            r = call_lib(I, pre + "ravel", [a], {}, node)
            return r if isinstance(r, Unk) else mk(r.shape, I.body(r), r.lib, r.dtype, r.dev)
        r = mk(a.shape, I.body(a), a.lib, a.dtype, a.dev)
        r.meta = a.meta
        return r
    if name in ("detach", "requires_grad_", "detach_", "share_memory_", "conj"):
        return a
    if name == "cpu":
        if a.dev in (None, "cpu"):
            return a
        return mk(a.shape, I.body(a), a.lib, a.dtype, "cpu")
    if name == "cuda":
        return mk(a.shape, I.body(a), a.lib, a.dtype, "cuda")
    if name == "numpy":
        if a.dev not in (None, "cpu"):
            I.event("device", f"a tensor on {a.dev} is converted to NumPy", node)
        r = Arr(a.shape, a.store, a.map, "np", a.dtype)
        r.alias, r.nowrite = a.alias, a.nowrite
        return r
    if name in ("double", "float", "long", "int", "bool", "half") and th:
        dt = {"double": "float64", "float": "float32", "long": "int", "int": "int", "bool": "bool", "half": "float32"}[name]
        return cast(I, a, dt)
    if name == "astype":
        dt = dtype_of(I, args[0] if args else kw.get("dtype"), a.dtype)
        if kwbool(I, kw.get("copy"), True) or dt != a.dtype:
            return mk(a.shape, L.conv(I, I.body(a), a.dtype, dt), a.lib, dt, a.dev)
        return a
    if name in ("to", "type", "type_as"):
        dt, dev = a.dtype, a.dev
        vals = list(args) + [kw[k] for k in ("dtype", "device", "other") if k in kw]
        for v in vals:
            v = I.force(v)
            if isinstance(v, Arr) and v.lib == "th":
                dt = v.dtype
                if name != "type_as" or True:
                    dev = v.dev
            elif isinstance(v, Lib):
                dt = dtype_of(I, v, dt)
            elif isinstance(v, str) and v in L.DTYPES:
                dt = L.DTYPES[v]
            elif isinstance(v, (str, Dist, Choice)):
                dev = device_of(I, v)
        if dt == a.dtype and dev == a.dev:
            return a
        if dt == "float64" and a.dtype == "float32":
            I.event("dtype", "single precision values are promoted to double precision", node)
        return mk(a.shape, L.conv(I, I.body(a), a.dtype, dt), a.lib, dt, dev)
    if name in ("item", "tolist") and a.ndim == 0:
        return mk((), I.body(a), "py", "float64" if a.dtype == "float32" else a.dtype)
    if name == "item":
        e = I.asE(a, "scalar")
        return mk((), e, "py", a.dtype)
    if name == "tolist":
        return tolist(I, a)
    if name in ("tobytes", "tostring") and a.lib == "np":
        # equal bytes stand for equal contents
        vs = [T.fresh() for _ in a.shape]
        with CTX.bounds(dict(zip(vs, a.shape))):
            body = T.subst(I.nbody(a), {f"@{i}": sym(v) for i, v in enumerate(vs)})
            return mk((), app("bytes", T.lam(a.shape, tuple(vs), body) if vs else body), "py", "bytes")
    if name in ("size", "numel", "nelement", "dim", "ndimension", "__len__"):
        if name == "size":
            d = args[0] if args else kw.get("dim")
            if d is None:
                return PyList([mk((), s, "py", "int") for s in a.shape], "tuple")
            i = I.concrete_int(d)
            if i is None or not -a.ndim <= i < a.ndim:
                I.event("index", f"dimension {i} of {describe(a)}", node)
                return I.unk("size", node)
            return mk((), a.shape[i], "py", "int")
        if name in ("dim", "ndimension"):
            return pynum(a.ndim)
        if name == "__len__":
            return mk((), a.shape[0], "py", "int")
        return mk((), O.count_of(a.shape, range(a.ndim)), "py", "int")
    if name in ("view", "reshape") and (th or name == "reshape"):
        kw.pop("order", None)
        sh = args
        if not args and "shape" in kw:
            sh = [kw["shape"]]
        if len(sh) == 1 and isinstance(I.force(sh[0]), Lib):
            return cast(I, a, dtype_of(I, sh[0], a.dtype))
        return O.reshape(I, a, shape_of(I, *sh))
    if name in ("view_as", "reshape_as"):
        return O.reshape(I, a, list(I.toarray(args[0]).shape))
    if name in ("expand", "expand_as"):
        if name == "expand_as":
            sh = list(I.toarray(args[0]).shape)
        else:
            sh = shape_of(I, *args)
        off = len(sh) - a.ndim
        sh = [a.shape[i - off] if s.const == -1 and i >= off else s for i, s in enumerate(sh)]
        return O.broadcast_view(I, a, sh)
    if name == "repeat" and th:
        return L.tile_(I, a, shape_of(I, *args))
    if name == "transpose" and not th:
        if not args:
            return O.transpose(I, a)
        return call_lib(I, "numpy.transpose", [a, args[0] if len(args) == 1 else PyList(args, "tuple")], {}, node)
    if name == "permute":
        return call_lib(I, "torch.permute", [a, args[0] if len(args) == 1 else PyList(args, "tuple")], {}, node)
    if name.startswith("new_"):
        kind = name[4:]
        if kind == "tensor":
            return as_array(I, args[0], "torch", kw.get("dtype") or Lib("torch." + a.dtype), kw.get("device") or Dist("device", name=a.dev), True, "tensor")
        kw.setdefault("dtype", Lib("torch." + {"int": "int64"}.get(a.dtype, a.dtype)))
        kw.setdefault("device", Dist("device", name=a.dev))
        return call_lib(I, "torch." + kind, args, kw, node)
    # in-place methods
    if th and name in ("normal_", "uniform_"):
        if I.force(kw.pop("generator", None)) is not None:
            I.event("rng", "uses a private random generator", node)
        u = name == "uniform_"
        lo, hi = take(args, {{"from": "lo", "to": "hi", "mean": "lo", "std": "hi"}.get(k, k): v for k, v in kw.items()}, "lo=0 hi=1")
        r = L.sample(I, "torch", "uniform" if u else "normal", list(a.shape), [lo, hi], a.dtype, a.dev)
        return rebind(I, a, r)
    if name in ("fill_", "fill"):
        I.write(a, args[0])
        return a if th else None
    if name == "zero_":
        I.write(a, pynum(0))
        return a
    if name == "copy_":
        src = I.toarray(args[0])
        if isinstance(src, Arr) and src.lib == "th" and a.dev != src.dev:
            src = mk(src.shape, I.body(src), "th", src.dtype, a.dev)
        I.write(a, src)
        return a
    if name == "fill_diagonal_":
        call_lib(I, "numpy.fill_diagonal", [a] + args, kw, node)
        return a
    if th and name in ("unsqueeze_", "squeeze_", "t_", "transpose_"):
        return I.unk("in-place shape method", node)
    if th and name.endswith("_") and not name.startswith("__") and ("torch." + name[:-1]) in FN:
        r = call_lib(I, "torch." + name[:-1], [a] + args, kw, node)
        if isinstance(r, Arr) and (r.ndim != a.ndim or any(I.same_size(x, y) is not True for x, y in zip(r.shape, a.shape))):
            I.event("shape", f"in-place {name} changes the shape of {describe(a)}", node)
        return rebind(I, a, r)
    if name in ("sort",) and not th:
        I.clobber(a, "sort in place")
        if a.store.owner:
            I.event("callerwrite", f"sorts caller-owned {a.store.owner}", node)
        return None
    if name in ("masked_fill", "masked_fill_"):
        r = ew(I, lambda x, m, v: ite(asbool(m), asnum(v), asnum(x)), [a, args[0], args[1]], dtype=a.dtype)
        return rebind(I, a, r) if name.endswith("_") else r
    if name == "select":
        i = I.concrete_int(args[0])
        return I.view(a, tuple([Slice(None, None, None)] * (i % a.ndim) + [args[1]]))
    if name == "narrow":
        i = I.concrete_int(args[0]) % a.ndim
        return I.view(a, tuple([Slice(None, None, None)] * i + [Slice(args[1], binop(I, "Add", args[1], args[2]), None)]))
    if name in ("tofile", "dump"):
        I.event("effect", f"writes a file ({name})", node)
        return None
    if name in ("setflags", "resize", "put", "itemset"):
        I.clobber(a, name)
        return None
    if name == "index_select":
        i = I.concrete_int(args[0])
        return I.view(a, tuple([Slice(None, None, None)] * (i % a.ndim) + [args[1]]))
    if name == "take" and len(args) + len(kw) >= 2:
        i = I.concrete_int(args[1] if len(args) > 1 else kw["axis"])
        return I.view(a, tuple([Slice(None, None, None)] * (i % a.ndim) + [args[0]]))
    if name == "__getitem__":
        return I.subscript(a, args[0])
    if name == "is_floating_point":
        return pynum(a.dtype in ("float32", "float64"))
    if name == "is_contiguous":
        return I.unk("contiguity", node)
    if name == "round" and not th and not args:
        return call_lib(I, "numpy.round", [a], {}, node)
    if pre + name in FN:
        if name in ("sum", "mean", "prod", "std", "var", "min", "max", "all", "any") and th and len(args) == 1 and isinstance(I.force(args[0]), PyList):
            pass
        return call_lib(I, pre + name, [a] + args, kw, node)
    return I.unk(f"method {name} of {describe(a)}", node)


def cast(I, a, dt):
    if dt == a.dtype:
        return a
    if dt == "float64" and a.dtype == "float32":
        I.event("dtype", "single precision values are promoted to double precision")
    return mk(a.shape, L.conv(I, I.body(a), a.dtype, dt), a.lib, dt, a.dev)


def tolist(I, a):
    """nested list of python numbers"""
    if a.ndim == 0:
        return mk((), I.body(a), "py", a.dtype)
    n = a.shape[0]
    if n.const is not None and n.const <= IT.MAXUNROLL:
        return PyList([tolist(I, I.view(a, (pynum(i),))) for i in range(int(n.const))])
    v = T.fresh("%l")
    T.INTS.add(v)
    with CTX.bounds({v: n}):
        return PyList(SymSeq(n, v, I.freeze(tolist(I, I.view(a, (mk((), sym(v), "py", "int"),))))))


def list_method(I, l, name, args, kw, node):
    if l.owner and name in ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear"):
        I.event("callerwrite", f"changes caller-owned {l.owner}", node)
    c = I.items(l)
    if name == "append":
        I.list_append(l, args[0])
        return None
    if name == "extend":
        I.list_extend(l, args[0])
        return None
    if name == "copy":
        return PyList(c, l.kind)
    if name not in ("__len__", "__getitem__", "index", "count"):
        I.list_touch(l)
    if name == "__len__":
        return FN["builtins.len"](I, [l], {})
    if name == "__getitem__":
        return I.subscript(l, args[0])
    if not isinstance(c, tuple):
        return I.unk(f"list.{name} on a list of symbolic length", node)
    IT.REG[l.sid] = l
    if name == "insert":
        i = I.concrete_int(args[0])
        if i is None:
            return I.unk("insert", node)
        x = list(c)
        x.insert(i, args[1])
        I.S.heap[l.sid] = tuple(x)
        return None
    if name == "pop":
        i = I.concrete_int(args[0]) if args else -1
        if i is None or not -len(c) <= i < len(c):
            I.event("index", "pop from an empty list", node)
            return I.unk("pop", node)
        x = list(c)
        r = x.pop(i)
        I.S.heap[l.sid] = tuple(x)
        return r
    if name == "reverse":
        I.S.heap[l.sid] = c[::-1]
        return None
    if name == "clear":
        I.S.heap[l.sid] = ()
        return None
    if name in ("add",):
        I.S.heap[l.sid] = c + (args[0],)
        return None
    if name == "index":
        for i, x in enumerate(c):
            if isinstance(x, str) and x == I.force(args[0]):
                return pynum(i)
    return I.unk(f"list.{name}", node)


def dict_method(I, d, name, args, kw, node):
    c = I.items(d)

    def put(n):
        IT.REG[d.sid] = d
        I.S.heap[d.sid] = n
    if name in ("get", "pop", "setdefault"):
        k = I.dkey(args[0])
        r = I.dfind(c, k)
        dflt = args[1] if len(args) > 1 else None
        if r is None:
            if name == "get":
                v = I.dlook(c, k, dflt)
                if v is not None:
                    return I.force(v[0])
            if name != "get":
                put(OpenDict())
            return I.unk(f"dict.{name}", node)
        if r is not True and r is not False:
            if name == "pop":
                put(OpenDict())
                return I.unk("dict.pop", node)
            v = c[k]
            v = Choice(v.c, dflt if v.a is UNBOUND else v.a, dflt if v.b is UNBOUND else v.b)
            if name == "setdefault":
                put(I.dput(c, k, v))
            return I.force(v)
        if name == "get":
            return I.force(c[k]) if r else dflt
        if name == "setdefault":
            if r:
                return I.force(c[k])
            put(I.dput(c, k, dflt))
            return dflt
        if not r and len(args) < 2:
            I.event("index", "dictionary key is missing", node)
            return I.unk("pop", node)
        n = dict(c)
        v = n.pop(k, dflt)
        put(n)
        return v
    if name == "clear":
        put({})
        return None
    if isinstance(c, OpenDict) or any(isinstance(v, Choice) and (v.a is UNBOUND or v.b is UNBOUND) for v in c.values()):
        if name in ("update", "popitem"):
            put(OpenDict())
            return None if name == "update" else I.unk("popitem", node)
        return PyDict(OpenDict()) if name == "copy" else I.unk(f"dict.{name}", node)
    if name == "items":
        return PyList([PyList([unkey(k), v], "tuple") for k, v in c.items()])
    if name == "keys":
        return PyList([unkey(k) for k in c])
    if name == "values":
        return PyList(list(c.values()))
    if name == "copy":
        return PyDict(c)
    if name == "update":
        n = c
        if args:
            o = I.force(args[0])
            if not isinstance(o, PyDict) or isinstance(I.items(o), OpenDict):
                put(OpenDict())
                return None
            for k, v in I.items(o).items():
                n = I.dput(n, k, v)
        for k, v in kw.items():
            n = I.dput(n, k, v)
        put(n if n is not c else dict(c))
        return None
    return I.unk(f"dict.{name}", node)


def unkey(k):
    return k if isinstance(k, str) or k is None else Unk("dictionary key")


def str_method(I, s, name, args, kw):
    if name == "format":
        return "<formatted>"
    if "<" in s:
        return "<formatted>" if name not in ("startswith", "endswith") else I.unk("string method")
    if name in ("lower", "upper", "strip", "title", "capitalize", "casefold", "lstrip", "rstrip") and not args:
        return getattr(s, name)()
    a = [I.force(x) for x in args]
    if name in ("startswith", "endswith") and a and isinstance(a[0], str):
        return pynum(getattr(s, name)(a[0]))
    if name in ("replace",) and all(isinstance(x, str) for x in a):
        return s.replace(*a)
    if name == "join":
        return "<formatted>"
    if name == "split":
        return PyList(s.split(*a))
    return I.unk(f"str.{name}")


# ------------------------------------------------------------------ functions handed in by the caller
class UserCall:
    def __init__(self, name, args, kw, pc, where, t, ctx, loops=(), body=None):
        self.name, self.args, self.kw, self.pc, self.where, self.t, self.ctx = name, args, kw, pc, where, t, ctx
        self.loops, self.body = loops, body


def call_user(I, fn, args, kw, node):
    """f(x, t) -> array like x; U(x, t) -> one value per particle"""
    nm = fn.name
    args = [I.force(a) for a in args]
    kws = {k: I.force(v) for k, v in kw.items()}
    for a in args + list(kws.values()):
        if isinstance(a, Unk):
            return a
    if kws or len(args) != 2:
        I.event("usercall", f"{nm} is called with {len(args)} positional and {len(kws)} keyword arguments instead of (x, t)", node)
        return I.unk(f"call of {nm}", node)
    x, t = args
    if isinstance(x, Choice):
        return I.lift(x, lambda v: call_user(I, fn, [v, t], kw, node))
    if isinstance(x, PyList):
        x = I.toarray(x)
        if isinstance(x, Unk):
            return x
    if not isinstance(x, Arr):
        I.event("usercall", f"{nm} is called with {describe(x)} as state", node)
        return I.unk(f"call of {nm}", node)
    tt = t
    if isinstance(t, Arr) and all(s.const == 1 for s in t.shape):
        te = I.asE(t)
    elif isinstance(t, Choice):
        te = I.asE(t)
    else:
        I.event("usercall", f"{nm} is called with {describe(t)} as time", node)
        return I.unk(f"call of {nm}", node)
    dim = I.userdim
    ok = x.ndim in (1, 2) and I.same_size(x.shape[0], dim) is True
    if not ok:
        c = None
        if x.ndim in (1, 2):
            c = not_(eq(x.shape[0], dim))
        I.event("usercall", f"{nm} is called with a state of shape ({', '.join(T.show(s) for s in x.shape)}), expected the dimensions first", node, cond=c)
        if c is None:
            return I.unk(f"call of {nm}", node)
    if not I.mute:
        I.usercalls.append(UserCall(nm, [x], kws, and_(*I.pc), I.event_loc(node), te, list(I.rngctx), list(I.loops), I.nbody(x)))
    b = I.nbody(x)
    v = T.fresh()
    own = f"array returned by {nm}"      # the function may keep it, or return the state it was given
    if x.ndim == 2:
        if nm.startswith("U"):
            with I.axes((x.shape[1],)), CTX.bounds({v: dim}):
                col = T.lam((dim,), (v,), T.subst(b, {"@0": sym(v), "@1": ph(0)}))
                return mk((x.shape[1],), app("call:" + nm, col, te), x.lib if x.lib != "py" else "np", x.dtype, x.dev, owner=own)
        with I.axes(x.shape), CTX.bounds({v: dim}):
            col = T.lam((dim,), (v,), T.subst(b, {"@0": sym(v)}))
            return mk(x.shape, app("call:" + nm, col, te, ph(0)), x.lib if x.lib != "py" else "np", x.dtype if x.dtype != "int" else "float64", x.dev, owner=own)
    with I.axes(x.shape), CTX.bounds({v: dim}):
        col = T.lam((dim,), (v,), T.subst(b, {"@0": sym(v)}))
    if nm.startswith("U"):
        return mk((), app("call:" + nm, col, te), x.lib if x.lib != "py" else "np", x.dtype, x.dev, owner=own)
    with I.axes(x.shape):
        return mk(x.shape, app("call:" + nm, col, te, ph(0)), x.lib if x.lib != "py" else "np", x.dtype, x.dev, owner=own)
