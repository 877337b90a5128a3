"""Library model, second part: dispatch, effects, builtins."""
import ast
import re
from . import terms as T
from .terms import E, B, CTX, num, sym, ite, and_, or_, not_, ge, gt, eq, ind, ZERO, ONE, TRUE, FALSE, Undecided, app, bapp
from .values import *
from . import ops as O
from .ops import binop, compare, ew, nfn, reduce_, asnum
from . import interp as IT
from . import lib as L
from .lib import FN, fn, take, BadArgs, kwbool, shape_of, dtype_of, device_of, RNG_PREFIX

EFFECT_EXACT = {
    "builtins.print", "builtins.input", "builtins.exec", "builtins.eval", "builtins.breakpoint", "builtins.exit", "builtins.quit",
    "numpy.save", "numpy.savez", "numpy.savez_compressed", "numpy.savetxt", "numpy.seterr", "numpy.set_printoptions", "numpy.seterrcall",
    "torch.save", "torch.set_default_dtype", "torch.set_default_tensor_type", "torch.set_default_device", "torch.set_num_threads",
    "torch.set_num_interop_threads", "torch.set_grad_enabled", "torch.set_printoptions", "torch.use_deterministic_algorithms",
    "torch.set_float32_matmul_precision", "torch.cuda.set_device", "torch.autograd.set_detect_anomaly", "torch.set_flush_denormal",
    "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "warnings.warn",
    "logging.basicConfig", "logging.disable", "logging.setLoggerClass", "logging.addLevelName", "logging.captureWarnings", "logging.shutdown",
    "json.dump", "pickle.dump", "joblib.dump", "scipy.io.savemat", "scipy.savemat", "sys.exit", "sys.setrecursionlimit", "sys.settrace",
    "os.system", "os.remove", "os.unlink", "os.mkdir", "os.makedirs", "os.rmdir", "os.rename", "os.chdir", "os.putenv", "os.kill", "os._exit",
    "os.environ.update", "os.environ.setdefault", "os.environ.pop", "matplotlib.use", "numba.set_num_threads", "time.sleep", "gc.disable",
    "gc.collect", "gc.enable", "locale.setlocale", "signal.signal", "atexit.register", "matplotlib.pyplot.savefig", "matplotlib.pyplot.ion",
    "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ioff", "matplotlib.style.use", "matplotlib.pyplot.style.use", "matplotlib.rc",
    "numpy.memmap", "numpy.lib.format.open_memmap", "seaborn.set", "seaborn.set_theme", "numba.config",
}
EFFECT_PREFIX = ("subprocess.", "shutil.", "socket.", "requests.", "urllib.", "tempfile.", "multiprocessing.", "threading.", "sys.stdout.",
                 "sys.stderr.", "h5py.", "http.", "ftplib.", "smtplib.", "concurrent.", "pathlib.", "io.open", "os.popen", "os.write", "os.open", "shelve.", "sqlite3.")
TAINT_PREFIX = ("time.", "datetime.", "os.environ", "os.getenv", "os.getpid", "os.urandom", "platform.", "os.cpu_count", "psutil.", "os.listdir", "os.path.")
NOOP_CTX = ("numpy.errstate", "torch.no_grad", "torch.enable_grad", "torch.inference_mode", "contextlib.suppress", "contextlib.nullcontext", "warnings.catch_warnings",
            "torch.autograd.no_grad")
LOGLEVELS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}
# calls that change nothing a caller can see
HARMLESS = {"torch.cuda.empty_cache", "torch.cuda.synchronize"}


def constants_only(a):
    if isinstance(a, Choice):
        return constants_only(a.a) and constants_only(a.b)
    return a is None or isinstance(a, (str, bool, Dist))


def call_lib(I, path, args, kw, node):
    args = list(args)
    for i, a in enumerate(args):
        if isinstance(a, tuple) and len(a) == 2 and a[0] == "*":
            # *sequence of symbolic length
            h = STARRED.get(path)
            if h is not None and len(args) == 1:
                return h(I, a[1], kw)
            return I.unk(f"{path} with a starred argument of symbolic length", node)
    h = FN.get(path)
    if path in EFFECT_EXACT or path.startswith(EFFECT_PREFIX):
        if path == "warnings.warn":
            I.event("warn", "issues a warning", node)
            return None
        I.event("effect", f"calls {path}", node)
        return I.unk(f"result of {path}", node) if path != "builtins.print" else None
    if path == "builtins.open":
        I.event("effect", "opens a file", node)
        return I.unk("file", node)
    for p in RNG_PREFIX:
        if path == p or (p.endswith(".") and path.startswith(p)):
            I.event("rng", f"calls {path}", node)
            return I.unk(f"result of {path}", node) if not path.endswith(("seed", "manual_seed", "set_state", "set_rng_state")) else None
    if path.startswith(TAINT_PREFIX) and h is None:
        return mk((), app(f"taint:{path}", num(getattr(node, "lineno", 0)), *I.rngctx), "py", "float64")
    if path.startswith(("duecredit.", "due.")):
        return Lib("builtins.__identity__")
    if path.startswith("logging."):
        return log_call(I, path, args, kw, node)
    if path.startswith(("matplotlib.", "seaborn.", "pylab.")):
        I.event("plot", f"calls {path}", node)
        return Unk(f"plot object of {path}")
    if path in NOOP_CTX:
        return Dist("context")
    if path in HARMLESS:
        return None
    if h is None:
        if path.startswith(("builtins.", "numpy.", "torch.")) and path.split(".")[-1] in EXC:
            return Dist("exception")
        if path.startswith("builtins.") and path[9:] in EXC:
            return Dist("exception")
        for x in args:
            if isinstance(x, Unk):
                return x
        return I.unk(f"call of {path}", node)
    if path not in LAZY:
        for x in list(args) + list(kw.values()):
            if isinstance(x, Unk):
                return x
    for k, a in enumerate(args):
        if isinstance(a, Choice) and constants_only(a):
            return I.lift(a, lambda x, k=k: call_lib(I, path, args[:k] + [x] + args[k + 1:], kw, node))
    for k, a in kw.items():
        if isinstance(a, Choice) and constants_only(a):
            return I.lift(a, lambda x, k=k: call_lib(I, path, args, dict(kw, **{k: x}), node))
    I.libname = path
    try:
        r = h(I, args, dict(kw))
    except BadArgs as e:
        return I.unk(f"arguments of {path}: {e}", node)
    except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
        # an argument form the model does not know (a Choice, a missing argument ...)
        for k, a in enumerate(args):
            a = I.force(a)
            if isinstance(a, Choice):
                return I.lift(a, lambda x, k=k: call_lib(I, path, args[:k] + [x] + args[k + 1:], kw, node))
        for k, a in kw.items():
            a = I.force(a)
            if isinstance(a, Choice):
                return I.lift(a, lambda x, k=k: call_lib(I, path, args, dict(kw, **{k: x}), node))
        if I.debug:
            raise
        return I.unk(f"arguments of {path}: {type(e).__name__} {e}", node)
    return r


EXC = {"Exception", "BaseException", "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError", "NotImplementedError", "AssertionError",
       "AttributeError", "ImportError", "ModuleNotFoundError", "ZeroDivisionError", "ArithmeticError", "FloatingPointError", "OverflowError",
       "StopIteration", "Warning", "UserWarning", "RuntimeWarning", "DeprecationWarning", "FutureWarning", "NameError", "LookupError", "OSError",
       "LinAlgError", "MemoryError", "Ellipsis"}
LAZY = {"builtins.isinstance", "builtins.hasattr", "builtins.callable", "builtins.print", "builtins.str", "builtins.repr", "builtins.type", "builtins.id",
        "builtins.zip", "builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.getattr", "functools.partial", "functools.wraps",
        "builtins.setattr", "builtins.dict", "due.cite", "builtins.format"}


# ------------------------------------------------------------------ logging
def log_call(I, path, args, kw, node):
    last = path.split(".")[-1]
    if last in ("getLogger", "Logger", "getChild"):
        return Lib("logging.Logger")
    if last in ("setLevel", "addHandler", "addFilter", "removeHandler"):
        I.event("effect", f"changes logging configuration ({last})", node)
        return None
    if last in ("isEnabledFor", "hasHandlers", "getEffectiveLevel"):
        return mk((), bapp("taint:logging", num(getattr(node, "lineno", 0))), "py", "bool")
    if last in ("StreamHandler", "FileHandler", "Formatter", "NullHandler"):
        if last == "FileHandler":
            I.event("effect", "opens a log file", node)
        return Lib("logging.Logger")
    if last not in LOGLEVELS:
        return I.unk(f"call of {path}", node)
    a = list(args)
    if last == "log":
        a = a[1:]
    msg = a[0] if a else None
    I.event("log", last, node)
    I.logcalls.append((last, I.event_loc(node), and_(*I.pc)))
    if isinstance(msg, str):
        n = placeholders(msg)
        if n is not None and len(a) - 1 > 0 and n != len(a) - 1 and not (len(a) == 2 and isinstance(I.force(a[1]), PyDict)):
            I.event("logfmt", f"message has {n} placeholders for {len(a) - 1} arguments", node)
        elif len(a) == 1 and n is not None and "%%" not in msg and re.search(r"(?<![0-9%])%[-+0#]?\d*(\.\d+)?[sdifgr](?![A-Za-z])", msg):
            # (a message without arguments is not formatted; '100% done' and '%%' mean a percent sign)
            I.event("logfmt", f"message has {n} placeholders and no argument", node)
    elif msg is not None and isinstance(msg, Arr) and len(a) > 1:
        I.event("logfmt", "log message is not a string but has arguments", node)
    return None


def placeholders(m):
    if "<formatted>" in m:
        return None
    n = 0
    i = 0
    while i < len(m):
        if m[i] == "%":
            if i + 1 < len(m) and m[i + 1] == "%":
                i += 2
                continue
            j = i + 1
            if j < len(m) and m[j] == "(":
                return None
            while j < len(m) and m[j] in "#0- +123456789.*":
                if m[j] == "*":
                    n += 1
                j += 1
            if j >= len(m) or m[j] not in "diouxXeEfFgGcrsa":
                return -1
            n += 1
            i = j + 1
            continue
        i += 1
    return n


# ------------------------------------------------------------------ builtins
def bi(*names):
    return fn(*["builtins." + n for n in names])


@bi("range")
def b_range(I, args, kw):
    vs = []
    for a in args:
        a = I.force(a)
        if isinstance(a, Arr) and a.dtype not in ("int", "bool"):
            I.event("type", f"range() of a {describe(a)}")
        vs.append(I.asE(a, "range bound"))
    start, stop, step = (ZERO, vs[0], ONE) if len(vs) == 1 else (vs[0], vs[1], vs[2] if len(vs) > 2 else ONE)
    c = step.const
    if c is None or c == 0:
        raise Undecided("range step")
    ln = (stop - start) if c > 0 else (start - stop)
    if abs(c) != 1:
        ln = T.floordiv(ln + (abs(c) - 1), num(abs(c)))
    if ln.const is not None:
        ln = num(max(0, ln.const))
    elif CTX.decide_ge(ln) is not True:
        ln = ZERO if CTX.decide_ge(ln) is False else T.maxE(ln, ZERO)
    return Range(ln, start, int(c))


@fn("numba.prange", "numba.misc.special.prange")
def nb_prange(I, args, kw):
    r = b_range(I, args, kw)
    IT.PRANGES.add(r)
    return r


@bi("len")
def b_len(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Choice):
        return I.lift(v, lambda x: b_len(I, [x], kw))
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.event("type", f"len() of {describe(v)}")
            return I.unk("len of a scalar")
        return mk((), v.shape[0], "py", "int")
    if isinstance(v, PyList):
        c = I.items(v)
        return pynum(len(c)) if isinstance(c, tuple) else mk((), c.n + len(c.head), "py", "int")
    if isinstance(v, Obj) and v.cls.lookup("__len__") is not None:
        return I.call(I.bind_member(v.cls.lookup("__len__"), v), [], {}, I.node)
    if isinstance(v, Obj) and I.record(v) is not None:
        return pynum(len(v.cls.fields))
    if isinstance(v, (Range, Iter)):
        if v.n is None:
            raise Undecided("len of an endless iterator")
        return mk((), v.n, "py", "int")
    if isinstance(v, PyDict):
        if isinstance(I.items(v), OpenDict) or any(not isinstance(x, str) for x in I.items(v)):
            return I.unk("size of a dictionary")
        return pynum(len(I.items(v)))
    if isinstance(v, str):
        return pynum(len(v))
    I.event("type", f"len() of {describe(v)}")
    return I.unk("len")


def conc_or_iter(I, v):
    n, get, conc = I.iterable(v)
    if conc is None and n.const is not None and n.const <= IT.MAXUNROLL:
        conc = [get(num(i)) for i in range(max(0, int(n.const)))]
    return n, get, conc


@bi("enumerate")
def b_enumerate(I, args, kw):
    start = I.asE(args[1] if len(args) > 1 else kw["start"]) if (len(args) > 1 or "start" in kw) else ZERO
    if isinstance(args[0], Unk):
        return args[0]
    n, get, conc = conc_or_iter(I, args[0])
    if conc is not None:
        return PyList([PyList([mk((), start + i, "py", "int"), x], "tuple") for i, x in enumerate(conc)])
    return Iter(n, lambda i: PyList([mk((), start + i, "py", "int"), get(i)], "tuple"))


def b_zip_len(its):
    """-> (common length, None, its number when all are concrete)"""
    if all(c is not None for _, _, c in its):
        k = min(len(c) for _, _, c in its)
        return num(k), None, k
    n = its[0][0]
    for m, _, _ in its[1:]:
        if m.key != n.key:
            n = T.minE(n, m)
    return n, None, None


@bi("zip")
def b_zip(I, args, kw):
    for a in args:
        if isinstance(a, Unk):
            return a
    its = []
    for a in args:
        a = I.force(a)
        its.append((None, a.get, None) if isinstance(a, Iter) and a.n is None else conc_or_iter(I, a))
    if not its:
        return PyList([])
    fin = [x for x in its if x[0] is not None]
    if not fin:
        raise Undecided("zip of endless iterators")
    if len(fin) < len(its):
        n, _, conc = b_zip_len(fin)
        if conc is None:
            rs = [x if x[0] is not None else (n, x[1], None) for x in its]
        else:
            rs = [x if x[0] is not None else (num(conc), None, [x[1](num(i)) for i in range(conc)]) for x in its]
        its = rs
    if all(c is not None for _, _, c in its):
        return PyList([PyList(list(t), "tuple") for t in zip(*[c for _, _, c in its])])
    if any(c is not None for _, _, c in its):
        m = min(len(c) for _, _, c in its if c is not None)
        ok = True
        for n, g, c in its:
            if c is None and CTX.decide_ge(n - m) is not True:
                ok = False
        if ok:
            return PyList([PyList([c[i] if c is not None else g(num(i)) for n, g, c in its], "tuple") for i in range(m)])
    n = its[0][0]
    for m, _, _ in its[1:]:
        if n.key != m.key:
            d = CTX.decide_ge(n - m)
            n = m if d is True else n if d is False or CTX.decide_ge(m - n) is True else T.minE(n, m)
    def get(i):
        return PyList([(c[int(i.const)] if c is not None else g(i)) for _, g, c in its], "tuple")
    return Iter(n, get)


@bi("map")
def b_map(I, args, kw):
    f = args[0]
    f0 = f
    spread = len(args) != 2
    if spread:
        seq = b_zip(I, args[1:], {})
        f = lambda x: I.call(f0, list(I.items(x)), {}, I.node)
    else:
        seq = args[1]
        f = lambda x: I.call(f0, [x], {}, I.node)
    n, get, conc = conc_or_iter(I, seq)
    if conc is not None:
        out = []
        for k, x in enumerate(conc):
            I.rngctx.append(num(k))
            out.append(I.freeze(f(x)))
            I.rngctx.pop()
        return PyList(out)
    v = T.fresh("%c")
    T.INTS.add(v)
    I.loops.append((v, n))
    I.rngctx.append(sym(v))
    h0 = dict(I.S.heap)
    mark = IT._mark()
    try:
        with CTX.bounds({v: n}):
            el = I.freeze(f(get(sym(v))))
    finally:
        I.loops.pop()
        I.rngctx.pop()
    for k, x in I.S.heap.items():
        if k <= mark and h0.get(k) is not x:
            raise Undecided("map with side effects")
    return PyList(SymSeq(n, v, el))


@bi("reversed")
def b_reversed(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Range):
        return Range(v.n, v.start + (v.n - 1) * v.step, -v.step)
    n, get, conc = conc_or_iter(I, v)
    if conc is not None:
        return PyList(conc[::-1])
    return Iter(n, lambda i: get(n - 1 - i))


@bi("sorted")
def b_sorted(I, args, kw):
    n, get, conc = conc_or_iter(I, args[0])
    if conc is not None and all(isinstance(x, str) for x in conc):
        return PyList(sorted(conc))
    if conc is not None and all(isinstance(x, Arr) and x.ndim == 0 and I.nbody(x).const is not None for x in conc):
        return PyList(sorted(conc, key=lambda x: I.nbody(x).const))
    if conc is not None and 1 <= len(conc) <= 2 and all(isinstance(I.force(x), Arr) and I.force(x).ndim == 0 for x in conc):
        xs = [I.force(x) for x in conc]
        rev = kw.get("reverse")
        if not set(kw) - {"reverse"} and (rev is None or isinstance(rev, bool)):
            if len(xs) == 1:
                return PyList(xs)
            r = [call_lib(I, "builtins.min", xs, {}, I.node), call_lib(I, "builtins.max", xs, {}, I.node)]
            return PyList(r[::-1] if rev else r)
    return I.unk("sorted")


def seq_fold(I, v, conc_op, sym_op):
    n, get, conc = conc_or_iter(I, v)
    if conc is not None:
        return conc_op(conc)
    a = I.toarray(v)
    if isinstance(a, Unk):
        return a
    return sym_op(a)


def seq_sum(I, v):
    def co(xs):
        r = pynum(0)
        for x in xs:
            r = binop(I, "Add", r, x)
        return r
    r = seq_fold(I, v, co, lambda a: reduce_(I, "sum", a, pynum(0)))
    return r


@bi("sum")
def b_sum(I, args, kw):
    r = seq_sum(I, args[0])
    st = args[1] if len(args) > 1 else kw.get("start")
    if st is not None:
        r = binop(I, "Add", st, r)
    return r


def fold_reduce(I, op, seq, init=None):
    def co(xs):
        xs = list(xs)
        if init is not None:
            xs = [init] + xs
        if not xs:
            raise Undecided("reduce of nothing")
        r = xs[0]
        for x in xs[1:]:
            r = binop(I, op, r, x)
        return r

    def sy(a):
        if op == "Add":
            r = reduce_(I, "sum", a, pynum(0))
        elif op == "Mult":
            r = reduce_(I, "prod", a, pynum(0))
        else:
            raise Undecided("reduce")
        return r if init is None else binop(I, op, init, r)
    return seq_fold(I, seq, co, sy)


@fn("functools.reduce")
def ft_reduce(I, args, kw):
    f, seq = args[0], args[1]
    init = args[2] if len(args) > 2 else None
    op = None
    if isinstance(f, Lib):
        op = {"operator.mul": "Mult", "operator.add": "Add", "numpy.multiply": "Mult", "numpy.add": "Add", "torch.mul": "Mult", "torch.add": "Add"}.get(f.path)
    elif isinstance(f, Func):
        x, y = mk((), sym("?rx"), "py", "float64"), mk((), sym("?ry"), "py", "float64")
        r = I.call(f, [x, y], {}, I.node)
        if isinstance(r, Arr) and r.ndim == 0:
            b = I.nbody(r)
            if b.key == (sym("?rx") * sym("?ry")).key:
                op = "Mult"
            elif b.key == (sym("?rx") + sym("?ry")).key:
                op = "Add"
    if op:
        return fold_reduce(I, op, seq, init)
    n, get, conc = conc_or_iter(I, seq)
    if conc is None:
        raise Undecided("reduce over a sequence of symbolic length")
    xs = ([init] if init is not None else []) + conc
    r = xs[0]
    for x in xs[1:]:
        r = I.call(f, [r, x], {}, I.node)
    return r


@fn("functools.partial")
def ft_partial(I, args, kw):
    return Partial(args[0], args[1:], kw)


@fn("functools.lru_cache", "functools.cache", "functools.wraps", "numba.njit", "numba.jit", "numba.vectorize", "numba.guvectorize", "torch.jit.script",
    "torch.no_grad", "typing.cast")
def decorator(I, args, kw):
    if args and isinstance(args[-1], (Func, Bound)):
        return args[-1]
    return Lib("builtins.__identity__")


FN["builtins.__identity__"] = lambda I, args, kw: args[0]


def mk_minmax(name):
    op = "min" if name == "min" else "max"
    f = T.minE if name == "min" else T.maxE

    def h(I, args, kw):
        if "key" in kw:
            return I.unk(name + " with key")
        d = kw.get("default")
        if len(args) == 1:
            def sy(a):
                if a.ndim > 1:
                    I.event("type", f"{name}() of {describe(a)}: the truth value of rows is ambiguous", cond=not_(eq(O.count_of(a.shape, range(1, a.ndim)), 1)))
                    return reduce_(I, op, a, pynum(0))
                return reduce_(I, op, a, None)
            def co(xs):
                if not xs:
                    return d if d is not None else I.unk(name + " of nothing")
                return pair(xs)
            return seq_fold(I, args[0], co, sy)
        return pair(list(args))

    def pair(xs):
        I = pair.I
        r = I.force(xs[0])
        for x in xs[1:]:
            x = I.force(x)
            if isinstance(r, Unk) or isinstance(x, Unk):
                return r if isinstance(r, Unk) else x
            for q in (r, x):
                if isinstance(q, Arr) and q.ndim and any(s.const != 1 for s in q.shape):
                    I.event("type", f"{name}() of {describe(q)}")
            r = ew(I, nfn(f), [r, x])
        return r

    def outer(I, args, kw):
        pair.I = I
        return h(I, args, kw)
    return outer


FN["builtins.min"] = mk_minmax("min")
FN["builtins.max"] = mk_minmax("max")


@bi("abs")
def b_abs(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Choice):
        return I.lift(v, lambda x: b_abs(I, [x], kw))
    a = I.toarray(v)
    if isinstance(a, Unk):
        return a
    return ew(I, nfn(T.absE), [a])


@bi("float")
def b_float(I, args, kw):
    if not args:
        return pynum(0.0)
    v = I.force(args[0])
    if isinstance(v, str):
        return pynum(float(v)) if v not in ("inf", "-inf", "nan") else mk((), app("const:" + v), "py", "float64")
    return mk((), I.asE(v, "float"), "py", "float64")


@bi("int")
def b_int(I, args, kw):
    v = I.force(args[0])
    e = I.asE(v, "int")
    if T.is_int(e):
        return mk((), e, "py", "int")
    c = e.const
    if c is not None:
        return pynum(int(c))
    d = CTX.decide_ge(e)
    if d is None and getattr(I, "longgrid", None) and e.free & I.longgrid[0]:
        d = True
    r = T.rounding("floor", e) if d else (T.rounding("ceil", e) if d is False else ite(ge(e), T.rounding("floor", e), T.rounding("ceil", e)))
    return mk((), r, "py", "int")


@bi("round")
def b_round(I, args, kw):
    e = I.asE(args[0])
    if T.is_int(e):
        return mk((), e, "py", "int")
    return mk((), app("round", e, *[I.asE(x) for x in args[1:]]), "py", "float64" if len(args) > 1 else "int")


@bi("bool")
def b_bool(I, args, kw):
    return pynum(I.truth(args[0]))


@bi("str", "repr", "format", "ascii", "chr", "hex")
def b_str(I, args, kw):
    v = I.force(args[0]) if args else ""
    return v if isinstance(v, str) else "<formatted>"


@bi("any", "all")
def b_anyall(I, args, kw):
    op = I.libname.split(".")[-1]
    n, get, conc = conc_or_iter(I, args[0])
    if conc is not None:
        cs = [I.truth(x) for x in conc]
        return pynum((or_ if op == "any" else and_)(*cs))
    v = T.fresh()
    with CTX.bounds({v: n}):
        c = I.truth(get(sym(v)))
        return pynum(T.redall(c, v, n, op))


@bi("list", "tuple", "set", "frozenset")
def b_list(I, args, kw):
    kind = {"frozenset": "set"}.get(I.libname.split(".")[-1], I.libname.split(".")[-1])
    if not args:
        return PyList([], kind)
    v = I.force(args[0])
    if isinstance(v, Unk):
        return v
    if isinstance(v, Choice):
        return I.lift(v, lambda x: b_list(I, [x], kw))
    if isinstance(v, PyList):
        c = I.items(v)
        return PyList(c, kind)
    n, get, conc = conc_or_iter(I, v)
    if conc is not None:
        return PyList(conc, kind)
    w = T.fresh("%l")
    T.INTS.add(w)
    with CTX.bounds({w: n}):
        return PyList(SymSeq(n, w, I.freeze(get(sym(w)))), kind)


@bi("dict")
def b_dict(I, args, kw):
    d = {}
    if args:
        v = I.force(args[0])
        if isinstance(v, PyDict):
            if isinstance(I.items(v), OpenDict):
                return PyDict(OpenDict())
            d.update(I.items(v))
        else:
            n, get, conc = conc_or_iter(I, v)
            if conc is None:
                raise Undecided("dict of a symbolic sequence")
            for x in conc:
                a, b = I.items(x)
                d[I.dkey(a)] = b
    d.update(kw)
    return PyDict(d)


def isinst(I, v, c):
    """value is an instance of library class or repository class c -> B"""
    c = I.force(c)
    if isinstance(c, PyList):
        return or_(*[isinst(I, v, x) for x in I.items(c)])
    if isinstance(v, Choice):
        return T.bite(v.c, isinst(I, I.force(v.a), c), isinst(I, I.force(v.b), c))
    if isinstance(v, Unk):
        return bapp("unknown:" + v.why)
    if isinstance(c, Class):
        return T.boolc(isinstance(v, Obj) and c in v.cls.mro())
    if not isinstance(c, Lib):
        return bapp("unknown:isinstance")
    p = c.path
    ty = set()
    if isinstance(v, Arr):
        if v.lib == "th":
            ty = {"torch.Tensor", "torch.DoubleTensor" if v.dtype == "float64" else "torch.FloatTensor"}
        elif v.lib == "np" and v.ndim > 0:
            ty = {"numpy.ndarray"}
        elif v.lib == "np":
            ty = {"numpy.generic", "numpy.number", "numbers.Number", "numbers.Real"}
            if v.dtype == "float64":
                ty |= {"numpy.float64", "builtins.float", "numpy.floating"}
            elif v.dtype == "int":
                ty |= {"numpy.int64", "numpy.integer", "numbers.Integral"}
            elif v.dtype == "bool":
                ty |= {"numpy.bool_"}
            elif v.dtype == "float32":
                ty |= {"numpy.float32", "numpy.floating"}
        else:
            ty = {"numbers.Number", "numbers.Real"}
            ty |= {"int": {"builtins.int", "numbers.Integral"}, "bool": {"builtins.bool", "builtins.int", "numbers.Integral"}}.get(v.dtype, {"builtins.float"})
    elif isinstance(v, PyList):
        ty = {"builtins." + v.kind, "collections.abc.Sequence", "collections.abc.Iterable"}
    elif isinstance(v, str):
        ty = {"builtins.str"}
    elif isinstance(v, PyDict):
        ty = {"builtins.dict"}
    elif isinstance(v, (Func, UserFn, Bound, Partial)):
        ty = {"collections.abc.Callable", "typing.Callable", "types.FunctionType"}
    elif v is None:
        ty = {"builtins.NoneType"}
    elif isinstance(v, Dist) and v.kind == "device":
        ty = {"torch.device"}
    return T.boolc(p in ty or p == "builtins.object")


@bi("isinstance")
def b_isinstance(I, args, kw):
    return pynum(isinst(I, I.force(args[0]), args[1]))


@fn("numpy.iscomplexobj", "numpy.isnat")
def np_false(I, args, kw):
    return pynum(False)


@fn("torch.is_floating_point")
def th_isf(I, args, kw):
    return pynum(I.force(args[0]).dtype in ("float32", "float64"))


@bi("issubclass")
def b_issubclass(I, args, kw):
    a, b = I.force(args[0]), I.force(args[1])
    if isinstance(a, Class) and isinstance(b, Class):
        return pynum(b in a.mro())
    return I.unk("issubclass")


@bi("callable")
def b_callable(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Unk):
        return v
    return pynum(isinstance(v, (Func, Bound, UserFn, Partial, Class, Lib, Meth)) or hasattr(v, "apply") or (isinstance(v, Obj) and v.cls.lookup("__call__") is not None))


@bi("hasattr")
def b_hasattr(I, args, kw):
    v, name = I.force(args[0]), I.force(args[1])
    if isinstance(v, Unk):
        return v
    if isinstance(v, Obj):
        x = I.S.attrs.get((v.oid, name), UNBOUND)
        if isinstance(x, Choice):
            if x.a is UNBOUND or x.b is UNBOUND:
                return pynum(not_(x.c) if x.a is UNBOUND else x.c)
            return pynum(True)
        return pynum(x is not UNBOUND or v.cls.defines(name))
    if isinstance(v, Arr):
        nps = {"shape", "ndim", "size", "T", "dtype", "copy", "sum", "mean", "std", "reshape", "tolist"}
        if v.lib == "py":
            return pynum(name in ("real", "imag", "conjugate", "__float__"))
        if name in nps and (v.lib == "np" or name not in ("copy",)):
            return pynum(True)
        if name in ("__len__", "__iter__", "__getitem__"):
            return pynum(v.ndim > 0 or name == "__getitem__" or v.lib == "th")
        if name in ("device", "numpy", "cpu", "detach", "to", "clone", "numel", "cuda"):
            return pynum(v.lib == "th")
        return I.unk(f"hasattr {name}")
    if isinstance(v, PyList):
        if name in ("__len__", "__iter__", "__getitem__", "index", "count"):
            return pynum(True)
        return pynum(name in ("append", "extend") and v.kind == "list")
    if isinstance(v, (Func, UserFn, Bound)):
        return pynum(name in ("__call__", "__name__"))
    return I.unk(f"hasattr of {describe(v)}")


@bi("getattr")
def b_getattr(I, args, kw):
    name = I.force(args[1])
    if not isinstance(name, str) or "<" in name:
        return I.unk("getattr with a computed name")
    if len(args) > 2:
        h = b_hasattr(I, args[:2], {})
        if isinstance(h, Unk):
            return h
        c = I.truth(h)
        d = CTX.decide(c)
        if d is False:
            return args[2]
        if d is None:
            return I.branch(c, lambda: I.getattr(args[0], name), lambda: args[2])
    return I.getattr(args[0], name)


@bi("setattr")
def b_setattr(I, args, kw):
    name = I.force(args[1])
    if not isinstance(name, str) or "<" in name:
        raise Undecided("setattr with a computed name")
    I.setattr(args[0], name, args[2])
    return None


@bi("vars", "globals", "locals", "dir")
def b_vars(I, args, kw):
    return I.unk(I.libname)


@bi("super")
def b_super(I, args, kw):
    fr = I.frames[-1]
    if args:
        return Super(I.force(args[0]), I.force(args[1]))
    f = fr.func
    a = f.node.args
    first = (a.posonlyargs + a.args)[0].arg
    return Super(f.cls, fr.vars[first])


FN["builtins.object.__init__"] = lambda I, args, kw: None
FN["builtins.object"] = lambda I, args, kw: Dist("object")


@bi("type")
def b_type(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Arr):
        if v.lib == "th":
            return Lib("torch.Tensor")
        if v.lib == "np":
            return Lib("numpy.ndarray") if v.ndim else Lib("numpy." + {"int": "int64", "bool": "bool_"}.get(v.dtype, v.dtype))
        return Lib("builtins." + {"int": "int", "bool": "bool"}.get(v.dtype, "float"))
    if isinstance(v, PyList):
        return Lib("builtins." + v.kind)
    if isinstance(v, str):
        return Lib("builtins.str")
    if isinstance(v, PyDict):
        return Lib("builtins.dict")
    return I.unk("type()")


@bi("pow")
def b_pow(I, args, kw):
    return binop(I, "Pow", args[0], args[1])


@bi("divmod")
def b_divmod(I, args, kw):
    return PyList([binop(I, "FloorDiv", *args), binop(I, "Mod", *args)], "tuple")


@bi("iter")
def b_iter(I, args, kw):
    return args[0]


@bi("next")
def b_next(I, args, kw):
    return I.unk("next()")


@bi("filter")
def b_filter(I, args, kw):
    n, get, conc = conc_or_iter(I, args[1])
    if conc is None:
        raise Undecided("filter over a symbolic sequence")
    out = []
    for x in conc:
        c = I.truth(I.call(args[0], [x], {}, I.node) if I.force(args[0]) is not None else x)
        d = CTX.decide(c)
        if d is None:
            raise Undecided("filter")
        if d:
            out.append(x)
    return PyList(out)


@bi("id", "hash")
def b_id(I, args, kw):
    return mk((), app("taint:" + I.libname, num(getattr(I.node, "lineno", 0))), "py", "int")


@bi("slice")
def b_slice(I, args, kw):
    a = [I.force(x) for x in args]
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@fn("copy.copy", "copy.deepcopy")
def cp_copy(I, args, kw):
    v = I.force(args[0])
    if isinstance(v, Arr):
        return mk(v.shape, I.body(v), v.lib, v.dtype, v.dev)
    if isinstance(v, PyList):
        c = I.items(v)
        if isinstance(c, tuple) and I.libname.endswith("deepcopy"):
            return PyList([cp_copy(I, [x], {}) for x in c], v.kind)
        return PyList(c, v.kind)
    if isinstance(v, PyDict):
        return PyDict(I.items(v))
    if v is None or isinstance(v, (str, UserFn, Func)):
        return v
    return I.unk("copy of " + describe(v))


@fn("builtins.property", "builtins.staticmethod", "builtins.classmethod")
def b_prop(I, args, kw):
    return args[0]


@fn("due.cite", "due.dcite", "due.activate", "due.add", "due.load", "due.dump")
def due_(I, args, kw):
    return Lib("builtins.__identity__")


# starred arguments of symbolic length
def _star_zip(I, v, kw):
    raise Undecided("zip(*sequence)")


STARRED = {"builtins.zip": _star_zip,
           "builtins.max": lambda I, v, kw: FN["builtins.max"](I, [v], kw),
           "builtins.min": lambda I, v, kw: FN["builtins.min"](I, [v], kw)}
