"""Abstract values of the value-numbering analysis.

Numbers and arrays are Arr: a shape (tuple of size terms), and a content, which
is a term over the axis placeholders @0, @1, ... .  Every Arr is a view of a
Store, so that aliasing and in-place writes are seen.  The current content of a
written store is in State.heap; an unwritten store has its initial content.
"""
from . import terms as T
from .terms import E, B, num, sym, Undecided

_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


class Store:
    __slots__ = ("sid", "shape", "init", "owner", "site")

    def __init__(self, shape, init, owner=None, site=None):
        self.sid = newid()
        self.shape, self.init, self.owner, self.site = tuple(shape), init, owner, site


class Arr:
    """shape: sizes; map: for every base axis ('fix', E) or ('ax', view axis, start E, step int)."""
    __slots__ = ("shape", "store", "map", "lib", "dtype", "dev", "nowrite", "alias", "meta")

    def __init__(self, shape, store, map_, lib, dtype, dev=None):
        self.shape, self.store, self.map = tuple(shape), store, map_
        self.lib, self.dtype, self.dev = lib, dtype, dev
        self.nowrite = False
        self.alias = None
        self.meta = None

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"<{self.lib} {self.dtype} [{', '.join(T.show(s) for s in self.shape)}] {T.show(self.store.init)[:60]}>"


def ph(i):
    return sym(f"@{i}")


def identity_map(n):
    return tuple(("ax", i, T.ZERO, 1) for i in range(n))


def mk(shape, body, lib="np", dtype="float64", dev=None, owner=None):
    shape = tuple(num(s) for s in shape)
    return Arr(shape, Store(shape, body, owner), identity_map(len(shape)), lib, dtype, dev)


def pynum(x):
    """python number / bool literal"""
    if isinstance(x, bool):
        return mk((), T.boolc(x), "py", "bool")
    if isinstance(x, int):
        return mk((), num(x), "py", "int")
    if isinstance(x, float):
        return mk((), num(x), "py", "float64")
    if isinstance(x, B):
        return mk((), x, "py", "bool")
    if isinstance(x, E):
        return mk((), x, "py", "int" if T.is_int(x) else "float64")
    raise TypeError(type(x))


class Unk:
    """value the analysis does not know"""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<unknown: {self.why}>"


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


class Choice:
    """c ? a : b for values that have no common form"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"<choice {self.a!r} | {self.b!r}>"


class PyList:
    """mutable list; content in heap[lid] (or init): python list of values, or SymSeq"""
    __slots__ = ("sid", "init", "kind", "owner")

    def __init__(self, items, kind="list", owner=None):
        self.sid = newid()
        self.init = items if isinstance(items, SymSeq) else tuple(items)
        self.kind = kind
        self.owner = owner


class SymSeq:
    """head + [elem(v) for v in range(n)] + ...; elem is a value with free index symbol v"""
    __slots__ = ("head", "n", "v", "elem")

    def __init__(self, n, v, elem, head=()):
        self.n, self.v, self.elem, self.head = num(n), v, elem, tuple(head)


class PyDict:
    __slots__ = ("sid", "init")

    def __init__(self, d):
        self.sid = newid()
        self.init = d if isinstance(d, OpenDict) else dict(d)


class OpenDict(dict):
    """dictionary content of which the keys are not known"""


class Range:
    __slots__ = ("n", "start", "step")

    def __init__(self, n, start, step):
        self.n, self.start, self.step = n, start, step


class Iter:
    """lazy iterable of n items; get(E index) -> value"""
    __slots__ = ("n", "get")

    def __init__(self, n, get):
        self.n, self.get = n, get


class ProductIter:
    """product of several sequences [(n, get, concrete list or None)]; a for loop over it is run as nested loops"""
    def __init__(self, parts):
        self.parts = parts


class Slice:
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Func:
    def __init__(self, node, frame, module, name, defaults=None, kwdefaults=None, cls=None, deco=()):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults, self.kwdefaults, self.cls, self.deco = defaults or [], kwdefaults or {}, cls, deco

    @property
    def qual(self):
        return f"{self.module.name}:{(self.cls.name + '.') if self.cls else ''}{self.name}"

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Lib:
    """a name of an external library, by its canonical dotted path"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<lib {self.path}>"


class Meth:
    """method of a builtin value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class UserFn:
    """opaque callable handed in by the caller"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<user callable {self.name}>"


class Class:
    def __init__(self, name, module, bases, members, node):
        self.name, self.module, self.bases, self.members, self.node = name, module, bases, members, node

    def lookup(self, name, seen=None):
        if name in self.members:
            return self.members[name]
        for b in self.bases:
            if isinstance(b, Class):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def defines(self, name):
        return any(name in c.members for c in self.mro())

    def mro(self):
        r = [self]
        for b in self.bases:
            if isinstance(b, Class):
                r += [x for x in b.mro() if x not in r]
        return r


class Obj:
    """instance; attributes in State.attrs[(oid, name)]"""
    def __init__(self, cls, tag=None):
        self.oid = newid()
        self.cls = cls
        self.tag = tag

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Dist:
    """torch.distributions / random generator object"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.kw = kw


class Frame:
    def __init__(self, parent, module, func=None):
        self.vars = {}
        self.parent, self.module, self.func = parent, module, func
        self.nonlocals = set()
        self.globals = set()


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.frame = Frame(None, self)
        self.done = False


class State:
    """mutable machine state apart from the frames"""
    def __init__(self):
        self.heap = {}
        self.attrs = {}


def ismut(v):
    return isinstance(v, (Arr, PyList, PyDict))


def describe(v):
    if isinstance(v, Arr):
        if v.lib == "py":
            return {"int": "int", "bool": "bool"}.get(v.dtype, "float")
        return ("tensor" if v.lib == "th" else "array") + " of shape (" + ", ".join(T.show(s) for s in v.shape) + ")"
    if isinstance(v, PyList):
        return v.kind
    if v is None:
        return "None"
    return type(v).__name__
