"""Flow analysis of Python source by abstract interpretation over terms.

Branches are merged with gates (no path enumeration); loops with symbolic trip
count are summarised (parallel writes, accumulations, inductions) or, for
recurrences over slices, sealed as named cells with a defining equation.
"""
import ast
import contextlib
from . import terms as T
from . import gens, matches
from .terms import (E, B, BConst, CTX, num, sym, ite, and_, or_, not_, ge, gt, eq, ind, ZERO, ONE,
                    TRUE, FALSE, Undecided, app, bapp)
from .values import *

MAXUNROLL = 40


class Event:
    def __init__(self, kind, msg, file, line, func, pc, cond=None, ctx=()):
        self.kind, self.msg, self.file, self.line, self.func = kind, msg, file, line, func
        self.pc, self.cond, self.ctx = pc, cond, ctx

    def where(self):
        return f"{self.file}:{self.line} in {self.func}"

    def __repr__(self):
        return f"{self.kind}: {self.msg} at {self.where()}"


class Dead(Exception):
    """the current path cannot continue"""


class Exit:
    def __init__(self, kind, cond, value, snap, node):
        self.kind, self.cond, self.value, self.snap, self.node = kind, cond, value, snap, node


class Seal:
    def __init__(self, name, label, leaves, u, n, init, ndim, shape):
        self.name, self.label, self.leaves, self.u, self.n = name, label, leaves, u, n
        self.init, self.ndim, self.shape = init, ndim, shape


def _flat(conds):
    out = []
    for c in conds:
        out += list(c.xs) if isinstance(c, T.BNary) and c.op == "and" else [c]
    return out


def leaves_of(t, conds=()):
    """decision tree of gates -> [(conds, leaf)]"""
    if isinstance(t, E) and len(t.t) == 1:
        (m, c), = t.t.items()
        if not m.bound and m.ex is None and len(m.factors) == 1 and m.factors[0][1] == 1 \
                and m.factors[0][0].kind == "ite":
            g, a, b = m.factors[0][0].args
            if c != 1:
                a, b = a * c, b * c
            return leaves_of(a, conds + (g,)) + leaves_of(b, conds + (not_(g),))
    return [(conds, t)]


class Peeled(ast.stmt):
    """first iteration of a loop, and the loop over the others"""
    _fields = ()


class Inner(ast.stmt):
    """the inner half of a loop over pairs"""


def _own_stmts(body):
    """statements that belong to this loop level"""
    for st in body:
        yield st
        for fld in ("body", "orelse", "finalbody"):
            sub = getattr(st, fld, None)
            if isinstance(sub, list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)) and not (isinstance(st, (ast.For, ast.While)) and fld == "body"):
                yield from _own_stmts(sub)
        for h in getattr(st, "handlers", []) or []:
            yield from _own_stmts(h.body)


class Interp:
    def __init__(self, loader, sizes=()):
        self.loader = loader
        self.S = State()
        self.frames = []
        self.events = []
        self.mute = 0
        self.loops = []          # active symbolic loops: (symbol name, n, extra)
        self.rngctx = []         # index terms identifying the current iteration
        self.pc = []
        self.calls = []
        self.node = None
        self.objattrs = {}       # attributes of helper objects made in loops
        self.exits = []
        self.seals = {}
        self.pre = {}
        self.summaries = {}
        self.usercalls = []
        self.keyterm = {}
        self.touched = set()     # functions analysed
        self.libcalls = set()
        self.nloops = 0
        self.depth = 0
        self.parallel = []       # prange loops seen: dicts
        self.visited = set()
        self.unknowns = []
        self.sizes = set(sizes)
        self.labels = {}
        self.logmsgs = 0
        self.steps = 0
        self.selfwrites = []
        self.created = []
        self.pcbase = 0
        self.libname = ""
        self.rngsites = []
        self.longgrid = None
        self.logcalls = []
        self.debug = False
        self.userdim = None

    # ------------------------------------------------------------ events
    def event(self, kind, msg, node=None, cond=None):
        if self.mute:
            return
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        f = fr.module.path if fr else "?"
        fn = fr.func.qual.split(":")[-1] if fr and fr.func else "<module>"
        ctx = tuple((v, n) for v, n in self.loops)
        self.events.append(Event(kind, msg, f, getattr(node, "lineno", 0), fn, and_(*self.pc), cond, ctx))

    def unk(self, why, node=None):
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        loc = f"{fr.module.path if fr else '?'}:{getattr(node, 'lineno', 0)}"
        if not self.mute:
            self.unknowns.append(f"{why} at {loc}")
        return Unk(f"{why} at {loc}")

    # ------------------------------------------------------------ content of arrays
    def content(self, st):
        return self.S.heap.get(st.sid, st.init)

    @contextlib.contextmanager
    def axes(self, shape):
        with CTX.bounds({f"@{i}": n for i, n in enumerate(shape)}):
            yield

    def body(self, a, heap=None):
        c = (heap if heap is not None else self.S.heap).get(a.store.sid, a.store.init)
        mp = {}
        for b, m in enumerate(a.map):
            if m[0] == "fix":
                mp[f"@{b}"] = m[1]
            else:
                _, ax, s, st = m
                if ax == b and st == 1 and s.const == 0:
                    continue
                mp[f"@{b}"] = s + ph(ax) * st
        with self.axes(a.shape):
            if mp:
                c = T.subst(c, mp)
            if self.pre:
                c = self.resolve(c)
        return c

    def nbody(self, a):
        """numeric content"""
        c = self.body(a)
        return ind(c) if isinstance(c, B) else c

    def bbody(self, a):
        c = self.body(a)
        return c if isinstance(c, B) else T.boolE(c)

    def freeze(self, v):
        """a value that later writes do not change"""
        if isinstance(v, Arr):
            if v.store.sid not in self.S.heap and v.map == identity_map(v.ndim) and not self.pre:
                return v
            r = mk(v.shape, self.body(v), v.lib, v.dtype, v.dev)
            r.meta = v.meta
            return r
        if isinstance(v, PyList):
            c = self.items(v)
            if isinstance(c, SymSeq):
                return PyList(SymSeq(c.n, c.v, c.elem, [self.freeze(x) for x in c.head]), v.kind)
            return PyList([self.freeze(x) for x in c], v.kind)
        if isinstance(v, Obj):
            return self.copy_obj(v, self.freeze)
        return v

    def items(self, l):
        c = self.S.heap.get(l.sid, l.init)
        if isinstance(l, PyDict) and not isinstance(c, dict):
            return OpenDict()
        if isinstance(c, Hidden):
            u = self.unk(c.why)
            return SymSeq(app("unknown:list length", num(newid())), "%none", u)
        return c

    def dfind(self, d, k):
        """is key k in the dictionary content d: True, False, a condition, or None (unknown)"""
        if isinstance(d, OpenDict):
            return None
        if k in d:
            v = d[k]
            if isinstance(v, Choice) and (v.a is UNBOUND or v.b is UNBOUND):
                if v.a is v.b:
                    return False
                if isinstance(v.a, Choice) or isinstance(v.b, Choice):
                    return None
                return not_(v.c) if v.a is UNBOUND else v.c
            return True
        if isinstance(k, str) or k is None:
            return False
        if symkey(k) and any(not isinstance(x, str) for x in d) or any(symkey(x) for x in d):
            return None
        return False

    def dlook(self, d, k, default):
        """value at a key that is a number known only symbolically, or None"""
        if isinstance(d, OpenDict) or not (symkey(k) and len(k) == 2 and k[0] == "s") or k in d:
            return None
        e = self.keyterm.get(k)
        keys = [x for x in d if not isinstance(x, str) and x is not None]
        if e is None or any(not (isinstance(x, tuple) and len(x) == 2 and x[0] == "n" and x in self.keyterm) for x in keys):
            return None
        if any(isinstance(d[x], Choice) and UNBOUND in (d[x].a, d[x].b) for x in keys):
            return None
        r = default
        for x in keys:
            c = eq(e, self.keyterm[x])
            dec = CTX.decide(c)
            if dec is False:
                continue
            r = d[x] if dec is True else Unk("missing dictionary key") if r is UNBOUND else self.merge_val(c, d[x], r, self.S.heap, self.S.heap)
            if dec is True:
                break
        return (r,)

    def dput(self, d, k, v):
        """content d after d[k] = v"""
        if isinstance(d, OpenDict):
            return d
        if k not in d and (symkey(k) and any(not isinstance(x, str) for x in d) or not isinstance(k, str) and any(symkey(x) for x in d)):
            return OpenDict()
        if k in d and len(d) > 1 and (symkey(k) or any(symkey(x) for x in d)) and not isinstance(k, str):
            return OpenDict()
        n = dict(d)
        n[k] = v
        return n

    def derived(self, shape, body, *srcs, dtype=None):
        lib = "py"
        dev = None
        for s in srcs:
            if isinstance(s, Arr):
                if s.lib == "th":
                    lib = "th"
                elif s.lib == "np" and lib != "th":
                    lib = "np"
        devs = [s.dev for s in srcs if isinstance(s, Arr) and s.lib == "th"]
        dev = self.join_dev([s for s in srcs if isinstance(s, Arr)])
        if dtype is None:
            dtype = self.join_dtype([s for s in srcs if isinstance(s, Arr)])
        return mk(shape, body, lib, dtype, dev)

    def join_dev(self, arrs):
        ths = [a for a in arrs if a.lib == "th"]
        if not ths:
            return None
        big = [a for a in ths if a.ndim > 0]
        pool = big or ths
        devs = []
        for a in pool:
            if a.dev not in devs:
                devs.append(a.dev)
        if len(devs) > 1:
            self.event("device", f"operation combines tensors on {' and '.join(map(str, devs))}")
            for d in devs:
                if d != "cpu":
                    return d
        for a in ths:
            if a.ndim == 0 and a.dev != devs[0] and a.dev not in (None, "cpu") and devs[0] in (None, "cpu"):
                self.event("device", f"operation combines tensors on {a.dev} and {devs[0]}")
        return devs[0]

    def join_dtype(self, arrs):
        order = ["bool", "int", "float32", "float64", "obj"]
        fl = [a for a in arrs if a.dtype in ("float32", "float64")]
        th = [a for a in fl if a.lib == "th"]
        if th:
            ts = {a.dtype for a in th}
            if len(ts) > 1:
                self.event("dtype", "operation mixes single and double precision tensors")
            big = [a for a in th if a.ndim > 0] or th
            if any(a.dtype == "float64" for a in big):
                return "float64"
            return "float32"
        best = "bool"
        for a in arrs:
            if a.dtype in order and order.index(a.dtype) > order.index(best):
                best = a.dtype
        if best == "float64" and any(a.lib == "th" for a in arrs):
            return "float32"     # integer tensor with a Python float
        return best

    # ------------------------------------------------------------ pre-state resolution in loops
    def resolve(self, t):
        if not T.mentions_app(t, lambda f: f.startswith("pre:")):
            return t

        def fn(f, args):
            return self.resolve_pre(f, args)
        for _ in range(4):
            t2 = T.rewrite(t, lambda f: f.startswith("pre:"), fn)
            if t2.key == t.key:
                break
            t = t2
        return t

    def resolve_pre(self, f, args):
        info = self.pre.get(f)
        if info is None:
            return None
        idx, ucur = args[:-1], args[-1]
        mp = {f"@{i}": x for i, x in enumerate(idx)}
        states = set()
        for conds, e, val in info.leaves:
            if e is None:
                # dense leaf: written in every iteration its condition holds
                cs = [T.subst(c, mp) for c in conds]
                if any(CTX.decide(c) is False for c in cs):
                    continue
                states.add("mix")
                continue
            ve = T.subst(e, mp)
            m2 = dict(mp)
            m2[info.u] = ve
            cs = [T.subst(c, m2) for c in conds] + [ge(ve), ge(info.n - 1 - ve)]
            if any(CTX.decide(c) is False for c in cs):
                continue
            # the remaining conditions hold whenever the leaf writes
            with CTX.fact(*cs):
                d = CTX.decide_ge(ve - ucur)
            if d is False:
                states.add("before")
            elif d is True:
                states.add("after")
            else:
                states.add("mix")
        if states <= {"before"}:
            if not states:
                return T.subst(info.init, mp)
            return app(info.name, *idx) if not isinstance(info.init, B) else None
        if states == {"after"}:
            return T.subst(info.init, mp)
        return None

    def define(self, name, idx):
        """defining expression of cell `name` at index idx (last writer), under the current facts"""
        s = self.seals[name]
        return self.resolve(self.last_writer(s.leaves, s.u, s.n, s.init, idx))

    def last_writer(self, leaves, u, lim, init, idx):
        mp = {f"@{i}": x for i, x in enumerate(idx)}
        cand = []
        for conds, e, val in leaves:
            if e is None:
                ve = self.last_dense([T.subst(x, mp) for x in conds], u, lim)
            else:
                ve = T.subst(e, mp)
            m2 = dict(mp)
            m2[u] = ve
            c = and_(*[T.subst(x, m2) for x in conds], ge(ve), ge(lim - 1 - ve))
            d = CTX.decide(c)
            if d is False:
                continue
            cand.append((ve, TRUE if d is True else c, T.subst(val, m2)))
        # order by iteration, ascending
        out = []
        for c in cand:
            pos = len(out)
            for i, o in enumerate(out):
                d = CTX.decide_ge(c[0] - o[0])
                if d is None and o[1] is not TRUE:
                    with CTX.fact(o[1], c[1]):
                        d = CTX.decide_ge(c[0] - o[0])
                if d is None:
                    with CTX.suspended():
                        excl = and_(o[1], c[1]) is FALSE
                    if not excl:
                        raise Undecided("order of writes")
                    d = True
                if d is False:
                    pos = i
                    break
            out.insert(pos, c)
        r = T.subst(init, mp)
        for ve, c, val in out:
            r = ite(c, val, r)
        return r

    def last_dense(self, conds, u, lim):
        """last iteration below lim in which all conditions can hold"""
        last = lim - 1
        for c in _flat(conds):
            if u not in c.free:
                continue
            co = T.linear_in(c.e, u)[0] if isinstance(c, T.BCmp) and c.op == "ge" else None
            if co is not None and co > 0:
                continue            # holds from some iteration on
            if co != -1:
                raise Undecided("iterations of a write")
            b = c.e + sym(u)        # holds up to iteration b
            d = CTX.decide_ge(b - last)
            if d is None:
                d = not CTX.decide_ge(last - b)
                if d:
                    raise Undecided("iterations of a write")
            if d is False:
                last = b
        return last

    # ------------------------------------------------------------ snapshots and merging
    def snapshot(self):
        return (dict(self.frames[-1].vars), dict(self.S.heap), dict(self.S.attrs))

    def restore(self, sn):
        self.frames[-1].vars = dict(sn[0])
        self.S.heap = dict(sn[1])
        self.S.attrs = dict(sn[2])

    def merge(self, c, A, Bs):
        """state c ? A : B  becomes current"""
        va, ha, aa = A
        vb, hb, ab = Bs
        vars_ = {}
        for k in va.keys() | vb.keys():
            x, y = va.get(k, UNBOUND), vb.get(k, UNBOUND)
            vars_[k] = x if x is y else self.merge_val(c, x, y, ha, hb)
        attrs = {}
        for k in aa.keys() | ab.keys():
            x, y = aa.get(k, UNBOUND), ab.get(k, UNBOUND)
            attrs[k] = x if x is y else self.merge_val(c, x, y, ha, hb)
        heap = {}
        for k in ha.keys() | hb.keys():
            x, y = ha.get(k), hb.get(k)
            if x is y:
                heap[k] = x
                continue
            if (x is None or y is None) and not isinstance(self.stores.get(k), Store):
                # created on one path only?
                if not self.reaches(k, va if x is None else vb, ha if x is None else hb, aa if x is None else ab):
                    heap[k] = y if x is None else x
                    continue
            heap[k] = self.merge_heap(c, k, x, y)
        self.frames[-1].vars = vars_
        self.S.heap = heap
        self.S.attrs = attrs

    def reaches(self, sid, vars_, heap, attrs):
        """can the object sid be reached from this state?"""
        todo = list(vars_.values()) + list(attrs.values())
        for f in self.frames[:-1]:
            todo += list(f.vars.values())
        seen = set()
        n = 0
        while todo:
            v = todo.pop()
            if v is None or isinstance(v, (str, bool, int, Arr, ast.AST, T.Term)) or id(v) in seen:
                continue
            seen.add(id(v))
            n += 1
            if n > 4000:
                return True
            if isinstance(v, (PyList, PyDict)):
                if v.sid == sid:
                    return True
                c = heap.get(v.sid, v.init)
                if isinstance(c, dict):
                    todo += list(c.values())
                elif isinstance(c, (SymSeq, Appended)):
                    todo += [c.elem] + list(c.head)
                elif isinstance(c, tuple):
                    todo += list(c)
            elif isinstance(v, Choice):
                todo += [v.a, v.b]
            elif isinstance(v, (tuple, list)):
                todo += list(v)
            elif isinstance(v, Frame):
                todo += list(v.vars.values()) + [v.parent]
            elif hasattr(v, "__dict__"):
                todo += list(v.__dict__.values())
            elif hasattr(type(v), "__slots__"):
                todo += [getattr(v, a, None) for a in type(v).__slots__]
        return False

    def merge_heap(self, c, k, x, y):
        st = self.stores.get(k)
        if st is None:
            return x if x is not None else y
        if x is None:
            x = st.init
        if y is None:
            y = st.init
        if x is y:
            return x
        if isinstance(st, Store):
            if x.key == y.key:
                return x
            with self.axes(st.shape):
                if isinstance(x, B) and isinstance(y, B):
                    return T.bite(c, x, y)
                return ite(c, x if isinstance(x, E) else ind(x), y if isinstance(y, E) else ind(y))
        if isinstance(st, PyDict):
            if not isinstance(x, dict) or not isinstance(y, dict) or isinstance(x, OpenDict) or isinstance(y, OpenDict):
                return OpenDict()
            return {kk: (x[kk] if x.get(kk) is y.get(kk) else Choice(c, x.get(kk, UNBOUND), y.get(kk, UNBOUND)))
                    for kk in x.keys() | y.keys()}
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(p if p is q else self.merge_val(c, p, q, self.S.heap, self.S.heap) for p, q in zip(x, y))
        return Hidden("list differs between branches")

    @property
    def stores(self):
        return REG

    def merge_val(self, c, x, y, ha, hb):
        if x is y:
            return x
        if isinstance(x, Unk):
            return x
        if isinstance(y, Unk):
            return y
        if isinstance(x, Arr) and isinstance(y, Arr):
            if len(x.shape) == len(y.shape) and all(p.key == q.key for p, q in zip(x.shape, y.shape)):
                if x.store is y.store and _mapkey(x) == _mapkey(y):
                    return x
                bx, by = self.body(x, ha), self.body(y, hb)
                with self.axes(x.shape):
                    if isinstance(bx, B) and isinstance(by, B):
                        nb = T.bite(c, bx, by)
                    else:
                        nb = ite(c, bx if isinstance(bx, E) else ind(bx), by if isinstance(by, E) else ind(by))
                lib = x.lib if x.lib == y.lib else ("th" if "th" in (x.lib, y.lib) else "np")
                dt = x.dtype if x.dtype == y.dtype else self.join_dtype([x, y])
                r = mk(x.shape, nb, lib, dt, x.dev if x.dev == y.dev else (x.dev or y.dev))
                if x.meta and y.meta and x.meta[0] == y.meta[0] == "pdist":
                    r.meta = ("pdist", self.merge_val(c, x.meta[1], y.meta[1], ha, hb))
                al = [z for z in (x, y) if z.store.owner]
                if al:
                    r.alias = al[0]
                return r
        if isinstance(x, (str, bool)) and x == y and type(x) is type(y):
            return x
        if isinstance(x, PyList) and isinstance(y, PyList) and x.kind == y.kind:
            ix, iy = ha.get(x.sid, x.init), hb.get(y.sid, y.init)
            if isinstance(ix, tuple) and isinstance(iy, tuple) and len(ix) == len(iy):
                return PyList([self.merge_val(c, p, q, ha, hb) for p, q in zip(ix, iy)], x.kind)
        if isinstance(x, Lib) and isinstance(y, Lib) and x.path == y.path:
            return x
        if isinstance(x, Func) and isinstance(y, Func) and x.node is y.node:
            return x
        return Choice(c, x, y)

    def force(self, v):
        n = 0
        while isinstance(v, Choice) and n < 50:
            n += 1
            d = CTX.decide(v.c)
            if d is not None:
                v = v.a if d else v.b
                continue
            if v.a is UNBOUND or v.b is UNBOUND:
                self.event("unbound", "name may be unbound here", cond=v.c if v.a is UNBOUND else not_(v.c))
                v = v.b if v.a is UNBOUND else v.a
                continue
            break
        return v

    def lift(self, v, op):
        """apply op to a Choice by branching"""
        return self.branch(v.c, lambda: op(v.a), lambda: op(v.b))

    def branch(self, c, fa, fb):
        sn = self.snapshot()
        with CTX.fact(c):
            self.pc.append(c)
            try:
                x = self.freeze(fa())
                xa = True
            except Dead:
                xa = False
            self.pc.pop()
        A = self.snapshot()
        self.restore(sn)
        nc = not_(c)
        with CTX.fact(nc):
            self.pc.append(nc)
            try:
                y = self.freeze(fb())
                ya = True
            except Dead:
                ya = False
            self.pc.pop()
        if not xa and not ya:
            raise Dead()
        if not xa:
            return y
        Bs = self.snapshot()
        if not ya:
            self.restore(A)
            return x
        self.merge(c, A, Bs)
        return self.merge_val(c, x, y, A[1], Bs[1])

    # ------------------------------------------------------------ truth, numbers
    def truth(self, v):
        v = self.force(v)
        if v is None:
            return FALSE
        if isinstance(v, (bool, str)):
            return T.boolc(bool(v))
        if isinstance(v, Arr):
            if any(not _is_one(s) for s in v.shape):
                # an array with more than one element has no truth value
                self.event("type", f"truth value of {describe(v)} is ambiguous", cond=or_(*[not_(eq(s, 1)) for s in v.shape]))
                return T.boolE(app("unknown:truth", num(newid())))
            b = self.bbody(v)
            if v.shape:
                b = T.subst(b, {f"@{i}": ZERO for i in range(v.ndim)})
            return b
        if isinstance(v, PyList):
            c = self.items(v)
            if isinstance(c, tuple):
                return T.boolc(bool(c))
            return gt(c.n + len(c.head))
        if isinstance(v, PyDict):
            if isinstance(self.items(v), OpenDict):
                return T.boolE(app("unknown:truth", num(newid())))
            return T.boolc(bool(self.items(v)))
        if isinstance(v, Choice):
            return T.bite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Unk):
            return bapp("unknown:" + v.why)
        return TRUE

    def asE(self, v, what="number"):
        """scalar number as a term"""
        v = self.force(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.nbody(v)
            if all(_is_one(s) for s in v.shape):
                return T.subst(self.nbody(v), {f"@{i}": ZERO for i in range(v.ndim)})
            self.event("type", f"{describe(v)} used as a {what}", cond=or_(*[not_(eq(s, 1)) for s in v.shape]))
            return app("unknown:scalar", num(newid()))
        if isinstance(v, Choice):
            return ite(v.c, self.asE(v.a, what), self.asE(v.b, what))
        if isinstance(v, Unk):
            return app("unknown:" + v.why)
        if isinstance(v, bool):
            return num(int(v))
        self.event("type", f"{describe(v)} used as a {what}")
        return app("unknown:notanumber", num(newid()))

    def size_arg(self, v):
        e = self.asE(v, "size")
        return e

    def concrete_int(self, v):
        e = self.asE(v)
        c = e.const
        if c is None or c.denominator != 1:
            return None
        return int(c)

    # ------------------------------------------------------------ reading and writing arrays
    def view(self, a, key, node=None, write=False):
        """a[key] as a view (basic indexing) or a derived array (fancy indexing)"""
        keys = list(key) if isinstance(key, tuple) else [key]
        keys = [self.force(k) for k in keys]
        nidx = sum(1 for k in keys if k is not None and k is not Ellipsis)
        if nidx > a.ndim:
            self.event("index", f"too many indices for {describe(a)}", node)
            return self.unk("too many indices", node)
        fill = [Slice(None, None, None)] * (a.ndim - nidx)
        at = [j for j, k in enumerate(keys) if k is Ellipsis]
        if at:
            keys[at[0]:at[0] + 1] = fill
        else:
            keys += fill
        # fancy?
        for k in keys:
            if isinstance(k, Arr) and (k.ndim > 0 or k.dtype == "bool" and k.lib != "py"):
                return self.fancy(a, keys, node)
            if isinstance(k, PyList):
                return self.fancy(a, keys, node)
            if isinstance(k, Unk):
                return k
        ax = 0          # current axis of a
        newshape = []
        sel = {}        # axis of a -> ('fix',e) | ('ax', newaxis, start, step)
        for k in keys:
            if k is None:
                newshape.append(ONE)
                continue
            n = a.shape[ax]
            if isinstance(k, Slice):
                start, length, step = self.slice(k, n)
                sel[ax] = ("ax", len(newshape), start, step)
                newshape.append(length)
                ax += 1
            else:
                e = self.asE(k, "index")
                e = self.index(e, n, node, a)
                sel[ax] = ("fix", e)
                ax += 1
        mp = []
        for m in a.map:
            if m[0] == "fix":
                mp.append(m)
            else:
                _, v, s, st = m
                q = sel[v]
                if q[0] == "fix":
                    mp.append(("fix", s + q[1] * st))
                else:
                    mp.append(("ax", q[1], s + q[2] * st, st * q[3]))
        r = Arr(newshape, a.store, tuple(mp), a.lib, a.dtype, a.dev)
        r.nowrite = a.nowrite
        r.alias = a.alias
        if a.lib == "py":
            r.lib = "np"
        return r

    def index(self, e, n, node=None, what=None):
        """normalise a possibly negative index; report out-of-range ones"""
        c = e.const
        lo = CTX.decide_ge(e)
        if lo is None and c is None:
            i = ite(ge(e), e, e + n)
        elif lo is False:
            i = e + n
        else:
            i = e
        ok = and_(ge(i), ge(n - 1 - i))
        d = CTX.decide(ok)
        if d is not True:
            if d is False:
                self.event("index", f"index {T.show(e)} out of range for size {T.show(n)}", node)
            else:
                self.event("index", f"index {T.show(e)} may be out of range for size {T.show(n)}", node, cond=not_(ok))
        return i

    def slice(self, k, n):
        st = 1 if k.st is None else self.concrete_int(k.st)
        if st is None or st == 0:
            raise Undecided("slice step")

        def clip(v, default, lo, hi):
            if v is None:
                return default
            e = self.asE(v, "slice bound")
            d = CTX.decide_ge(e)
            if d is False:
                e = e + n
            elif d is None:
                e = ite(ge(e), e, e + n)
            e = T.maxE(e, num(lo)) if CTX.decide_ge(e - lo) is not True else e
            e = T.minE(e, hi) if CTX.decide_ge(hi - e) is not True else e
            return e
        if st > 0:
            lo = clip(k.lo, ZERO, 0, n)
            hi = clip(k.hi, n, 0, n)
            ln = hi - lo
        else:
            lo = clip(k.lo, n - 1, -1, n - 1)
            hi = ZERO - 1 if k.hi is None else clip(k.hi, None, -1, n - 1)
            ln = lo - hi
        if CTX.decide_ge(ln) is False:
            ln = ZERO
        elif CTX.decide_ge(ln) is None:
            ln = T.maxE(ln, ZERO)
        if abs(st) != 1:
            ln = T.floordiv(ln + (abs(st) - 1), num(abs(st)))
        return lo, ln, st

    def fancy(self, a, keys, node):
        """integer-array / mask indexing: a derived array"""
        pos = [i for i, k in enumerate(keys) if isinstance(k, (Arr, PyList)) and not (isinstance(k, Arr) and k.ndim == 0 and k.dtype != "bool")]
        if any(k is None for k in keys) or len(pos) != 1:
            # several index arrays of the same shape, all others slices
            if not any(k is None for k in keys) and len(pos) >= 2:
                arrs = [self.toarray(keys[p]) for p in pos]
                if all(x.ndim == 1 and x.dtype in ("int",) for x in arrs) and pos == list(range(pos[0], pos[0] + len(pos))):
                    return self._fancy_multi(a, keys, pos, arrs, node)
            return self.unk("fancy indexing", node)
        p = pos[0]
        idx = self.toarray(keys[p])
        if idx.dtype == "bool":
            return self.unk("mask indexing", node)
        if idx.dtype != "int":
            self.event("index", "array index is not an integer array", node)
            return self.unk("index dtype", node)
        rest = [Slice(None, None, None) if i == p else k for i, k in enumerate(keys)]
        b = self.view(a, tuple(rest), node)
        # axis of b that belongs to p
        q = sum(1 for k in keys[:p] if isinstance(k, Slice))
        ib = self.nbody(idx)
        m = idx.ndim
        n = a.shape[p]
        shape = list(b.shape[:q]) + list(idx.shape) + list(b.shape[q + 1:])
        mp = {}
        for i in range(b.ndim):
            if i > q:
                mp[f"@{i}"] = ph(i + m - 1)
        with self.axes(shape):
            j = T.subst(ib, {f"@{i}": ph(q + i) for i in range(m)})
            d = CTX.decide_ge(j)
            if d is not True:
                j = j + n if d is False else ite(ge(j), j, j + n)
            mp[f"@{q}"] = j
            nb = T.subst(self.body(b), mp)
            r = mk(shape, nb, a.lib, a.dtype, a.dev)
        return r

    def _fancy_multi(self, a, keys, pos, arrs, node):
        rest = [Slice(None, None, None) if i in pos else k for i, k in enumerate(keys)]
        b = self.view(a, tuple(rest), node)
        q = sum(1 for k in keys[:pos[0]] if isinstance(k, Slice))
        c = len(pos)
        n = arrs[0].shape[0]
        shape = list(b.shape[:q]) + [n] + list(b.shape[q + c:])
        mp = {}
        for i in range(q + c, b.ndim):
            mp[f"@{i}"] = ph(i - c + 1)
        with self.axes(shape):
            for t, x in enumerate(arrs):
                mp[f"@{q + t}"] = T.subst(self.nbody(x), {"@0": ph(q)})
            return mk(shape, T.subst(self.body(b), mp), a.lib, a.dtype, a.dev)

    def setitem(self, a, key, val, node=None):
        if isinstance(a, Unk):
            return
        keys = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, Arr) and (k.ndim > 0) for k in keys):
            return self.set_fancy(a, keys, val, node)
        v = self.view(a, key, node, write=True)
        if isinstance(v, Unk):
            self.clobber(a, "write at unknown index")
            return
        self.write(v, val, node)

    def set_fancy(self, a, keys, val, node):
        if len(keys) == 1 and isinstance(keys[0], Arr) and keys[0].dtype == "bool" \
                and keys[0].ndim == a.ndim and isinstance(val, Arr) and val.ndim == 0:
            c = self.bbody(keys[0])
            with self.axes(a.shape):
                nb = ite(c, self.nbody(val), self.nbody(a))
            self.write(a, mk(a.shape, nb, a.lib, a.dtype, a.dev), node)
            return
        pos = [i for i, k in enumerate(keys) if isinstance(k, Arr) and k.ndim > 0]
        if len(pos) == 1 and keys[pos[0]].dtype == "bool" and keys[pos[0]].ndim == 1 and isinstance(val, Arr) and val.ndim == 0 \
                and all(i == pos[0] or isinstance(k, Slice) or isinstance(k, Arr) and k.dtype == "int" for i, k in enumerate(keys)):
            # a mask over one axis
            p = pos[0]
            q = sum(1 for k in keys[:p] if isinstance(k, Slice))
            b = self.view(a, tuple(Slice(None, None, None) if i == p else k for i, k in enumerate(keys)), node, write=True)
            if isinstance(b, Arr) and q < b.ndim:
                with self.axes(b.shape):
                    c = T.subst(self.bbody(keys[p]), {"@0": ph(q)})
                    nb = ite(c, self.nbody(val), self.nbody(b))
                self.write(b, mk(b.shape, nb, a.lib, a.dtype, a.dev), node)
                return
        self.clobber(a, "fancy write")

    def clobber(self, a, why):
        self.unk(why)
        self.S.heap[a.store.sid] = app("unknown:" + why, num(newid()), *[ph(i) for i in range(len(a.store.shape))])
        REG[a.store.sid] = a.store

    def write(self, v, val, node=None):
        """overwrite the whole view v with val (broadcast)"""
        st = v.store
        own = st.owner or (v.alias.store.owner if v.alias is not None else None)
        if own:
            self.event("callerwrite", f"writes into caller-owned {own}", node)
        if st.site:
            self.selfwrites.append((st.site, self.event_loc(node)))
            if not self.mute:
                self.event("flowwrite", f"writes {st.site}", node)
        if v.nowrite:
            self.clobber(v, "write through a non-writable view")
            return
        val = self.force(val)
        if isinstance(val, Choice):
            val = self.lift(val, lambda x: self.toarray(x))
        if isinstance(val, Unk):
            self.partial(v, app("unknown:" + val.why, *[ph(i) for i in range(v.ndim)]))
            return
        val = self.toarray(val)
        if isinstance(val, Unk):
            self.partial(v, app("unknown:" + val.why, *[ph(i) for i in range(v.ndim)]))
            return
        if v.lib == "th":
            if val.lib == "np" and val.ndim > 0:
                self.event("type", "numpy array assigned into a tensor", node)
            if val.lib == "th":
                self.join_dev([v, val])
        nb = self.broadcast_to(val, v.shape, node, assign=True)
        if v.dtype == "int" and val.dtype in ("float64", "float32"):
            if not isinstance(nb, E) or not T.is_int(nb):
                self.event("dtype", "floating point values written into an integer array are truncated", node)
                nb = app("trunc", nb if isinstance(nb, E) else ind(nb))
        if v.dtype == "float32" and val.dtype == "float64" and val.lib != "py":
            self.event("dtype", "double precision values are stored in single precision", node)
        if v.dtype == "bool":
            nb = nb if isinstance(nb, B) else T.boolE(nb)
        elif isinstance(nb, B):
            nb = ind(nb)
        self.partial(v, nb)

    def partial(self, v, nb):
        st = v.store
        old = self.content(st)
        conds = []
        mp = {}
        with self.axes(st.shape):
            for b, m in enumerate(v.map):
                p = ph(b)
                if m[0] == "fix":
                    conds.append(eq(p, m[1]))
                else:
                    _, a, s, k = m
                    x = (p - s) * (T.F1 / k)
                    if a in mp and False:
                        pass
                    mp[f"@{a}"] = x
                    conds.append(ge(x))
                    conds.append(ge(v.shape[a] - 1 - x))
                    if abs(k) != 1:
                        conds.append(bapp("divides", num(k), p - s))
            for a in range(v.ndim):
                if f"@{a}" not in mp:
                    mp[f"@{a}"] = ZERO
            c = and_(*conds)
            with CTX.fact(c):
                nv = T.subst(nb, mp)
            if isinstance(nv, B) and isinstance(old, B):
                new = T.bite(c, nv, old)
            else:
                new = ite(c, nv if isinstance(nv, E) else ind(nv), old if isinstance(old, E) else ind(old))
        REG[st.sid] = st
        self.S.heap[st.sid] = new

    def event_loc(self, node=None):
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        fn = fr.func.qual.split(":")[-1] if fr and fr.func else "<module>"
        return f"{fr.module.path if fr else '?'}:{getattr(node, 'lineno', 0)} in {fn}"

    # ------------------------------------------------------------ broadcasting
    def same_size(self, a, b):
        if a.key == b.key:
            return True
        d = CTX.decide_eq(a - b)
        return d

    def bshape(self, shapes, node=None, op="operation"):
        n = max((len(s) for s in shapes), default=0)
        out = []
        for i in range(n):
            cur = ONE
            for s in shapes:
                j = i - (n - len(s))
                if j < 0:
                    continue
                x = s[j]
                if _is_one(x):
                    continue
                if _is_one(cur):
                    cur = x
                    continue
                r = self.same_size(cur, x)
                if r is True:
                    continue
                self.event("shape", f"{op} combines sizes {T.show(cur)} and {T.show(x)} "
                           f"(shapes {', '.join('(' + ', '.join(T.show(q) for q in s) + ')' for s in shapes)})", node,
                           cond=and_(not_(eq(cur, x)), not_(eq(cur, 1)), not_(eq(x, 1))))
            out.append(cur)
        return tuple(out)

    def expand(self, a, shape, body=None):
        """content of a as a function of the axes of the broadcast shape"""
        b = self.body(a) if body is None else body
        off = len(shape) - a.ndim
        mp = {}
        for i in range(a.ndim):
            if _is_one(a.shape[i]) and not _is_one(shape[i + off]):
                mp[f"@{i}"] = ZERO
            elif off:
                mp[f"@{i}"] = ph(i + off)
        if mp:
            with self.axes(shape):
                b = T.subst(b, mp)
        return b

    def broadcast_to(self, a, shape, node=None, assign=False):
        """content of a broadcast to exactly `shape`"""
        s = a.shape
        while len(s) > len(shape) and _is_one(s[0]):
            a = self.view(a, (pynum(0),))
            s = a.shape
        if len(s) > len(shape):
            self.event("shape", f"cannot broadcast {describe(a)} to shape ({', '.join(T.show(x) for x in shape)})", node)
            return app("unknown:shape", num(newid()), *[ph(i) for i in range(len(shape))])
        off = len(shape) - len(s)
        for i in range(len(s)):
            if _is_one(s[i]):
                continue
            if self.same_size(s[i], shape[i + off]) is not True:
                self.event("shape", f"cannot broadcast {describe(a)} to shape ({', '.join(T.show(x) for x in shape)})", node,
                           cond=and_(not_(eq(s[i], shape[i + off])), not_(eq(s[i], 1))))
        return self.expand(a, shape)

    # ------------------------------------------------------------ conversions
    def toarray(self, v, lib=None, node=None):
        """python scalars, lists and nested lists as arrays"""
        v = self.force(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, bool):
            return pynum(v)
        if isinstance(v, PyList):
            c = self.items(v)
            if isinstance(c, SymSeq):
                return self.stack_seq(c, lib or "np")
            if len(c) == 0:
                return mk((ZERO,), ZERO, lib or "np", "float64")
            xs = [self.toarray(x, lib) for x in c]
            for x in xs:
                if isinstance(x, Unk):
                    return x
            return self.stack(xs, 0, lib)
        if isinstance(v, Range):
            return mk((v.n,), v.start + ph(0) * v.step, lib or "np", "int")
        if isinstance(v, Iter):
            w = T.fresh("%")
            with CTX.bounds({w: v.n}):
                e = self.freeze(v.get(sym(w)))
            return self.stack_seq(SymSeq(v.n, w, e), lib or "np")
        if isinstance(v, Choice):
            r = self.lift(v, lambda x: self.toarray(x, lib))
            if isinstance(r, Choice):
                return self.unk("values of different shape meet", node)
            return r
        if isinstance(v, Unk):
            return v
        self.event("type", f"{describe(v)} used as an array", node)
        return self.unk("not an array", node)

    def stack(self, xs, axis=0, lib=None, node=None):
        xs = [self.toarray(x) for x in xs]
        for x in xs:
            if isinstance(x, Unk):
                return x
        s0 = xs[0].shape
        for x in xs[1:]:
            if x.ndim != len(s0):
                self.event("shape", "elements of different dimension are stacked", node)
                return self.unk("ragged stack", node)
            for p, q in zip(x.shape, s0):
                if self.same_size(p, q) is not True:
                    self.event("shape", f"elements of different size are stacked ({T.show(p)} and {T.show(q)})", node,
                               cond=not_(eq(p, q)))
        if axis < 0:
            axis += len(s0) + 1
        shape = list(s0[:axis]) + [num(len(xs))] + list(s0[axis:])
        mp = {f"@{i}": ph(i + 1) for i in range(axis, len(s0))}
        bs = [T.subst(self.body(x), mp) if mp else self.body(x) for x in xs]
        with self.axes(shape):
            r = bs[-1]
            for i in range(len(xs) - 2, -1, -1):
                c = eq(ph(axis), i)
                if isinstance(r, B) and isinstance(bs[i], B):
                    r = T.bite(c, bs[i], r)
                else:
                    r = ite(c, bs[i] if isinstance(bs[i], E) else ind(bs[i]), r if isinstance(r, E) else ind(r))
        a = self.derived(shape, r, *xs)
        if lib:
            a.lib = lib
        elif a.lib == "py":
            a.lib = "np"
        return a

    def stack_seq(self, c, lib="np", axis=0):
        if c.head:
            el = self.toarray(self.at(c.elem, {c.v: sym(c.v)}))
            if isinstance(el, Unk):
                return el
            hs = [self.toarray(x) for x in c.head]
            h = len(hs)
            shape = [c.n + h] + list(el.shape)
            b = T.subst(T.subst(self.body(el), {f"@{i}": ph(i + 1) for i in range(el.ndim)}), {c.v: ph(0) - h})
            with self.axes(shape):
                for i in range(h - 1, -1, -1):
                    hb = T.subst(self.body(hs[i]), {f"@{j}": ph(j + 1) for j in range(hs[i].ndim)})
                    b = ite(eq(ph(0), i), hb, b)
            return self.derived(shape, b, el, *hs)
        with CTX.bounds({c.v: c.n}):
            el = self.toarray(c.elem)
            if isinstance(el, Unk):
                return el
            b = self.body(el)
        nd = el.ndim
        if axis < 0:
            axis += nd + 1
        mp = {f"@{i}": ph(i + 1) for i in range(axis, nd)}
        mp2 = dict(mp)
        mp2[c.v] = ph(axis)
        shape = list(el.shape[:axis]) + [c.n] + list(el.shape[axis:])
        with self.axes(shape):
            b = T.subst(b, mp2)
        r = self.derived([T.subst(s, {c.v: ZERO}) for s in shape], b, el)
        if r.lib == "py":
            r.lib = lib
        return r

    def at(self, v, mp):
        """substitute index symbols in a value"""
        if isinstance(v, Arr):
            b = T.subst(self.body(v), mp)
            r = mk([T.subst(s, mp) for s in v.shape], b, v.lib, v.dtype, v.dev)
            r.meta = v.meta
            return r
        if isinstance(v, PyList):
            c = self.items(v)
            if isinstance(c, SymSeq):
                return PyList(SymSeq(T.subst(c.n, mp), c.v, self.at(c.elem, mp), [self.at(x, mp) for x in c.head]), v.kind)
            return PyList([self.at(x, mp) for x in c], v.kind)
        if isinstance(v, Choice):
            c = T.subst(v.c, mp)
            d = CTX.decide(c)
            if d is not None:
                return self.at(v.a if d else v.b, mp)
            a, b = self.at(v.a, mp), self.at(v.b, mp)
            if a is UNBOUND or b is UNBOUND:   # not a use of the name
                return UNBOUND if a is b else Choice(c, a, b)
            return self.force(Choice(c, a, b))
        if isinstance(v, Obj):
            return self.copy_obj(v, lambda x: self.at(x, mp))
        return v

    def copy_obj(self, v, f):
        """snapshot of a helper object (not of the flow under analysis), f applied to its attributes"""
        if v.tag is not None:
            return v
        own = {k[1]: x for d in (self.objattrs, self.S.attrs) for k, x in d.items() if k[0] == v.oid}
        if not own or any(isinstance(x, (Obj, PyDict)) or x is UNBOUND for x in own.values()):
            return v
        o = Obj(v.cls, None)
        for k, x in own.items():
            self.objattrs[(o.oid, k)] = f(x)
        return o

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        """-> (alive, extra fact for what follows)"""
        extras = []
        with contextlib.ExitStack() as es:
            npc = 0
            try:
                for s in stmts:
                    try:
                        alive, ex = self.exec(s)
                    except Dead:
                        return False, TRUE
                    if not alive:
                        return False, TRUE
                    if ex is not TRUE:
                        extras.append(ex)
                        es.enter_context(CTX.fact(ex))
                        self.pc.append(ex)
                        npc += 1
            finally:
                for _ in range(npc):
                    self.pc.pop()
        return True, and_(*extras)

    def exec(self, s):
        self.node = s
        self.steps += 1
        if self.steps > 400000:
            raise Undecided("analysis budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__}")
        r = m(s)
        return r if r is not None else (True, TRUE)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        from .lib import INPLACE
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.force(self.name(t.id))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.force(self.getattr(base, t.attr))
        elif isinstance(t, ast.Subscript):
            base = self.force(self.ev(t.value))
            key = self.key(t.slice)
            cur = self.force(self.subscript(base, key))
        else:
            raise Undecided("augmented assignment target")
        rhs = self.ev(s.value)
        rhs = self.force(rhs)
        inplace = isinstance(cur, Arr) and (cur.lib == "th" or (cur.lib == "np" and cur.ndim > 0))
        if isinstance(cur, PyList) and op == "Add" and cur.kind == "list":
            self.list_extend(cur, rhs)
            return
        res = self.binop(op, cur, rhs)
        if inplace and isinstance(res, Arr):
            if cur.dtype in ("int", "bool") and res.dtype in ("float64", "float32") and (cur.ndim or cur.lib == "th"):
                self.event("type", f"in-place {op} of floating point values on integer {describe(cur)}", s)
            if isinstance(t, ast.Subscript):
                self.setitem(base, key, res, s)
            else:
                if any(self.same_size(a, b) is not True for a, b in zip(res.shape, cur.shape)) or res.ndim != cur.ndim:
                    self.event("shape", f"in-place operation changes the shape of {describe(cur)}", s)
                self.write(cur, res, s)
            return
        if isinstance(t, ast.Name):
            self.setname(t.id, res)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, res)
        else:
            self.setsub(base, key, res, s)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.force(self.ev(t.value))
            self.setsub(base, self.key(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided("assignment target")

    def setsub(self, base, key, v, node):
        if isinstance(base, Arr):
            self.setitem(base, key, v, node)
        elif isinstance(base, PyList):
            if base.kind == "tuple":
                self.event("type", "tuple is written", node)
                return
            c = self.items(base)
            i = self.concrete_int(key) if not isinstance(key, (Slice, tuple)) else None
            if base.owner:
                self.event("callerwrite", f"writes into caller-owned {base.owner}", node)
            self.list_touch(base)
            if isinstance(c, tuple) and i is not None and -len(c) <= i < len(c):
                l = list(c)
                l[i] = v
                REG[base.sid] = base
                self.S.heap[base.sid] = tuple(l)
            else:
                REG[base.sid] = base
                self.S.heap[base.sid] = Hidden("list write")
        elif isinstance(base, PyDict):
            d = self.dput(self.items(base), self.dkey(key), v)
            REG[base.sid] = base
            self.S.heap[base.sid] = d
        elif isinstance(base, Lib):
            self.event("effect", f"writes {base.path}[...]", node)
        elif isinstance(base, Unk):
            return
        elif isinstance(base, Choice):
            self.branch(base.c, lambda: self.setsub(base.a, key, v, node), lambda: self.setsub(base.b, key, v, node))
        else:
            self.event("type", f"{describe(base)} does not support item assignment", node)

    def dkey(self, k):
        k = self.force(k)
        if isinstance(k, Arr):
            e = self.asE(k)
            kk = ("n" if e.const is not None else "s", e.key)
            self.keyterm[kk] = e
            return kk
        if isinstance(k, PyList):
            return tuple(self.dkey(x) for x in self.items(k))
        return k

    def unpack(self, elts, v):
        v = self.force(v)
        if isinstance(v, Choice):
            n = len(elts)
            for i, t in enumerate(elts):
                self.assign(t, self.lift(v, lambda x, i=i: self.subscript(self.force(x), pynum(i))))
            return
        if isinstance(v, Unk):
            for t in elts:
                self.assign(t, v)
            return
        n, get, conc = self.iterable(v)
        if conc is None:
            c = n.const
            star = [i for i, t in enumerate(elts) if isinstance(t, ast.Starred)]
            if c is None:
                if not star:
                    self.event("shape", f"cannot unpack {T.show(n)} values into {len(elts)}", cond=not_(eq(n, len(elts))))
                    conc = [get(num(i)) for i in range(len(elts))]
                else:
                    raise Undecided("starred unpack")
            else:
                conc = [get(num(i)) for i in range(int(c))]
        star = [i for i, t in enumerate(elts) if isinstance(t, ast.Starred)]
        if star:
            i = star[0]
            k = len(conc) - len(elts) + 1
            conc = conc[:i] + [PyList(conc[i:i + k])] + conc[i + k:]
        if len(conc) != len(elts):
            self.event("shape", f"cannot unpack {len(conc)} values into {len(elts)}")
            conc = (list(conc) + [self.unk("unpack")] * len(elts))[:len(elts)]
        for t, x in zip(elts, conc):
            self.assign(t, x)

    def setname(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals:
            fr.module.frame.vars[name] = v
            self.event("globalwrite", f"assigns the global {name}")
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        fr.vars[name] = v

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.force(self.ev(t.value))
                if isinstance(o, Obj):
                    self.event("attrwrite", f"deletes attribute {t.attr}")
                    self.S.attrs.pop((o.oid, t.attr), None)

    def s_Return(self, s):
        v = None if s.value is None else self.ev(s.value)
        self.exits[-1].append(Exit("return", and_(*self.pc[self.pcbase:]), v, self.snapshot(), s))
        return False, TRUE

    def s_Break(self, s):
        self.exits[-1].append(Exit("break", and_(*self.pc[self.pcbase:]), None, self.snapshot(), s))
        return False, TRUE

    def s_Continue(self, s):
        self.exits[-1].append(Exit("continue", and_(*self.pc[self.pcbase:]), None, self.snapshot(), s))
        return False, TRUE

    def s_Raise(self, s):
        self.event("raise", "raises an exception: " + (ast.unparse(s.exc)[:80] if s.exc else ""), s)
        return False, TRUE

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if isinstance(c, BConst) and c.val:
            return True, TRUE
        self.event("raise", "assertion can fail: " + ast.unparse(s.test)[:80], s, cond=not_(c))
        if isinstance(c, BConst):
            return False, TRUE
        return True, c

    def s_Global(self, s):
        self.frames[-1].globals |= set(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals |= set(s.names)

    def s_Import(self, s):
        for a in s.names:
            v = self.loader.import_module(a.name, 0, self.frames[-1].module, self)
            if a.asname:
                self.setname(a.asname, v)
            else:
                top = a.name.split(".")[0]
                self.setname(top, self.loader.import_module(top, 0, self.frames[-1].module, self))

    def s_ImportFrom(self, s):
        for a in s.names:
            if a.name == "*":
                self.loader.star(s.module or "", s.level, self.frames[-1], self)
                continue
            v = self.loader.import_from(s.module or "", s.level, a.name, self.frames[-1].module, self)
            self.setname(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        self.setname(s.name, self.make_func(s, s.name))

    def make_func(self, s, name, cls=None):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {p.arg: self.ev(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        deco = [ast.unparse(d) for d in getattr(s, "decorator_list", [])]
        f = Func(s, self.frames[-1], self.frames[-1].module, name, defaults, kwd, cls, deco)
        for d in reversed(getattr(s, "decorator_list", [])):
            if ast.unparse(d).split(".")[-1] in ("property", "staticmethod", "classmethod", "cached_property", "setter"):
                continue
            dv = self.force(self.ev(d))
            if isinstance(dv, (Func, Bound, Partial)):
                r = self.call(dv, [f], {}, d)
                if isinstance(r, (Func, Partial, Bound)):
                    if isinstance(r, Func):
                        r.cls = r.cls or cls
                    f = r
                else:
                    return r
            elif not isinstance(dv, Lib):
                return dv
        return f

    def s_ClassDef(self, s):
        from . import lib4
        c = self.make_class(s)
        for d in reversed(s.decorator_list):
            p = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            v = self.force(self.ev(d.func if isinstance(d, ast.Call) else d))
            if isinstance(v, Lib) and v.path == "dataclasses.dataclass":
                c = lib4.make_dataclass(self, c)
            elif not (isinstance(v, Lib) and v.path in ("typing.final", "typing.runtime_checkable")):
                c.members["__init__"] = None
                c.undecided = f"class decorated with {p}"
        if any(isinstance(b, Lib) and b.path == "typing.NamedTuple" for b in c.bases):
            c = lib4.make_dataclass(self, c)
            c.record = True
        self.setname(s.name, c)

    def make_class(self, s):
        bases = [self.force(self.ev(b)) for b in s.bases]
        c = Class(s.name, self.frames[-1].module, bases, {}, s)
        fr = Frame(self.frames[-1], self.frames[-1].module, self.frames[-1].func)
        self.frames.append(fr)
        try:
            for x in s.body:
                if isinstance(x, (ast.FunctionDef,)):
                    # functions see the enclosing frame, not the class body
                    self.frames.append(fr.parent)
                    try:
                        f = self.make_func(x, x.name, c)
                    finally:
                        self.frames.pop()
                    fr.vars[x.name] = f
                else:
                    self.exec(x)
        finally:
            self.frames.pop()
        c.members = fr.vars
        return c

    def s_With(self, s):
        if len(s.items) > 1:
            inner = ast.copy_location(ast.With(s.items[1:], s.body), s)
            return self.s_With(ast.copy_location(ast.With(s.items[:1], [inner]), s))
        it = s.items[0]
        v = self.force(self.ev(it.context_expr))
        if isinstance(v, gens.GenCall):
            return gens.around(self, v, it.optional_vars, s)
        if isinstance(v, Obj) and v.cls.lookup("__enter__") is not None:
            r = self.call(self.bind_member(v.cls.lookup("__enter__"), v), [], {}, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r)
            q = self.exec_block(s.body)
            out = v.cls.lookup("__exit__")
            if out is not None:
                if self.exits and self.exits[-1] and q != (True, TRUE):
                    raise Undecided("context manager left early")
                self.call(self.bind_member(out, v), [None, None, None], {}, s)
            return q
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v if isinstance(v, Unk) else self.unk("context manager value"))
        return self.exec_block(s.body)

    def s_Try(self, s):
        from .frontend import Absent
        try:
            a, ex = self.exec_block(s.body)
        except Absent:
            for h in s.handlers:
                t = ast.unparse(h.type) if h.type is not None else "Exception"
                if any(n in t for n in ("ImportError", "ModuleNotFoundError", "Exception")):
                    a, ex = self.exec_block(h.body)
                    if s.finalbody and a:
                        self.exec_block(s.finalbody)
                    return a, ex
            raise
        if a and s.orelse:
            with CTX.fact(ex):
                a, ex2 = self.exec_block(s.orelse)
                ex = and_(ex, ex2)
        if s.finalbody:
            if a:
                a2, ex3 = self.exec_block(s.finalbody)
                a = a and a2
        return a, ex

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        if not isinstance(c, BConst):
            d = CTX.decide(c)
            if d is not None:
                c = T.boolc(d)
        return self.cond_exec(c, s.body, s.orelse)

    def cond_exec(self, c, body, orelse=()):
        if isinstance(c, BConst):
            return self.exec_block(body if c.val else orelse)
        nc = not_(c)
        sn = self.snapshot()
        a1, x1 = self.guarded(c, body)
        A = self.snapshot()
        self.restore(sn)
        a2, x2 = self.guarded(nc, orelse)
        if a1 and a2:
            self.merge(c, A, self.snapshot())
            x = or_(and_(c, x1), and_(nc, x2)) if not (x1 is TRUE and x2 is TRUE) else TRUE
            return True, x
        if a1:
            self.restore(A)
            return True, and_(c, x1)
        if a2:
            return True, and_(nc, x2)
        return False, TRUE

    def guarded(self, c, stmts):
        with CTX.fact(c):
            self.pc.append(c)
            try:
                return self.exec_block(stmts)
            finally:
                self.pc.pop()

    # ------------------------------------------------------------ loops
    def iterable(self, v):
        """-> (n, get, concrete list or None)"""
        v = self.force(v)
        if isinstance(v, gens.GenCall):
            v = self.force(gens.collect(self, v))
        if isinstance(v, Obj):
            r = self.record(v)
            if r is None and v.cls.lookup("__iter__") is not None:
                r = self.call(self.bind_member(v.cls.lookup("__iter__"), v), [], {}, self.node)
            if r is not None:
                return self.iterable(r)
        if isinstance(v, Iter) and v.n is None:
            raise Undecided("endless iterator")
        if isinstance(v, Range):
            return v.n, (lambda i: pyint(v.start + i * v.step)), None
        if isinstance(v, Iter):
            return v.n, v.get, None
        if isinstance(v, PyList):
            c = self.items(v)
            if isinstance(c, SymSeq):
                return c.n + len(c.head), (lambda i: self.seq_get(c, i)), None
            return num(len(c)), (lambda i: c[int(i.const)]), list(c)
        if isinstance(v, Arr):
            if v.ndim == 0:
                self.event("type", f"iteration over a scalar ({describe(v)})")
                raise Dead()
            def get(i):
                r = self.view(v, (mk((), i, "py", "int"),))
                return self.npscalar(r)
            return v.shape[0], get, None
        if isinstance(v, PyDict):
            if isinstance(self.items(v), OpenDict) or any(not isinstance(x, str) for x in self.items(v)):
                raise Undecided("iteration over a dictionary")
            ks = list(self.items(v))
            return num(len(ks)), (lambda i: ks[int(i.const)]), ks
        if isinstance(v, str):
            return num(len(v)), (lambda i: v[int(i.const)]), list(v)
        raise Undecided(f"iteration over {describe(v)}")

    def record(self, v):
        """a named tuple as a plain one"""
        if isinstance(v, Obj) and getattr(v.cls, "record", False):
            return PyList([self.getattr(v, f) for f in v.cls.fields], "tuple")
        return None

    def npscalar(self, r):
        if r.ndim == 0 and r.lib == "np":
            x = mk((), self.body(r), "np", r.dtype)
            return x
        return r

    def seq_get(self, c, i):
        if c.head:
            h = len(c.head)
            ic = i.const
            if ic is not None and ic < h:
                return c.head[int(ic)]
            if CTX.decide_ge(i - h) is True:
                return self.at(c.elem, {c.v: i - h})
            r = self.at(c.elem, {c.v: i - h})
            for k in range(h - 1, -1, -1):
                r = self.merge_val(eq(i, k), c.head[k], r, self.S.heap, self.S.heap)
            return r
        return self.at(c.elem, {c.v: i})

    def s_For(self, s):
        it = self.ev(s.iter)
        it = self.force(it)
        if isinstance(it, Unk):
            raise Undecided("loop over " + it.why)
        if isinstance(it, Choice):
            raise Undecided("loop over gated iterable")
        if isinstance(it, gens.GenCall):
            return gens.consume(self, it, s)
        if isinstance(it, Obj) and self.record(it) is None and it.cls.lookup("__iter__") is not None:
            r = self.force(self.call(self.bind_member(it.cls.lookup("__iter__"), it), [], {}, s))
            if isinstance(r, gens.GenCall):
                return gens.consume(self, r, s)
            it = r
        if isinstance(it, ProductIter):
            return gens.nested(self, it, s)
        n, get, conc = self.iterable(it)
        par = isinstance(it, Range) and getattr(it, "step", None) is not None and it in PRANGES
        c = n.const
        if conc is None and c is not None and c <= MAXUNROLL:
            conc = [None] * max(0, int(c))
            conc = [get(num(i)) for i in range(max(0, int(c)))]
        if conc is not None:
            return self.unrolled(conc, s)
        if CTX.decide_ge(n) is False or CTX.decide_ge(-n) is True:
            return self.exec_block(s.orelse)
        return self.sym_loop(n, lambda u: self.assign(s.target, get(u)), s.body, s, orelse=s.orelse, par=par)

    def unrolled(self, items, s):
        facts = []
        brk = []
        with contextlib.ExitStack() as es:
            npc = 0
            dead = False
            try:
                for k, x in enumerate(items):
                    self.rngctx.append(num(k))
                    self.exits.append([])
                    try:
                        self.assign(s.target, x)
                        alive, ex = self.exec_block(s.body)
                    finally:
                        self.rngctx.pop()
                        exits = self.exits.pop()
                    alive, ex = self.after_body(exits, alive, ex, brk)
                    if not alive:
                        dead = True
                        break
                    if ex is not TRUE:
                        es.enter_context(CTX.fact(ex))
                        self.pc.append(ex)
                        npc += 1
                        facts.append(ex)
                if not dead and s.orelse:
                    alive, ex = self.exec_block(s.orelse)
                    dead = not alive
                    facts.append(ex)
            finally:
                for _ in range(npc):
                    self.pc.pop()
        # join break states
        ex = and_(*facts)
        if brk:
            if dead:
                last = brk.pop()
                self.restore(last.snap)
                ex = last.cond
                dead = False
            for b in reversed(brk):
                self.merge(b.cond, b.snap, self.snapshot())
                ex = or_(b.cond, ex)
        return (not dead), (TRUE if brk else ex)

    def after_body(self, exits, alive, ex, brk):
        """handle continue / break / return exits of one execution of a loop body"""
        for e in exits:
            if e.kind == "return":
                self.exits[-1].append(e)
            elif e.kind == "break":
                brk.append(e)
        cont = [e for e in exits if e.kind == "continue"]
        for e in reversed(cont):
            if alive:
                self.merge(e.cond, e.snap, self.snapshot())
                ex = or_(e.cond, ex)
            else:
                self.restore(e.snap)
                ex = e.cond
                alive = True
        if cont and not any(e.kind in ("break", "return") for e in exits):
            ex = TRUE
        return alive, ex

    def s_While(self, s):
        # `while True: if c: break; ...`
        test, body = s.test, s.body
        if isinstance(test, ast.Constant) and test.value is True and body and isinstance(body[0], ast.If) \
                and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break) and not body[0].orelse:
            test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=body[0].test), body[0].test)
            ast.fix_missing_locations(test)
            body = body[1:]
        c = self.truth(self.ev(test))
        if isinstance(c, BConst) and not c.val:
            return True, TRUE
        # concrete unrolling when the condition stays decided
        sn = self.snapshot()
        nev = len(self.events)
        k = 0
        unk, us = len(self.unknowns), len(self.usercalls)
        try:
            n = self.trip_count(test, body, s)
        except Undecided:
            n = None
            self.restore(sn)
        del self.events[nev:], self.unknowns[unk:], self.usercalls[us:]
        if n is not None and (n.const is None or n.const > MAXUNROLL):
            return self.sym_loop(n, lambda u: None, body, s, orelse=s.orelse)
        if isinstance(c, BConst):
            brk = []
            while True:
                c = self.truth(self.ev(test))
                if not isinstance(c, BConst):
                    break
                if not c.val:
                    return True, TRUE
                k += 1
                if k > MAXUNROLL:
                    break
                self.exits.append([])
                self.rngctx.append(num(k))
                try:
                    alive, ex = self.exec_block(body)
                finally:
                    self.rngctx.pop()
                    exits = self.exits.pop()
                alive, ex = self.after_body(exits, alive, ex, brk)
                if not alive and not brk:
                    return False, TRUE
                if brk:
                    if alive:
                        raise Undecided("break in while loop")
                    self.restore(brk[0].snap)
                    return True, TRUE
            self.restore(sn)
            del self.events[nev:]
        if n is None:
            raise Undecided("trip count of while loop")
        return self.sym_loop(n, lambda u: None, body, s, orelse=s.orelse)

    def trip_count(self, test, body, s):
        # find the trip count: cond linear in an induction variable
        L = self.nloops = self.nloops + 1
        u = T.fresh("%w")
        T.INTS.add(u)
        sn = self.snapshot()
        entry = {}
        for _ in range(4):
            # only slots assigned in the body are held open, so that each pass can only add some
            self.mute += 1
            try:
                probe = self.probe(lambda u: None, body, u, None, sn, L, entry)
            finally:
                self.mute -= 1
            more = {k: v for k, v in probe.items() if k not in entry and isinstance(v[0], Arr) and v[0].ndim == 0 and k[0] in "va"}
            if not more:
                break
            for k, (init, new) in more.items():
                entry[k] = self.placeholder(L, k, init, u)
        slots = {k: v for k, v in probe.items() if k[0] in "va"}
        closed = {}
        for k, (init, new) in slots.items():
            if isinstance(init, Arr) and init.ndim == 0 and isinstance(new, Arr) and new.ndim == 0:
                d = self.diff_induction(L, k, new, u)
                if d is not None:
                    closed[k] = self.nbody(init) + sym(u) * d
        # evaluate the condition with the induction variables closed
        self.restore(sn)
        for k, e in closed.items():
            i = slots[k][0]
            self.set_slot(k, mk((), e, i.lib, i.dtype, i.dev))
        for k, (init, new) in slots.items():
            if k not in closed:
                self.set_slot(k, self.placeholder(L, k, init, u))
        CTX.lo[u] = ZERO
        self.mute += 1
        try:
            c = self.truth(self.ev(test))
        finally:
            self.mute -= 1
            CTX.lo.pop(u, None)
        self.restore(sn)
        n = None
        e = None
        if isinstance(c, T.BCmp) and c.op in ("ge", "gt"):
            e = c.e if c.op == "ge" else c.e - 1
            if c.op == "gt" and not T.is_int(c.e):
                e = None
            k, rest = T.linear_in(c.e if e is None else e, u) if e is not None else T.linear_in(c.e, u)
            if k is not None and k < 0:
                q = rest * (-1 / k)
                if c.op == "gt" and not T.is_int(c.e):
                    n = T.rounding("ceil", q)
                else:
                    n = q + 1 if T.is_int(q) else T.rounding("floor", q) + 1
        elif isinstance(c, T.BNot) and isinstance(c.x, T.BCmp) and c.x.op == "eq":
            k, rest = T.linear_in(c.x.e, u)
            if k is not None and abs(k) == 1:
                n = rest * (-1 / k)
        if n is None:
            raise Undecided("trip count of while loop")
        if CTX.decide_ge(n) is not True:
            n = T.maxE(n, ZERO)
        return n

    def diff_induction(self, L, k, new, u):
        nb = self.nbody(new)
        name = f"pre:{L}:{k[1] if k[0] == 'v' else k[1][1]}"
        me = app(name, sym(u))
        d = nb - me
        if T.mentions_app(d, lambda f: f.startswith(f"pre:{L}:")) or u in d.free:
            return None
        return d

    def placeholder(self, L, slot, init, u):
        if isinstance(init, Arr):
            nm = f"pre:{L}:{slot[1] if slot[0] == 'v' else slot[1][1]}"
            idx = [ph(i) for i in range(init.ndim)] + [sym(u)]
            b = bapp(nm, *idx) if init.dtype == "bool" else app(nm, *idx)
            r = mk(init.shape, b, init.lib, init.dtype, init.dev)
            if init.store.owner or init.store.site:
                r.alias = init
            return r
        return Unk(f"value carried between iterations ({slot})")

    def probe(self, bind, body, u, n, sn, L, entry):
        """run the body once from the entry state; -> {slot: (init, new)}"""
        self.restore(sn)
        mark = max(_mark(), 0)
        for k, v in entry.items():
            self.set_slot(k, v)
        self.loops.append((u, n))
        self.rngctx.append(sym(u))
        self.exits.append([])
        before = self.snapshot()
        try:
            with CTX.bounds({u: n} if n is not None else {}):
                if n is None:
                    CTX.lo[u] = ZERO
                bind(sym(u))
                alive, ex = self.exec_block(body)
                exits = self.exits[-1]
                brk = []
                self.exits.append([])
                alive, ex = self.after_body(exits, alive, ex, brk)
                rets = self.exits.pop()
        finally:
            self.exits.pop()
            self.rngctx.pop()
            self.loops.pop()
            if n is None:
                CTX.lo.pop(u, None)
        self.last = (alive, ex, brk, rets)
        after = self.snapshot()
        mods = {}
        for k, v in after[0].items():
            if before[0].get(k, UNBOUND) is not v:
                mods[("v", k)] = (sn[0].get(k, UNBOUND), v)
        for k, v in after[1].items():
            if k <= mark and before[1].get(k) is not v:
                st = REG[k]
                mods[("h", k)] = (sn[1].get(k, st.init), v)
        for k, v in after[2].items():
            if before[2].get(k, UNBOUND) is not v:
                if k[1] == "last" and isinstance(k[0], str) and k not in before[2]:
                    continue          # list made in this iteration
                if isinstance(k[0], int) and k[0] > mark and k not in before[2]:
                    self.objattrs[k] = self.freeze(v)
                    continue          # object made in this iteration
                mods[("a", k)] = (sn[2].get(k, UNBOUND), v)
        return mods

    def wants_peel(self, mods, body, n):
        """a name that is None before the loop and something else after the first iteration: the first
        iteration is looked at on its own"""
        if n is None or not any(k[0] in "va" and init is None and new is not None and not isinstance(new, Unk) for k, (init, new) in mods.items()):
            return False
        if any(isinstance(x, (Inner, ast.Return)) for st in body for x in ast.walk(st)) or gens._breaks(body):
            return False
        return True

    def peel(self, n, bind, body, s, orelse, par):
        def once():
            self.rngctx.append(ZERO)
            self.exits.append([])
            try:
                bind(ZERO)
                alive, ex = self.exec_block(body)
            finally:
                self.rngctx.pop()
                exits = self.exits.pop()
            alive, ex = self.after_body(exits, alive, ex, [])
            if not alive:
                return alive, ex
            d = CTX.decide_ge(n - 2)
            if d is False:
                return alive, ex
            if d is True:
                return self.sym_loop(n - 1, lambda u: bind(u + 1), body, s, (), par)
            rest = Inner()
            rest.n, rest.bind, rest.inner, rest.node, rest.par = n - 1, (lambda u: bind(u + 1)), body, s, par
            ast.copy_location(rest, s)
            return self.cond_exec(ge(n - 2), [rest])
        if CTX.decide_ge(n - 1) is True:
            q = once()
        else:
            node = Peeled()
            node.run = once
            ast.copy_location(node, s)
            q = self.cond_exec(ge(n - 1), [node])
        if orelse and q[0]:
            return self.exec_block(orelse)
        return q

    def s_Peeled(self, s):
        return s.run()

    def widen(self, mods, bind, body, u, n, sn, L):
        """a number that the first iteration turns into an array (acc = 1.0; acc = acc*row) enters
        the loop as the constant array, when that makes no difference to the first iteration"""
        if n is None or CTX.decide_ge(n - 1) is not True:
            return False
        at = {"v": 0, "a": 2}
        wide = {}
        for k, (a, b) in mods.items():
            if k[0] in at and isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == 0 and b.ndim > 0 and a.dtype != "bool" and b.dtype != "bool" and a.store.owner is None:
                wide[k] = mk(b.shape, self.nbody(a), b.lib, b.dtype, b.dev)
        if not wide:
            return False
        old = {k: sn[at[k[0]]][k[1]] for k in wide}
        first = {}
        for k, (a, b) in mods.items():
            first[k] = (b.shape, self.nbody(b)) if isinstance(b, Arr) else (None, b if isinstance(b, E) else None)
        for k, v in wide.items():
            sn[at[k[0]]][k[1]] = v
        ok = False
        try:
            mods = self.probe(bind, body, u, n, sn, L, {})
            ok = set(mods) == set(first)
            for k, (a, b) in mods.items():
                if not ok:
                    break
                sh, e = first[k]
                if isinstance(b, Arr):
                    ok = sh is not None and len(sh) == len(b.shape) and all(self.same_size(x, y) is True for x, y in zip(sh, b.shape)) and self.nbody(b).key == e.key
                elif isinstance(b, E):
                    ok = e is not None and b.key == e.key
        except (Undecided, Dead):
            ok = False
        if not ok:
            for k, v in old.items():
                sn[at[k[0]]][k[1]] = v
        return ok

    def set_slot(self, k, v):
        if k[0] == "v":
            if v is UNBOUND:
                self.frames[-1].vars.pop(k[1], None)
            else:
                self.frames[-1].vars[k[1]] = v
        elif k[0] == "a":
            self.S.attrs[k[1]] = v
        else:
            self.S.heap[k[1]] = v

    def flat_pair(self, n, body):
        """n = a*b when the body takes the loop variable apart by b -> (a, b)"""
        if n.const is not None or len(n.t) != 1 or T.is_int(n) is not True or any(isinstance(x, ast.Break) for x in _own_stmts(body)):
            return None
        cands = []
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.FloorDiv, ast.Mod)):
                    cands.append(x.right)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "divmod" and len(x.args) == 2:
                    cands.append(x.args[1])
        for c in cands:
            if not isinstance(c, (ast.Name, ast.Attribute, ast.Subscript)):
                continue
            sn, ev = self.snapshot(), len(self.events)
            try:
                with self.quiet():
                    b = self.asE(self.force(self.ev(c)), "divisor")
            except (Undecided, Dead):
                continue
            finally:
                self.restore(sn)
                del self.events[ev:]
            if not isinstance(b, E) or b.const is not None or T.is_int(b) is not True:
                continue
            a = n * T.power(b, -1)
            if a.const is None and T.is_int(a) is True and all(e > 0 for m in a.t for _, e in m.factors) and CTX.decide_ge(b - 1) is True and CTX.decide_ge(a) is True:
                return a, b
        return None

    def s_Match(self, s):
        return self.exec_block(matches.desugar(s))

    def s_Inner(self, s):
        return self.sym_loop(s.n, s.bind, s.inner, s.node, par=s.par)

    def sym_loop(self, n, bind, body, s, orelse=(), par=False):
        ab = self.flat_pair(n, body) if isinstance(s, ast.For) else None
        if ab is not None:
            a, b = ab
            cell = []

            def outer(p):
                cell[:] = [p]
            inner = Inner()
            inner.n, inner.bind, inner.inner, inner.node, inner.par = b, (lambda q: bind(cell[0] * b + q)), body, s, par
            ast.copy_location(inner, s)
            return self.sym_loop(a, outer, [inner], s, orelse, par)
        L = self.nloops = self.nloops + 1
        u = T.fresh("%u")
        T.INTS.add(u)
        sn = self.snapshot()
        targets = _names(s.target) if isinstance(s, ast.For) else set()
        peel = False
        entry = {}      # slot -> entry value at iteration u
        solved = {}     # slot -> final value
        structs = {}
        keys = set()
        with self.quiet():
            for it in range(8):
                mods = self.probe(bind, body, u, n, sn, L, entry)
                if not it and self.widen(mods, bind, body, u, n, sn, L):
                    continue
                if not it and self.wants_peel(mods, body, n):
                    peel = True
                    break
                alive, ex, brk, rets = self.last
                self.check_loop_exits(alive, ex, brk, rets, u, n, mods, s)
                for t in targets:
                    mods.pop(("v", t), None)
                new = set(mods) - keys
                keys |= set(mods)
                changed = False
                for k in new:
                    init = mods[k][0]
                    if k[0] == "h":
                        st = REG[k[1]]
                        if isinstance(st, Store):
                            nm = f"pre:{L}:h{k[1]}"
                            idx = [ph(i) for i in range(len(st.shape))] + [sym(u)]
                            entry[k] = bapp(nm, *idx) if isinstance(init, B) else app(nm, *idx)
                        elif isinstance(st, PyDict):
                            entry[k] = OpenDict()
                        else:
                            entry[k] = ("LIST", u)
                            if isinstance(init, tuple):
                                entry[k] = SymSeq(sym(u), "%none", Unk("list element of this loop"), init) if True else None
                            else:
                                entry[k] = Hidden("list filled in a loop")
                    elif init is UNBOUND:
                        entry[k] = UNBOUND
                    else:
                        entry[k] = self.placeholder(L, k, init, u)
                    changed = True
                if changed:
                    continue
                if par and not solved:
                    self.note_parallel(L, u, n, mods, s)
                # solve
                prog = False
                unsolved = [k for k in keys if k not in solved]
                if self._solve(L, u, n, mods, unsolved, solved, entry, structs, sn):
                    continue
                # unsolved recurrences
                rest = [k for k in keys if k not in solved]
                if rest and not all(k in structs for k in rest if k[0] == "h"):
                    if self._seal(L, u, n, mods, rest, structs, sn):
                        continue
                if rest and self._unify(L, u, n, mods, rest, solved, entry, structs, sn):
                    continue
                break
        if peel:
            self.restore(sn)
            return self.peel(n, bind, body, s, orelse, par)
        # final pass, with events
        ev0 = len(self.events)
        mods = self.probe(bind, body, u, n, sn, L, entry)
        alive, ex, brk, rets = self.last
        # refresh structures from the final run
        rest = [k for k in keys if k not in solved]
        self._seal(L, u, n, mods, rest, structs, sn, final=True)
        after = self.snapshot()
        self.restore(sn)
        n1 = ge(n - 1)
        last = n - 1
        for k in keys:
            if k in solved:
                self.set_slot(k, solved[k](n))
            elif k[0] == "h":
                st = REG[k[1]]
                if isinstance(st, Store) and k in structs:
                    info = structs[k]
                    idx = [ph(i) for i in range(len(st.shape))]
                    self.S.heap[k[1]] = app(info.name, *idx)
                elif isinstance(st, Store):
                    self.S.heap[k[1]] = app(f"unknown:loop{L}", *[ph(i) for i in range(len(st.shape))])
                elif isinstance(st, PyDict):
                    self.S.heap[k[1]] = OpenDict()
                else:
                    self.S.heap[k[1]] = Hidden("list built in a loop")
            elif k not in mods:
                # in the end the body leaves it alone
                if k in entry and isinstance(entry[k], Unk):
                    self.set_slot(k, self.unk("value carried out of a loop"))
            else:
                init, new = mods[k]
                v = self.last_value(L, init, new, u, n, last, after)
                self.set_slot(k, v)
        # target variable keeps its last value
        if targets:
            sv = self.snapshot()
            try:
                with self.quiet():
                    bind(last)
                for t in targets:
                    v = self.frames[-1].vars.get(t, UNBOUND)
                    if CTX.decide(n1) is not True:
                        v = Choice(n1, v, sn[0].get(t, UNBOUND))
                    sv[0][t] = v
            finally:
                self.restore(sv)
        if rets:
            self.loop_returns(rets, u, n, keys, L)
            cnd = and_(*[not_(self.exists(e.cond, u, n)) for e in rets])
            if orelse:
                alive, ex = self.guarded(cnd, orelse)
                return alive, and_(cnd, ex)
            return True, cnd
        if brk:
            return self.loop_breaks(brk, u, n, keys, targets, L, orelse)
        if orelse:
            return self.exec_block(orelse)
        return True, TRUE

    def exists(self, c, u, n):
        rel = c
        v = T.fresh("%")
        return T.redall(T.subst(rel, {u: sym(v)}), v, n, "any") if u in rel.free else rel

    def loop_returns(self, rets, u, n, keys, L):
        for e in rets:
            c = self.exists(e.cond, u, n)
            sn = self.snapshot()
            # what the cut-short loop left behind is not known
            for k in keys:
                if k[0] == "h":
                    sn[1][k[1]] = self.unknown_content(k[1], L)
                elif k[0] == "a":
                    sn[2][k[1]] = Unk("value left by a loop that returns early")
            self.exits[-1].append(Exit("return", c, e.value, sn, e.node))

    def unknown_content(self, sid, L):
        st = REG[sid]
        if isinstance(st, Store):
            return app(f"unknown:loop{L}", *[ph(i) for i in range(len(st.shape))])
        return (Unk("list left by a loop that stops early"),)

    def loop_breaks(self, brk, u, n, keys, targets, L, orelse):
        """after a loop that may be left by `break`: what every breaking iteration assigns alike is
        known, whatever else the loop touched is not"""
        hit = or_(*[self.exists(e.cond, u, n) for e in brk])
        done = self.snapshot()

        def fixed(v):
            """v when it is the same in every iteration"""
            if isinstance(v, (bool, str)) or v is None:
                return True
            if not isinstance(v, Arr):
                return False
            b = self.body(v)
            return u not in b.free and not T.mentions_app(b, lambda f: f.startswith(f"pre:{L}:")) and not any(u in d.free for d in v.shape)

        def same(a, b):
            if a is b:
                return True
            return isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and \
                all(x.key == y.key for x, y in zip(a.shape, b.shape)) and self.body(a).key == self.body(b).key

        cut = self.snapshot()
        slots = set(keys) | {("v", t) for t in targets}
        for e in brk:
            slots |= {("v", k) for k, v in e.snap[0].items() if done[0].get(k, UNBOUND) is not v}
            slots |= {("a", k) for k, v in e.snap[2].items() if done[2].get(k, UNBOUND) is not v}
        for k in slots:
            if k[0] == "h":
                cut[1][k[1]] = self.unknown_content(k[1], L)
                continue
            part = 0 if k[0] == "v" else 2
            vs = []
            for e in brk:
                cur = self.snapshot()
                self.S.heap = dict(e.snap[1])
                try:
                    v = e.snap[part].get(k[1], UNBOUND)
                    v = self.freeze(v) if isinstance(v, Arr) else v
                    vs.append(v if k[1] not in targets and fixed(v) else None)
                except Undecided:
                    vs.append(None)
                finally:
                    self.restore(cur)
            if vs[0] is not None and all(same(v, vs[0]) for v in vs):
                cut[part][k[1]] = vs[0]
            else:
                cut[part][k[1]] = Unk("value left by a loop with break")
        nh = not_(hit)
        alive, ex = True, TRUE
        if orelse:
            alive, ex = self.guarded(nh, orelse)
        if not alive:
            self.restore(cut)
            return True, hit
        self.merge(hit, cut, self.snapshot())
        return True, (TRUE if ex is TRUE else or_(hit, ex))

    def check_loop_exits(self, alive, ex, brk, rets, u, n, mods, s):
        if brk and (rets or not isinstance(s, ast.For) or not alive):
            raise Undecided(f"break in a loop of symbolic length (line {s.lineno})")
        for e in rets:
            v = e.value
            if isinstance(v, Arr) and v.ndim == 0:
                b = self.body(v)
                if u in b.free or T.mentions_app(b, lambda f: f.startswith("pre:")):
                    raise Undecided("return from a loop depends on the iteration")
            elif not (v is None or isinstance(v, (bool, str))):
                raise Undecided("return of a value from a loop of symbolic length")
        for e in brk:
            if T.mentions_app(e.cond, lambda f: f.startswith("pre:")):
                raise Undecided(f"break that depends on carried values (line {s.lineno})")

    @contextlib.contextmanager
    def quiet(self):
        self.mute += 1
        try:
            yield
        finally:
            self.mute -= 1

    def last_value(self, L, init, new, u, n, last, after):
        if new is UNBOUND:
            return init
        cur = self.snapshot()
        self.S.heap = dict(after[1])
        try:
            with CTX.bounds({u: n}):
                v = self.freeze(new)
            v = self.at(v, {u: last})
        except Undecided:
            v = Unk("value after loop")
        self.restore(cur)
        if _has_pre(self, v, L):
            return Unk("value carried out of a loop")
        if CTX.decide_ge(last) is not True:
            return self.merge_val(ge(last), v, init, self.S.heap, self.S.heap)
        return v

    # ---- solving loop slots
    def _pname(self, L, k):
        return f"pre:{L}:h{k[1]}" if k[0] == "h" else f"pre:{L}:{k[1] if k[0] == 'v' else k[1][1]}"

    def _solve(self, L, u, n, mods, unsolved, solved, entry, structs, sn):
        prog = False
        for k in unsolved:
            if k not in mods:
                # no longer modified once others are known: unchanged
                continue
            init, new = mods[k]
            r = None
            if k[0] == "h":
                st = REG[k[1]]
                if isinstance(st, Store):
                    shape = st.shape
                    if k in structs and T.mentions_app(new, lambda f, nm=structs[k].name: f == nm):
                        continue        # recurrence on itself: stays a named cell
                    r = self._closed(L, self._pname(L, k), shape, init, new, u, n)
                    if r is not None:
                        ent, fin = r
                        entry[k] = ent
                        solved[k] = fin
                        prog = True
                else:
                    if self._solve_list(L, k, init, new, u, n, solved, entry):
                        prog = True
            elif isinstance(new, Arr) and isinstance(init, Arr):
                if len(init.shape) != len(new.shape) or any(a.key != b.key for a, b in zip(init.shape, new.shape)):
                    if not _has_pre(self, new, L):
                        # value does not depend on the carried one
                        continue
                    continue
                ib = self.body_in(init, sn)
                nb = self.body(new)
                r = self._closed(L, self._pname(L, k), init.shape, ib, nb, u, n)
                if r is not None:
                    ent, fin = r
                    lib, dt, dv = new.lib, (new.dtype if new.dtype == init.dtype else self.join_dtype([init, new])), new.dev
                    entry[k] = mk(init.shape, ent, lib, dt, dv)
                    solved[k] = (lambda n, fin=fin, shape=init.shape, lib=lib, dt=dt, dv=dv: mk(shape, fin(n), lib, dt, dv))
                    prog = True
        return prog

    def body_in(self, a, sn):
        return self.body(a, sn[1])

    def _closed(self, L, pname, shape, init, new, u, n):
        """closed form of a slot: -> (entry content at iteration u, final(n)) or None"""
        nd = len(shape)
        pref = f"pre:{L}:"
        isb = isinstance(new, B) and isinstance(init, B)
        idx = [ph(i) for i in range(nd)]
        if isb:
            me = bapp(pname, *idx, sym(u))
            if not T.mentions_app(new, lambda f: f.startswith(pref)):
                ent = T.bite(eq(sym(u), 0), init, T.subst(new, {u: sym(u) - 1}))
                return ent, (lambda n: T.bite(ge(n - 1), T.subst(new, {u: n - 1}), init))
            # and / or accumulation
            for op, dual in (("and", "all"), ("or", "any")):
                if isinstance(new, T.BNary) and new.op == op and me.key in [x.key for x in new.xs]:
                    rest = (and_ if op == "and" else or_)(*[x for x in new.xs if x.key != me.key])
                    if T.mentions_app(rest, lambda f: f.startswith(pref)):
                        return None
                    v = T.fresh("%")

                    def upto(m, rest=rest, op=op, dual=dual):
                        v = T.fresh("%")
                        with CTX.bounds({v: m}):
                            return (and_ if op == "and" else or_)(init, T.redall(T.subst(rest, {u: sym(v)}), v, m, dual))
                    return upto(sym(u)), upto
            # the carried value inside: with it true the body must leave only a conjunct, with it false a disjunct
            try:
                with CTX.bounds({u: n}):
                    hi = T.rewrite(new, lambda f: f == pname, lambda f, args: TRUE)
                    lo = T.rewrite(new, lambda f: f == pname, lambda f, args: FALSE)
            except (TypeError, AttributeError):
                return None
            if not isinstance(hi, B) or not isinstance(lo, B):
                return None
            op, dual, rest = ("and", "all", hi) if lo is FALSE else ("or", "any", lo) if hi is TRUE else (None, None, None)
            if op is None or T.mentions_app(rest, lambda f: f.startswith(pref)):
                return None

            def uptb(m):
                v = T.fresh("%")
                with CTX.bounds({v: m}):
                    return (and_ if op == "and" else or_)(init, T.redall(T.subst(rest, {u: sym(v)}), v, m, dual))
            return uptb(sym(u)), uptb
        init = init if isinstance(init, E) else ind(init)
        new = new if isinstance(new, E) else ind(new)
        with self.axes(shape), CTX.bounds({u: n}):
            me = app(pname, *idx, sym(u))
            # a boolean start value turned into a number keeps a boolean placeholder
            new = _unbool(new, pname, idx, u)

            def here(f, args):
                # an access the enclosing conditions pin to this very cell
                if len(args) == nd + 1 and args[-1].key == sym(u).key and all(CTX.decide(eq(a, i)) is True for a, i in zip(args, idx)):
                    return me
                return None
            if nd and T.mentions_app(new, lambda f: f == pname):
                new = T.rewrite(new, lambda f: f == pname, here)
            lv = leaves_of(new)
            written = [(c, v) for c, v in lv if v.key != me.key]
            if not written:
                return init, (lambda n: init)
            carry = lambda t: T.mentions_app(t, lambda f: f.startswith(pref))
            if any(carry(x) for c, _ in written for x in c):
                return None
            if not any(carry(v) for _, v in written):
                ls = self.solve_leaves(written, u)
                if all(e is not None for _, e, _ in ls):
                    try:
                        ent = self.last_writer(ls, u, sym(u), init, idx)
                        self.last_writer(ls, u, n, init, idx)
                    except Undecided:
                        return None
                    return ent, (lambda n, ls=ls: self._lw(shape, ls, u, n, init, idx))
                if len(lv) == len(written):
                    # overwritten completely in every iteration
                    ent = ite(eq(sym(u), 0), init, T.subst(new, {u: sym(u) - 1}))
                    return ent, (lambda n: self._guard_n(shape, n, T.subst(new, {u: n - 1}), init))
                dense = [(c, e, v) for c, e, v in ls if e is None]
                if len(ls) == 1:
                    c, e, v = ls[0]
                    cu = [x for x in c if u in x.free]
                    if not cu:
                        cc = and_(*c)
                        ent = ite(and_(cc, ge(sym(u) - 1)), T.subst(v, {u: sym(u) - 1}), init)
                        return ent, (lambda n: self._guard_n(shape, n, ite(cc, T.subst(v, {u: n - 1}), init), init))
                    if len(cu) == 1 and isinstance(cu[0], T.BCmp) and cu[0].op == "ge" and (T.linear_in(cu[0].e, u)[0] or 0) > 0:
                        # threshold condition: once true it stays true
                        def upto(m, c=c, v=v):
                            cc = and_(*[T.subst(x, {u: m - 1}) for x in c], ge(m - 1))
                            return ite(cc, T.subst(v, {u: m - 1}), init)
                        ent = upto(sym(u))
                        return ent, (lambda n: self._in_axes(shape, lambda: upto(n)))
                return None
            # accumulation
            g = ZERO
            okk = True
            for c, v in written:
                d = v - me
                if carry(d):
                    okk = False
                    break
                g = g + d * ind(and_(*c))
            cc = and_(*written[0][0])
            if okk and len(written) == 1 and cc is not TRUE and u not in cc.free:
                d = written[0][1] - me

                def uptoc(m):
                    with CTX.fact(cc):
                        s0 = T.resimplify(init)
                        if u not in d.free:
                            s1 = s0 + d * m
                        else:
                            v = T.fresh("%")
                            s1 = s0 + T.sum_over(T.subst(d, {u: sym(v)}), v, m)
                    with CTX.fact(not_(cc)):
                        s2 = T.resimplify(init)
                    return ite(cc, s1, s2)
                return uptoc(sym(u)), (lambda n: self._in_axes(shape, lambda: uptoc(n)))
            if okk:
                def upto(m, g=g):
                    if u not in g.free:
                        return init + g * m
                    v = T.fresh("%")
                    return init + T.sum_over(T.subst(g, {u: sym(v)}), v, m)
                return upto(sym(u)), (lambda n: self._in_axes(shape, lambda: upto(n)))
            if len(lv) == 1:
                v0 = lv[0][1]
                # product
                g = self._ratio(v0, me)
                if g is not None and not carry(g):
                    def uptop(m, g=g):
                        v = T.fresh("%")
                        with CTX.bounds({v: m}):
                            return init * T.red("prod", T.subst(g, {u: sym(v)}), v, m)
                    return uptop(sym(u)), (lambda n: self._in_axes(shape, lambda: uptop(n)))
            elif all(self._ratio(v, me) is not None for _, v in written):
                # product with factors that depend on a condition
                g = num(1)
                for c, v in reversed(written):
                    g = ite(and_(*c), self._ratio(v, me), g)
                if not carry(g):
                    def uptoq(m, g=g):
                        v = T.fresh("%")
                        with CTX.bounds({v: m}):
                            return init * T.red("prod", T.subst(g, {u: sym(v)}), v, m)
                    return uptoq(sym(u)), (lambda n: self._in_axes(shape, lambda: uptoq(n)))
            if len(written) == 1:
                v0 = written[0][1]
                cw = and_(*written[0][0])
                # min / max
                for kind, op in (("max", "redmax"), ("min", "redmin")):
                    a = _single_app(v0, kind)
                    if a is not None and me.key in [x.key for x in a]:
                        rest = [x for x in a if x.key != me.key]
                        if any(carry(x) for x in rest):
                            return None

                        def uptom(m, rest=rest, kind=kind, op=op):
                            v = T.fresh("%")
                            f = T.maxE if kind == "max" else T.minE
                            with CTX.bounds({v: m}):
                                return f(init, T.red(op, T.subst(ite(cw, f(*rest), init), {u: sym(v)}), v, m))
                        return uptom(sym(u)), (lambda n: self._in_axes(shape, lambda: uptom(n)))
        return None

    def _in_axes(self, shape, f):
        with self.axes(shape):
            return f()

    def _lw(self, shape, ls, u, n, init, idx):
        with self.axes(shape):
            return self.last_writer(ls, u, n, init, idx)

    def _guard_n(self, shape, n, val, init):
        with self.axes(shape):
            return ite(ge(n - 1), val, init)

    def _ratio(self, v, me):
        """v = me * g -> g"""
        a = list(me.t)[0].factors[0][0]
        g = ZERO
        for m, c in v.t.items():
            if m.bound:
                return None
            f = [(x, e) for x, e in m.factors if x.key == a.key]
            if len(f) != 1 or f[0][1] != 1:
                return None
            rest = T.Mono((), tuple((x, e) for x, e in m.factors if x.key != a.key), m.ex)
            if not rest.factors and rest.ex is None:
                rest = T.MONE
            g = g + E({rest: c})
        return g

    def solve_leaves(self, written, u):
        out = []
        for conds, v in written:
            flat = []
            for c in conds:
                flat += list(c.xs) if isinstance(c, T.BNary) and c.op == "and" else [c]
            e = None
            for c in flat:
                if isinstance(c, T.BCmp) and c.op == "eq" and u in c.free:
                    sol = T.solve_lin(c.e, u)
                    if sol is not None and not T.mentions_app(sol, lambda f: f.startswith(("pre:", "cell:"))):
                        # prefer solutions in the axes over constants: the constant case is a guard
                        if e is None or (not e.free and sol.free):
                            e = sol
            if e is None and any(u in c.free for c in flat):
                e = self.only_at(flat, u)
            rest = flat
            out.append((tuple(rest), e, v))
        return out

    def only_at(self, conds, u):
        """the one iteration in which all the conditions hold, if they leave only one"""
        with CTX.fact(*conds):
            for c in conds:
                if not (isinstance(c, T.BCmp) and c.op == "ge" and u in c.free):
                    continue
                sol = T.solve_lin(c.e, u)
                if sol is None or T.mentions_app(sol, lambda f: f.startswith(("pre:", "cell:"))):
                    continue
                if CTX.decide(eq(sym(u), sol)) is True:
                    return sol
        return None

    def _seal(self, L, u, n, mods, rest, structs, sn, final=False):
        prog = False
        for k in rest:
            if k[0] != "h" or k not in mods:
                continue
            st = REG[k[1]]
            if not isinstance(st, Store):
                continue
            init, new = mods[k]
            nd = len(st.shape)
            pname = self._pname(L, k)
            if isinstance(new, B) or isinstance(init, B):
                continue
            me = app(pname, *[ph(i) for i in range(nd)], sym(u))
            with self.axes(st.shape), CTX.bounds({u: n}):
                written = [(c, v) for c, v in leaves_of(new) if v.key != me.key]
                ls = self.solve_leaves(written, u)
            name = f"cell:{st.site or 'tmp' + str(len(self.seals))}#{L}"
            if k in structs:
                name = structs[k].name
            sg = "|".join(f"{[c.key for c in cs]}{e.key if e is not None else None}" for cs, e, _ in ls)
            old = structs.get(k)
            s = Seal(name, st.site, ls, u, n, init, nd, st.shape)
            s.sig = sg
            structs[k] = s
            self.seals[name] = s
            self.pre[pname] = s
            if old is None or old.sig != sg:
                prog = True
        return prog

    def _unify(self, L, u, n, mods, rest, solved, entry, structs, sn):
        """a carried local that equals the slice just written is that slice"""
        prog = False
        for k in rest:
            if k[0] == "h" or k not in mods:
                continue
            init, new = mods[k]
            if not (isinstance(init, Arr) and isinstance(new, Arr)) or len(init.shape) != len(new.shape):
                continue
            nb = self.body(new)
            ib = self.body_in(init, sn)
            for kk, sg in structs.items():
                st = REG[kk[1]]
                if len(st.shape) != new.ndim + 1:
                    continue
                for conds, e, val in sg.leaves:
                    if e is None:
                        continue
                    ax = [i for i in range(sg.ndim) if f"@{i}" in e.free]
                    if len(ax) != 1:
                        continue
                    ax = ax[0]
                    # slice index written in iteration u:  e(@ax) = u
                    c, r = T.linear_in(e, f"@{ax}")
                    if c is None or abs(c) != 1:
                        continue
                    sl = (sym(u) - r) * (1 / c)
                    mp = {f"@{ax}": sl}
                    for i in range(ax, new.ndim):
                        mp[f"@{i + 1}"] = ph(i)
                    v2 = T.subst(val, mp)
                    if v2.key != nb.key:
                        me = app(self._pname(L, k), *[ph(i) for i in range(new.ndim)], sym(u))
                        full = [ph(i) for i in range(ax)] + [sl] + [ph(i) for i in range(ax, new.ndim)]
                        if not self._same_slice(sg, full, nb, me, self._pname(L, k), ib, u, n, new.shape):
                            continue
                        conds = ()
                    other = [T.subst(x, mp) for x in conds]
                    with self.axes(new.shape), CTX.bounds({u: n}):
                        other = [x for x in other if CTX.decide(x) is not True]
                    if other:
                        continue
                    prev = T.subst(sl, {u: sym(u) - 1})
                    full = [ph(i) for i in range(ax)] + [prev] + [ph(i) for i in range(ax, new.ndim)]
                    with self.axes(new.shape):
                        i0 = T.subst(sg.init, {f"@{i}": x for i, x in enumerate(
                            [ph(i) for i in range(ax)] + [T.subst(prev, {u: ZERO})] + [ph(i) for i in range(ax, new.ndim)])})
                        i0 = T.resimplify(i0)
                    cellv = app(sg.name, *full)
                    if i0.key == ib.key:
                        ent = cellv
                    else:
                        with self.axes(new.shape):
                            ent = ite(eq(sym(u), 0), ib, cellv)
                    entry[k] = mk(new.shape, ent, new.lib, new.dtype, new.dev)
                    fin = T.subst(cellv, {u: n})
                    solved[k] = (lambda n, fin=fin, new=new: mk(new.shape, fin, new.lib, new.dtype, new.dev))
                    prog = True
                    break
                if k in solved:
                    break
        return prog

    def _same_slice(self, sg, full, nb, me, pname, ib, u, n, shape):
        """is nb, case by case, the value of cell sg at index full?  me: value carried into the iteration"""
        lv = leaves_of(nb)
        if len(lv) < 2:
            return False
        for cs, v in lv:
            with self.axes(shape), CTX.bounds({u: n}), CTX.fact(*cs):
                if CTX.decide(and_(*cs)) is False:
                    continue
                at = full
                if v.key == me.key:
                    if CTX.decide(eq(sym(u), 0)) is not True:
                        return False
                    at = [T.subst(x, {u: ZERO}) for x in full]
                    v = ib
                try:
                    d = self.last_writer(sg.leaves, sg.u, sg.n, sg.init, at)
                except Undecided:
                    return False
                if at is not full:
                    # what is carried into the first iteration
                    d = T.rewrite(d, lambda f: f == pname, lambda f, a: T.subst(ib, {f"@{i}": x for i, x in enumerate(a[:-1])}) if a[-1].key == ZERO.key else None)
                if T.resimplify(d).key != T.resimplify(v).key:
                    return False
        return True

    def _solve_list(self, L, k, init, new, u, n, solved, entry):
        """list filled by exactly one append per iteration"""
        if not isinstance(init, tuple):
            return False
        if isinstance(new, SymSeq) and getattr(new, "v", None) == "%none":
            return False
        if isinstance(new, Appended):
            el = new.elem
            if _has_pre(self, el, L) or isinstance(el, Unk):
                return False
            v = T.fresh("%l")
            T.INTS.add(v)
            with CTX.bounds({u: n}):
                el = self.freeze(el)
            el2 = self.at(el, {u: sym(v)})
            entry[k] = SymSeq(sym(u), v, el2, init)
            solved[k] = lambda n: SymSeq(n, v, el2, init)
            return True
        return False

    def note_parallel(self, L, u, n, mods, s):
        fr = self.frames[-1]
        r = dict(L=L, u=u, n=n, line=s.lineno, func=fr.func.qual if fr.func else "?", file=fr.module.path, slots=[])
        for k, (init, new) in mods.items():
            pname = self._pname(L, k)
            st = REG.get(k[1]) if k[0] == "h" else None
            if isinstance(st, Store) and isinstance(new, (E, B)):
                shape = st.shape
                b = T.ind(new) if isinstance(new, B) else new
                name = st.owner or st.site or "array"
            elif k[0] == "v" and isinstance(new, Arr):
                shape, b, name = new.shape, self.nbody(new), k[1]
            else:
                continue
            idx = [ph(i) for i in range(len(shape))]
            with self.axes(shape), CTX.bounds({u: n}):
                me = app(pname, *idx, sym(u))
                written = [(c, v) for c, v in leaves_of(_unbool(b, pname, idx, u)) if v.key != me.key]
                ls = self.solve_leaves(written, u)
            r["slots"].append(dict(kind=k[0], name=name, pname=pname, shape=shape, leaves=ls))
        r["loops"] = list(self.loops)
        self.parallel = [x for x in self.parallel if (x["file"], x["line"]) != (r["file"], r["line"])] + [r]

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.node = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        r = m(e)
        return r

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or isinstance(v, (int, float)):
            return pynum(v)
        if v is None or isinstance(v, str) or v is Ellipsis:
            return v
        return self.unk(f"constant {v!r}")

    def e_Name(self, e):
        return self.name(e.id)

    def name(self, id):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if id in f.vars:
                v = f.vars[id]
                if isinstance(v, Choice):
                    v = self.force(v)
                if v is not UNBOUND:
                    return v
                break
            f = f.parent
        g = fr.module.frame.vars
        if f is None and id in g:
            return g[id]
        if f is None and self.loader.has_builtin(id):
            return Lib("builtins." + id)
        self.event("unbound", f"name '{id}' is not defined here")
        return self.unk(f"undefined name {id}")

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        b = self.force(self.ev(e.value))
        k = self.key(e.slice)
        self.node = e
        return self.subscript(b, k)

    def key(self, s):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    v = self.force(self.ev(x.value))
                    out += list(self.items(v))
                else:
                    out.append(self.key1(x))
            return tuple(out)
        v = self.key1(s)
        if isinstance(v, PyList) and v.kind == "tuple" and isinstance(self.items(v), tuple):
            return tuple(self.items(v))
        return v

    def key1(self, s):
        if isinstance(s, ast.Slice):
            return Slice(*[None if x is None else self.force(self.ev(x)) for x in (s.lower, s.upper, s.step)])
        v = self.force(self.ev(s))
        return v

    def subscript(self, b, k):
        b = self.force(b)
        if isinstance(b, Choice):
            return self.lift(b, lambda x: self.subscript(x, k))
        if isinstance(b, Unk):
            return b
        if isinstance(b, Obj):
            r = self.record(b)
            if r is not None:
                return self.subscript(r, k)
            m = b.cls.lookup("__getitem__")
            if m is not None and not isinstance(k, (tuple, Slice)):
                return self.call(self.bind_member(m, b), [k], {}, self.node)
            return self.unk(f"subscript of a {b.cls.name} object", self.node)
        if isinstance(b, Arr):
            if isinstance(k, tuple) and len(k) == 0:
                return b
            if b.ndim == 0 and b.lib == "py":
                self.event("type", f"{describe(b)} is not subscriptable")
                return self.unk("subscript of a number")
            r = self.view(b, k, self.node)
            if isinstance(r, Arr):
                return self.npscalar(r)
            return r
        if isinstance(b, PyList):
            c = self.items(b)
            if isinstance(k, Slice):
                if isinstance(c, tuple):
                    lo, hi, st = [None if x is None else self.concrete_int(x) for x in (k.lo, k.hi, k.st)]
                    return PyList(c[lo:hi:st], b.kind)
                start, ln, st = self.slice(k, c.n + len(c.head))
                w = T.fresh("%l")
                T.INTS.add(w)
                with CTX.bounds({w: ln}):
                    el = self.seq_get(c, start + sym(w) * st)
                return PyList(SymSeq(ln, w, el), b.kind)
            if isinstance(k, tuple):
                self.event("type", f"{b.kind} indices must be integers")
                return self.unk("list index")
            i = self.asE(k, "index")
            if i.const == -1 and (isinstance(c, Appended) or isinstance(c, SymSeq) and c.v == "%none"):
                last = self.S.attrs.get(lastkey(b))
                if last is not None:
                    return self.force(last)
            if isinstance(c, Appended):
                return self.unk("list element of this loop")
            n = num(len(c)) if isinstance(c, tuple) else c.n + len(c.head)
            if isinstance(c, SymSeq) and c.v == "%none":
                ic = i.const
                return self.unk("element of a list built in this loop")
            i = self.index(i, n, self.node)
            if isinstance(c, tuple):
                if i.const is not None:
                    j = int(i.const)
                    return c[j] if 0 <= j < len(c) else self.unk("list index")
                if not c:
                    return self.unk("list index")
                r = c[-1]
                for j in range(len(c) - 2, -1, -1):
                    r = self.merge_val(eq(i, j), c[j], r, self.S.heap, self.S.heap)
                return r
            return self.seq_get(c, i)
        if isinstance(b, PyDict):
            d = self.items(b)
            kk = self.dkey(k)
            if isinstance(d, OpenDict):
                return self.unk("value of a dictionary")
            if kk in d:
                return self.force(d[kk])
            if self.dfind(d, kk) is not False:
                r = self.dlook(d, kk, UNBOUND)
                return self.unk("value of a dictionary") if r is None or r[0] is UNBOUND else self.force(r[0])
            self.event("index", "dictionary key is missing")
            return self.unk("missing key")
        if isinstance(b, Range):
            if isinstance(k, Slice):
                start, ln, st = self.slice(k, b.n)
                return Range(ln, b.start + start * b.step, b.step * st)
            i = self.index(self.asE(k), b.n, self.node)
            return pyint(b.start + i * b.step)
        if isinstance(b, str):
            i = self.concrete_int(k) if not isinstance(k, Slice) else None
            return b[i] if i is not None and -len(b) <= i < len(b) else self.unk("string slice")
        if isinstance(b, Lib):
            return self.loader_sub(b, k)
        if isinstance(b, (Class,)):
            return b
        if isinstance(b, Iter):
            i = self.asE(k)
            return b.get(self.index(i, b.n, self.node))
        self.event("type", f"{describe(b)} is not subscriptable")
        return self.unk("subscript")

    def loader_sub(self, b, k):
        if b.path.startswith("typing."):
            return b
        if b.path in ("numpy.r_", "numpy.c_"):
            return self.unk("numpy.r_")
        if b.path == "os.environ":
            return self.taint("environ")
        return self.unk(f"subscript of {b.path}")

    def taint(self, what):
        n = self.node
        return mk((), app(f"taint:{what}", num(getattr(n, "lineno", 0))), "py", "float64")

    def e_Tuple(self, e):
        return PyList(self.elts(e.elts), "tuple")

    def e_List(self, e):
        l = PyList(self.elts(e.elts), "list")
        if isinstance(l.init, tuple) and l.init:
            self.S.attrs[lastkey(l)] = self.freeze(l.init[-1]) if isinstance(l.init[-1], Arr) else l.init[-1]
        return l

    def e_Set(self, e):
        return PyList(self.elts(e.elts), "set")

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                n, get, conc = self.iterable(self.ev(x.value))
                if conc is None:
                    c = n.const
                    if c is None:
                        raise Undecided("starred element of symbolic length")
                    conc = [get(num(i)) for i in range(int(c))]
                out += conc
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.force(self.ev(v))
                if isinstance(x, PyDict):
                    if isinstance(self.items(x), OpenDict):
                        d = OpenDict()
                        break
                    d.update(self.items(x))
            else:
                d[self.dkey(self.ev(k))] = self.ev(v)
        return PyDict(d)

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return "<formatted>"

    def e_FormattedValue(self, e):
        self.ev(e.value)
        return "<formatted>"

    def e_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Slice(self, e):
        return self.key1(e)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        d = c.val if isinstance(c, BConst) else CTX.decide(c)
        if d is not None:
            return self.ev(e.body if d else e.orelse)
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        return self.boolop(isinstance(e.op, ast.And), e.values)

    def boolop(self, isand, values):
        v = self.force(self.ev(values[0]))
        if len(values) == 1:
            return v
        if isinstance(v, (Func, Class, Obj, Lib, UserFn)):
            c = TRUE
        else:
            c = self.truth(v)
        d = c.val if isinstance(c, BConst) else CTX.decide(c)
        if d is not None:
            if d == isand:
                return self.boolop(isand, values[1:])
            return v
        if isand:
            r = self.branch(c, lambda: self.boolop(isand, values[1:]), lambda: v)
        else:
            r = self.branch(c, lambda: v, lambda: self.boolop(isand, values[1:]))
        return r

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        self.node = e
        return self.unop(type(e.op).__name__, v)

    def unop(self, op, v):
        v = self.force(v)
        if op == "Not":
            return pynum(not_(self.truth(v)))
        if isinstance(v, Choice):
            return self.lift(v, lambda x: self.unop(op, x))
        if isinstance(v, Unk):
            return v
        if isinstance(v, Arr):
            if op == "USub":
                b = self.nbody(v)
                return self.derived(v.shape, -b, v)
            if op == "UAdd":
                return v
            if op == "Invert":
                if v.dtype == "bool":
                    return self.derived(v.shape, not_(self.bbody(v)), v)
                return self.derived(v.shape, -self.nbody(v) - 1, v)
        self.event("type", f"bad operand for unary {op}: {describe(v)}")
        return self.unk("unary operator")

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.node = e
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, rt in zip(e.ops, e.comparators):
            right = self.ev(rt)
            self.node = e
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                ca = self.truth(res)
                res = pynum(and_(ca, self.truth(r))) if isinstance(r, Arr) and r.ndim == 0 or isinstance(r, bool) else self.unk("chained comparison of arrays")
            left = right
        return res

    def e_Call(self, e):
        fn = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.force(self.ev(a.value))
                if isinstance(v, Unk):
                    return v
                n, get, conc = self.iterable(v)
                if conc is None:
                    c = n.const
                    if c is None:
                        args.append(("*", v))
                        continue
                    conc = [get(num(i)) for i in range(int(c))]
                args += conc
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value))
                if isinstance(d, PyDict) and not isinstance(self.items(d), OpenDict):
                    kw.update(self.items(d))
                else:
                    return self.unk("** argument")
            else:
                kw[k.arg] = self.ev(k.value)
        self.node = e
        return self.call(fn, args, kw, e)

    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen")

    def e_DictComp(self, e):
        if len(e.generators) != 1:
            raise Undecided("dict comprehension")
        g = e.generators[0]
        n, get, conc = self.iterable(self.ev(g.iter))
        if conc is None:
            c = n.const
            if c is None:
                raise Undecided("dict comprehension of symbolic length")
            conc = [get(num(i)) for i in range(int(c))]
        d = {}
        fr = Frame(self.frames[-1], self.frames[-1].module, self.frames[-1].func)
        self.frames.append(fr)
        try:
            for x in conc:
                self.assign(g.target, x)
                if all(self.truth(self.ev(c)) is TRUE for c in g.ifs):
                    d[self.dkey(self.ev(e.key))] = self.ev(e.value)
        finally:
            self.frames.pop()
        return PyDict(d)

    def comp(self, e, kind):
        fr = Frame(self.frames[-1], self.frames[-1].module, self.frames[-1].func)
        it0 = self.force(self.ev(e.generators[0].iter))
        self.frames.append(fr)
        try:
            return self.comp_gen(e, 0, it0, kind)
        finally:
            self.frames.pop()

    def comp_gen(self, e, gi, it, kind):
        g = e.generators[gi]
        lastg = gi == len(e.generators) - 1
        n, get, conc = self.iterable(it)
        if conc is None and n.const is not None and n.const <= MAXUNROLL:
            conc = [get(num(i)) for i in range(max(0, int(n.const)))]
        if conc is not None:
            out = []
            for k, x in enumerate(conc):
                self.rngctx.append(num(k))
                try:
                    self.assign(g.target, x)
                    ok = True
                    for c in g.ifs:
                        t = self.truth(self.ev(c))
                        if not isinstance(t, BConst):
                            raise Undecided("filtered comprehension")
                        ok = ok and t.val
                    if not ok:
                        continue
                    if lastg:
                        out.append(self.freeze(self.ev(e.elt)))
                    else:
                        sub = self.comp_gen(e, gi + 1, self.force(self.ev(e.generators[gi + 1].iter)), kind)
                        c = self.items(sub)
                        if isinstance(c, SymSeq):
                            raise Undecided("nested comprehension")
                        out += list(c)
                finally:
                    self.rngctx.pop()
            return PyList(out, "list" if kind == "gen" else kind)
        if g.ifs or not lastg:
            raise Undecided("comprehension of symbolic length with filter or nesting")
        v = T.fresh("%c")
        T.INTS.add(v)
        self.loops.append((v, n))
        self.rngctx.append(sym(v))
        sn_h = dict(self.S.heap)
        mark = _mark()
        try:
            with CTX.bounds({v: n}):
                self.assign(g.target, get(sym(v)))
                el = self.freeze(self.ev(e.elt))
        finally:
            self.loops.pop()
            self.rngctx.pop()
        for k, x in self.S.heap.items():
            if k <= mark and sn_h.get(k) is not x:
                raise Undecided("comprehension with side effects")
        return PyList(SymSeq(n, v, el), "list" if kind == "gen" else kind)

    # ------------------------------------------------------------ attributes
    def getattr(self, b, name):
        b = self.force(b)
        if isinstance(b, Choice):
            return self.lift(b, lambda x: self.getattr(x, name))
        if isinstance(b, Unk):
            return b
        if isinstance(b, Obj):
            k = (b.oid, name)
            if k in self.S.attrs:
                v = self.S.attrs[k]
                if isinstance(v, Choice):
                    v = self.force(v)
                if v is not UNBOUND:
                    return v
            elif (b.oid, name) in self.objattrs:
                return self.objattrs[(b.oid, name)]
            m = b.cls.lookup(name)
            if m is None and b.cls.defines(name):
                return None
            if m is not None:
                return self.bind_member(m, b)
            if name == "__class__":
                return b.cls
            if name == "__dict__":
                return self.unk("__dict__")
            self.event("attr", f"attribute '{name}' of {b.cls.name} object does not exist here")
            return self.unk(f"missing attribute {name}")
        if isinstance(b, Class):
            m = b.lookup(name)
            if m is not None or b.defines(name):
                if isinstance(m, Func) and "classmethod" in m.deco:
                    return Bound(m, b)
                return m
            if name == "__name__":
                return b.name
            self.event("attr", f"class {b.name} has no attribute '{name}'")
            return self.unk("class attribute")
        if isinstance(b, Super):
            for c in b.cls.bases:
                if isinstance(c, Class):
                    m = c.lookup(name)
                    if m is not None:
                        return self.bind_member(m, b.obj)
            return Lib("builtins.object." + name)
        if isinstance(b, Module):
            if name in b.frame.vars:
                return self.force(b.frame.vars[name])
            sub = self.loader.submodule(b, name, self)
            if sub is not None:
                return sub
            self.event("attr", f"module {b.name} has no attribute '{name}'")
            return self.unk("module attribute")
        if isinstance(b, Lib):
            return self.loader.libattr(b, name, self)
        from .lib import builtin_attr
        return builtin_attr(self, b, name)

    def bind_member(self, m, b):
        if isinstance(m, Func):
            if "staticmethod" in m.deco:
                return m
            if "classmethod" in m.deco:
                return Bound(m, b.cls)
            if "property" in m.deco or any(d.endswith("cached_property") for d in m.deco):
                return self.call(Bound(m, b), [], {}, self.node)
            return Bound(m, b)
        return m

    def setattr(self, b, name, v):
        b = self.force(b)
        if isinstance(b, Obj):
            old = self.S.attrs.get((b.oid, name))
            if b.tag:
                self.event("attrwrite", f"assigns attribute {b.cls.name}.{name}")
            self.S.attrs[(b.oid, name)] = v
            if isinstance(v, Arr) and v.store.site is None and b.tag and not v.store.owner and v.lib != "py" and v.ndim > 0:
                v.store.site = name
            return
        if isinstance(b, Lib):
            self.event("effect", f"assigns {b.path}.{name}")
            return
        if isinstance(b, Arr):
            if name == "shape":
                self.clobber(b, "shape assignment")
                return
            if name in ("requires_grad", "grad"):
                return
        if isinstance(b, (Unk, Func)):
            return
        if isinstance(b, Class):
            b.members[name] = v
            self.event("effect", f"assigns class attribute {b.name}.{name}")
            return
        if isinstance(b, Module):
            self.event("effect", f"assigns module attribute {b.name}.{name}")
            return
        raise Undecided("attribute assignment")

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw, node=None):
        fn = self.force(fn)
        if isinstance(fn, Choice):
            return self.branch(fn.c, lambda: self.call(fn.a, args, kw, node), lambda: self.call(fn.b, args, kw, node))
        if isinstance(fn, Unk):
            return fn
        if isinstance(fn, Bound):
            return self.call_func(fn.fn, [fn.self_] + list(args), kw, node)
        if isinstance(fn, Func):
            return self.call_func(fn, args, kw, node)
        if isinstance(fn, Partial):
            k = dict(fn.kw)
            k.update(kw)
            return self.call(fn.fn, list(fn.args) + list(args), k, node)
        if isinstance(fn, UserFn):
            from .lib import call_user
            return call_user(self, fn, args, kw, node)
        if isinstance(fn, Class):
            return self.instantiate(fn, args, kw, node)
        if isinstance(fn, Lib):
            from .lib import call_lib
            self.libcalls.add(fn.path)
            return call_lib(self, fn.path, args, kw, node)
        if isinstance(fn, Meth):
            from .lib import call_method
            return call_method(self, fn.obj, fn.name, args, kw, node)
        if isinstance(fn, Obj):
            m = fn.cls.lookup("__call__")
            if m is not None:
                return self.call_func(m, [fn] + list(args), kw, node)
        if hasattr(fn, "apply"):
            return fn.apply(self, args, kw, node)
        self.event("type", f"{describe(fn)} is not callable", node)
        return self.unk("call of a non-callable", node)

    def instantiate(self, cls, args, kw, node, tag=None):
        if not isinstance(cls, Class):
            return self.unk("instantiate")
        o = Obj(cls, tag)
        m = cls.lookup("__init__")
        if m is not None:
            self.call_func(m, [o] + list(args), kw, node)
        elif getattr(cls, "undecided", None):
            return self.unk(cls.undecided)
        return o

    def call_func(self, f, args, kw, node=None):
        if f.qual in self.summaries and not (self.calls and self.calls[-1][0] == "!" + f.qual):
            r = self.summaries[f.qual](self, f, args, kw, node)
            if r is not NotImplemented:
                return r
        self.touched.add(f.qual)
        self.visited.add(f"{f.qual} line {getattr(f.node, 'lineno', '?')}")
        if self.depth > 40:
            raise Undecided("recursion")
        bound = self.bind_args(f, args, kw, node)
        if bound is None:
            return self.unk("bad call", node)
        fr = Frame(f.frame, f.module, f)
        fr.vars = bound
        if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)) and gens.is_generator(f.node):
            return gens.GenCall(f, bound)
        return self.run_body(f, fr, bound, node)

    def run_body(self, f, fr, bound, node=None):
        fr.vars = bound
        self.frames.append(fr)
        self.calls.append((f.qual, node))
        self.depth += 1
        self.exits.append([])
        oldbase = self.pcbase
        self.pcbase = len(self.pc)
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body)
                return r
            alive, ex = self.exec_block(f.node.body)
            exits = [x for x in self.exits[-1] if x.kind == "return"]
            return self.join_returns(exits, alive, f)
        finally:
            self.pcbase = oldbase
            self.exits.pop()
            self.depth -= 1
            self.calls.pop()
            self.frames.pop()
            self.node = node

    def join_returns(self, exits, alive, f):
        if alive:
            val = None
        elif exits:
            last = exits.pop()
            self.restore(last.snap)
            val = last.value
        else:
            raise Dead()
        for e in reversed(exits):
            cur = self.snapshot()
            h2 = cur[1]
            self.merge(e.cond, e.snap, cur)
            val = self.merge_val(e.cond, e.value, val, e.snap[1], h2)
        return val

    def bind_args(self, f, args, kw, node):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kw = dict(kw)
        for p, v in zip(pos, args):
            out[p] = v
        if len(args) > len(pos):
            if a.vararg:
                out[a.vararg.arg] = PyList(args[len(pos):], "tuple")
            else:
                self.event("type", f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given", node)
                return None
        elif a.vararg:
            out[a.vararg.arg] = PyList([], "tuple")
        kwo = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in out and k in pos:
                self.event("type", f"{f.name}() got multiple values for argument '{k}'", node)
                return None
            if k in pos or k in kwo:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.event("type", f"{f.name}() got an unexpected keyword argument '{k}'", node)
                return None
        if a.kwarg:
            out[a.kwarg.arg] = PyDict(extra)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[p] = f.defaults[j]
                else:
                    self.event("type", f"{f.name}() is missing the argument '{p}'", node)
                    return None
        for p in kwo:
            if p not in out:
                if p in f.kwdefaults:
                    out[p] = f.kwdefaults[p]
                else:
                    self.event("type", f"{f.name}() is missing the argument '{p}'", node)
                    return None
        return out

    # ------------------------------------------------------------ operators (in lib)
    def binop(self, op, a, b):
        from .lib import binop
        return binop(self, op, a, b)

    def compare(self, op, a, b):
        from .lib import compare
        return compare(self, op, a, b)

    def list_extend(self, l, other):
        n, get, conc = self.iterable(other)
        c = self.items(l)
        REG[l.sid] = l
        if conc is None and n.const is not None:
            conc = [get(num(i)) for i in range(int(n.const))]
        self.list_touch(l)
        if isinstance(c, tuple) and conc is not None:
            self.S.heap[l.sid] = c + tuple(conc)
        else:
            self.S.heap[l.sid] = Hidden("list extension")

    def list_touch(self, l):
        if lastkey(l) in self.S.attrs:
            self.S.attrs[lastkey(l)] = Unk("last element of a list")

    def list_append(self, l, v):
        c = self.S.heap.get(l.sid, l.init)
        REG[l.sid] = l
        if l.owner:
            self.event("callerwrite", f"writes into caller-owned {l.owner}")
        v = self.freeze(v)
        self.S.attrs[lastkey(l)] = v
        if isinstance(c, tuple):
            self.S.heap[l.sid] = c + (v,)
        elif isinstance(c, SymSeq) and self.loops and c.n.key == sym(self.loops[-1][0]).key:
            self.S.heap[l.sid] = Appended(c, v)
        else:
            self.S.heap[l.sid] = Hidden("list append")


def lastkey(l):
    """slot of the state that holds the element appended last"""
    return (f"list{l.sid}", "last")


class Hidden:
    """list state that is not known; reading it gives a list of unknown length"""
    def __init__(self, why):
        self.why = why


class Appended:
    """list state after one append in the current iteration"""
    def __init__(self, base, elem):
        self.base, self.elem = base, elem
        self.n = base.n + 1
        self.v = base.v
        self.head = base.head


class _Reg(dict):
    pass


REG = _Reg()
PRANGES = set()


def _mark():
    from . import values
    return values._ids[0]


def pyint(e):
    return mk((), e, "py", "int")


def _is_one(s):
    return s.const == 1


def _mapkey(a):
    return tuple((m[0], m[1].key) if m[0] == "fix" else (m[0], m[1], m[2].key, m[3]) for m in a.map)


def _names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def _single_app(e, kind):
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and not m.bound and m.ex is None and len(m.factors) == 1 and m.factors[0][1] == 1:
            a = m.factors[0][0]
            if a.kind == "app" and a.args[0] == kind:
                return list(a.args[1:])
    return None


def _unbool(new, pname, idx, u):
    """ind(bapp(pre)) -> app(pre)"""
    k = bapp(pname, *idx, sym(u)).key
    has = any(isinstance(x, T.BApp) and x.key == k for x in T.walk(new))
    if not has:
        return new

    lv = leaves_of(new)
    if len(lv) > 1:
        (m, c), = new.t.items()
        g, a, b = m.factors[0][0].args
        return ite(g, _unbool(a * c, pname, idx, u), _unbool(b * c, pname, idx, u))
    # replace the indicator atom by a numeric placeholder
    tgt = ind(bapp(pname, *idx, sym(u)))
    a = list(tgt.t)[0].factors[0][0]
    out = ZERO
    for m, c in new.t.items():
        fs = []
        r = num(c)
        for x, e in m.factors:
            if x.key == a.key:
                r = r * app(pname, *idx, sym(u))
            elif x.kind == "ind" and isinstance(x.args[0], T.BNary) and x.args[0].op == "and" and k in [y.key for y in x.args[0].xs]:
                r = r * app(pname, *idx, sym(u)) * ind(and_(*[y for y in x.args[0].xs if y.key != k]))
            else:
                fs.append((x, e))
        r = r * E({T.Mono(m.bound, tuple(fs), m.ex) if (fs or m.bound or m.ex is not None) else T.MONE: T.F1})
        out = out + r
    return out


def symkey(k):
    return isinstance(k, tuple) and (len(k) == 2 and k[0] == "s" or any(symkey(x) for x in k))


def _has_pre(I, v, L):
    p = lambda f: f.startswith(f"pre:{L}:")
    if isinstance(v, Arr):
        return T.mentions_app(I.body(v), p) or any(T.mentions_app(s, p) for s in v.shape)
    if isinstance(v, PyList):
        c = I.items(v)
        if isinstance(c, tuple):
            return any(_has_pre(I, x, L) for x in c)
        return _has_pre(I, c.elem, L)
    if isinstance(v, Choice):
        return T.mentions_app(v.c, p) or _has_pre(I, v.a, L) or _has_pre(I, v.b, L)
    return False


