"""Runs the abstract interpreter on the flow classes and extracts slice equations."""
from . import terms as T, model, evalt
from .terms import (E, Atom, Lam, B, app, bapp, sym, num, ge, eq, and_, not_, CTX, ONE, ZERO)
from .values import *
from .model import DIM, N, M, K

NPCLS, THCLS = "DPFC", "torched_DPFC"
S = "%s"          # the slice index
ss = sym(S)
QI = "%q"         # query-time index


class Bad(Exception):
    """the analysed code has no value of the expected form (reported as undecided)"""


def num_arg(name):
    return mk((), sym(name), "py", "float64")


class Run:
    def __init__(self, root, cls, det=True, rw=False, br=False, kern=None, y1="np", debug=False, device=None, absent=(), give=(), gkind="scalar"):
        self.gkind = gkind
        self.g = sym("g") if gkind == "scalar" else app("g", ph(0))
        self.cls, self.det, self.rw, self.br, self.kern, self.y1kind = cls, det, rw, br, kern, y1
        self.th = cls == THCLS
        self.dtype = "int" if y1.endswith("int") else "float64"
        self.lib = "th" if self.th else "np"
        s = self.s = model.Session(root, debug=debug, absent=absent)
        I = self.I = s.I
        T.INTS.update({"dim", "N", "M", "k", S, QI})
        c = s.cls(cls)
        if c is None:
            raise Bad(f"class {cls} not found")
        self.c = c
        self.args = self.make_args()
        kw = {}
        if rw:
            kw["reweight"] = pynum(True)
            kw["U"] = UserFn("U")
        if br:
            kw["brown_bridge"] = pynum(True)
            kw["f_true"] = UserFn("f_true")
        for nm in give:          # callables that the mode does not use
            kw.setdefault(nm, UserFn(nm))
        if not det:
            kw["deterministic"] = pynum(False)
        if kern is not None:
            kw["kern"] = kern
        if self.th and device is not None:
            kw["device"] = device
        # options without a function so far: any value
        kw["reject"] = mk((), bapp("reject", ZERO), "py", "bool")
        self.kw = kw
        self.obj = I.instantiate(c, list(self.args), kw, None, tag="self")
        self.nctor = len(I.events)
        self.nuse = len(I.usercalls)
        self.nsc = len(I.scorecalls)
        self.events = list(I.events)
        self.k = None
        Z = self.attr("Z")
        if isinstance(Z, Arr) and Z.ndim == 3:
            self.k = Z.shape[2]

    def label(self):
        return f"{self.cls}({'deterministic' if self.det else 'stochastic'}" + (", reweight" if self.rw else "") + (", bridge" if self.br else "") + (f", kern={self.kern}" if self.kern else "") + (", diffusion as a column" if self.gkind != "scalar" else "") + (" tensor" if self.gkind == "th" else "") + ")"

    def make_args(self):
        y1, y2 = self.endpoint("y1"), self.endpoint("y2")
        return [num_arg("t1"), num_arg("t2"), y1, y2, UserFn("f"), self.diffusion(), mk((), N, "py", "int"), mk((), M, "py", "int")]

    def diffusion(self):
        if self.gkind == "scalar":
            return mk((), sym("g"), "py", self.dtype)
        if self.gkind == "th":
            return mk((DIM, ONE), app("g", ph(0)), "th", "float64", None, owner="g")
        return mk((DIM, ONE), app("g", ph(0)), "np", self.dtype, None, owner="g")

    def endpoint(self, name):
        k = self.y1kind
        if k == "npint":
            return model.vec(name, DIM, "np", owner=name, dtype="int")
        if k == "thint":
            return model.vec(name, DIM, "th", owner=name, dtype="int", dev=None)
        if k == "np":
            return model.vec(name, DIM, "np", owner=name)
        if k == "th":
            return model.vec(name, DIM, "th", owner=name, dev=None)
        if k in ("list", "listint"):
            l = PyList(SymSeq(DIM, "%i" + name, mk((), app(name, sym("%i" + name)), "py", self.dtype)), "list")
            l.owner = name
            return l
        raise ValueError(k)

    def attr(self, name):
        v = self.I.S.attrs.get((self.obj.oid, name))
        return v

    def arr(self, name, ndim=None):
        v = self.attr(name)
        v = self.I.force(v) if v is not None else None
        if not isinstance(v, Arr):
            raise Bad(f"attribute {name} of {self.label()} is {'missing' if v is None else describe(v)}")
        if ndim is not None and v.ndim != ndim:
            raise Bad(f"attribute {name} of {self.label()} has {v.ndim} dimensions")
        return v

    # ------------------------------------------------------------ flows
    def at(self, name, *idx):
        """content of flow attribute at an index, in terms of named cells"""
        a = self.arr(name, len(idx))
        b = self.I.nbody(a)
        return self.ground(T.resimplify(T.subst(b, {f"@{i}": x for i, x in enumerate(idx)})))

    def ground(self, e):
        """cells of the first and last slice replaced by their value where that is given outright"""
        I = self.I
        if self.k is None:
            return e
        ends = (ZERO.key, (self.k - 1).key)
        memo = self.__dict__.setdefault("_ground", {})

        def fn(f, args):
            if f not in I.seals or not isinstance(args[-1], E) or args[-1].key not in ends:
                return None
            key = (f,) + tuple(x.key for x in args)
            if key not in memo:
                d = I.define(f, list(args))
                memo[key] = None if d is None or T.mentions_app(d, lambda n: n.startswith(("cell:", "unknown", "rnd:"))) else T.resimplify(d)
            return memo[key]
        for _ in range(3):
            if not T.mentions_app(e, lambda f: f.startswith("cell:")):
                return e
            e2 = T.rewrite(e, lambda f: f.startswith("cell:"), fn)
            if e2.key == e.key:
                return e
            e = T.resimplify(e2)
        return e

    def bounds(self):
        return CTX.bounds({"@0": DIM, "@1": N, S: self.k})

    def slice(self, name, s=None, facts=()):
        """defining equation of flow slice s (term), every cell of that slice expanded"""
        s = ss if s is None else s
        with self.bounds(), CTX.fact(*facts):
            e = self.at(name, T.ph(0) if hasattr(T, "ph") else ph(0), ph(1), s)
            return self.expand(e, s)

    def expand(self, e, s):
        I = self.I
        for _ in range(12):
            hit = []

            def fn(f, args):
                if f not in I.seals:
                    return None
                if any(isinstance(x, E) and x.key == s.key for x in args):
                    hit.append(f)
                    d = I.define(f, list(args))
                    return d
                return None
            e2 = T.rewrite(e, lambda f: f.startswith("cell:"), fn)
            if not hit:
                break
            e2 = T.resimplify(e2)
            if e2.key == e.key:
                break
            e = e2
        return self.ground(e)

    def cloud(self, name, s):
        """lam over (particle, coordinate) of a flow slice, as the estimators take it"""
        vn, vd = T.fresh(), T.fresh()
        with CTX.bounds({vn: N, vd: DIM, S: self.k}):
            b = self.at(name, sym(vd), sym(vn), s)
            return T.lam((N, DIM), (vn, vd), b)

    def point(self, name, s, n=None):
        """lam over coordinates of particle n of a flow slice"""
        n = ph(1) if n is None else n
        vd = T.fresh()
        with CTX.bounds({vd: DIM, S: self.k, "@1": N}):
            return T.lam((DIM,), (vd,), self.at(name, sym(vd), n, s))

    def step(self):
        tg = self.arr("timegrid", 1)
        b = self.I.nbody(tg)
        return T.resimplify(T.subst(b, {"@0": ONE}) - T.subst(b, {"@0": ZERO}))

    def time(self, s):
        tg = self.arr("timegrid", 1)
        with CTX.bounds({S: self.k}):
            return T.resimplify(T.subst(self.I.nbody(tg), {"@0": s}))

    # ------------------------------------------------------------ calls
    def method(self, name, args, kw=None):
        b = self.I.getattr(self.obj, name)
        return self.I.call(b, list(args), dict(kw or {}))


CONFIGS = [(c, d, rw, br) for c in (NPCLS, THCLS) for d in (True, False) for rw, br in ((False, False), (False, True), (True, False), (True, True))]


# ---------------------------------------------------------------- binder-aware search
def occurrences(t, pred):
    """every app atom satisfying pred(name), with the sizes of the bound indices in scope:
    [(atom, {var: size term})]"""
    out = []
    seen = set()

    def go(x, env):
        key = (x.key, tuple(sorted((v, e.key) for v, e in env.items() if v in x.free)))
        if key in seen:
            return
        seen.add(key)
        if isinstance(x, E):
            for m in x.t:
                go(m, env)
        elif isinstance(x, T.Mono):
            e2 = env
            if x.bound:
                e2 = dict(env)
                e2.update({v: n for v, n in x.bound})
            for a, _ in x.factors:
                go(a, e2)
            if x.ex is not None:
                go(x.ex, e2)
        elif isinstance(x, Lam):
            e2 = dict(env)
            e2.update(zip(x.vars, x.sizes))
            go(x.body, e2)
        elif isinstance(x, Atom):
            if x.kind == "app" and pred(x.args[0]):
                out.append((x, {v: n for v, n in env.items() if v in x.free}))
            for a in x.args:
                if isinstance(a, T.Term):
                    go(a, env)
        else:
            for a in T.children(x):
                go(a, env)
    go(t, {})
    return out
