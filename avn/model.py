"""What the analysis knows about this package: inputs, summaries of the score estimators."""
from . import terms as T
from .terms import E, B, CTX, num, sym, ite, and_, or_, not_, ge, gt, eq, ind, ZERO, ONE, TRUE, FALSE, Undecided, app, bapp
from .values import *
from . import interp as IT
from . import ops as O
from .lib import dtype_of, device_of, as_array, kwbool
from .frontend import Loader, PKG

MAIN = PKG + "." + PKG
SE = PKG + ".score_estimators."
SCORES = {
    SE + "score_function_estimators:score_function_multid_seperate": "single",
    SE + "score_function_estimators:score_function_multid_seperate_all_dims": "all",
    SE + "score_function_estimators:score_function_multid_seperate_old": "single",
    SE + "score:score_function_multid_seperate2": "single",
    SE + "score_function_estimators_pytorch:torched_score_function_multid_seperate_all_dims": "torch",
}
DIM, N, M, K = sym("dim"), sym("N"), sym("M"), sym("k")
TI = sym("ti")


def setup_ints():
    T.INTS.update({"dim", "N", "M", "k", "ti", "K", "s", "n1", "n2"})
    T.POS.update({"dim", "N", "M", "K", "n1", "n2"})


class ScoreFn:
    """function of a query returned by an estimator with func_out=True"""
    def __init__(self, mk_):
        self.mk = mk_

    def apply(self, I, args, kw, node):
        if len(args) != 1 or kw:
            I.event("type", "score function takes one argument", node)
            return I.unk("score call", node)
        return self.mk(I.force(args[0]), node)


def col(I, a, sizes, what, node):
    """content of a 2-d array as function of (row, dimension) with a shape check of the columns"""
    a = I.toarray(a)
    if isinstance(a, Unk):
        return None, a
    if a.ndim != 2:
        I.event("shape", f"{what} has {a.ndim} dimensions instead of 2", node)
        return None, I.unk(what, node)
    return a, None


def score_summary(kind):
    def h(I, f, args, kw, node):
        b = I.bind_args(f, args, kw, node)
        if b is None:
            return I.unk("bad call", node)
        b = {k: I.force(v) for k, v in b.items()}
        for v in b.values():
            if isinstance(v, Unk):
                return v
        X, bad = col(I, b["X"], None, "samples X", node)
        if X is None:
            return bad
        Z, bad = col(I, b["Z"], None, "inducing points Z", node)
        if Z is None:
            return bad
        if I.same_size(X.shape[1], Z.shape[1]) is not True:
            I.event("shape", f"samples have {T.show(X.shape[1])} columns, inducing points {T.show(Z.shape[1])}", node,
                    cond=not_(eq(X.shape[1], Z.shape[1])))
        if kind == "torch":
            for v, nm in ((X, "X"), (Z, "Z"), (b["l"], "l")):
                if isinstance(v, Arr) and v.lib == "th" and v.dtype not in ("float64", "int"):
                    I.event("dtype", f"estimator argument {nm} is not double precision", node)
            dv = device_of(I, b.get("device")) if b.get("device") is not None else "cpu"
            for v, nm in ((X, "X"), (Z, "Z")):
                if v.lib == "th" and v.dev not in (None, dv) and not (dv == "cpu" and v.dev is None):
                    I.event("device", f"estimator works on {dv} but {nm} is on {v.dev}", node)
        else:
            for v, nm in ((X, "X"), (Z, "Z")):
                if v.lib == "th":
                    I.event("device", f"NumPy estimator gets the tensor {nm}", node)
            dv = None
        d = X.shape[1]
        l = I.toarray(b["l"])
        if isinstance(l, Unk):
            return l
        if l.ndim == 1:
            if I.same_size(l.shape[0], d) is not True:
                I.event("shape", f"{T.show(l.shape[0])} length-scales for {T.show(d)} dimensions", node, cond=not_(eq(l.shape[0], d)))
        elif l.ndim > 1:
            I.event("shape", f"length-scale has {l.ndim} dimensions", node)
            return I.unk("length-scale", node)
        kern = b.get("kern", "RBF")
        if isinstance(kern, Choice):
            return I.lift(kern, lambda k: h(I, f, [], dict(b, kern=k), node))
        if not isinstance(kern, str):
            return I.unk("kernel choice", node)
        if kern not in ("RBF", "periodic"):
            I.event("unbound", f"kernel '{kern}' is not implemented", node)
            return I.unk("kernel", node)
        C = I.asE(b.get("C", pynum(0.001)))
        vm, vn, vd = T.fresh(), T.fresh(), T.fresh()
        xb, zb, lb = I.nbody(X), I.nbody(Z), I.nbody(l)

        def lam2(body, n, cols):
            v1, v2 = T.fresh(), T.fresh()
            with CTX.bounds({v1: n, v2: cols}):
                return T.lam((n, cols), (v1, v2), T.subst(body, {"@0": sym(v1), "@1": sym(v2)}))
        lx = lam2(xb, X.shape[0], d)
        lz = lam2(zb, Z.shape[0], d)
        v = T.fresh()
        with CTX.bounds({v: d}):
            ll = T.lam((d,), (v,), T.subst(lb, {"@0": sym(v)}) if l.ndim else lb)
        wd = None
        if kind == "single":
            if I.asE(b["which"]).const != 1:
                return I.unk("estimator option which", node)
            wd = I.asE(b["which_dim"]) - 1
            ok = and_(ge(wd), ge(d - 1 - wd))
            if CTX.decide(ok) is not True:
                I.event("index", f"which_dim {T.show(wd + 1)} outside 1..{T.show(d)}", node, cond=not_(ok))
        name = "score:" + kern
        lib = "th" if kind == "torch" else "np"

        def out(q, node):
            q, bad = col(I, q, None, "query points", node)
            if q is None:
                return bad
            if kind != "torch" and q.lib == "th":
                I.event("device", "NumPy estimator gets a tensor as query", node)
            if kind == "torch" and q.lib == "th" and q.dtype not in ("float64", "int"):
                I.event("dtype", "query points are not double precision", node)
            if kind == "torch" and q.lib == "th" and q.dev not in (None, dv):
                I.event("device", f"query points are on {q.dev}, estimator on {dv}", node)
            if I.same_size(q.shape[1], d) is not True:
                I.event("shape", f"query has {T.show(q.shape[1])} columns, samples {T.show(d)}", node, cond=not_(eq(q.shape[1], d)))
            w = T.fresh()
            shape = (q.shape[0],) if wd is not None else (q.shape[0], d)
            with I.axes(shape), CTX.bounds({w: d}):
                lq = T.lam((d,), (w,), T.subst(I.nbody(q), {"@1": sym(w)}))
            with I.axes(shape):
                body = app(name, lx, lz, ll, C, lq, wd if wd is not None else ph(1))
            return mk(shape, body, lib, "float64", dv)
        fo = I.truth(b["func_out"])
        I.scorecalls.append(dict(where=I.event_loc(node), C=C, kern=kern, pc=and_(*I.pc), func=f.qual, func_out=fo))
        if isinstance(fo, T.BConst):
            if not fo.val:
                return out(X, node)
            return ScoreFn(lambda q, nd: out(q, nd))
        return I.unk("func_out", node)
    return h


class Session:
    """one analysis: loader + interpreter + facts"""

    def __init__(self, root="/repo", inline=(), debug=False, absent=()):
        T.reset()
        setup_ints()
        IT.PRANGES.clear()
        self.loader = Loader(root, absent)
        self.I = I = IT.Interp(self.loader)
        I.debug = debug
        I.userdim = DIM
        I.longgrid = ({"t1", "t2"}, 12)
        I.scorecalls = []
        for q, k in SCORES.items():
            if q not in inline:
                I.summaries[q] = score_summary(k)
        CTX.add(ge(DIM - 1))
        CTX.add(ge(N - 2))
        CTX.add(ge(M - 1))
        CTX.lo["dim"], CTX.lo["N"], CTX.lo["M"] = ONE, num(2), ONE
        CTX.add(ge(K - 1))
        CTX.lo["k"] = ONE

    def module(self, name):
        return self.loader.load(name, self.I)

    def cls(self, name):
        m = self.module(MAIN)
        c = m.frame.vars.get(name)
        return c


def vec(name, n, lib="np", owner=None, dtype="float64", dev=None):
    return mk((n,), app(name, ph(0)), lib, dtype, dev, owner=owner)


def flow(name, shape, lib, dev=None):
    a = mk(shape, app(name, *[ph(i) for i in range(len(shape))]), lib, "float64", dev)
    a.store.site = name.split(":")[-1]
    return a
