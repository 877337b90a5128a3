"""Checks on the score estimators, the kernel object and the distance routine: P09, P10, P11, P16."""
from fractions import Fraction
from . import terms as T, evalt, model
from .terms import (E, Atom, Lam, app, sym, num, ge, eq, and_, not_, CTX, ONE, ZERO)
from .values import *
from .model import DIM, N, M, K, SE, SCORES
from .flows import Bad
from .report import Report

DT = "float64"         # type of the numbers in caller-owned arrays
MILLI = Fraction(1, 1000)
HALF = Fraction(1, 2)
Q = sym("Q")            # number of query points
NP_EST = ["score_function_estimators:score_function_multid_seperate_all_dims",
          "score_function_estimators:score_function_multid_seperate",
          "score_function_estimators:score_function_multid_seperate_old",
          "score:score_function_multid_seperate2"]
TH_EST = "score_function_estimators_pytorch:torched_score_function_multid_seperate_all_dims"
RBFMOD = model.PKG + ".kernels.RBF_pytorch"


def session(root, one=False):
    """one: analyse the one-dimensional case; otherwise any dimension >= 2"""
    global DIM
    s = model.Session(root, inline=tuple(SCORES))
    DIM = ONE if one else model.DIM
    CTX.add(ge(model.DIM - 2))
    CTX.lo["dim"] = num(2)
    T.INTS.update({"Q", "wd", "dim", "N", "M", "k"})
    T.POS.update({"C", "sv", "l"})
    CTX.add(ge(Q - 1))
    CTX.lo["Q"] = ONE
    return s


def compare(a, b, ranges, facts=(), n=8):
    names = [v for v in ranges if v in a.free or v in b.free or any(v in f.free for f in facts)]

    def extra(s, env):
        return {"Q": 2 + s % 3, "n1": 2 + s % 3, "n2": 3 - s % 2}
    with CTX.bounds({v: r for v, r in ranges.items() if v[0] in "@%"}), CTX.fact(*facts):
        return evalt.compare(a, b, free=names, facts=list(facts), ranges=ranges, n=n, extra=extra)


def put(rep, rule, subj, res, w):
    st, why = res
    (rep.ok if st == "same" else rep.bad if st == "diff" else rep.und)(rule, subj, why, w)


# ------------------------------------------------------------------ reference formula
def kern(x, z, l):
    """x, z, l: functions of the coordinate index -> term"""
    v = T.fresh()
    with CTX.bounds({v: DIM}):
        d = (x(sym(v)) - z(sym(v))) * T.power(l(sym(v)), -1)
        return T.exp(-HALF * T.sum_over(d * d, v, DIM))


def delta(i, j):
    return T.ind(eq(i, j))


def reference(l, C, q, d):
    """score estimate at the point q (function of coordinate) in coordinate d"""
    X = lambda n: (lambda c: app("X", n, c))
    Z = lambda m: (lambda c: app("Z", m, c))

    def mat(f):
        a, b = T.fresh(), T.fresh()
        with CTX.bounds({a: M, b: M}):
            return T.lam((M, M), (a, b), f(sym(a), sym(b)))
    lKs = mat(lambda i, j: kern(Z(i), Z(j), l) + MILLI * delta(i, j))
    Ksinv = lambda i, j: app("inv", lKs, i, j)

    def A(i, j):
        v = T.fresh()
        with CTX.bounds({v: N}):
            return T.sum_over(kern(X(sym(v)), Z(i), l) * kern(X(sym(v)), Z(j), l), v, N)

    def core(i, j):
        v = T.fresh()
        with CTX.bounds({v: M}):
            return T.sum_over(Ksinv(i, sym(v)) * A(sym(v), j), v, M) + (C + MILLI) * delta(i, j)
    lcore = mat(core)
    j, k, m, n = (T.fresh() for _ in range(4))
    with CTX.bounds({j: M, k: M, m: M, n: N}):
        grad = -(app("X", sym(n), d) - app("Z", sym(m), d)) * T.power(l(d), -2) * kern(X(sym(n)), Z(sym(m)), l)
        t = -kern(q, Z(sym(j)), l) * app("inv", lcore, sym(j), sym(k)) * Ksinv(sym(k), sym(m)) * T.sum_over(grad, n, N)
        return T.sum_over(T.sum_over(T.sum_over(t, m, M), k, M), j, M)


def lengthscale(kind, lib):
    if kind == "default":
        return None, (lambda c: ONE)
    if kind == "scalar":
        return mk((), sym("l"), "py", DT), (lambda c: sym("l"))
    if kind == "int":
        return mk((), num(2), "py", "int"), (lambda c: num(2))
    if kind == "vector":
        return mk((DIM,), app("l", ph(0)), lib, DT, "cpu" if lib == "th" else None, owner="l"), (lambda c: app("l", c))
    if kind == "npvector":
        return mk((DIM,), app("l", ph(0)), "np", DT, None, owner="l"), (lambda c: app("l", c))
    if kind == "tensor0":
        return mk((), sym("l"), "th", DT, "cpu", owner="l"), (lambda c: sym("l"))
    if kind == "np0":
        return mk((), sym("l"), "np", DT, None, owner="l"), (lambda c: sym("l"))
    if kind == "tensor1":
        return mk((ONE,), sym("l"), "th", DT, "cpu", owner="l"), (lambda c: sym("l"))
    if kind == "np1":
        return mk((ONE,), sym("l"), "np", DT, None, owner="l"), (lambda c: sym("l"))
    if kind == "list":
        l = PyList(SymSeq(DIM, "%il", mk((), app("l", sym("%il")), "py", DT)), "list")
        l.owner = "l"
        return l, (lambda c: app("l", c))
    raise ValueError(kind)


def array(name, n, lib, dev=None):
    return mk((n, DIM), app(name, ph(0), ph(1)), lib, DT, ("cpu" if lib == "th" else None) if dev is None else dev, owner=name)


def est_where(f):
    return f.qual + f" line {getattr(f.node, 'lineno', '?')}"


def check_estimator(s, rep, qual, kind, lkind, func_out, data="np", query="np", wd=None, extra_kw=None, rule="estimator computes the sparse-kernel formula"):
    I = s.I
    modn, fn = (SE + qual).split(":")
    mod = s.loader.load(modn, I)
    f = mod.frame.vars.get(fn) if mod is not None else None
    if not isinstance(f, Func):
        raise Bad(f"{fn} is not defined in {modn}")
    lv, lf = lengthscale(lkind, "th" if kind == "torch" and lkind == "vector" else "np")
    X, Z = array("X", N, data), array("Z", M, data)
    kw = {"C": mk((), sym("C"), "py", "float64")}
    if lv is not None:
        kw["l"] = lv
    if func_out:
        kw["func_out"] = pynum(True)
    if kind == "single":
        kw["which"] = pynum(1)
        kw["which_dim"] = mk((), sym("wd"), "py", "int")
        CTX.add(ge(sym("wd") - 1))
        CTX.add(ge(DIM - sym("wd")))
    kw.update(extra_kw or {})
    subj = f"{fn}(l {lkind}" + (f", data {data}" if kind == "torch" else "") + (f", as function of {query} points" if func_out else "") + ")"
    w = est_where(f)
    e0, u0 = len(I.events), len(I.unknowns)
    r = I.force(I.call(f, [X, Z], kw))
    s.again = lambda: I.call(f, [X, Z], kw)
    if func_out:
        xq = array("x", Q, query)
        fo = r
        r = I.force(I.call(fo, [xq], {}))
        s.again = lambda: I.call(fo, [xq], {})
    s.result = r
    rows = Q if func_out else N
    if not isinstance(r, Arr):
        rep.und(rule, subj, f"returns {describe(r)}" + (f" ({I.unknowns[u0]})" if len(I.unknowns) > u0 else ""), w)
        return
    shape = (rows,) if kind == "single" else (rows, DIM)
    if len(r.shape) != len(shape) or any(I.same_size(x, y) is False for x, y in zip(r.shape, shape)):
        rep.bad("estimate has one row per point", subj, f"result has shape {[T.show(x) for x in r.shape]}", w)
        return
    if any(I.same_size(x, y) is not True for x, y in zip(r.shape, shape)):
        rep.bad("estimate has one row per point", subj, f"result has shape {[T.show(x) for x in r.shape]}", w)
        return
    nm = "x" if func_out else "X"
    with CTX.bounds({"@0": rows, "@1": DIM}):
        d = sym("wd") - 1 if kind == "single" else ph(1)
        want = reference(lf, sym("C"), lambda c: app(nm, ph(0), c), d)
        got = I.nbody(r)
    rg = {"@0": rows, "@1": DIM}
    facts = ()
    if kind == "single":
        rg["wd"] = DIM + 1
        facts = (ge(sym("wd") - 1), ge(DIM - sym("wd")))
    put(rep, rule, subj, compare(got, want, rg, facts), w)
    if kind == "torch":
        if r.lib != "th":
            rep.bad("estimate is a tensor", subj, f"returns {describe(r)}", w)
    wr = [e for e in I.events[e0:] if e.kind == "callerwrite"]
    for e in wr:
        rep.bad("estimator leaves its inputs alone", subj, e.msg, f"{e.file}:{e.line} {e.func}")
    if not wr:
        rep.ok("estimator leaves its inputs alone", subj)
    return e0


def cases09(full):
    out = []
    for q in NP_EST:
        kind = SCORES[SE + q]
        for lk in ("scalar", "vector", "default") if full else ("scalar", "vector"):
            for fo in (False, True):
                out.append((q, kind, lk, fo))
    return out


def cases10(full):
    out = []
    for data in ("th", "np"):
        for lk in ("scalar", "vector", "npvector", "tensor0", "list", "default", "int", "np0", "tensor1") if full else ("scalar", "vector", "tensor0", "npvector", "list", "default"):
            out.append((data, lk, False, "th"))
            out.append((data, lk, True, "th"))
            if lk in ("scalar", "vector"):
                out.append((data, lk, True, "np"))
    return out


# ------------------------------------------------------------------ P11
def kernel_obj(s, lkind, sv=True, dev=None, multil=None):
    I = s.I
    mod = s.loader.load(RBFMOD, I)
    c = mod.frame.vars.get("RBF") if mod is not None else None
    if c is None:
        raise Bad("class RBF not found")
    lv, lf = lengthscale(lkind, "th" if lkind in ("vector", "tensor0", "tensor1") else "np")
    kw = {}
    if lv is not None:
        kw["length_scale"] = lv
    if sv:
        kw["signal_variance"] = mk((), sym("sv"), "py", "float64")
    if dev is not None:
        kw["device"] = dev
    if multil is not None:
        kw["multil"] = pynum(multil)
    o = I.instantiate(c, [], kw, None, tag="kernel")
    return o, lf, (sym("sv") if sv else ONE)


def p11_case(s, rep, lkind, multil, sv, steps, data=("th", "th")):
    """steps: sequence of (method, args) on one object; the last one is checked"""
    I = s.I
    n1, n2 = sym("n1"), sym("n2")
    for v in ("n1", "n2"):
        CTX.add(ge(sym(v) - 1))
        CTX.lo[v] = ONE
    o, lf, svt = kernel_obj(s, lkind, sv, multil=multil)
    hist = []
    r = None
    for meth, names in steps:
        sizes = {"X": n1, "Y": n2, "P": N, "R": M}
        arrs = [mk((sizes[x], DIM), app(x, ph(0), ph(1)), lib, DT, "cpu" if lib == "th" else None, owner=x) for x, lib in zip(names, data)]
        r = I.force(I.call(I.getattr(o, meth), arrs, {}))
        hist.append(f"{meth}({', '.join(names)})")
        s.again = lambda meth=meth, arrs=arrs: I.call(I.getattr(o, meth), arrs, {})
    s.result = r
    subj = f"RBF(l {lkind}, multil={multil}" + (", signal_variance" if sv else "") + "): " + "; ".join(hist) + ("" if data == ("th", "th") else " on " + ("NumPy arrays" if data == ("np", "np") else "one tensor and one NumPy array"))
    meth, names = steps[-1]
    f = I.getattr(o, meth)
    f = getattr(f, "func", f)
    w = f"{getattr(f, 'qual', meth)} line {getattr(getattr(f, 'node', None), 'lineno', '?')}"
    a, b = names[0], names[-1]
    sizes = {"X": n1, "Y": n2, "P": N, "R": M}
    na, nb = sizes[a], sizes[b]
    if not isinstance(r, Arr):
        rep.und("kernel and gradient formula", subj, f"returns {describe(r)}", w)
        return
    if meth == "Kernel":
        shape = (na, nb)
    else:
        shape = (na, nb, DIM)
    if len(r.shape) != len(shape) or any(I.same_size(x, y) is not True for x, y in zip(r.shape, shape)):
        rep.bad("one entry per pair (and dimension)", subj, f"result has shape {[T.show(x) for x in r.shape]}", w)
        return
    with CTX.bounds({"@0": na, "@1": nb, "@2": DIM}):
        kv = svt * kern(lambda c: app(a, ph(0), c), lambda c: app(b, ph(1), c), lf)
        if meth != "Kernel":
            kv = kv * (app(a, ph(0), ph(2)) - app(b, ph(1), ph(2))) * T.power(lf(ph(2)), -2)
        got = I.nbody(r)
    put(rep, "kernel and gradient formula", subj, compare(got, kv, {"@0": na, "@1": nb, "@2": DIM}), w)


def cases11(full):
    seqs = [[("Kernel", ("X", "Y"))], [("Kernel", ("X",))], [("gradient_X", ("X", "Y"))], [("gradient_X", ("X",))],
            [("Kernel", ("P", "R")), ("gradient_X", ("X", "Y"))], [("gradient_X", ("P", "R")), ("Kernel", ("X", "Y"))]]
    if full:
        seqs += [[("Kernel", ("P",)), ("gradient_X", ("X",))], [("Kernel", ("P", "R")), ("Kernel", ("X", "Y"))], [("gradient_X", ("P",)), ("gradient_X", ("X", "Y"))],
                 [("Kernel", ("X", "Y")), ("Kernel", ("X",))]]
    out = []
    for lk, mu in (("scalar", False), ("vector", True), ("tensor0", False), ("default", False)) + ((("tensor1", False), ("tensor1", True)) if full else ()):
        for sv in (True, False) if full else (True,):
            for q in seqs:
                out.append((lk, mu, sv, q))
    for lk, mu in (("scalar", False), ("npvector", True)) + ((("list", True), ("np0", False), ("int", False), ("vector", True)) if full else ()):
        for data in (("np", "np"),) + ((("th", "np"), ("np", "th")) if full or lk == "scalar" else ()):
            for q in seqs[:5] if full else (seqs[:4] if data == ("np", "np") else (seqs[0], seqs[2])):
                if data == ("np", "np") or len(q[0][1]) == 2:
                    out.append((lk, mu, True, q, data))
    return out


# ------------------------------------------------------------------ P16
DISTS = ("euclidean", "sqeuclidean", "l1", None)


def p16_case(s, rep, dist, dim=None):
    I = s.I
    d = DIM
    n1, n2 = sym("n1"), sym("n2")
    for v in ("n1", "n2"):
        CTX.add(ge(sym(v) - 1))
        CTX.lo[v] = ONE
    mod = s.loader.load(SE + "score_function_estimators", I)
    f = mod.frame.vars.get("my_cdist") if mod is not None else None
    if not isinstance(f, Func):
        raise Bad("my_cdist is not defined")
    w = est_where(f)
    subj = f"my_cdist(dist={dist if dist is not None else 'default'})"
    r = mk((n1, d), app("r", ph(0), ph(1)), "np", DT, None, owner="r")
    y = mk((n2, d), app("y", ph(0), ph(1)), "np", DT, None, owner="y")
    o = mk((n1, n2), app("old", ph(0), ph(1)), "np", "float64", None, owner="output")
    e0 = len(I.events)
    I.parallel = []
    I.call(f, [r, y, o] + ([dist] if dist is not None else []), {})
    with CTX.bounds({"@0": n1, "@1": n2}):
        got = I.nbody(o)
        v = T.fresh()
        with CTX.bounds({v: d}):
            df = app("r", ph(0), sym(v)) - app("y", ph(1), sym(v))
            if dist == "l1":
                want = T.sum_over(T.absE(df), v, d)
            else:
                want = T.sum_over(df * df, v, d)
                if dist != "sqeuclidean":
                    want = T.sqrt(want)
    put(rep, "every cell holds the requested distance", subj, compare(got, want, {"@0": n1, "@1": n2}), w)
    for a, nm in ((r, "r"), (y, "y")):
        with CTX.bounds({"@0": a.shape[0], "@1": d}):
            put(rep, "the point sets are left alone", f"{subj} {nm}", compare(I.nbody(a), app(nm, ph(0), ph(1)), {"@0": a.shape[0], "@1": d}), w)
    if not I.parallel:
        rep.ok("iterations are independent", f"{subj}: no parallel loop", "", w)
    for p in I.parallel:
        races(I, rep, p, subj)
    return e0


def races(I, rep, p, subj):
    """iterations of a parallel loop write disjoint cells and read no cell another iteration writes"""
    L, u, n = p["L"], p["u"], p["n"]
    subj = f"{subj} parallel loop"
    w = f"{p['file']}:{p['line']} in {p['func']}"
    rule = "iterations are independent"
    pref = f"pre:{L}:"
    owner = {}
    res = []
    if not p["slots"]:
        rep.ok(rule, subj, "the loop writes nothing shared", w)
        return
    arrays = [x for x in p["slots"] if x["kind"] == "h"]
    scal = {x["pname"]: x["name"] for x in p["slots"] if x["kind"] != "h"}
    names = {x["pname"]: x for x in arrays}
    for x in arrays:
        for c, e, v in x["leaves"]:
            if e is None:
                st = disjoint(c, u, n, x["shape"])
                if st is True:
                    rep.und(rule, f"{subj}: writes to {x['name']}", "the cell does not determine the iteration in closed form", w)
                else:
                    rep.bad(rule, f"{subj}: writes to {x['name']}", st, w)
                continue
            owner.setdefault(x["pname"], []).append(e)
    for x in arrays:
        for c, e, v in x["leaves"]:
            for t in list(c) + [v]:
                for a, _ in occ(t, lambda f: f.startswith(pref)):
                    nm, idx = a.args[0], a.args[1:-1]
                    if nm in scal:
                        rep.bad(rule, f"{subj}: writes to {x['name']}", f"the value depends on {scal[nm]} carried over from another iteration", w)
                        continue
                    if nm not in names or e is None:
                        rep.und(rule, f"{subj}: writes to {x['name']}", f"reads {nm}", w)
                        continue
                    for o in owner.get(nm, []):
                        mp = {f"@{i}": z for i, z in enumerate(idx)}
                        o2 = T.subst(o, mp)
                        with I.axes(x["shape"]), CTX.bounds({u: n}), CTX.fact(*c):
                            if CTX.decide(eq(o2 - sym(u), 0)) is not True and CTX.decide(eq(o2 - e, 0)) is not True:
                                rep.bad(rule, f"{subj}: writes to {x['name']}", f"reads a cell of {names[nm]['name']} written by iteration {T.show(o2)}", w)
    if not any(o.status != "holds" and o.subject.startswith(subj) for o in rep.obs):
        rep.ok(rule, subj, f"{len(arrays)} shared array(s), each cell owned by one iteration", w)


def occ(t, pred):
    from .flows import occurrences
    return occurrences(t, pred)


def disjoint(conds, u, n, shape):
    """small instances: do two iterations write the same cell?"""
    cc = and_(*conds)
    for seed in range(6):
        env = {"dim": 2 + seed % 2, "N": 3, "M": 2, "k": 20, "n1": 2 + seed % 3, "n2": 3 - seed % 2, "Q": 2, "t1": 0.0, "t2": 1.0}
        ev = evalt.Ev(env, seed, {})
        try:
            sizes = [int(ev(x)) for x in shape]
            nn = int(ev(n))
            import itertools
            for cell in itertools.product(*[range(z) for z in sizes]):
                for i, z in enumerate(cell):
                    ev.env[f"@{i}"] = z
                hits = []
                for it in range(nn):
                    ev2 = evalt.Ev({**ev.env, u: it}, seed, {})
                    if ev2(cc):
                        hits.append(it)
                if len(hits) > 1:
                    return f"iterations {hits[0]} and {hits[1]} write the same cell {cell} (sizes {sizes})"
        except Exception as x:      # not evaluable
            return True
    return True
