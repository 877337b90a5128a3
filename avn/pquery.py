"""Checks on the query methods: P13, P14, P15, P12 (control part), P26."""
from fractions import Fraction
from . import terms as T, evalt, flows, specs, pflow
from .terms import (E, Atom, Lam, B, BCmp, app, sym, num, ge, eq, and_, not_, ite, CTX, ONE, ZERO)
from .values import *
from .model import DIM, N, M, K
from .flows import Run, Bad, QI, occurrences
from .specs import cmp, verdict, deny, scores, classify
from .pflow import extremes, overlap, hull, inducing

q = sym(QI)


def points(run):
    """index points and regions: (label, term or None for symbolic, facts, interior?)"""
    k = run.k
    out = []
    for lab, t, inner in (("index 1", num(1), False), ("index 5", num(5), False), ("index 6", num(6), True),
                          ("index k-6", k - 6, True), ("index k-5", k - 5, False), ("index k-2", k - 2, False)):
        out.append((lab, t, (), inner))
    out.append(("indices 1..5", None, (ge(q - 1), ge(5 - q)), False))
    out.append(("interior indices", None, (ge(q - 6), ge(k - 6 - q)), True))
    out.append(("indices k-5..k-2", None, (ge(q - k + 5), ge(k - 2 - q)), False))
    return out


class Ask:
    def __init__(self, run, name, t, facts):
        I = run.I
        self.run = run
        e0 = len(I.events)
        X = self.X = query_points(run, name)
        ti = mk((), t, "py", "int")
        sn = (dict(I.S.heap), dict(I.S.attrs))
        attrs0 = dict(I.S.attrs)
        heap0 = {}
        for (oid, a), v in attrs0.items():
            if oid == run.obj.oid and isinstance(v, Arr):
                heap0[a] = (v.store, I.content(v.store))
        with CTX.bounds({QI: run.k}), CTX.fact(*facts):
            self.value = I.force(run.method(name, [X, ti]))
            self.events = I.events[e0:]
            self.changed = []
            for key, v in I.S.attrs.items():
                if key[0] == run.obj.oid and (key not in attrs0 or not same_value(attrs0[key], v)):
                    self.changed.append(key[1])
            for a, (st, c) in heap0.items():
                try:
                    now = I.content(st)
                    if getattr(now, "key", None) != getattr(c, "key", None):
                        self.changed.append(a + "[...]")
                except Exception:
                    pass
            if isinstance(self.value, Arr):
                self.shape = self.value.shape
                self.body = I.body(self.value)
        I.S.heap, I.S.attrs = sn


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.store is b.store and a.map == b.map
    return a == b if type(a) == type(b) and isinstance(a, (str, int, float, bool, type(None))) else False


def query_points(run, name):
    z = run.attr("Z")
    dev = z.dev if run.th and isinstance(z, Arr) else None
    if name == "calculate_u":
        return mk((K, DIM), app("X", ph(0), ph(1)), run.lib, run.dtype, dev, owner="grid_x")
    return mk((DIM,), app("X", ph(0)), run.lib, run.dtype, dev, owner="X")


def where_method(run, name):
    f = run.I.getattr(run.obj, name)
    f = getattr(f, "func", f)
    qn = getattr(f, "qual", name)
    nd = getattr(f, "node", None)
    ln = getattr(nd, "lineno", None)
    return f"{qn}" + (f" line {ln}" if ln else "")


def fwd(run):
    return "Ztr" if run.rw and run.br else "Z"


def controls(run, regions=None):
    for lab, t, facts, inner in points(run):
        if regions is not None and inner not in regions:
            continue
        a = Ask(run, "calculate_u", t if t is not None else q, facts)
        yield lab, (t if t is not None else q), facts, inner, a


def control_body(run, rep, rule, a, subj, w):
    v = a.value
    if not isinstance(v, Arr):
        rep.und(rule, subj, f"returns {describe(v)}", w)
        return None
    if v.ndim != 2:
        rep.bad("one row per coordinate, one column per point", subj, f"result has {v.ndim} dimensions", w)
        return None
    okk = True
    for i, (x, y) in enumerate(zip(v.shape, (DIM, K))):
        if x.key != y.key:
            okk = False
    rep.put(okk, "one row per coordinate, one column per point", subj, f"result has shape {[T.show(x) for x in v.shape]}", w)
    return a.body if okk else None


def p13(run, rep):
    w = where_method(run, "calculate_u")
    for lab, t, facts, inner, a in controls(run, (True,)):
        subj = f"{run.label()}.calculate_u {lab}"
        b = control_body(run, rep, "control is the score difference", a, subj, w)
        if b is None:
            continue
        f = fwd(run)
        with CTX.bounds({QI: run.k}), CTX.fact(*facts):
            by, left = classify(run, scores(b), t, [f, "B"])
            sz, sb = by.get(f), by.get("B")
            if sz is None or sb is None:
                deny(rep, "control is the score difference", subj, f"the score of the {'forward' if sz is None else 'backward'} flow ({f if sz is None else 'B'}) at this index does not enter the control", w, b)
                continue
            v = T.fresh()
            with CTX.bounds({v: DIM, "@1": K}):
                lq = T.lam((DIM,), (v,), app("X", ph(1), sym(v)))

            def sc(x, flow):
                return app(x[0], run.cloud(flow, t), x[2], x[3], x[4], lq, ph(0))
            want = sc(sb, "B") - sc(sz, f)
        verdict(rep, "control is the score difference", subj, cmp(run, b, want, facts, ranges={"@1": K}), w)


def p14(run, rep):
    w = where_method(run, "calculate_u")
    for lab, t, facts, inner, a in controls(run, (False,)):
        subj = f"{run.label()}.calculate_u {lab}"
        b = control_body(run, rep, "Gaussian scores near the ends", a, subj, w)
        if b is None:
            continue
        f = fwd(run)
        X = app("X", ph(1), ph(0))
        res = []
        with run.bounds(), CTX.bounds({QI: run.k, "@1": K}), CTX.fact(*facts):
            def gauss(flow, dd):
                v = T.fresh()
                with CTX.bounds({v: N}):
                    z = run.at(flow, ph(0), sym(v), t)
                    mu = T.sum_over(z, v, N) * T.power(N, -1)
                    sd = app("std", T.lam((N,), (v,), z), num(dd))
                return (X - mu) * T.power(sd, -2)
            # either estimator of the variance, but the same one for both clouds
            wants = [gauss(f, d) - gauss("B", d) for d in (0, 1)]
        for wnt in wants:
            r = cmp(run, b, wnt, facts, ranges={"@1": K})
            res.append(r)
            if r[0] == "same":
                break
        good = [r for r in res if r[0] == "same"]
        verdict(rep, "Gaussian scores near the ends", subj, good[0] if good else res[1 if run.th else 0], w)


def p12_query(run, rep):
    w = where_method(run, "calculate_u")
    f = fwd(run)
    for lab, t, facts, inner, a in controls(run, (True,)):
        subj0 = f"{run.label()}.calculate_u {lab}"
        if not isinstance(a.value, Arr) or a.value.ndim != 2:
            rep.und("inducing points uniform between the cloud extremes", subj0, f"returns {describe(a.value)}", w)
            continue
        with CTX.bounds({QI: run.k}), CTX.fact(*facts):
            scs = scores(a.body)
            by, left = classify(run, scs, t, [f, "B"])
            ez, eb = extremes(run, f, t), extremes(run, "B", t)
            if not scs:
                deny(rep, "inducing points uniform between the cloud extremes", subj0, "no score estimate enters the control", w, a.body)
            for nm, sc in list(by.items()) + [("?", x) for x in left]:
                cases = [("", None, [hull(ez, eb) if run.th else overlap(ez, eb)])]
                inducing(run, rep, sc, cases, nm, f"{subj0} score of {nm}", w, t, facts)


def p15(run, rep):
    w = where_method(run, "check_if_covered")
    k = run.k
    pts = [("index 1", num(1), ()), ("index k-2", k - 2, ()), ("all inner indices", q, (ge(q - 1), ge(k - 2 - q)))]
    for lab, t, facts in pts:
        subj = f"{run.label()}.check_if_covered {lab}"
        a = Ask(run, "check_if_covered", t, facts)
        v = a.value
        with CTX.bounds({QI: run.k}), CTX.fact(*facts):
            if isinstance(v, Arr) and any(run.I.same_size(n, ONE) is not True for n in v.shape):
                rep.bad("covered means inside both flows in every coordinate", subj, f"returns {describe(v)}, not one truth value", w)
                continue
            c = run.I.truth(v)
            if not isinstance(c, B):
                rep.und("covered means inside both flows in every coordinate", subj, f"returns {describe(v)}", w)
                continue
            ez, eb = extremes(run, "Z", t), extremes(run, "B", t)
            x = app("X", ph(0))
            v1 = T.fresh()
            mp = {"@0": sym(v1)}
            each = and_(*[T.subst(z, mp) for z in (ge(x - ez[0]), ge(ez[1] - x), ge(x - eb[0]), ge(eb[1] - x))])
            with CTX.bounds({v1: DIM}):
                want = T.redall(each, v1, DIM, "all")
            lo, hi = overlap(ez, eb)

        def xi(ev, args):
            d = int(ev(args[0]))
            old = ev.env.get("@0")
            ev.env["@0"] = d
            try:
                l, h = ev(lo), ev(hi)
                zl, zh, bl, bh = (ev(z) for z in (ez[0], ez[1], eb[0], eb[1]))
            finally:
                if old is None:
                    ev.env.pop("@0", None)
                else:
                    ev.env["@0"] = old
            n = ev.env["dim"]
            m = ev.seed % 9
            r = evalt.hsh(ev.seed, d, "x")
            off = (0.01, 1e-4, 1e-7)[ev.seed // 9 % 3]
            if m == 0:
                return l + r * (h - l)
            if m == 1:
                return l
            if m == 2:
                return h
            if m == 3:
                return l - off if d == n - 1 else l + r * (h - l)
            if m == 4:
                return h + off if d == 0 else l + r * (h - l)
            if m == 5:
                return (zl + r * (zh - zl)) if d == n - 1 else l + r * (h - l)
            if m == 6:
                return (bl + r * (bh - bl)) if d == 0 else l + r * (h - l)
            if m == 7:
                return h + off if d == n - 1 else h
            return l - off if d == 0 else l
        r = cmp(run, T.ind(c), T.ind(want), facts, n=72, interp={"X": xi}, ranges={})
        verdict(rep, "covered means inside both flows in every coordinate", subj, r, w)


def p26(run, rep):
    for name in ("calculate_u", "check_if_covered"):
        w = where_method(run, name)
        regs = [("interior indices", q, (ge(q - 6), ge(run.k - 6 - q))), ("indices 0..5", q, (ge(q), ge(5 - q))), ("last indices", q, (ge(q - run.k + 5), ge(run.k - 1 - q)))]
        for lab, t, facts in regs:
            a = Ask(run, name, t, facts)
            subj = f"{run.label()}.{name} {lab}"
            wr = [e for e in a.events if e.kind in ("flowwrite", "attrwrite")]
            for e in wr:
                rep.bad("queries write no flow element or attribute", subj, e.msg, f"{e.file}:{e.line} {e.func}")
            if not wr:
                rep.ok("queries write no flow element or attribute", subj, "", w)
            rep.put(not a.changed, "attributes are unchanged after the query", subj, "changed: " + ", ".join(sorted(set(a.changed))), w)
