"""The event rules (errors, caller data, effects, randomness, devices) on the public functions that
are used without a flow object: the score estimators, the kernel object, the transport map and the
distance routine."""
from . import terms as T, model, pest, pevents, flows, pflow
from .terms import app, sym, num, ge, CTX, ONE
from .values import *
from .model import N, M, SE, SCORES
from .pest import Q
from .report import Report
from .flows import Bad


class Case:
    def __init__(self, s, label, events, unknowns, ranges, allowed, result):
        self.s, self.I, self.label, self.events, self.unknowns = s, s.I, label, events, unknowns
        self.ranges, self.allowed, self.result = ranges, allowed, result
        self.k = None
        self.th = False


def cases(full):
    out = []
    for c in pest.cases09(full):
        for one in (False, True):
            out.append(("np", c, one))
    for c in pest.cases10(full):
        for one in (False, True):
            if full or not one or c[1] in ("scalar", "vector"):
                out.append(("th", c, one))
    for c in pest.cases11(full):
        for one in (False, True):
            if full or not one:
                out.append(("rbf", c, one))
    for d in pest.DISTS:
        for one in (False, True):
            out.append(("dist", d, one))
    for col in (False, True):
        out.append(("ot", col, False))
    return out


def execute(root, case, scratch=None):
    kind, c, one = case
    scratch = scratch or Report("x")
    s = pest.session(root, one)
    I = s.I
    ranges = {"Q": None, "n1": None, "n2": None}
    allowed = ()
    tag = " one-dimensional" if one else ""
    r = None
    if kind == "np":
        pest.check_estimator(s, scratch, *c)
        label = f"{c[0].split(':')[-1]}(l {c[2]}{', as function' if c[3] else ''})"
    elif kind == "th":
        data, lk, fo, qk = c
        pest.check_estimator(s, scratch, pest.TH_EST, "torch", lk, fo, data, qk)
        label = f"{pest.TH_EST.split(':')[-1]}(l {lk}, data {data}{', as function of ' + qk + ' points' if fo else ''})"
    elif kind == "rbf":
        pest.p11_case(s, scratch, *c)
        label = f"RBF(l {c[0]}, multil={c[1]}): " + "; ".join(f"{m}({', '.join(a)})" for m, a in c[3]) + (f" on {c[4]}" if c[4:] else "")
    elif kind == "dist":
        pest.p16_case(s, scratch, c)
        label = f"my_cdist(dist={c if c is not None else 'default'})"
        allowed = ("output",)
    elif kind == "ot":
        name = model.PKG + ".reweighting.optimal_transport_reweighting"
        fn = "reweight_optimal_transport_multidim"
        f = s.loader.load(name, I).frame.vars.get(fn)
        if not isinstance(f, Func):
            raise Bad(f"{fn} not found")
        X = mk((N, model.DIM), app("X", ph(0), ph(1)), "np", pest.DT, None, owner="samples")
        wt = mk((N, ONE) if c else (N,), app("w", ph(0)), "np", "float64", None, owner="weights")
        r = s.result = I.force(I.call(f, [X, wt], {}))
        s.again = lambda: I.call(f, [X, wt], {})
        label = f"{fn}({'column' if c else 'vector'} of weights)"
    else:
        raise ValueError(kind)
    return Case(s, label + tag, list(I.events), list(I.unknowns), ranges, allowed, getattr(s, 'result', None))


def events(prop, root, case, rep):
    c = execute(root, case)
    run = None
    if prop == "P19":
        pevents.p19_events(rep, c.label, c.events, run, c.allowed)
        rule = "caller-owned data is not written"
    elif prop == "P24":
        pevents.p24_events(rep, c.label, c.events, run)
        rule = "no external side effect"
    elif prop == "P20":
        rule = "randomness comes from the global generator of the backend"
        b = pevents.judge(rep, rule, c.label, [e for e in c.events if e.kind == "rng"])
        for lib, kind, loc in dict.fromkeys(c.I.rngsites):
            b += 1
            rep.bad(rule, c.label, f"draws random numbers ({lib}.{kind})", str(loc))
        if not b:
            rep.ok(rule, c.label)
    elif prop == "P22":
        rule = "no shape, index, name or attribute error"
        b = pevents.judge(rep, rule, c.label, [e for e in c.events if e.kind in pevents.ERRORS])
        if not b and not c.unknowns:
            rep.ok(rule, c.label)
    elif prop == "P23":
        rule = "tensors live on the requested device in double precision"
        b = pevents.judge(rep, rule, c.label, [e for e in c.events if e.kind in pevents.DEVRULES])
        for v in c.result if isinstance(c.result, (list, tuple)) else [c.result]:
            if isinstance(v, Arr) and v.dtype == "float32":
                b += 1
                rep.bad(rule, c.label, f"the result is {describe(v)} in single precision", "")
        if not b:
            rep.ok(rule, c.label)
    pevents.unknowns(rep, rule, c.label, c.unknowns)
    rep.scope["function calls analysed"] = rep.scope.get("function calls analysed", 0) + 1
