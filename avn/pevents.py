"""Checks on what an analysed run does besides computing: errors, writes, effects, randomness,
devices, user calls - P18, P19, P20, P22, P23, P24, P27."""
import itertools
from . import terms as T, evalt, model
from .terms import (E, Atom, Lam, B, BCmp, BNary, BNot, app, sym, num, ge, eq, and_, or_, not_, CTX, ONE, ZERO, TRUE, FALSE)
from .values import *
from .model import DIM, N, M, K
from .flows import Run, Bad, S, ss, QI, occurrences
from .specs import cmp
from . import pquery

q = sym(QI)
ERRORS = ("shape", "index", "unbound", "attr", "type", "raise", "import", "empty", "usercall")


# ------------------------------------------------------------------ can a condition hold?
def finite(c):
    """the condition when every flow value is finite"""
    return T.resimplify(T.rewrite(c, lambda f: f in ("isnan", "isinf"), lambda f, a: FALSE))


def nonfinite_guarded(c):
    """a disjunct-free view: is the condition false whenever all values are finite?"""
    if not T.mentions_app(c, lambda f: f in ("isnan", "isinf")):
        return False
    d = finite(c)
    return d is FALSE or CTX.decide(d) is False


def consts(c):
    out = set()
    for x in T.walk(c):
        if isinstance(x, BCmp):
            for m, k in x.e.t.items():
                if m is T.MONE or not (m.bound or m.factors or m.ex is not None):
                    if k.denominator == 1 and 1 < abs(k) <= 10 ** 7:
                        out.add(abs(int(k)))
    return sorted(out)


def reachable(cond, ranges, cap=4000, scale=None):
    """-> (True, witness) | (False, why) | (None, why)"""
    if cond is FALSE or CTX.decide(cond) is False:
        return False, "refuted"
    if cond is TRUE or CTX.decide(cond) is True:
        return True, "always"
    cs = consts(cond)
    free = sorted(v for v in cond.free if v in ranges)
    arrays = any(isinstance(x, (Atom, T.BApp)) for x in T.walk(cond))
    sizes = [1, 2, 3]
    if not arrays:
        sizes += [7] + [c + d for c in cs[:6] for d in (-1, 0, 1)]
    n = 0
    tried = 0
    for kk in (14, 15, 19):
        for d, nn, m in itertools.product(sizes, [s for s in sizes if s > 1] + ([4] if arrays else []), sizes):
            env = {"dim": d, "N": nn, "M": m, "k": 3, "t1": 0.25, "t2": 0.25 + kk * 0.001 - 0.0002, "Q": 2}
            dom = []
            for v in free:
                try:
                    h = int(round(evalt.Ev(env, n)(ranges[v]))) if ranges[v] is not None else 4
                except evalt.Undef:
                    h = 4
                dom.append(range(min(h, 24)))
            for tup in itertools.product(*dom):
                tried += 1
                if tried > cap:
                    return False, f"no instance among {n}"
                e2 = dict(env)
                e2.update(zip(free, tup))
                try:
                    r = evalt.Ev(e2, n, scale=scale)(cond) if scale else evalt.Ev(e2, n)(cond)
                except (evalt.Undef,) + ((OverflowError, ZeroDivisionError) if scale else ()):
                    continue
                except evalt.HasUnknown as u:
                    return None, u.name
                n += 1
                if r:
                    return True, "at " + ", ".join(f"{k}={v}" for k, v in e2.items() if k in cond.free or k in ("dim", "N", "M"))
    if n:
        return False, f"no instance among {n}"
    return None, "condition not evaluable: " + T.show(cond)[:120]


def with_ties(c):
    """the condition when data (not index) values that are compared for equality happen to be equal"""
    def data(e):
        return any(isinstance(x, Atom) and x.kind == "app" and x.args[0] not in ("ceil", "floor", "floordiv", "mod", "len", "min", "max") or isinstance(x, Lam) for x in T.walk(e))
    hit = []

    def go(t):
        if isinstance(t, BCmp) and t.op == "eq" and data(t.e):
            hit.append(t)
            return TRUE
        if isinstance(t, BNot):
            return not_(go(t.x))
        if isinstance(t, BNary):
            xs = [go(x) for x in t.xs]
            return and_(*xs) if t.op == "and" else or_(*xs)
        return t
    r = go(c)
    return r if hit else None


def judge(rep, rule, subj, evs, run=None, extra_ranges=None):
    """error events -> obligations"""
    bad = 0
    seen = set()
    for e in evs:
        c = and_(e.pc, e.cond if e.cond is not None else TRUE)
        rg = {"@0": DIM, "@1": N, QI: run.k if run else None, S: run.k if run else None}
        for v, n in e.ctx:
            rg[v] = n
        rg.update(extra_ranges or {})
        w = f"{e.file}:{e.line} {e.func}"
        if nonfinite_guarded(c):
            continue
        bounds = {v: n for v, n in rg.items() if n is not None}
        with CTX.bounds(bounds):
            r, why = reachable(finite(c), rg)
            if r is False and e.kind in ("shape", "index", "unbound", "attr", "type"):
                t = with_ties(finite(c))
                if t is not None:
                    r, why = reachable(t, rg)
                    why += ", equal data values" if r else ""
            if r is False and why.startswith("no instance") and e.kind in ("plot", "effect", "globalwrite"):
                # a side effect may depend on the magnitude of the (finite) data
                for mag in (1e5, 1e8, 1e-5):
                    r, why = reachable(finite(c), rg, 60, lambda n, mag=mag: mag)
                    if r:
                        why += f", data of magnitude {mag:.0e}"
                        break
                    r = False
        if r is False:
            continue
        k = (e.kind, e.msg, w)
        if k in seen:
            continue
        seen.add(k)
        bad += 1
        (rep.bad if r else rep.und)(rule, subj, f"{e.kind}: {e.msg} ({why})", w)
    return bad


# ------------------------------------------------------------------ a run together with its queries
REGIONS = (("interior", lambda k: (ge(q - 6), ge(k - 6 - q))), ("first", lambda k: (ge(q - 1), ge(5 - q))), ("last", lambda k: (ge(q - k + 5), ge(k - 2 - q))))


def asks(run):
    """every query of the run in every region of the time index"""
    if getattr(run, "asked", None) is not None:
        return run.asked
    out = run.asked = []
    if run.k is None:
        return out
    for name in ("calculate_u", "check_if_covered"):
        for lab, fc in REGIONS:
            f = fc(run.k)
            u0 = len(run.I.unknowns)
            a = pquery.Ask(run, name, q, f)
            a.label, a.facts, a.name = f"{run.label()}.{name} ({lab} indices)", f, name
            a.unknowns = run.I.unknowns[u0:]
            out.append(a)
    return out


def unknowns(rep, rule, subj, us, w=""):
    for u in sorted(set(us))[:4]:
        rep.und(rule, subj, u, w)


def p22(run, rep):
    rule = "no shape, index, name or attribute error"
    subj = f"{run.label()} sampling" + (f" (end point as {run.y1kind})" if run.y1kind != "np" else "")
    if run.k is None:
        b = judge(rep, rule, subj, [e for e in run.events if e.kind in ERRORS], run)
        if not b:
            rep.und(rule, subj, "no flow Z with three axes is built" + (f" ({run.I.unknowns[0]})" if run.I.unknowns else ""))
        return
    b = judge(rep, rule, subj, [e for e in run.events if e.kind in ERRORS], run)
    if run.I.unknowns:
        unknowns(rep, rule, subj, run.I.unknowns)
    elif not b:
        rep.ok(rule, subj, f"{len(run.events)} events", "")
    Z, Bf = run.arr("Z"), run.arr("B")
    for nm, v in [("Z", Z), ("B", Bf)] + ([("Ztr", run.arr("Ztr"))] if run.br and run.rw else []):
        want = (DIM, N, run.k)
        okk = len(v.shape) == 3 and all(run.I.same_size(a, b_) is True for a, b_ in zip(v.shape, want))
        rep.put(okk, "flows have one row per dimension, one column per particle, one slice per time", f"{run.label()} {nm}", f"shape {[T.show(x) for x in v.shape]}", "")
    for a in asks(run):
        b = judge(rep, rule, a.label, [e for e in a.events if e.kind in ERRORS], run)
        if a.unknowns:
            unknowns(rep, rule, a.label, a.unknowns)
        elif not b:
            if a.name == "calculate_u" and not (isinstance(a.value, Arr) and a.value.ndim == 2):
                rep.und(rule, a.label, f"returns {describe(a.value)}")
            else:
                rep.ok(rule, a.label)


DEVRULES = ("dtype", "device")


def p23(run, rep, dev):
    """dev: the device the caller asked for (None: cpu)"""
    want = dev or "cpu"
    subj = f"{run.label()} device={dev}"
    rule = "tensors live on the requested device in double precision"
    b = judge(rep, rule, subj + " sampling", [e for e in run.events if e.kind in DEVRULES], run)
    if not b and not run.I.unknowns:
        rep.ok(rule, subj + " sampling")
    unknowns(rep, rule, subj + " sampling", run.I.unknowns)
    n0 = len(run.I.unknowns)
    for nm in ("Z", "B") + (("Ztr",) if run.rw and run.br else ()):
        v = run.arr(nm)
        rep.put(v.lib == "th" and v.dtype == "float64" and v.dev in (want, None if want == "cpu" else want), rule, f"{subj} {nm}", f"{nm} is {describe(v)} {v.dtype} on {v.dev}", "")
    for a in asks(run):
        b = judge(rep, rule, f"{a.label} device={dev}", [e for e in a.events if e.kind in DEVRULES], run)
        v = a.value
        if a.name == "calculate_u" and isinstance(v, Arr):
            rep.put(v.lib == "th" and v.dtype == "float64" and v.dev in (want, None if want == "cpu" else want), rule, f"{a.label} device={dev} result", f"result is {describe(v)} {v.dtype} on {v.dev}", "")
        elif not b:
            rep.ok(rule, f"{a.label} device={dev}")
        unknowns(rep, rule, f"{a.label} device={dev}", a.unknowns)


# ------------------------------------------------------------------ P24
def p24_events(rep, subj, evs, run=None):
    rule = "no external side effect"
    b = 0
    for e in evs:
        c = and_(e.pc, e.cond if e.cond is not None else TRUE)
        w = f"{e.file}:{e.line} {e.func}"
        if e.kind == "plot":
            if nonfinite_guarded(c):
                continue
            b += judge(rep, "plots only for non-finite flows", subj, [e], run)
        elif e.kind in ("effect", "globalwrite"):
            b += judge(rep, rule, subj, [e], run)
        elif e.kind == "logfmt":
            b += judge(rep, "log messages have one placeholder per argument", subj, [e], run)
    if not b:
        rep.ok(rule, subj, f"{len(evs)} events")


def p24(run, rep):
    p24_events(rep, f"{run.label()} sampling", run.events, run)
    unknowns(rep, "no external side effect", f"{run.label()} sampling", run.I.unknowns)
    for a in asks(run):
        p24_events(rep, a.label, a.events, run)
        unknowns(rep, "no external side effect", a.label, a.unknowns)
    rep.scope["log calls"] = len(run.I.logcalls)


# ------------------------------------------------------------------ P19
def p19_events(rep, subj, evs, run=None, allowed=()):
    rule = "caller-owned data is not written"
    b = judge(rep, rule, subj, [e for e in evs if e.kind == "callerwrite" and not any(e.msg.endswith(" " + a) for a in allowed)], run)
    if not b:
        rep.ok(rule, subj)


def p19(run, rep):
    sub = f"{run.label()} sampling" + (f" (end points as {run.y1kind})" if run.y1kind != "np" else "")
    p19_events(rep, sub, run.events, run)
    unknowns(rep, "caller-owned data is not written", sub, run.I.unknowns)
    for a in asks(run):
        p19_events(rep, a.label, a.events, run)
        unknowns(rep, "caller-owned data is not written", a.label, a.unknowns)


# ------------------------------------------------------------------ P20
def p20(run, rep):
    rule = "randomness comes from the global generator of the backend"
    subj = f"{run.label()}"
    b = judge(rep, rule, subj + " sampling", [e for e in run.events if e.kind == "rng"], run)
    home = "torch" if run.th else "numpy"
    for lib, kind, loc in dict.fromkeys(run.I.rngsites):
        if lib != home:
            b += 1
            rep.bad(rule, subj + " sampling", f"draws from the generator of {lib}", str(loc))
    if not b:
        rep.ok(rule, subj + " sampling", f"{len(set(run.I.rngsites))} draw sites")
    rule2 = "no clock, environment, hash or uninitialised value enters a result"

    def tainted(t):
        return sorted({a.args[0] if isinstance(a, Atom) else a.f for a in T.walk(t)
                       if (isinstance(a, Atom) and a.kind == "app" and a.args[0].startswith(("taint:", "uninit"))) or (isinstance(a, T.BApp) and a.f.startswith(("taint:", "uninit")))})
    for nm in ("Z", "B") + (("Ztr",) if run.rw and run.br else ()):
        for lab, s, f in (("first", ZERO, ()), ("second", ONE, ()), ("inner", ss, (ge(ss - 2), ge(run.k - 2 - ss))), ("last", run.k - 1, ())):
            e = run.slice(nm, s, f)
            tn = tainted(e)
            (rep.bad if tn else rep.ok)(rule2, f"{subj} {nm} {lab} slice", "depends on " + ", ".join(tn) if tn else "", "")
    unknowns(rep, rule2, subj, run.I.unknowns)
    r0 = len(run.I.rngsites)
    for a in asks(run):
        b = judge(rep, rule, a.label, [e for e in a.events if e.kind == "rng"], run)
        for lib, kind, loc in dict.fromkeys(run.I.rngsites[r0:]):
            if lib != home:
                b += 1
                rep.bad(rule, a.label, f"draws from the generator of {lib}", str(loc))
        r0 = len(run.I.rngsites)
        if not b:
            rep.ok(rule, a.label)
        v = a.value
        if isinstance(v, Arr):
            tn = tainted(a.body)
            (rep.bad if tn else rep.ok)(rule2, a.label, "depends on " + ", ".join(tn) if tn else "", "")
        elif isinstance(v, Unk):
            rep.und(rule2, a.label, v.why)


# ------------------------------------------------------------------ P18
def flow_keys(run):
    out = {}
    for nm in ("Z", "B") + (("Ztr",) if run.rw and run.br else ()):
        for lab, s, f in (("first", ZERO, ()), ("second", ONE, ()), ("inner", ss, (ge(ss - 2), ge(run.k - 2 - ss))), ("last", run.k - 1, ())):
            out[f"{nm} {lab} slice"] = run.slice(nm, s, f)
    for a in asks(run):
        v = a.value
        out[f"{a.name} {a.label.split('(')[-1]}"] = a.body if isinstance(v, Arr) else describe(v)
    return renumber(out)


def renumber(out):
    """flow cells are named after the loop that writes them: numbered by their order instead, so that two runs of
    which one has a further loop can be compared"""
    ids = {}
    for t in out.values():
        if isinstance(t, T.Term):
            T.mentions_app(t, lambda f: f.startswith("cell:") and "#" in f and ids.setdefault(f.split("#")[0], set()).add(f) and False)
    new = {}
    for flow, fs in ids.items():
        for i, f in enumerate(sorted(fs, key=lambda f: [int(x) if x.isdigit() else 0 for x in f.split("#")[1:]])):
            new[f] = f"{flow}#{i}"
    new = {a: b for a, b in new.items() if a != b}
    if not new:
        return out
    tmp = {a: "moved:" + a for a in new}

    def ren(t, m):
        return T.rewrite(t, lambda f: f in m, lambda f, args: T.app(m[f], *args))
    back = {"moved:" + a: b for a, b in new.items()}
    return {k: ren(ren(t, tmp), back) if isinstance(t, T.Term) else t for k, t in out.items()}


def same_terms(run, got, want):
    """two results as terms (or descriptions): True, False, or None (cannot tell)"""
    if not isinstance(got, T.Term) or not isinstance(want, T.Term):
        return got == want
    if got.key == want.key:
        return True
    if isinstance(got, T.B) != isinstance(want, T.B):
        return False
    if isinstance(got, T.B):
        got, want = T.ind(got), T.ind(want)
    st, _ = cmp(run, got, want)
    return {"same": True, "diff": False}.get(st)


def p18(root, cfg, rep):
    ref = flow_keys(Run(root, *cfg))
    run = Run(root, *cfg, kern="periodic")
    got = flow_keys(run)
    w = f"{run.cls}.__init__"
    for k in ref:
        rep.put(same_terms(run, got.get(k), ref[k]), "periodic gives the same result as RBF", f"{run.label()} {k}", "the two runs differ", w)
    rule = "every score estimate uses the RBF kernel with constant 0.001"
    bad = 0
    for r in (run,):
        for sc in r.I.scorecalls:
            if CTX.decide(sc["pc"]) is False:
                continue
            if sc["kern"] != "RBF" or sc["C"].key != num(T.Fraction(1, 1000)).key:
                bad += 1
                rep.bad(rule, run.label(), f"kern={sc['kern']}, C={T.show(sc['C'])}", str(sc["where"]))
    if not bad:
        rep.ok(rule, run.label(), f"{len(run.I.scorecalls)} estimator calls")
    rep.scope["estimator calls"] = len(run.I.scorecalls)
    warn = [l for l in run.I.logcalls if l[0] in ("warning", "warn", "error", "critical", "log") and CTX.decide(l[2]) is not False]
    warn += [e for e in run.events if e.kind == "warn"]
    rep.put(bool(warn), "the fallback is announced by a warning", run.label(), "no warning is logged when 'periodic' is requested", w)
    unknowns(rep, rule, run.label(), run.I.unknowns)


# ------------------------------------------------------------------ P34
def p34(root, cls, det, rep):
    """options that a mode does not use change nothing"""
    rule = "options a mode does not use have no influence"
    cases = [((False, False), (False, False), ("U",), "a path constraint without reweight", ("U",)),
             ((False, False), (False, False), ("f_true",), "a true drift without bridge", ("f_true",)),
             ((False, False), (False, True), (), "brown_bridge without reweight", ("f_true",)),
             ((False, False), (False, True), ("U",), "brown_bridge and a path constraint without reweight", ("U", "f_true")),
             ((True, False), (True, False), ("f_true",), "a true drift without bridge", ("f_true",)),
             ((True, False), (True, True), (), "brown_bridge, for the forward flow", ())]
    ref = {}
    for base, (rw, br), give, what, unused in cases:
        if base not in ref:
            r = Run(root, cls, det, *base)
            ref[base] = r, flow_keys(r)
        want = ref[base][1]
        run = Run(root, cls, det, rw, br, give=give)
        got = flow_keys(run)
        lab = f"{ref[base][0].label()} given {what}"
        for k in want:
            if (rw, br) == (True, True) and not k.startswith("Z "):
                continue
            if (rw, br) == (True, True) and k.startswith("Z ") and run.k is None:
                continue
            rep.put(same_terms(run, got.get(k), want[k]), rule, f"{lab}: {k}", "the results differ from those without it", cls)
        used = []
        for u in run.I.usercalls:
            if u.name in unused:
                rg = {QI: run.k, **dict(u.loops)}
                with CTX.bounds({v: n for v, n in rg.items() if n is not None}):
                    hit = reachable(u.pc, {v: n for v, n in rg.items() if n is not None})[0]
                if hit is not False:
                    used.append(u)
                    (rep.bad if hit else rep.und)("callables a mode does not use are not called", lab, f"{u.name} is called", str(u.where))
        if not used:
            rep.ok("callables a mode does not use are not called", lab)
        b = judge(rep, rule, lab, [e for e in run.events if e.kind in ERRORS], run)
        unknowns(rep, rule, lab, run.I.unknowns)
    rep.scope["class"] = [cls]


# ------------------------------------------------------------------ P27
def proposal(run, u, s):
    """is the state of call u the slice s of the forward flow before the particles are transported?"""
    from . import specs
    worst = None
    for lab, st, facts in specs.forward_parts(run, "Z"):
        tr = specs.strip_transport(run.slice("Z", st, facts))
        if tr is None:
            return worst
        mp = None
        for v, n in u.loops:
            if v in s.free:
                sol = T.solve_lin(s - st, v)
                if sol is None:
                    return worst
                mp = {v: sol}
        if mp is None:
            if s.key != st.key:
                continue
            mp = {}
        pc = T.subst(u.pc, mp) if isinstance(u.pc, T.Term) else u.pc
        with run.bounds(), CTX.fact(*facts):
            if CTX.decide(pc) is False:
                continue
            body = run.expand(T.resimplify(T.subst(u.body, mp)), st)
        r = cmp(run, body, tr[0] * T.power(N, -1), facts)
        if r[0] != "same" and cmp(run, body, tr[0], facts)[0] != "same":
            return r
        worst = r
    return worst


def p27(run, rep):
    rule = "callables get the state of one slice and its own time"
    I = run.I
    b = judge(rep, "callables get two positional arguments", run.label(), [e for e in run.events if e.kind == "usercall"], run)
    if not b:
        rep.ok("callables get two positional arguments", run.label(), f"{run.nuse} call sites")
    h = run.step()
    flows_ = [nm for nm in ("Z", "B", "Ztr") if isinstance(run.attr(nm), Arr)]
    names = set()
    for i, u in enumerate(I.usercalls[:run.nuse]):
        names.add(u.name)
        x = u.args[0]
        subj = f"{run.label()} call {i + 1} of {u.name}"
        bounds = {v: n for v, n in u.loops if n is not None}
        with CTX.bounds(bounds), CTX.fact(u.pc):
            s = T.resimplify((u.t - sym("t1")) * T.power(h, -1))
            ii = T.is_int(s)
        bounds.update({"@0": DIM, "@1": N})
        with CTX.bounds(bounds), CTX.fact(u.pc):
            body = T.resimplify(I.resolve(u.body))
            free = [v for v in body.free if v[0] == "%" and v not in bounds] if x.ndim == 1 else []
            res = None
            cols = [ph(1)] if x.ndim == 2 else [sym(v) for v in sorted(free)] + [sym(v) for v, n in u.loops if n is not None and n.key == N.key]
            why = "state is not a slice of a flow"
            if x.ndim == 1 and not cols:
                cols = [ZERO]
            for nm in flows_:
                for c in cols:
                    want = T.resimplify(run.at(nm, ph(0), c, s))
                    rg = dict(bounds)
                    r = cmp(run, body, want, (u.pc,) if u.pc is not TRUE else (), ranges=rg)
                    if r[0] == "same":
                        res = r
                        break
                    if r[0] == "diff" and nm in str(body.key):
                        why = f"the state is not slice (t - t1)/dt = {T.show(s)} of {nm}: " + r[1]
                    if r[0] == "unknown":
                        res = res or r
                if res and res[0] == "same":
                    break
        if (res is None or res[0] != "same") and run.rw:
            r2 = proposal(run, u, s)
            res = r2 if r2 is not None else res
            if res is not None and res[0] == "diff":
                why, res = res[1], None
        if res is None or res[0] != "same":
            if res is None:
                rep.bad(rule, subj, f"time {T.show(u.t)}: {why}", str(u.where))
            else:
                rep.und(rule, subj, f"time {T.show(u.t)}: {res[1]}", str(u.where))
        else:
            rep.ok(rule, subj, f"slice {T.show(s)}", str(u.where))
    exp = {"f"} | ({"U"} if run.rw else set()) | ({"f_true"} if run.br and run.rw else set())
    for nm in exp:
        rep.put(nm in names, "the supplied callable is used", f"{run.label()} {nm}", f"{nm} is never called", "")
    unknowns(rep, rule, run.label(), I.unknowns)
