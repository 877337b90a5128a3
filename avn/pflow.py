"""Checks P01-P08, P12 (sampling part) and P17 on one configuration."""
from fractions import Fraction
from . import terms as T, evalt, flows, specs
from .terms import (E, Atom, Lam, BCmp, app, sym, num, ge, eq, and_, not_, ite, CTX, ONE, ZERO)
from .values import *
from .model import DIM, N, M, K
from .flows import Run, Bad, S, ss, occurrences, NPCLS, THCLS
from .specs import cmp, verdict, deny, where_written, noise, injective, scores, strip_transport, em_step, classify, score_term
from .report import Report

HALF = Fraction(1, 2)


def yvec(run, name):
    return app(name, ph(0))


def step_code(run, flow, s, facts):
    """one step of a flow before transport -> (step term, transport or None)"""
    e = run.slice(flow, s, facts)
    if not T.mentions_app(e, lambda f: f.startswith(("otplan", "sinkhornplan"))):
        return e, None
    with run.bounds(), CTX.fact(*facts):
        st = strip_transport(e)
        if st is None:
            return None, e
        n_step = T.resimplify(st[0] * T.power(N, -1))
    return n_step, (e, st[1], st[2])


# ---------------------------------------------------------------- P01 / P02
def p01(run, rep):
    for flow in ("Z",) + (("Ztr",) if run.rw and run.br else ()):
        e = run.slice(flow, ZERO)
        verdict(rep, "first slice equals y1", f"{run.label()}.{flow}", cmp(run, e, yvec(run, "y1")), where_written(run, flow))


def p02(run, rep):
    w = where_written(run, "B")
    verdict(rep, "last slice equals y2", f"{run.label()}.B", cmp(run, run.slice("B", run.k - 1), yvec(run, "y2")), w)
    verdict(rep, "first slice equals y1", f"{run.label()}.B", cmp(run, run.slice("B", ZERO), yvec(run, "y1")), w)


# ---------------------------------------------------------------- P03 / P04 / P05
def check_noise(run, rep, R, names, subj, w, s, terms=()):
    if len(names) != 1:
        deny(rep, "independent Gaussian noise", subj, "no Gaussian noise enters this step" if not names else f"{len(names)} noise sources", w, *terms)
        return
    r = injective(run, R, ("@0", "@1") + ((S,) if s.key == ss.key else ()))
    rep.put(r, "independent Gaussian noise", subj, "the same random number serves several coordinates, particles or time steps" if r is False else "cannot index the noise", w)


def either(run, code, spec, facts, R):
    """the noise is symmetric: a step written with sqrt(g**2 dt) has the same law"""
    r = cmp(run, code, spec, facts)
    if r[0] != "diff" or R is None:
        return r
    g = run.g
    r2 = cmp(run, code, spec + T.sqrt(run.step()) * (T.absE(g) - g) * R, facts)
    return r2 if r2[0] == "same" else r


def forward(run, rep, flow, fname, ode, only=None):
    w = where_written(run, flow)
    sites = {}
    for label, s, facts in specs.forward_parts(run, flow):
        subj = f"{run.label()}.{flow} {label}"
        code, tr = step_code(run, flow, s, facts)
        if code is None:
            # the whole slice, transport included, is not of the transported form
            code = tr
            rep.und("step equation", subj, "transport of unrecognised form", w)
            continue
        first = s.key == ONE.key
        use_ode = ode and not first
        R, names = noise(code)
        if use_ode:
            spec = em_step(run, flow, fname, s, None)
            scs = scores(code)
            by, left = classify(run, scs, s - 1, [flow])
            sc = by.get(flow) or (list(scs.values())[0] if scs else None)
            if sc is None:
                deny(rep, "step equation", subj, "no score estimate enters this step", w, code)
                continue
            with run.bounds():
                spec = spec - run.step() * HALF * T.power(run.g, 2) * score_term(run, sc, flow, flow, s - 1)
        else:
            check_noise(run, rep, R, names, subj, w, s, (code,))
            if R is None:
                continue
            spec = em_step(run, flow, fname, s, R)
            sites[names[0]] = R
        verdict(rep, "step equation", subj, either(run, code, spec, facts, None if use_ode else R), w)
    return sites


def p03(run, rep):
    if run.det:
        forward(run, rep, "Z", "f", True)


def p04(run, rep):
    if not run.det:
        forward(run, rep, "Z", "f", False)


def p05(run, rep):
    w = where_written(run, "Ztr")
    has = run.rw and run.br
    if has:
        sites = forward(run, rep, "Ztr", "f_true", True)
        for label, s, facts in specs.forward_parts(run, "Ztr"):
            e = run.slice("Ztr", s, facts)
            subj = f"{run.label()}.Ztr {label}"
            tr = T.mentions_app(e, lambda f: f.startswith(("otplan", "sinkhornplan", "call:U")))
            rep.put(not tr, "reference flow is not reweighted", subj, "the slice depends on the path constraint or a transport plan", w)
            # independent of the main flow
            dep = T.mentions_app(e, lambda f: f.startswith("cell:Z#") or f.startswith("cell:B#"))
            rep.put(not dep, "reference flow depends on itself only", subj, "the slice depends on the constrained flow", w)
    # f_true elsewhere
    for flow in ("Z", "B"):
        for label, s, facts in (specs.forward_parts(run, "Z") if flow == "Z" else specs.backward_parts(run, "B")):
            e = run.slice(flow, s, facts)
            bad = T.mentions_app(e, lambda f: f == "call:f_true")
            rep.put(not bad, "f_true is used only for the reference flow", f"{run.label()}.{flow} {label}", "the true drift enters this flow", where_written(run, flow))
    calls = [c for c in run.I.usercalls[:run.nuse] if c.name == "f_true"]
    if not has:
        rep.put(not calls, "no reference flow is sampled in this mode", run.label(), "f_true is called", "; ".join(sorted({c.where for c in calls})))


# ---------------------------------------------------------------- P06
def p06(run, rep):
    w = where_written(run, "B")
    h = run.step()
    g2 = T.power(run.g, 2)
    fsites = set()
    for label, s, facts in specs.forward_parts(run, "Z"):
        fsites |= {a.args[0] for a, _ in occurrences(run.slice("Z", s, facts), lambda n: n.startswith("rnd:"))}
    for label, s, facts in specs.backward_parts(run, "B"):
        subj = f"{run.label()}.B {label}"
        e = run.slice("B", s, facts)
        o = s + 1
        ode = run.det and s.key != (run.k - 2).key
        R, names = noise(e)
        scs = scores(e)
        by, left = classify(run, scs, o, ["Z", "B"])
        fw = by.get("Z") or (left[0] if left else None)
        if fw is None:
            deny(rep, "step equation", subj, "no score of the forward cloud enters this step", w, e)
            continue
        with run.bounds():
            sf = score_term(run, fw, "Z", "B", o)
            if ode:
                bw = by.get("B") or next((x for x in left if x is not fw), None)
                if bw is None:
                    deny(rep, "step equation", subj, "no score of the backward cloud enters this step", w, e)
                    continue
                sb = score_term(run, bw, "B", "B", o)
                spec = em_step(run, "B", "f", s, None, back=True) + h * g2 * sf - h * g2 * HALF * sb
            else:
                check_noise(run, rep, R, names, subj, w, s, (e,))
                if R is None:
                    continue
                if names and names[0] in fsites:
                    rep.bad("independent Gaussian noise", subj, "backward step reuses the noise of the forward flow", w)
                spec = em_step(run, "B", "f", s, R, back=True) + h * g2 * sf
        verdict(rep, "step equation", subj, either(run, e, spec, facts, None if ode else R), w)


# ---------------------------------------------------------------- P07 / P08
def p07(run, rep):
    w = where_written(run, "Z")
    calls = [c for c in run.I.usercalls[:run.nuse] if c.name == "U"]
    if not run.rw:
        rep.put(not calls, "U is not called without reweighting", run.label(), "U is called", "; ".join(sorted({c.where for c in calls})))
        for label, s, facts in specs.forward_parts(run, "Z"):
            e = run.slice("Z", s, facts)
            bad = T.mentions_app(e, lambda f: f.startswith(("otplan", "sinkhornplan", "call:U")))
            rep.put(not bad, "no transport without reweighting", f"{run.label()}.Z {label}", "the slice is transported", w)
        return
    h = run.step()
    for label, s, facts in specs.forward_parts(run, "Z"):
        subj = f"{run.label()}.Z {label}"
        code, tr = step_code(run, "Z", s, facts)
        if tr is None:
            deny(rep, "slice is transported", subj, "the slice is not transported", w, run.slice("Z", s, facts))
            continue
        if code is None:
            rep.und("slice is transported", subj, "transport of unrecognised form", w)
            continue
        e, plan, orient = tr
        rep.ok("slice is transported", subj)
        la = plan.args[1]
        # weights proportional to exp(U(x_t, t) dt), normalised
        with run.bounds(), CTX.fact(*facts):
            vn = T.fresh()
            with CTX.bounds({vn: N}):
                def wt(n):
                    vd = T.fresh()
                    with CTX.bounds({vd: DIM}):
                        x = T.lam((DIM,), (vd,), T.subst(code, {"@0": sym(vd), "@1": n}))
                    return T.exp(h * app("call:U", x, run.time(s)))
                tot = T.sum_over(wt(sym(vn)), vn, N)
            want = wt(ph(1)) * T.power(tot, -1)
            have = T.lam_apply(la, [ph(1)])
        r = cmp(run, have, want, facts)
        if r[0] == "unknown" and r[1].startswith("pre:"):
            r = carried(run, have, want, facts) or r
        verdict(rep, "weights are exp(U dt) normalised", subj, r, w)
        # the backward flow is never transported
    for label, s, facts in specs.backward_parts(run, "B"):
        e = run.slice("B", s, facts)
        rep.put(not T.mentions_app(e, lambda f: f.startswith(("otplan", "sinkhornplan", "call:U"))), "only forward slices are transported", f"{run.label()}.B {label}", "the path constraint enters the backward step", where_written(run, "B"))


def carried(run, have, want, facts):
    """do the weights depend on a value that the loop carries over from the slices before?"""
    isp = lambda f: f.startswith("pre:")
    names = set()
    T.rewrite(have, isp, lambda f, args: (names.add(f), app(f, *args))[1])
    if not names or T.mentions_app(want, isp):
        return None
    hits = 0
    for seed, env in evalt.environments(4):
        env = dict(env)
        env.setdefault(S, 5)
        env["@1"] = 0
        try:
            xs = []
            for j in (1, 2):
                val = lambda ev, args, j=j: 0.3 + evalt.hsh("carried", j, seed, *[round(float(ev(x)), 6) for x in args])
                xs.append(evalt.Ev(dict(env), seed, interp={n: val for n in names})(have))
        except (evalt.Undef, evalt.HasUnknown):
            continue
        if abs(xs[0] - xs[1]) > 1e-3 * (abs(xs[0]) + abs(xs[1])):
            hits += 1
    if hits >= 2:
        v = ", ".join(sorted(n.split(":")[-1] for n in names))
        return "diff", f"they depend on what {v} held after the slice before"
    return None


def cost_ok(run, lm, x):
    """lm(i,j) is (a positive multiple of) the Euclidean or squared Euclidean distance of particles i, j.
    x: term of particle position over (@0 coordinate, @1 particle)"""
    ii, jj = "%ci", "%cj"
    T.INTS.update({ii, jj})
    with CTX.bounds({ii: N, jj: N}):
        c = T.lam_apply(lm, [sym(ii), sym(jj)])
        v = T.fresh()
        with CTX.bounds({v: DIM}):
            d = T.subst(x, {"@0": sym(v), "@1": sym(ii)}) - T.subst(x, {"@0": sym(v), "@1": sym(jj)})
            sq = T.sum_over(d * d, v, DIM)
    done = 0
    why = ""
    for seed, env, mag in [(i, e, 1) for i, e in evalt.environments(6)] + [(i, dict(e), m) for m in (1e4, 1e-3) for i, e in evalt.environments(3)]:
        n = env["N"]
        env.setdefault(S, 5)
        rs = []
        try:
            ratios2, ratios1 = [], []
            for i in range(n):
                for j in range(n):
                    e2 = dict(env)
                    e2.update({ii: i, jj: j})
                    ev = evalt.Ev(e2, seed, scale=None if mag == 1 else lambda name: mag)
                    cv, sv = ev(c), ev(sq)
                    if i == j:
                        if abs(cv) > 1e-5 * max(1, mag) ** 2:
                            return False, "the cost of staying in place is not zero"
                        continue
                    if sv < 1e-12 * mag ** 2:
                        continue
                    ratios2.append(cv / sv)
                    ratios1.append(cv / sv ** 0.5)
        except evalt.Undef:
            continue
        except evalt.HasUnknown as u:
            return None, u.name
        if n > 2 and ratios2:
            tol = 1e-7 if mag == 1 else 1e-4
            a = max(ratios2) - min(ratios2) < tol * ((mag == 1) + abs(ratios2[0])) and min(ratios2) > 0
            b = max(ratios1) - min(ratios1) < tol * ((mag == 1) + abs(ratios1[0])) and min(ratios1) > 0
            if not (a or b):
                return False, f"with {n} particles in {env['dim']} dimensions{f' and positions of magnitude {mag:.0e}' if mag != 1 else ''} the cost is not a multiple of the (squared) Euclidean distance"
            done += 1
    return (True, "") if done >= 2 else (None, "cost could not be evaluated")


def p08(run, rep):
    if not run.rw:
        return
    w = where_written(run, "Z")
    for label, s, facts in specs.forward_parts(run, "Z"):
        subj = f"{run.label()}.Z {label}"
        e = run.slice("Z", s, facts)
        transport_ok(run, rep, e, facts, subj, w)


def transport_ok(run, rep, e, facts, subj, w):
    occ = [a for a, _ in occurrences(e, lambda n: n.startswith("otplan"))]
    if not occ:
        deny(rep, "map is N times the optimal plan", subj, "no optimal-transport plan enters the map", w, e)
        return
    with run.bounds(), CTX.fact(*facts):
        st = strip_transport(e)
    if st is None and len({tuple(x.key for x in a.args[1:4]) for a in occ}) > 1:
        rep.und("map is N times the optimal plan", subj, "transport of unrecognised form", w)
        return
    if st is None:
        deny(rep, "map is N times the optimal plan", subj, "the new particles are not the combination of the old ones given by the target columns of the plan", w, e)
        return
    step, plan, orient = st
    rep.put(orient == "rows", "new particles use target columns of the plan", subj, "the plan is applied transposed: particles are combined along source rows", w)
    with run.bounds(), CTX.fact(*facts):
        core = T.resimplify(step * T.power(N, -1))
    la, lb, lm = plan.args[1:4]
    with CTX.bounds({"@1": N}):
        tb = T.lam_apply(lb, [ph(1)])
        wb = T.lam_apply(la, [ph(1)])
    verdict(rep, "target weights are uniform", subj, cmp(run, tb, T.power(N, -1), facts), w)
    # the particles the weights belong to
    pts = None
    for a, env in occurrences(wb, lambda n: n == "call:U"):
        if "@1" in a.args[1].free:
            with run.bounds():
                pts = T.lam_apply(a.args[1], [ph(0)])
            break
    if pts is None:
        deny(rep, "source weights are those of the transported particles", subj, "the weights do not depend on the particles", w, e)
        return
    verdict(rep, "new particle = N * sum of old particles times plan", subj, cmp(run, core, pts, facts), w)
    ok, why = cost_ok(run, lm, pts)
    rep.put(ok, "cost is the (squared) Euclidean distance over all coordinates", subj, why, w)


def p08_function(root, rep):
    """the NumPy transport-map function on its own"""
    from . import model
    s = model.Session(root)
    I = s.I
    T.INTS.update({"%i", "%j"})
    name = flows.model.PKG + ".reweighting.optimal_transport_reweighting"
    fn = "reweight_optimal_transport_multidim"
    f = s.loader.load(name, I).frame.vars.get(fn)
    subj = fn
    if not isinstance(f, Func):
        raise Bad(f"{fn} not found")
    w = f"{f.qual}"
    X = mk((N, DIM), app("X", ph(0), ph(1)), "np", "float64", None, owner="samples")
    for wshape in ((N,), (N, ONE)):
        wt = mk(wshape, app("w", ph(0)), "np", "float64", None, owner="weights")
        sj = f"{subj}({'vector' if len(wshape) == 1 else 'column'} of weights)"
        r = I.force(I.call(f, [X, wt], {}))
        if not isinstance(r, Arr) or r.ndim != 2:
            (rep.und if isinstance(r, Unk) else rep.bad)("map is N times the optimal plan", sj, f"returns {describe(r)}", w)
            continue
        b = I.nbody(r)
        occ = [a for a, _ in occurrences(b, lambda n: n.startswith("otplan"))]
        if len({a.args[3].key + a.args[1].key + a.args[2].key for a in occ}) != 1:
            deny(rep, "map is N times the optimal plan", sj, f"{len(occ)} transport plans enter the map", w, b)
            continue
        a = occ[0]
        la, lb, lm = a.args[1:4]
        rr = FnRun(s)
        with CTX.bounds({"@0": N, "@1": N}):
            want = N * app("otplan", la, lb, lm, ph(0), ph(1))
            verdict(rep, "map is N times the optimal plan", sj, cmp(rr, b, want, ranges={"@0": N}), w)
            verdict(rep, "source weights are the given weights", sj, cmp(rr, T.lam_apply(la, [ph(0)]), app("w", ph(0)), ranges={"@0": N}), w)
            verdict(rep, "target weights are uniform", sj, cmp(rr, T.lam_apply(lb, [ph(0)]), T.power(N, -1), ranges={"@0": N}), w)
        ok, why = cost_ok(rr, lm, app("X", ph(1), ph(0)))
        rep.put(ok, "cost is the (squared) Euclidean distance over all coordinates", sj, why, w)
        wr = [e for e in I.events if e.kind == "callerwrite"]


class FnRun:
    """stand-in for a Run when a plain function is analysed"""

    def __init__(self, s):
        self.s, self.I, self.k = s, s.I, num(14)
        self.th = False

    def bounds(self):
        return CTX.bounds({"@0": N, "@1": N})


# ---------------------------------------------------------------- P12
def inducing(run, rep, sc, cloud_bounds, own, subj, w, s, facts, rname="inducing points"):
    """cloud_bounds: list of acceptable (lo, hi) terms over @0 under cases [(case label, extra facts, interp)]"""
    name, lX, lS, ll, C, _ = sc
    m, d = "@m", "@0"
    T.INTS.add(m)
    ok_sizes = lS.sizes[0].key == M.key and lS.sizes[1].key == DIM.key
    rep.put(ok_sizes, "M inducing points", subj, f"{T.show(lS.sizes[0])} points of {T.show(lS.sizes[1])} coordinates", w)
    with run.bounds(), CTX.bounds({m: M}), CTX.fact(*facts):
        p = T.lam_apply(lS, [sym(m), ph(0)])
        rnds = {}
        for a, _ in occurrences(p, lambda n: n.startswith("rnd:")):
            rnds[a.key] = a
        if len(rnds) != 1:
            deny(rep, f"{rname} uniform between the cloud extremes", subj, f"{len(rnds)} random numbers per coordinate of a point", w, p)
            return
        a = list(rnds.values())[0]
        if not a.args[0].startswith("rnd:uniform"):
            rep.bad(f"{rname} uniform between the cloud extremes", subj, f"drawn with {a.args[0].split(':')[1]}", w)
            return
        vs = (m, "@0") + ((S,) if S in a.free else ())
        inj = injective(run, T.atomE(a), vs)
        rep.put(inj, "inducing points drawn independently per coordinate", subj, "several points or coordinates share one random number", w)
        at = lambda x: T.resimplify(T.rewrite(p, lambda f: f == a.args[0], lambda f, args: x))
        lo, hi = at(ZERO), at(ONE)
        mid = at(num(HALF))
    for clabel, interp, wants in cloud_bounds:
        res = []
        for wlo, whi in wants:
            r1 = cmp(run, lo, wlo, facts, interp=interp)
            r2 = cmp(run, hi, whi, facts, interp=interp)
            r3 = cmp(run, mid + mid, wlo + whi, facts, interp=interp)
            res.append((r1, r2, r3))
        good = [r for r in res if all(x[0] == "same" for x in r)]
        sj = subj + (f" ({clabel})" if clabel else "")
        if good:
            rep.ok(f"{rname} uniform between the cloud extremes", sj, good[0][0][1], w)
        else:
            worst = [x for x in res[0] if x[0] != "same"][0]
            verdict(rep, f"{rname} uniform between the cloud extremes", sj, worst, w)
    # length-scales: twice the standard deviation of the own cloud
    with run.bounds(), CTX.fact(*facts):
        l = T.lam_apply(ll, [ph(0)])
        v = T.fresh()
        with CTX.bounds({v: N}):
            cl = T.lam((N,), (v,), T.lam_apply(lX, [sym(v), ph(0)]))
        wants = [app("std", cl, num(dd)) * 2 for dd in (0, 1)]
    rs = [cmp(run, l, x, facts) for x in wants]
    good = [r for r in rs if r[0] == "same"]
    verdict(rep, "length-scale is twice the standard deviation", subj, good[0] if good else rs[1 if run.th else 0], w)


def extremes(run, flow, o):
    with run.bounds():
        v = T.fresh()
        with CTX.bounds({v: N}):
            b = run.at(flow, ph(0), sym(v), o)
            return T.red("redmin", b, v, N), T.red("redmax", b, v, N)


def overlap(a, b):
    return T.maxE(a[0], b[0]), T.minE(a[1], b[1])


def hull(a, b):
    return T.minE(a[0], b[0]), T.maxE(a[1], b[1])


def collapsed_interp(run, flow):
    """interpretation in which every slice of a flow is one point"""
    a = run.arr(flow, 3)
    names = {x.args[0] for x in T.apps(run.I.nbody(a), lambda f: f.startswith("cell:"))}

    def f(ev, args, name=None):
        xs = [ev(args[0]), ev(args[2])]
        return ev.generic("collapsed", xs)
    return {n: f for n in names}


def p12_flow(run, rep):
    for flow in ("Z",) + (("Ztr",) if run.rw and run.br else ()):
        if flow == "Z" and not run.det:
            continue
        w = where_written(run, flow)
        for label, s, facts in specs.forward_parts(run, flow):
            if s.key == ONE.key:
                continue
            e = run.slice(flow, s, facts)
            subj = f"{run.label()}.{flow} {label}"
            o = s - 1
            scs = scores(e)
            by, left = classify(run, scs, o, [flow])
            if not scs:
                deny(rep, "inducing points uniform between the cloud extremes", subj, "no score estimate enters this step", w, e)
            for sc in list(by.values()) + left:
                inducing(run, rep, sc, [("", None, [extremes(run, flow, o)])], flow, subj, w, s, facts)
    w = where_written(run, "B")
    for label, s, facts in specs.backward_parts(run, "B"):
        e = run.slice("B", s, facts)
        o = s + 1
        by, left = classify(run, scores(e), o, ["Z", "B"])
        ez, eb = extremes(run, "Z", o), extremes(run, "B", o)
        for f, sc in list(by.items()) + [("?", x) for x in left]:
            subj = f"{run.label()}.B {label} score of {f}"
            last = s.key == (run.k - 2).key
            if run.th:
                if last:
                    cases = [("", collapsed_interp(run, "B"), [ez])]      # the backward cloud is the single point y2 here
                else:
                    cases = [("", None, [hull(ez, eb)])]
                    if f == "Z":
                        cases.append(("collapsed backward cloud", collapsed_interp(run, "B"), [ez]))
            else:
                cases = [("", None, [overlap(ez, eb)])]
            inducing(run, rep, sc, cases, f, subj, w, s, facts)


# ---------------------------------------------------------------- P17
def p17(run, rep):
    tg = run.arr("timegrid", 1)
    h = run.step()
    lab = run.label()
    w = "; ".join(sorted({f"{e.file}:{e.line} {e.func}" for e in run.events if e.kind == "attrwrite" and e.msg.endswith((".timegrid", ".k"))}))
    b = run.I.nbody(tg)
    with CTX.bounds({"@0": tg.shape[0]}):
        verdict(rep, "grid starts at t1", lab, cmp(run, T.subst(b, {"@0": ZERO}), sym("t1")), w)
        verdict(rep, "grid is uniformly spaced", lab, cmp(run, b, sym("t1") + ph(0) * h, ranges={"@0": tg.shape[0]}), w)
    want = T.rounding("ceil", (sym("t2") - sym("t1")) * T.power(h, -1) + num(HALF))
    def count(x):
        fr = (0.02, 0.2, 0.35, 0.45, 0.55, 0.65, 0.8, 0.95)
        with run.bounds():
            return evalt.compare(x, want, n=8, extra=lambda s, env: {"t2": env["t1"] + (20 + s + fr[s % 8]) * 0.001})
    verdict(rep, "grid has ceil((t2-t1)/dt + 1/2) points", lab, count(tg.shape[0]), w)
    k = run.attr("k")
    if k is not None:
        try:
            verdict(rep, "k is the number of grid points", lab, count(run.I.asE(k)), w)
        except Exception as ex:
            rep.und("k is the number of grid points", lab, str(ex), w)
    for flow in ("Z", "B") + (("Ztr",) if run.rw and run.br else ()):
        a = run.arr(flow, 3)
        for i, (x, y) in enumerate(zip(a.shape, (DIM, N, want))):
            verdict(rep, "flow has one dimension-by-particles slice per grid point", f"{lab}.{flow} axis {i}", cmp(run, x, y), where_written(run, flow))
    # the integration step of every update
    for flow, fname, back in (("Z", "f", False), ("B", "f", True)) + ((("Ztr", "f_true", False),) if run.rw and run.br else ()):
        parts = specs.backward_parts(run, flow) if back else specs.forward_parts(run, flow)
        w2 = where_written(run, flow)
        for label, s, facts in parts:
            subj = f"{lab}.{flow} {label}"
            code, tr = step_code(run, flow, s, facts)
            if code is None:
                rep.und("updates use the grid step", subj, "transport of unrecognised form", w2)
                continue
            fa = {}
            for a, env in occurrences(code, lambda n: n == "call:" + fname):
                if not any(v[0] == "$" for v in a.free - a.args[1].free) and not nested(code, a):
                    fa[a.key] = a
            if len(fa) != 1:
                deny(rep, "updates use the grid step", subj, f"{len(fa)} drift evaluations enter the update", w2, code)
                continue
            a = list(fa.values())[0]
            with run.bounds(), CTX.fact(*facts):
                c = coefficient(code, a)
            if c is None:
                rep.und("updates use the grid step", subj, "drift does not enter linearly", w2)
                continue
            verdict(rep, "updates use the grid step", subj, cmp(run, c, -h if back else h, facts), w2)


def nested(e, a):
    """does atom a occur only inside other atoms of e?"""
    return coefficient(e, a) is None


def coefficient(e, a):
    c = ZERO
    hit = False
    for m, k in e.t.items():
        f = [(x, p) for x, p in m.factors if x.key == a.key]
        if f:
            if f[0][1] != 1 or m.bound:
                return None
            hit = True
            c = c + T._build(k, [], [(x, p) for x, p in m.factors if x.key != a.key], m.ex)
    return c if hit else None


# ---------------------------------------------------------------- P36
def p36(run, rep):
    """the samplers are called again on an object whose flows hold arbitrary values"""
    I = run.I
    rule = "sampling again replaces the flows"
    bridge = run.rw and run.br
    names = ["Z", "B"] + (["Ztr"] if bridge else [])
    for nm in names:
        old = run.arr(nm, 3)
        a = mk(old.shape, app("old:" + nm, ph(0), ph(1), ph(2)), old.lib, old.dtype, old.dev)
        a.store.site = nm
        I.S.attrs[(run.obj.oid, nm)] = a
    run.__dict__.pop("_ground", None)
    n0, u0, k0 = len(I.events), len(I.unknowns), run.k
    seq = ["forward_sampling_Otto" if run.det else "forward_sampling"] + (["forward_sampling_Otto_true"] if bridge else []) + ["backward_simulation"]
    for m in seq:
        run.method(m, [])
    run.events = list(I.events[n0:])
    lab = run.label() + ", sampled again"
    from . import pevents
    b = pevents.judge(rep, "sampling again raises no error", lab, [e for e in run.events if e.kind in pevents.ERRORS], run)
    pevents.unknowns(rep, rule, lab, I.unknowns[u0:])
    if not b:
        rep.ok("sampling again raises no error", lab)
    for nm in names:
        w = where_written(run, nm)
        a = run.arr(nm, 3)
        rep.put(all(I.same_size(x, y) is True for x, y in zip(a.shape, (DIM, N, k0))), "sampling again keeps the shape of the flows", f"{lab} {nm}", f"shape {[T.show(x) for x in a.shape]}", w)
        for label, s, facts in (specs.backward_parts(run, nm) if nm == "B" else specs.forward_parts(run, nm)):
            e = run.slice(nm, s, facts)
            old = T.mentions_app(e, lambda f: f.startswith("old:"))
            rep.put(not old, rule, f"{lab} {nm} {label}", "the slice depends on what the array held before", w)
    n = len(rep.obs)
    for f in (p01, p02, p03, p04, p05, p06):
        f(run, rep)
    for o in rep.obs[n:]:
        o.subject += " (sampled again)"
