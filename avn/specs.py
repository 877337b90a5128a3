"""The reference equations of the flow properties, and their comparison with the extracted ones."""
from fractions import Fraction

from . import terms as T, evalt, flows
from .terms import (E, Atom, Lam, B, BCmp, app, sym, num, ge, eq, and_, or_, not_, ite, CTX, ONE, ZERO)
from .values import *
from .model import DIM, N, M, K
from .flows import Run, Bad, S, ss, occurrences, NPCLS, THCLS

HALF = Fraction(1, 2)


def normal(n):
    return n.startswith("rnd:normal")


def cmp(run, a, b, facts=(), free=("@0", "@1", S), n=8, interp=None, ranges=None, extra=None):
    used = [v for v in free if v in a.free or v in b.free]
    rg = {"@0": DIM, "@1": N, S: run.k, flows.QI: run.k, "@k": K}
    rg.update(ranges or {})
    used = [v for v in rg if v in a.free or v in b.free or any(v in f.free for f in facts)]
    with run.bounds(), CTX.fact(*facts):
        if hasattr(run, "ground"):
            a, b = run.ground(a), run.ground(b)
        return evalt.compare(a, b, free=used, facts=list(facts), ranges=rg, n=n, interp=interp, extra=extra)


def where_written(run, name):
    """source constructs that write a flow"""
    out = []
    for e in run.events:
        if e.kind == "flowwrite" and e.msg.endswith(" " + name):
            w = f"{e.file}:{e.line} {e.func}"
            if w not in out:
                out.append(w)
    return "; ".join(out)


def verdict(rep, rule, subject, res, where):
    st, why = res
    if st == "same":
        rep.ok(rule, subject, why, where)
    elif st == "diff":
        rep.bad(rule, subject, why, where)
    else:
        rep.und(rule, subject, why, where)


def deny(rep, rule, subject, detail, where, *terms):
    """something required does not occur in the terms: a violation unless part of them is unknown"""
    u = [a.args[0] if isinstance(a, T.Atom) else a.f for t in terms if t is not None for a in T.walk(t)
         if isinstance(a, T.Atom) and a.kind == "app" and a.args[0].startswith(("unknown:", "pre:")) or isinstance(a, T.BApp) and a.f.startswith(("unknown:", "pre:"))]
    if u:
        rep.und(rule, subject, f"{detail}, but it contains {u[0]}", where)
    else:
        rep.bad(rule, subject, detail, where)


# ------------------------------------------------------------------ parts of the index range
def critical(t, v, k):
    """values of index v at which conditions of the term change"""
    out = {}
    for x in T.walk(t):
        if isinstance(x, BCmp) and v in x.e.free:
            sol = T.solve_lin(x.e, v)
            if sol is None:
                c, r = T.linear_in(x.e, v)
                if c:
                    sol = r * (-1 / c)
            if sol is None or any(f[0] in "@$" for f in sol.free) or T.mentions_app(sol, lambda f: f.startswith(("pre:", "cell:"))):
                continue
            if T.is_int(sol) is not True:
                continue
            out[sol.key] = sol
            if x.op != "eq":
                out[(sol + 1).key] = sol + 1
                out[(sol - 1).key] = sol - 1
    return list(out.values())


def forward_parts(run, name, lo=2):
    """(label, slice index term, facts) covering slices 1..k-1"""
    k = run.k
    base = [("second slice", ONE, ()), ("third slice", num(2), ()), ("last slice", k - 1, ())]
    gen = ("later slices", ss, (ge(ss - 2), ge(k - 2 - ss)))
    e = run.slice(name, ss, gen[2])
    extra = []
    for c in critical(e, S, k)[:6]:
        with run.bounds():
            inr = and_(ge(c - 1), ge(k - 1 - c))
            if inr is T.FALSE or CTX.decide(inr) is False:
                continue
        if c.key in (ONE.key, num(2).key, (k - 1).key):
            continue
        extra.append((f"slice {T.show(c)}", c, ()))
    if extra:
        ne = tuple(not_(eq(ss, p[1])) for p in extra)
        gen = (gen[0], gen[1], gen[2] + ne)
    return base + extra + [gen]


def backward_parts(run, name="B"):
    """interior slices of the backward flow: 1..k-2"""
    k = run.k
    base = [("first backward step", k - 2, ()), ("slice 1", ONE, ()), ("second backward step", k - 3, ())]
    gen = ("interior slices", ss, (ge(ss - 1), ge(k - 3 - ss)))
    e = run.slice(name, ss, gen[2])
    extra = []
    for c in critical(e, S, k)[:6]:
        with run.bounds():
            inr = and_(ge(c - 1), ge(k - 2 - c))
            if inr is T.FALSE or CTX.decide(inr) is False:
                continue
        if c.key in (ONE.key, (k - 2).key, (k - 3).key):
            continue
        extra.append((f"slice {T.show(c)}", c, ()))
    if extra:
        gen = (gen[0], gen[1], gen[2] + tuple(not_(eq(ss, p[1])) for p in extra))
    return base + extra + [gen]


# ------------------------------------------------------------------ extraction
def noise(eq_):
    """the Gaussian noise term of an equation, re-indexed to (@0, @1): -> (E or None, [names])"""
    occ = occurrences(eq_, normal)
    names = sorted({a.args[0] for a, _ in occ})
    if not occ:
        return None, names
    a, env = occ[0]
    # prefer a top-level occurrence
    for x, en in occ:
        if not any(v[0] == "$" for v in x.free):
            a, env = x, en
            break
    mp = {}
    for v in a.free:
        if v in env:
            if env[v].key == DIM.key:
                mp[v] = ph(0)
            elif env[v].key == N.key:
                mp[v] = ph(1)
    return T.subst(T.atomE(a), mp), names


def injective(run, atom_e, vs=("@0", "@1", S)):
    """distinct indices draw distinct random numbers"""
    a = [x for x in T.walk(atom_e) if isinstance(x, Atom) and x.kind == "app" and x.args[0].startswith("rnd:")][0]
    args = [x for x in a.args[1:]]
    rg = {"@0": DIM, "@1": N, S: run.k, "@m": M}
    env = {"dim": 3, "N": 4, "M": 5, "k": 2, "t1": 0.1, "t2": 0.1138}
    seen = {}
    import itertools
    sizes = []
    for v in vs:
        sizes.append(int(round(evalt.Ev(env, 0)(rg[v]))))
    for tup in itertools.product(*[range(n) for n in sizes]):
        e2 = dict(env)
        e2.update(zip(vs, tup))
        ev = evalt.Ev(e2, 0)
        try:
            key = tuple(round(float(ev(x)), 6) if isinstance(x, T.Term) and not isinstance(x, Lam) else repr(x) for x in args)
        except evalt.Undef:
            return None
        if key in seen:
            return False
        seen[key] = tup
    return True


def scores(eq_):
    """distinct score estimates of an equation: {key: (name, lX, lS, ll, C)}, plus the query lams"""
    out = {}
    for a, env in occurrences(eq_, lambda n: n.startswith("score:")):
        n, lX, lS, ll, C, lQ, d = a.args
        out.setdefault((n, lX.key, lS.key, ll.key, C.key), (n, lX, lS, ll, C, []))[5].append((lQ, d))
    return out


def strip_transport(eq_):
    """N * sum_j step(., j) * plan(j, .)  ->  (step over (@0,@1), plan atom, j, coefficient rest) or None.
    The step is returned with j renamed to @1 and without the factor N."""
    step = ZERO
    plan = None
    for m, c in eq_.t.items():
        if not m.bound:
            return None
        vs, fs, ex = T._open_mono(m)
        hits = [(a, e) for a, e in fs if a.kind == "app" and a.args[0].startswith("otplan") and e == 1]
        if len(hits) != 1:
            return None
        a = hits[0][0]
        i, j = a.args[-2], a.args[-1]
        # which of the two plan indices is bound here, which is the output particle
        bv = None
        for x, y, o in ((i, j, "rows"), (j, i, "cols")):
            if isinstance(x, E) and len(x.free) == 1 and y.key == ph(1).key:
                v = next(iter(x.free))
                if x.key == sym(v).key and v in dict(vs):
                    bv, orient = v, o
        if bv is None:
            return None
        core = (a.args[0], a.args[1].key, a.args[2].key, a.args[3].key, orient)
        if plan is None:
            plan = (core, a, orient)
        elif plan[0] != core:
            return None
        rest = [(x, e) for x, e in fs if x.key != a.key]
        e1 = T._build(c, [], rest, ex)
        e1 = T.subst(e1, {"@1": sym("?x")}) if "@1" in e1.free else e1
        if "?x" in e1.free:
            return None
        e1 = T.subst(e1, {bv: ph(1)})
        for v, n in vs:
            if v != bv:
                e1 = T.sum_over(e1, v, n)
        step = step + e1
    if plan is None:
        return None
    return step, plan[1], plan[2]


# ------------------------------------------------------------------ reference equations
def em_step(run, flow, fname, s, R, back=False):
    h = run.step()
    o = s + 1 if back else s - 1
    with run.bounds():
        prev = run.at(flow, ph(0), ph(1), o)
    dr = app("call:" + fname, run.point(flow, o), run.time(o), ph(0))
    e = prev + (-h if back else h) * dr
    if R is not None:
        e = e + T.sqrt(h) * run.g * R
    return e


def score_term(run, sc, cloud_flow, query_flow, o):
    name, lX, lS, ll, C, _ = sc
    return app(name, run.cloud(cloud_flow, o), lS, ll, C, run.point(query_flow, o), ph(0))


def classify(run, scs, o, flows_):
    """map flow name -> score estimate whose sample argument is that flow's cloud at time o"""
    out = {}
    left = []
    clouds = {f: run.cloud(f, o) for f in flows_}
    for k, sc in scs.items():
        hit = None
        for f, c in clouds.items():
            if sc[1].key == c.key:
                hit = f
        if hit and hit not in out:
            out[hit] = sc
        else:
            left.append(sc)
    return out, left
