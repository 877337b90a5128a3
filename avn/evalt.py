"""Random interpretation of terms (after Gulwani & Necula): the second-line equality test.

Two terms that have the same normal form are equal.  When the normal forms
differ, both are evaluated under the same random interpretation of every
uninterpreted symbol (user drift, constraint, score, noise, flow cells) at small
sizes.  Different values prove the terms different - the interpretation is the
witness that is reported - and equal values at several independent
interpretations are taken as equality.  Only terms extracted from the source are
evaluated; no code of the analysed repository runs.
"""
import math
from hashlib import blake2b
from fractions import Fraction

from . import terms as T
from .terms import E, Atom, B, BCmp, BNary, BNot, BApp, BConst, Lam


class Undef(Exception):
    """no value (out of the domain of an operation)"""


class HasUnknown(Exception):
    def __init__(self, name):
        self.name = name


def hsh(*xs):
    return int.from_bytes(blake2b("|".join(map(str, xs)).encode(), digest_size=8).digest(), "big") / 2.0 ** 64


def matinv(A):
    n = len(A)
    M = [list(map(float, r)) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) < 1e-12:
            raise Undef("singular matrix")
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0.0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def roundhalf(x):
    return float(round(x))


UN = {"abs": abs, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": roundhalf,
      "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "sinh": math.sinh,
      "cosh": math.cosh, "exp": math.exp, "arctan": math.atan, "sign": lambda x: (x > 0) - (x < 0),
      "expm1": math.expm1, "erf": math.erf}


FV = {}         # term -> its free names in order
COMP = {}       # product -> its factors with exponents as whole numbers or floats, indicators first


def compiled(m):
    r = COMP.get(m.key)
    if r is None:
        if len(COMP) > 50000:
            COMP.clear()
        fs = [(a, int(e) if e.denominator == 1 else float(e)) for a, e in m.factors]
        r = COMP[m.key] = [x for x in fs if x[0].kind == "ind"], [x for x in fs if x[0].kind != "ind"]
    return r


class Ev:
    def __init__(self, env, seed, interp=None, trace=None, force=None, scale=None):
        self.env, self.seed = dict(env), seed
        self.trace, self.force, self.scale = trace, force, scale
        self.itrace, self.maxsize, self.budget = None, 60, None
        self.cmap = None
        self.memo = {}
        self.interp = interp or {}
        self.invs = {}

    def val(self, name):
        if name in self.env:
            return self.env[name]
        if name[0] in "@%$?!" and name not in self.env:
            raise Undef("free index " + name)
        x = hsh("sym", self.seed, name)
        v = 0.5 + x if name in T.POS else 2 * x - 1 + 0.25
        if name == "g":
            # any sign: an even power of it is what the equations contain
            v = (0.5 + x) * (-1 if self.seed % 3 == 2 else 1)
        if name in T.INTS:
            v = 2 + int(3 * x)
        self.env[name] = v
        return v

    def generic(self, name, xs):
        if name.startswith(("unknown:", "pre:", "b:unknown:", "b:pre:")):
            raise HasUnknown(name)
        s = self.generic1(name, xs)
        if self.scale is None:
            return s
        c = self.scale(name)
        return s * c[0] + c[1] if isinstance(c, tuple) else s * c

    def generic1(self, name, xs):
        s = 0.0
        for j in (0, 1):
            a = 6.28 * hsh(self.seed, name, j, "b", len(xs))
            for i, x in enumerate(xs):
                a += (0.3 + 1.4 * hsh(self.seed, name, j, i, len(xs))) * x
            s += math.sin(a) * (0.6 + hsh(self.seed, name, j, "amp"))
        return s

    def __call__(self, t):
        if isinstance(t, (int, float, Fraction)):
            return float(t) if not isinstance(t, int) else t
        k = t.key
        if t.free:
            fv = FV.get(k)
            if fv is None:
                if len(FV) > 50000:
                    FV.clear()
                fv = FV[k] = sorted(t.free)
            g = self.env.get
            k = (k, *[g(v) for v in fv])
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                raise Undef("too large")
        r = self.memo.get(k)
        if r is None:
            r = self.ev(t)
            if isinstance(r, complex) or (isinstance(r, float) and (math.isnan(r) or math.isinf(r))):
                raise Undef("not finite")
            self.memo[k] = r
        return r

    def ev(self, t):
        if isinstance(t, E):
            s = 0
            for m, c in t.t.items():
                x = self.mono(m, 0)
                if x == 0:
                    continue
                if self.cmap is not None and index_only(t):
                    c = self.cmap.get(c, c)
                c = int(c) if c.denominator == 1 else c.numerator / c.denominator
                s = s + c * x
            return s
        if isinstance(t, Atom):
            return self.atom(t)
        if isinstance(t, B):
            return self.boolean(t)
        raise Undef("term " + type(t).__name__)

    def bind(self, v, x):
        self.env[v] = x

    def mono(self, m, i):
        if i < len(m.bound):
            v, n = m.bound[i]
            nn = self.size(n)
            old = self.env.get(v, None)
            s = 0
            for x in range(nn):
                self.env[v] = x
                s = s + self.mono(m, i + 1)
            if old is None:
                self.env.pop(v, None)
            else:
                self.env[v] = old
            return s
        r = 1
        inds, others = compiled(m)
        for a, p in inds:
            x = self(a)
            if x == 0:
                if p < 0:
                    raise Undef("division by zero")
                return 0
            r = r * x
        for a, p in others:
            x = self(a)
            if p == 1:
                r = r * x
            elif p.__class__ is int and p > 0:
                r = r * x ** p
            else:
                if x == 0:
                    if p > 0:
                        return 0
                    raise Undef("division by zero")
                if x < 0 and p.__class__ is not int:
                    raise Undef("root of a negative number")
                r = r * float(x) ** p
            if r == 0:
                return 0
        if m.ex is not None:
            x = self(m.ex)
            if x > 300:
                raise Undef("overflow")
            r = r * math.exp(x)
        return r

    def size(self, n):
        x = self(n)
        xi = int(round(x))
        if abs(x - xi) > 1e-9 or xi < 0:
            raise Undef("size")
        if xi > self.maxsize:
            raise Undef("large size")
        return xi

    def each(self, l):
        ns = [self.size(s) for s in l.sizes]
        olds = [self.env.get(v) for v in l.vars]

        def rec(i):
            if i == len(ns):
                yield self.b(l.body)
                return
            for x in range(ns[i]):
                self.env[l.vars[i]] = x
                yield from rec(i + 1)
        out = list(rec(0))
        for v, o in zip(l.vars, olds):
            if o is None:
                self.env.pop(v, None)
            else:
                self.env[v] = o
        return out

    def b(self, t):
        x = self(t)
        return (1 if x else 0) if isinstance(x, bool) else x

    def flat(self, a):
        if isinstance(a, Lam):
            return self.each(a)
        if isinstance(a, T.Term):
            return [self.b(a)]
        return [hsh(a)]

    def matrix(self, l):
        n, m = [self.size(s) for s in l.sizes]
        xs = self.each(l)
        return [xs[i * m:(i + 1) * m] for i in range(n)]

    def atom(self, a):
        k = a.kind
        if k == "sym":
            return self.val(a.args[0])
        if k == "num":
            c = a.args[0]
            if self.cmap is not None:
                c = self.cmap.get(c, c)
            return float(c)
        if k == "pb":
            return self(a.args[0])
        if k == "ite":
            c, x, y = a.args
            return self(x) if self(c) else self(y)
        if k == "ind":
            return 1 if self(a.args[0]) else 0
        name, args = a.args[0], a.args[1:]
        if name in self.interp:
            return self.interp[name](self, args)
        if name in UN:
            x = self(args[0])
            if name == "exp" and x > 300:
                raise Undef("overflow")
            return UN[name](x)
        if name == "log":
            x = self(args[0])
            if x <= 0:
                raise Undef("log")
            return math.log(x)
        if name in ("min", "max"):
            xs = [self(x) for x in args]
            if self.force is not None and a.key in self.force and self.force[a.key] < len(xs):
                return xs[self.force[a.key]]
            r = (min if name == "min" else max)(xs)
            if self.trace is not None:
                if any(isinstance(x, float) for x in xs):
                    self.trace.setdefault(a.key, set()).add(xs.index(r))
                self.itrace.setdefault(a.key, (a, set()))[1].add(xs.index(r))
            return r
        if name in ("redmin", "redmax", "prod"):
            if self.budget is not None:
                self.budget -= 1
            xs = self.each(args[0])
            if name == "prod":
                r = 1
                for x in xs:
                    r *= x
                return r
            if not xs:
                raise Undef("empty reduction")
            return (min if name == "redmin" else max)(xs)
        if name == "lsum":
            return sum(self.each(args[0]))
        if name == "order":
            xs = sorted(self.each(args[0]))
            k = self(args[1])
            if not 0 <= k < len(xs):
                raise Undef("rank out of range")
            return xs[int(k)]
        if name == "std":
            xs = self.each(args[0])
            dd = self(args[1])
            n = len(xs)
            if n - dd <= 0:
                raise Undef("std of too few values")
            mu = sum(xs) / n
            return math.sqrt(sum((x - mu) ** 2 for x in xs) / (n - dd))
        if name == "inv":
            A = self.matrix(args[0])
            key = repr(A)
            if key not in self.invs:
                if self.budget is not None:
                    self.budget -= len(A) ** 3 // 10
                    if self.budget < 0:
                        raise Undef("too large")
                self.invs[key] = matinv(A)
            i, j = int(self(args[1])), int(self(args[2]))
            return self.invs[key][i][j]
        if name == "eucl2":
            x, y = self.each(args[0]), self.each(args[1])
            return sum((p - q) ** 2 for p, q in zip(x, y))
        if name == "pown":
            return self(args[0]) ** int(self(args[1]))
        if name == "floordiv":
            d = self(args[1])
            if d == 0:
                raise Undef("division by zero")
            return math.floor(self(args[0]) / d)
        if name == "pow":
            b, e = self(args[0]), self(args[1])
            if b <= 0:
                raise Undef("power")
            return b ** e
        if name == "norm" and isinstance(args[0], Lam):
            return math.sqrt(sum(x * x for x in self.each(args[0])))
        xs = []
        for x in args:
            xs += self.flat(x)
        v = self.generic(name, xs)
        if name.startswith("rnd:uniform") or name.startswith("rnd:rand"):
            v = 0.5 + 0.49 * math.sin(7 * v)
        if name.startswith("otplan"):
            v = 0.5 + 0.4 * math.sin(v)
        return v

    def boolean(self, t):
        if isinstance(t, BConst):
            return t.val
        if isinstance(t, BCmp):
            if self.force is not None and t.key in self.force:
                return self.force[t.key]
            x = self(t.e)
            # an index computed in floating point is compared with a margin; small data are not rounded away
            tol = 0 if isinstance(x, int) else 1e-9 if self.scale is None or not on_data(t) else 1e-14
            r = abs(x) <= tol if t.op == "eq" else x >= -tol if t.op == "ge" else x > tol
            if self.trace is not None:
                if isinstance(x, float):
                    self.trace.setdefault(t.key, set()).add(r)
                self.itrace.setdefault(t.key, (t, set()))[1].add(r)
            return r
        if isinstance(t, BNary):
            if t.op == "and":
                return all(self(x) for x in t.xs)
            return any(self(x) for x in t.xs)
        if isinstance(t, BNot):
            return not self(t.x)
        if isinstance(t, BApp):
            if t.f in ("isnan", "isinf", "taint:logging"):
                return False
            if t.f in ("all", "any") and len(t.args) == 1 and isinstance(t.args[0], Lam):
                xs = self.each(t.args[0])
                return (all if t.f == "all" else any)(xs)
            if t.f == "isint":
                x = self(t.args[0])
                return abs(x - round(x)) < 1e-9
            xs = []
            for a in t.args:
                xs += self.flat(a)
            return self.generic("b:" + t.f, xs) > 0
        raise Undef("boolean")


def environments(n=6, extra=None, facts=(), free=(), kmin=14):
    """random small instances: sizes, end points, and values of free indices chosen to satisfy the facts"""
    dims = [2, 1, 3, 2, 1, 3, 2, 4]
    Ns = [3, 2, 4, 5, 3, 2, 4, 3]
    Ms = [2, 3, 1, 2, 4, 2, 3, 2]
    for s in range(n):
        env = {"dim": dims[s % 8], "N": Ns[s % 8], "M": Ms[s % 8], "k": 2 + s % 2,
               "Q": 2 + s % 3, "n1": 2 + s % 3, "n2": 3 - s % 2}
        t1 = round(hsh("t1", s), 3)
        env["t1"] = t1
        env["t2"] = t1 + (kmin + s % 3) * 0.001 - 0.0002
        if extra:
            env.update(extra(s, env) if callable(extra) else extra)
        yield s, env


def instances(free, facts, ranges, n=6, tries=400, extra=None):
    """environments with values for the free index names: ranges name -> term (exclusive upper bound)"""
    for s, env in environments(n, extra):
        got = False
        for k in range(tries):
            e2 = dict(env)
            for v in free:
                hi = ranges.get(v)
                try:
                    hv = int(round(Ev(e2, s)(hi))) if hi is not None else 6
                except Undef:
                    hv = 6
                if hv <= 0:
                    e2 = None
                    break
                x = hsh("pick", s, k, v)
                # favour small and large values
                e2[v] = int(x * hv) if k % 3 else min(hv - 1, int(x * 3))
            if e2 is None:
                continue
            try:
                ev = Ev(e2, s)
                if all(ev(f) for f in facts):
                    got = True
                    yield s, e2
                    break
            except Undef:
                continue
        if not got:
            continue


def _cells(t):
    """local arrays whose content is only known by the loop that fills them"""
    out = set()
    try:
        T.mentions_app(t, lambda f: f.startswith("cell:tmp") and out.add(f))
    except Exception:
        return out
    return out


def compare(a, b, free=(), facts=(), ranges=None, n=6, extra=None, interp=None, tol=1e-7):
    """-> ('same', how) | ('diff', witness) | ('unknown', why)"""
    if a.key == b.key:
        return "same", "normal form"
    try:
        d = T.resimplify(a - b)
        if d.const == 0:
            return "same", "normal form"
        if T.mentions_app(d, lambda f: f == "eucl2"):
            d = T.unfold(d)
            if d.const == 0:
                return "same", "normal form"
    except Exception:
        pass
    opaque = _cells(a) ^ _cells(b)
    done = 0
    trace, itrace = {}, {}
    seen = []
    undefd = 0
    zero = 0
    try:
        for s, env in instances(free, facts, ranges or {}, n, extra=extra):
            ev = Ev(env, s, interp)
            try:
                ev.trace, ev.itrace = trace, itrace
                x = ev(a)
                xa = True
            except Undef as u:
                xa = str(u)
            try:
                y = ev(b)
                yb = True
            except Undef as u:
                yb = str(u)
            if xa is not True or yb is not True:
                undefd += 1
                zero += xa == "division by zero" and yb is True
                if zero >= 2 and not opaque:
                    w = {k: v for k, v in env.items() if k in ("dim", "N", "M", "k") or k in free}
                    return "diff", f"at {w} the code divides by zero, the property yields {y:.6g}"
                if (xa is True) != (yb is True) and undefd > 2 * n:
                    return "unknown", "undefined value"
                continue
            if abs(x - y) > tol * (1 + abs(x) + abs(y)):
                if opaque:
                    return "unknown", f"{sorted(opaque)[0]} has no closed form"
                w = {k: v for k, v in env.items() if k in ("dim", "N", "M", "k") or k in free}
                return "diff", f"at {w} the code yields {x:.6g}, the property {y:.6g}"
            done += 1
            seen.append((s, env))
        if done >= 2 and not opaque:
            w = thresholds(a, b, trace, seen, interp) or large(a, b, itrace, seen, interp, facts, ranges or {}, tol)
            if w:
                return "diff", w
    except HasUnknown as u:
        return "unknown", u.name
    if done >= 2:
        return "same", f"random interpretation ({done} instances)"
    return "unknown", f"only {done} instances could be evaluated"


_DATA = {}


def on_data(t):
    r = _DATA.get(t.key)
    if r is None:
        if len(_DATA) > 20000:
            _DATA.clear()
        r = _DATA[t.key] = bool(T.mentions_app(t.e, lambda f: f not in UN and f not in ("min", "max", "floordiv", "redmin", "redmax", "order", "pow", "pown", "log", "sqrt")))
    return r


def thresholds(a, b, trace, seen, interp):
    """Conditions of the code that came out the same way in every generic instance, on small, large and
    mixed magnitudes of the data.  A difference counts only if it is due to such a condition: with the
    condition held at its usual outcome the code agrees with the property."""
    if T.mentions_app(a, lambda f: f.endswith(":U")):
        # weights span many orders of magnitude: nothing cancels in them, so the values are compared directly
        for mode in (lambda n: (1e3, -2e4) if n.endswith(":U") else 1.0, lambda n: (1e3, -4e4) if n.endswith(":U") else 1.0, lambda n: (1e3, 4e4) if n.endswith(":U") else 1.0):
            for s, env in seen[:2]:
                try:
                    y = Ev(env, s, interp, scale=mode)(b)
                    x = Ev(env, s, interp, scale=mode)(a)
                except (Undef, OverflowError, ZeroDivisionError):
                    continue
                if abs(x - y) > 1e-5 * (abs(x) + abs(y)) + 1e-300:
                    w = {k: v for k, v in env.items() if k in ("dim", "N", "M", "k") or k[0] == "@"}
                    return f"at {w}, path constraint around {mode('call:U')[1]:.0e}, the code yields {x:.6g}, the property {y:.6g}"
    usual = {k: next(iter(v)) for k, v in trace.items() if len(v) == 1}
    if not usual:
        return None
    modes = [lambda n: 1e-6, lambda n: 1e-4, lambda n: 1e-2, lambda n: 30.0,
             lambda n: 10 ** (8 * hsh("mag", 1, n) - 6), lambda n: 10 ** (8 * hsh("mag", 2, n) - 6),
             # path constraints that are strongly repelling or attracting everywhere; states far away
             lambda n: (1e3, -2e4) if n.endswith(":U") else 1.0, lambda n: (1e3, 2e4) if n.endswith(":U") else 1.0,
             lambda n: (1e5, -7e5) if n.endswith(":U") else 1.0, lambda n: 1e5, lambda n: 1e8]
    for j, mode in enumerate(modes):
        for s, env in seen[:3]:
            try:
                y = Ev(env, s, interp, scale=mode)(b)
                x = Ev(env, s, interp, scale=mode)(a)
                if abs(x - y) <= 1e-3 * (abs(x) + abs(y)):
                    continue
                x1 = Ev(env, s, interp, force=usual, scale=mode)(a)
                y1 = Ev(env, s, interp, force=usual, scale=mode)(b)
            except (Undef, OverflowError, ZeroDivisionError):
                continue
            if abs(x1 - y1) < 1e-2 * abs(x - y):
                w = {k: v for k, v in env.items() if k in ("dim", "N", "M", "k") or k[0] == "@"}
                return f"at {w}, {'extreme path constraints' if isinstance(mode('call:U'), tuple) else f"data of magnitude {mode('data'):.0e}"}, the code yields {x:.6g}, the property {y:.6g}"
    return None


SIZES = ("N", "M", "dim", "Q", "n1", "n2", "k")


TOOBIG = {}              # conditions whose terms are too expensive at large sizes
BUDGET = [5000000]      # evaluations at large sizes, per process


def constants(t):
    """whole numbers in a condition that a size could be compared with"""
    out = set()
    for x in T.walk(t):
        if isinstance(x, E):
            for m, c in x.t.items():
                if c.denominator == 1 and 4 <= abs(c) <= 6000:
                    out.add(abs(int(c)))
        elif isinstance(x, Atom) and x.kind == "num":
            c = x.args[0]
            if c.denominator == 1 and 4 <= abs(c) <= 6000:
                out.add(abs(int(c)))
    return sorted(out)


def outcome(t, env, s, interp):
    ev = Ev(env, s, interp)
    ev.maxsize, ev.budget = 10000, 20000
    if isinstance(t, Atom):
        xs = [ev(x) for x in t.args[1:]]
        return xs.index((min if t.args[0] == "min" else max)(xs))
    return ev(t)


_INDEX = {}


def index_only(t):
    """a term over sizes and indices alone"""
    r = _INDEX.get(t.key)
    if r is None:
        if len(_INDEX) > 20000:
            _INDEX.clear()
        r = all(v in T.INTS or v in SIZES or v[0] in "@%$?!" for v in t.free) and not on_values(t)
        _INDEX[t.key] = r
    return r


def renamed(a, b, c, seen, interp, tol, more=False):
    """The size constant c read as a small number, consistently, in both terms: a formula that is right for every
    value of such a constant (a chunk length, a threshold between two equivalent methods) stays right."""
    near = {c + d for d in range(-2, 3)}
    for t in (a, b):
        for x in T.walk(t):
            if isinstance(x, E) and index_only(x):
                for _, q in x.t.items():
                    if abs(q) >= 16 and abs(q) not in near and q.denominator == 1:
                        return None
    hits = []
    if more:
        seen = [(s + 97 * j, {**env, "dim": max(env["dim"], 2)}) for j in range(12) for s, env in seen[:5]]
    for small in (2, 1, 3) + ((0,) if more else ()):
        m = {}
        for d in range(-2, 3):
            for sg in (1, -1):
                m[Fraction(sg * (c + d))] = Fraction(sg * (small + d))
        if small:
            m[Fraction(1, c)], m[Fraction(-1, c)] = Fraction(1, small), Fraction(-1, small)
        for s, env in seen if more else seen[:4]:
            try:
                xs = []
                for z in (a, b):
                    ev = Ev(env, s, interp)
                    ev.cmap, ev.budget = m, min(200000, BUDGET[0])
                    full = ev.budget
                    try:
                        xs.append(ev(z))
                    finally:
                        BUDGET[0] -= full - max(0, ev.budget)
            except (Undef, OverflowError, ZeroDivisionError):
                continue
            if abs(xs[0] - xs[1]) > 1000 * tol * (1 + abs(xs[0]) + abs(xs[1])):
                hits.append((small, env, xs))
                if len({h[0] for h in hits}) > 1:
                    break
    if len(hits) >= 2 and len({h[0] for h in hits}) >= 2:
        small, env, (x, y) = hits[0]
        w = {k: v for k, v in env.items() if k in ("dim", "N", "M", "k") or k[0] == "@"}
        return f"with the size constant {c} read as {small}, at {w} the code yields {x:.6g}, the property {y:.6g}"
    return None


def large(a, b, itrace, seen, interp, facts, ranges, tol):
    """Conditions on sizes and indices that never changed at small sizes and contain a larger constant:
    both terms at sizes around that constant."""
    todo = [(t, next(iter(v))) for t, v in itrace.values() if len(v) == 1]
    tries = 0
    for t, usual in todo:
        cs = constants(t)
        if not cs or on_values(t):
            continue
        names = set(t.free)
        inner = [v for v in t.free if v[0] in "@%$?!" and v not in ranges and v not in seen[0][1]]
        if inner:
            names |= set(SIZES) & (set(a.free) | set(b.free))
        for v in t.free:
            if v in ranges and ranges[v] is not None:
                names |= set(ranges[v].free)
        syms = [x for x in SIZES if x in names] + (["t2"] if "t2" in names else [])
        s, env0 = seen[0]
        for c in cs:
            evaluated = False
            for sy in syms:
                hits = 0
                for val in (c + 3, c + 1, c, 2 * c + 1, 3 * c + 2):
                    env = dict(env0)
                    if sy == "t2":
                        env["t2"] = env["t1"] + val * 0.001 - 0.0002
                    else:
                        env[sy] = val
                    hit = False
                    for top in (None, 0, c, -1):
                        e2 = dict(env)
                        try:
                            if top is not None:
                                for v in ranges:
                                    if v in e2 and ranges[v] is not None:
                                        hv = int(round(Ev(e2, s)(ranges[v])))
                                        e2[v] = max(0, hv - 1 if top == 0 else hv - 2 if top == -1 else min(top, hv - 1))
                            if any(v in ranges and ranges[v] is not None and not e2[v] < int(round(Ev(e2, s)(ranges[v]))) for v in e2):
                                continue
                            if not all(Ev(e2, s)(f) for f in facts):
                                continue
                            if not inner and outcome(t, e2, s, interp) == usual:
                                continue
                        except (Undef, OverflowError, ZeroDivisionError):
                            continue
                        hit = True
                        if TOOBIG.get((t.key, c), 0) > 3:
                            break
                        tries += 1
                        if tries > 24:
                            return None
                        try:
                            xs = []
                            for z in (b, a):
                                ev = Ev(e2, s, interp)
                                ev.maxsize, ev.budget = 10000, min(1000000, BUDGET[0])
                                full = ev.budget
                                try:
                                    xs.append(ev(z))
                                finally:
                                    BUDGET[0] -= full - max(0, ev.budget)
                            y, x = xs
                            evaluated = evaluated or x != 0 or y != 0
                        except (Undef, OverflowError, ZeroDivisionError) as ex:
                            if "large" in str(ex):
                                TOOBIG[(t.key, c)] = TOOBIG.get((t.key, c), 0) + 1
                            continue
                        if abs(x - y) > max(10 * tol * (abs(x) + abs(y)), 1e-10):
                            w = {k: v for k, v in e2.items() if k in ("dim", "N", "M") or k in ranges}
                            return f"at {w} the code yields {x:.6g}, the property {y:.6g}"
                        break
                    hits += hit
                    if hits > 1:
                        break
            if inner or not evaluated and c >= 16:
                w = renamed(a, b, c, seen, interp, tol, bool(inner))
                if w:
                    return w
    return None


def on_values(t):
    """does a condition depend on data rather than on sizes and indices"""
    return T.mentions_app(t, lambda f: f not in ("min", "max", "floordiv", "floor", "ceil", "trunc", "abs", "mod"))
