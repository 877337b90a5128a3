"""Normal-form terms: the abstract domain of the value-numbering analysis.

Numbers are polynomials (class E) over atoms, with rational exponents, an
exponential factor, and bound summation indices (an "einsum" normal form).
Booleans are class B.  Index functions are class Lam.  All terms are immutable
and compared by a canonical key, so two pieces of source that compute the same
algebraic value get the same term, however they are written.
No solver is involved; decisions about indices use interval arithmetic (Facts).
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import permutations, product
import contextlib

F0, F1 = Fraction(0), Fraction(1)
_fresh = [0]


class Undecided(Exception):
    """The analysis cannot tell; carries a message."""


def fresh(prefix="%"):
    _fresh[0] += 1
    return f"{prefix}{_fresh[0]}"


def digest(s):
    if len(s) <= 160:
        return s
    return "#" + blake2b(s.encode(), digest_size=15).hexdigest()


class Term:
    __slots__ = ("key", "free", "h")

    def __eq__(self, o):
        return isinstance(o, Term) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show(self)


# ----------------------------------------------------------------- atoms
class Atom(Term):
    """kind: 'sym' (args=(name,)), 'app' (fname, *args), 'pb' (E,), 'num' (Fraction,),
    'ite' (B,E,E), 'ind' (B,)."""
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        fr, h, ks = frozenset(), 0, [kind]
        if kind == "sym":
            fr = frozenset(args)
            ks.append(args[0])
        else:
            for a in args:
                if isinstance(a, Term):
                    fr |= a.free
                    if a.h > h:
                        h = a.h
                    ks.append(a.key)
                else:
                    ks.append(repr(a))
        self.free, self.h = fr, h
        self.key = digest("(" + " ".join(ks) + ")") if kind != "sym" else args[0]


# ----------------------------------------------------------------- monomials
class Mono(Term):
    __slots__ = ("bound", "factors", "ex")

    def __init__(self, bound, factors, ex):
        self.bound, self.factors, self.ex = bound, factors, ex
        fr, h = frozenset(), 0
        parts = []
        for v, n in bound:
            parts.append(f"[{v}<{n.key}]")
            fr |= n.free
            h = max(h, n.h)
        inner = frozenset()
        for a, e in factors:
            inner |= a.free
            h = max(h, a.h)
            parts.append(f"{a.key}^{e}" if e != 1 else a.key)
        if ex is not None:
            inner |= ex.free
            h = max(h, ex.h)
            parts.append("exp" + ex.key)
        bn = {v for v, _ in bound}
        self.free = fr | (inner - bn)
        for v in bn:
            if v[0] == "$":
                h = max(h, int(v[1:]))
        self.h = h
        self.key = digest("{" + "*".join(parts) + "}")


def _close_mono(vs, factors, ex):
    """vs: list of (fresh var, size).  Canonically names the bound variables."""
    factors = tuple(sorted(factors, key=lambda p: (p[0].key, p[1])))
    if not vs:
        return Mono((), factors, ex)
    h = 0
    for a, _ in factors:
        h = max(h, a.h)
    if ex is not None:
        h = max(h, ex.h)
    for _, n in vs:
        h = max(h, n.h)

    def renamed(mp):
        fs = tuple(sorted(((rename(a, mp), e) for a, e in factors), key=lambda p: (p[0].key, p[1])))
        return fs, (rename(ex, mp) if ex is not None else None)

    if len(vs) == 1:
        nm = f"${h + 1}"
        fs, e2 = renamed({vs[0][0]: nm})
        return Mono(((nm, vs[0][1]),), fs, e2)
    # colour refinement: signature of each variable, iterated
    sig = {v: n.key for v, n in vs}
    for _ in range(3):
        new = {}
        for v, n in vs:
            mp = {w: "?" + blake2b(sig[w].encode(), digest_size=6).hexdigest() for w, _ in vs if w != v}
            mp[v] = "?self"
            fs, e2 = renamed(mp)
            new[v] = n.key + "|" + digest("*".join(f"{a.key}^{e}" for a, e in fs) + (e2.key if e2 is not None else ""))
        if len(set(new.values())) == len(set(sig.values())):
            sig = new
            break
        sig = new
    groups = {}
    for v, n in vs:
        groups.setdefault(sig[v], []).append((v, n))
    gs = [groups[k] for k in sorted(groups)]
    cnt = 1
    for g in gs:
        for i in range(2, len(g) + 1):
            cnt *= i
    best = None
    cands = product(*[list(permutations(g)) for g in gs]) if cnt <= 720 else [gs]
    for c in cands:
        order = [p for g in c for p in g]
        mp = {v: f"${h + 1 + i}" for i, (v, _) in enumerate(order)}
        fs, e2 = renamed(mp)
        m = Mono(tuple((mp[v], n) for v, n in order), fs, e2)
        if best is None or m.key < best.key:
            best = m
    return best


def _open_mono(m):
    if not m.bound:
        return [], list(m.factors), m.ex
    mp = {v: fresh() for v, _ in m.bound}
    return ([(mp[v], n) for v, n in m.bound],
            [(rename(a, mp), e) for a, e in m.factors],
            rename(m.ex, mp) if m.ex is not None else None)


MONE = Mono((), (), None)


# ----------------------------------------------------------------- polynomials
class E(Term):
    __slots__ = ("t",)

    def __init__(self, t):
        # t: dict Mono -> Fraction (nonzero)
        self.t = t
        fr, h = frozenset(), 0
        for m in t:
            fr |= m.free
            h = max(h, m.h)
        self.free, self.h = fr, h
        if not t:
            self.key = "0"
        else:
            self.key = digest("<" + "+".join(f"{c}{m.key}" for m, c in sorted(t.items(), key=lambda p: p[0].key)) + ">")

    # constants
    @property
    def const(self):
        if not self.t:
            return F0
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m is MONE or (not m.factors and not m.bound and m.ex is None):
                return c
        return None

    def __add__(self, o):
        o = num(o)
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, F0) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return E(t)

    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-num(o))

    def __rsub__(self, o):
        return num(o) + (-self)

    def __mul__(self, o):
        o = num(o)
        c = o.const
        if c is not None:
            return E({m: k * c for m, k in self.t.items()}) if c else ZERO
        c = self.const
        if c is not None:
            return E({m: k * c for m, k in o.t.items()}) if c else ZERO
        acc = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = _mulmono(m1, m2)
                if isinstance(r, Mono):
                    s = acc.get(r, F0) + c1 * c2
                    if s:
                        acc[r] = s
                    else:
                        acc.pop(r, None)
                else:
                    extra.append(r * (c1 * c2))
        e = E(acc)
        for x in extra:
            e = e + x
        return e

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(num(o), Fraction(-1))

    def __rtruediv__(self, o):
        return num(o) * power(self, Fraction(-1))


ZERO = E({})


def num(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return E({MONE: Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return app("float:" + repr(x))
        f = Fraction(repr(x))
        return E({MONE: f}) if f else ZERO
    if isinstance(x, B):
        return ind(x)
    raise TypeError(type(x))


ONE = num(1)


def _build(coef, vs, factors, ex):
    """coef * sum_vs prod factors * exp(ex), simplified.  factors: list of (Atom, Fraction)."""
    if coef == 0:
        return ZERO
    fd = {}
    at = {}
    for a, e in factors:
        fd[a.key] = fd.get(a.key, F0) + e
        at[a.key] = a
    expand = []
    out = []
    for k, e in fd.items():
        if e == 0:
            continue
        a = at[k]
        if a.kind == "ind":
            if e > 0:
                out.append((a, F1))
            else:
                out.append((a, e))
            continue
        if a.kind == "num":
            b = a.args[0]
            ip = e.numerator // e.denominator
            if ip:
                coef = coef * (b ** ip)
                e = e - ip
            if e == 0:
                continue
            out.append((a, e))
            continue
        if a.kind == "pb" and e.denominator == 1 and e > 0:
            expand.append((a.args[0], int(e)))
            continue
        if a.kind == "ite" and e.denominator == 1 and e > 1:
            c, x, y = a.args
            expand.append((ite(c, power(x, e), power(y, e)), 1))
            continue
        out.append((a, e))
    # combine numeric radicals of equal exponent
    nums = {}
    rest = []
    for a, e in out:
        if a.kind == "num":
            nums.setdefault(e, []).append(a.args[0])
        else:
            rest.append((a, e))
    if nums:
        out = rest
        for e, bs in nums.items():
            p = F1
            for b in bs:
                p *= b
            c2, r = _radical(p, e)
            coef *= c2
            if r is not None:
                out.append((r, e))
    if ex is not None and ex.const == 0:
        ex = None
    if expand:
        r = _wrap(coef, vs, out, ex)
        # multiply inside the sums: open them again
        base = _build_noexpand(coef, [], out, ex)
        for e, n in expand:
            for _ in range(n):
                base = base * e
        for v, n in vs:
            base = sum_over(base, v, n)
        return base
    return _wrap(coef, vs, out, ex)


def _build_noexpand(coef, vs, out, ex):
    return _wrap(coef, vs, out, ex)


def _wrap(coef, vs, out, ex):
    # delta elimination and unused bound variables
    vs = list(vs)
    changed = True
    while changed and vs:
        changed = False
        for i, (v, n) in enumerate(vs):
            used = any(v in a.free for a, _ in out) or (ex is not None and v in ex.free)
            if not used:
                rest = vs[:i] + vs[i + 1:]
                r = _wrap(coef, rest, out, ex)
                return r * n if not rest else _mul_into(coef, rest, out, ex, n)
            hit = None
            for a, e in out:
                if a.kind == "ind" and e == 1 and v in a.free:
                    sol = solve_eq(a.args[0], v)
                    if sol is not None:
                        hit = (a, sol)
                        break
            if hit:
                a0, sol = hit
                rest = vs[:i] + vs[i + 1:]
                inr = in_range(sol, n)
                if inr is None or inr is False:
                    continue
                fs = [(subst(a, {v: sol}), e) for a, e in out if a.key != a0.key]
                fe = [(x, e) for x, e in fs]
                ex2 = subst(ex, {v: sol}) if ex is not None else None
                return _rebuild(coef, rest, fe, ex2)
    m = _close_mono(vs, out, ex)
    return E({m: coef})


def in_range(x, n):
    """is 0 <= x < n ?  True / False / None.  A free index symbol counts as in range of its own axis."""
    r = and_(ge(x), ge(n - x - 1))
    return r.val if isinstance(r, BConst) else (True if _single_index(x) else None)


def _single_index(x):
    """x is a plain placeholder or bound variable (its range is that of the axis it came from)."""
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and not m.bound and m.ex is None and len(m.factors) == 1:
            a, e = m.factors[0]
            return a.kind == "sym" and e == 1 and a.args[0][0] in "@%$?!"
    return False


def _mul_into(coef, vs, out, ex, n):
    base = _wrap(coef, vs, out, ex)
    return base * n


def _rebuild(coef, vs, factors, ex):
    """factors may now be arbitrary terms (Atom or E) after a substitution."""
    fs = []
    mult = []
    for a, e in factors:
        if isinstance(a, Atom):
            fs.append((a, e))
        else:
            mult.append((a, e))
    if not mult:
        return _build(coef, vs, fs, ex)
    base = _build(coef, [], fs, ex)
    for x, e in mult:
        base = base * power(x, e)
    for v, n in vs:
        base = sum_over(base, v, n)
    return base


def _mulmono(m1, m2):
    if m1 is MONE:
        return m2
    if m2 is MONE:
        return m1
    v1, f1, e1 = _open_mono(m1)
    v2, f2, e2 = _open_mono(m2)
    ex = e1 if e2 is None else (e2 if e1 is None else e1 + e2)
    r = _build(F1, v1 + v2, f1 + f2, ex)
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1:
            return m
    return r


def _radical(p, e):
    """p**e for rational p>0, 0<e<1 -> (rational factor, Atom or None)."""
    n, d = e.numerator, e.denominator
    if n == 1 and d == 2:
        # sqrt(a/b) = sqrt(a*b)/b with square part pulled out
        a, b = p.numerator, p.denominator
        x = a * b
        s = 1
        f = 2
        while f * f <= x and f < 10000:
            while x % (f * f) == 0:
                x //= f * f
                s *= f
            f += 1
        if x == 1:
            return Fraction(s, b), None
        return Fraction(s, b), Atom("num", Fraction(x))
    return F1, Atom("num", p)


def sym(name):
    return E({Mono((), ((Atom("sym", name), F1),), None): F1})


def atomE(a):
    return E({Mono((), ((a, F1),), None): F1})


def app(fname, *args):
    return atomE(Atom("app", fname, *args))


def ind(b):
    if isinstance(b, BConst):
        return ONE if b.val else ZERO
    return atomE(Atom("ind", b))


POSAPP = {"exp", "abs", "norm", "redmax_abs", "eucl2", "std"}


def positive(a):
    """atom known to be positive (or nonnegative)."""
    if a.kind == "num":
        return True
    if a.kind == "sym":
        return a.args[0] in POS
    if a.kind == "app":
        return a.args[0] in POSAPP or a.args[0].startswith("ceil")
    if a.kind == "ind":
        return True
    return False


POS = set()
INTS = set()


def is_int(e):
    if not isinstance(e, E):
        return False
    for m, c in e.t.items():
        if c.denominator != 1 or m.ex is not None:
            return False
        for a, x in m.factors:
            if x.denominator != 1 or x < 0:
                return False
            if a.kind == "sym":
                if not (a.args[0] in INTS or a.args[0][0] in "@%$?!"):
                    return False
            elif a.kind == "app":
                if a.args[0] not in ("ceil", "floor", "floordiv", "mod", "len"):
                    return False
            elif a.kind == "ind":
                pass
            elif a.kind == "ite":
                if not (is_int(a.args[1]) and is_int(a.args[2])):
                    return False
            else:
                return False
    return True


def power(e, p):
    p = Fraction(p)
    e = num(e)
    if p == 0:
        return ONE
    if p == 1:
        return e
    c = e.const
    if c is not None:
        if p.denominator == 1:
            if c == 0 and p < 0:
                return app("div0")
            return num(c ** int(p))
        if c == 0:
            return ZERO
        if c < 0:
            return app("powneg", e, num(p))
        ip = p.numerator // p.denominator
        fr = p - ip
        k, r = _radical(c, fr)
        r2 = num(c ** ip * k)
        return r2 if r is None else r2 * E({Mono((), ((r, fr),), None): F1})
    if len(e.t) == 1:
        (m, k), = e.t.items()
        if not m.bound:
            if p.denominator == 1:
                fs = [(a, x * p) for a, x in m.factors]
                r = _build(k ** int(p), [], fs, m.ex * p if m.ex is not None else None)
                return r
            if k > 0:
                fs = []
                ok = True
                for a, x in m.factors:
                    y = x * p
                    if not positive(a) and a.kind != "pb" and x.denominator == 1 and x % 2 == 0 and y.denominator == 1 and y % 2:
                        b = absE(atomE(a))
                        (bm, bk), = b.t.items()
                        fs.append((bm.factors[0][0], y))
                    else:
                        fs.append((a, y))
                kk = power(num(k), p)
                return kk * _build(F1, [], fs, m.ex * p if m.ex is not None else None)
    if p.denominator == 1 and p > 0 and p <= 6:
        r = e
        for _ in range(int(p) - 1):
            r = r * e
        return r
    # general: extract content
    k, mono, e2 = _content(e)
    if k < 0 and p.denominator != 1:
        k, e2 = -k, -e2
    base = _build(F1, [], [(Atom("pb", e2), p)], None)
    r = base * power(num(k), p)
    if mono is not None:
        r = r * _build(F1, [], [(a, x * p) for a, x in mono], None)
    return r


def _content(e):
    """e = k * mono * e2 with e2 primitive (leading coefficient 1)."""
    items = sorted(e.t.items(), key=lambda q: q[0].key)
    common = None
    for m, _ in items:
        bn = {v for v, _ in m.bound}
        d = {a.key: (a, x) for a, x in m.factors if not (a.free & bn) and a.kind in ("sym", "num", "pb", "app")}
        if common is None:
            common = d
        else:
            nd = {}
            for kk, (a, x) in common.items():
                y = d.get(kk, (a, F0))[1]
                if x > 0 and y > 0:
                    nd[kk] = (a, min(x, y))
                elif x < 0 or y < 0:
                    if min(x, y) < 0:
                        nd[kk] = (a, min(x, y))
            for kk, (a, y) in d.items():
                if kk not in common and y < 0:
                    nd[kk] = (a, y)
            common = nd
    mono = [(a, x) for a, x in (common or {}).values() if x != 0]
    if mono:
        e = e * _build(F1, [], [(a, -x) for a, x in mono], None)
        items = sorted(e.t.items(), key=lambda q: q[0].key)
    k = items[0][1] if items else F1
    if k != 1:
        e = e * (1 / k)
    return k, (mono or None), e


def exp(e):
    e = num(e)
    if e.const == 0:
        return ONE
    # exp(log x)
    return E({Mono((), (), e): F1})


def log(e):
    e = num(e)
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and not m.bound and not m.factors and m.ex is not None:
            return m.ex
        if e.const == 1:
            return ZERO
    return app("log", e)


def sqrt(e):
    return power(e, Fraction(1, 2))


def absE(e):
    e = num(e)
    c = e.const
    if c is not None:
        return num(abs(c))
    d = CTX.decide_ge(e)
    if d is True:
        return e
    if CTX.decide_ge(-e) is True:
        return -e
    if len(e.t) == 1:
        (m, k), = e.t.items()
        if not m.bound and all(positive(a) or (a.kind == "pb" and x.denominator != 1) or (x.denominator == 1 and x % 2 == 0) for a, x in m.factors):
            return e * (1 if k > 0 else -1)
        if k != 1:
            return absE(E({m: F1})) * abs(k)
    # sign-normalise
    first = sorted(e.t.items(), key=lambda q: q[0].key)[0][1]
    return app("abs", e if first > 0 else -e)


def sum_over(e, v, n):
    """sum of e for index v (a symbol name) from 0 to n-1."""
    n = num(n)
    nc = n.const
    if v not in e.free:
        return e * n
    if nc is not None and nc.denominator == 1 and nc <= 6:
        r = ZERO
        for i in range(int(nc)):
            r = r + subst(e, {v: num(i)})
        return r
    r = ZERO
    with CTX.bounds({v: n}):
        for m, c in e.t.items():
            if any(v in q.free for _, q in m.bound):
                # the length of an inner sum depends on this index
                r = r + app("lsum", lam((n,), (v,), E({m: c})))
                continue
            vs, fs, ex = _open_mono(m)
            w = fresh()
            if v in m.free:
                mp = {v: w}
                fs = [(rename(a, mp), x) for a, x in fs]
                ex = rename(ex, mp) if ex is not None else None
                vs = vs + [(w, n)]
                r = r + _build(c, vs, fs, ex)
            else:
                r = r + E({m: c}) * n
    return r


# ----------------------------------------------------------------- booleans
class B(Term):
    __slots__ = ()


class BConst(B):
    __slots__ = ("val",)

    def __init__(self, v):
        self.val = v
        self.key, self.free, self.h = ("T" if v else "F"), frozenset(), 0

    def __bool__(self):
        return self.val


TRUE, FALSE = BConst(True), BConst(False)


class BCmp(B):
    """op in 'ge' (e>=0), 'gt' (e>0), 'eq' (e==0)"""
    __slots__ = ("op", "e")

    def __init__(self, op, e):
        self.op, self.e = op, e
        self.key, self.free, self.h = digest(f"({op} {e.key})"), e.free, e.h


class BNary(B):
    __slots__ = ("op", "xs")

    def __init__(self, op, xs):
        xs = tuple(sorted(xs, key=lambda b: b.key))
        self.op, self.xs = op, xs
        self.key = digest(f"({op} " + " ".join(x.key for x in xs) + ")")
        self.free = frozenset().union(*[x.free for x in xs])
        self.h = max([x.h for x in xs] or [0])


class BNot(B):
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x
        self.key, self.free, self.h = digest(f"(not {x.key})"), x.free, x.h


class BApp(B):
    __slots__ = ("f", "args")

    def __init__(self, f, *args):
        self.f, self.args = f, args
        self.key = digest(f"(b:{f} " + " ".join(a.key if isinstance(a, Term) else repr(a) for a in args) + ")")
        ts = [a for a in args if isinstance(a, Term)]
        self.free = frozenset().union(*[a.free for a in ts]) if ts else frozenset()
        self.h = max([a.h for a in ts] or [0])


def boolc(v):
    return TRUE if v else FALSE


def _scale(e, keepsign):
    items = sorted(e.t.items(), key=lambda q: q[0].key)
    k = None
    for m, c in items:
        if m is MONE or (not m.factors and not m.bound and m.ex is None):
            continue
        k = c
        break
    if k is None:
        return e
    k = abs(k) if keepsign else k
    return e * (1 / k) if k != 1 else e


def ge(e):
    """e >= 0"""
    e = num(e)
    c = e.const
    if c is not None:
        return boolc(c >= 0)
    d = CTX.decide_ge(e)
    if d is not None:
        return boolc(d)
    return BCmp("ge", _scale_int(e))


def _scale_int(e):
    if is_int(e):
        from math import gcd
        g = 0
        cst = 0
        for m, c in e.t.items():
            if not m.factors and not m.bound and m.ex is None:
                cst = c
            else:
                g = gcd(g, int(c))
        if g > 1:
            t = {}
            for m, c in e.t.items():
                if not m.factors and not m.bound and m.ex is None:
                    fl = Fraction(int(cst) // g)
                    if fl:
                        t[m] = fl
                else:
                    t[m] = c / g
            return E(t)
        return e
    return _scale(e, True)


def gt(e):
    e = num(e)
    c = e.const
    if c is not None:
        return boolc(c > 0)
    if is_int(e):
        return ge(e - 1)
    d = CTX.decide_ge(-e)
    if d is False:
        return TRUE
    if CTX.decide_gt(e) is not None:
        return boolc(CTX.decide_gt(e))
    return BCmp("gt", _scale(e, True))


def eq(a, b=0):
    e = num(a) - num(b)
    c = e.const
    if c is not None:
        return boolc(c == 0)
    d = CTX.decide_eq(e)
    if d is not None:
        return boolc(d)
    return BCmp("eq", _scale(e, False))


def not_(b):
    if isinstance(b, BConst):
        return boolc(not b.val)
    if isinstance(b, BNot):
        return b.x
    if isinstance(b, BCmp):
        if b.op == "ge":
            return gt(-b.e)
        if b.op == "gt":
            return ge(-b.e)
    if isinstance(b, BNary):
        return (or_ if b.op == "and" else and_)(*[not_(x) for x in b.xs])
    return BNot(b)


def _nary(op, xs):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    out = {}
    for x in xs:
        if isinstance(x, BConst):
            if x.val == zero.val:
                return zero
            continue
        if isinstance(x, BNary) and x.op == op:
            for y in x.xs:
                out[y.key] = y
        else:
            out[x.key] = x
    for x in list(out.values()):
        with CTX.suspended():
            nx = not_(x)
        if nx.key in out:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out.values()))
    return BNary(op, out.values())


def and_(*xs):
    return _nary("and", xs)


def or_(*xs):
    return _nary("or", xs)


def bapp(f, *args):
    b = BApp(f, *args)
    d = CTX.known(b)
    return b if d is None else boolc(d)


def bite(c, a, b):
    if isinstance(c, BConst):
        return a if c.val else b
    if a.key == b.key:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def ite(c, a, b):
    """numeric if-then-else"""
    if isinstance(c, bool):
        c = boolc(c)
    if isinstance(c, BConst):
        return a if c.val else b
    d = CTX.decide(c)
    if d is not None:
        return a if d else b
    if isinstance(a, B) or isinstance(b, B):
        return bite(c, a if isinstance(a, B) else boolE(a), b if isinstance(b, B) else boolE(b))
    a, b = num(a), num(b)
    if a.key == b.key:
        return a
    if isinstance(c, BNot):
        c, a, b = c.x, b, a
    elif isinstance(c, BCmp) and c.op == "gt":
        # canonical orientation: use ge
        with CTX.suspended():
            c2 = not_(c)
        if isinstance(c2, BCmp) and c2.op == "ge":
            c, a, b = c2, b, a
    a2, b2 = assume(a, c, True), assume(b, c, False)
    if a2.key == b2.key:
        return a2
    # numeric min/max
    mm = _minmax_of_ite(c, a2, b2)
    if mm is not None:
        return mm
    return atomE(Atom("ite", c, a2, b2))


def _minmax_of_ite(c, a, b):
    if isinstance(c, BCmp) and c.op in ("ge", "gt"):
        d = a - b
        for s, f in ((1, maxE), (-1, minE)):
            x = _scale(d * s, True) if d.const is None else None
            if x is not None and (x.key == c.e.key or _scale_int(d * s).key == c.e.key):
                return f(a, b)
    return None


def assume(t, c, val):
    """simplify t knowing that condition c has value val (only direct occurrences)."""
    if not isinstance(t, Term) or not _mentions(t, c.key):
        return t
    with CTX.fact(c if val else not_(c)):
        return resimplify(t)


def _mentions(t, key):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.key == key:
            return True
        if x.key in seen:
            continue
        seen.add(x.key)
        todo += children(x)
    return False


def children(t):
    if isinstance(t, E):
        return list(t.t)
    if isinstance(t, Mono):
        r = [a for a, _ in t.factors] + [n for _, n in t.bound]
        if t.ex is not None:
            r.append(t.ex)
        return r
    if isinstance(t, (Atom, BApp)):
        return [a for a in t.args if isinstance(a, Term)]
    if isinstance(t, BCmp):
        return [t.e]
    if isinstance(t, BNary):
        return list(t.xs)
    if isinstance(t, BNot):
        return [t.x]
    if isinstance(t, Lam):
        return list(t.sizes) + [t.body]
    return []


def walk(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.key in seen:
            continue
        seen.add(x.key)
        yield x
        st.extend(children(x))


def apps(t, fname):
    """all distinct 'app' atoms whose function name satisfies fname (str or predicate)."""
    p = (lambda s: s == fname) if isinstance(fname, str) else fname
    return [x for x in walk(t) if isinstance(x, Atom) and x.kind == "app" and p(x.args[0])]


def boolE(e):
    """truth value of a number"""
    if isinstance(e, B):
        return e
    e = num(e)
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if not m.bound and m.ex is None and m.factors and all(a.kind == "ind" for a, _ in m.factors):
            return and_(*[a.args[0] for a, _ in m.factors])
    return not_(eq(e))


# ----------------------------------------------------------------- min / max
def _flat(kind, xs):
    r = {}
    for x in xs:
        x = num(x)
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and not m.bound and m.ex is None and len(m.factors) == 1:
                a, e = m.factors[0]
                if a.kind == "app" and a.args[0] == kind and e == 1:
                    for y in a.args[1:]:
                        r[y.key] = y
                    continue
        r[x.key] = x
    return r


def _minmax(kind, xs):
    r = _flat(kind, xs)
    cs = [x for x in r.values() if x.const is not None]
    if len(cs) > 1:
        best = (min if kind == "min" else max)(cs, key=lambda x: x.const)
        r = {k: x for k, x in r.items() if x.const is None}
        r[best.key] = best
    vals = list(r.values())
    # drop dominated
    keep = []
    for i, x in enumerate(vals):
        dom = False
        for j, y in enumerate(vals):
            if i == j or any(y is d for d in []):
                continue
            d = CTX.decide_ge(x - y) if kind == "min" else CTX.decide_ge(y - x)
            if d is True:
                back = CTX.decide_ge(y - x) if kind == "min" else CTX.decide_ge(x - y)
                if back is True and j > i:
                    continue
                dom = True
                break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return app(kind, *sorted(keep, key=lambda x: x.key))


def maxE(*xs):
    return _minmax("max", xs)


def minE(*xs):
    return _minmax("min", xs)


def red(op, body, v, n):
    """op in redmin/redmax/prod over index v<n."""
    n = num(n)
    body = num(body)
    if v not in body.free and op != "prod":
        return body
    nc = n.const
    if nc is not None and nc.denominator == 1 and 0 < nc <= 6:
        xs = [subst(body, {v: num(i)}) for i in range(int(nc))]
        if op == "prod":
            r = ONE
            for x in xs:
                r = r * x
            return r
        return (minE if op == "redmin" else maxE)(*xs)
    if op == "prod":
        if v not in body.free:
            if nc is not None and nc.denominator == 1:
                return power(body, nc)
            return app("pown", body, n)
        if len(body.t) == 1:
            (m, c), = body.t.items()
            if not m.bound:
                r = ONE
                if c != 1:
                    r = app("pown", num(c), n)
                rest = []
                for a, x in m.factors:
                    if a.kind == "ind" and v in a.free:
                        r = r * ind(redall(a.args[0], v, n))
                    elif v in a.free:
                        rest.append((a, x))
                    else:
                        r = r * app("pown", power(atomE(a), x), n)
                if m.ex is not None:
                    r = r * exp(sum_over(m.ex, v, n))
                for a, x in rest:
                    r = r * power(app("prod", lam((n,), (v,), atomE(a))), x)
                return r
        return app("prod", lam((n,), (v,), body))
    if op in ("redmin", "redmax"):
        # scale by a positive constant / shift by index-free terms
        shift = E({m: c for m, c in body.t.items() if v not in m.free})
        core = body - shift
        if core.t:
            # normalised without looking at names, so that renaming cannot change the form
            k = _gcd(core.t.values())
            neg = sum(1 for c in core.t.values() if c < 0)
            if 2 * neg > len(core.t):
                k = -k
            if k != 1:
                core = core * (1 / k)
                if k < 0:
                    op = "redmax" if op == "redmin" else "redmin"
                return app(op, lam((n,), (v,), core)) * k + shift
        return app(op, lam((n,), (v,), core)) + shift
    return app(op, lam((n,), (v,), body))


def _gcd(cs):
    import math
    a, b = 0, 1
    for c in cs:
        c = abs(Fraction(c))
        a = math.gcd(a * c.denominator, c.numerator * b)
        b = b * c.denominator
        g = math.gcd(a, b)
        a, b = a // g, b // g
    return Fraction(a, b)


def unfold(t):
    """expand folded distances"""
    def fn(f, args):
        x, y = args
        v = fresh()
        d = lam_apply(x, [sym(v)]) - lam_apply(y, [sym(v)])
        return sum_over(d * d, v, x.sizes[0])
    return rewrite(t, lambda f: f == "eucl2", fn)


def redall(body, v, n, op="all"):
    if v not in body.free:
        return body
    nc = num(n).const
    if nc is not None and nc.denominator == 1 and nc <= 6:
        xs = [subst(body, {v: num(i)}) for i in range(int(nc))]
        return (and_ if op == "all" else or_)(*xs)
    if isinstance(body, BNary) and ((op == "all") == (body.op == "and")):
        return (and_ if op == "all" else or_)(*[redall(x, v, n, op) for x in body.xs])
    return bapp(op, lam((num(n),), (v,), body))


# ----------------------------------------------------------------- lambdas
class Lam(Term):
    """index function; sizes of the axes, body with canonical bound names."""
    __slots__ = ("sizes", "vars", "body")

    def __init__(self, sizes, vs, body):
        self.sizes, self.vars, self.body = sizes, vs, body
        fr = body.free - set(vs)
        h = body.h
        for s in sizes:
            fr |= s.free
            h = max(h, s.h)
        for v in vs:
            if v[0] == "$":
                h = max(h, int(v[1:]))
        self.free, self.h = fr, h
        self.key = digest("(lam " + " ".join(f"{v}<{s.key}" for v, s in zip(vs, sizes)) + " . " + body.key + ")")


def lam(sizes, vs, body):
    h = body.h
    sizes = tuple(num(s) for s in sizes)
    for s in sizes:
        h = max(h, s.h)
    names = tuple(f"${h + 1 + i}" for i in range(len(vs)))
    return Lam(sizes, names, rename(body, dict(zip(vs, names))))


def lam_apply(l, idx):
    return subst(l.body, dict(zip(l.vars, idx)))


# ----------------------------------------------------------------- substitution
def rename(t, mp):
    """rename free symbols to fresh symbol names (no capture possible by construction)."""
    if t is None or not (t.free & mp.keys()):
        return t
    with CTX.suspended():
        return _sub(t, {k: sym(v) for k, v in mp.items()}, {}, True)


def subst(t, mp):
    if t is None or not (t.free & mp.keys()):
        return t
    return _sub(t, mp, {}, False)


def resimplify(t):
    """rebuild a term bottom-up under the current facts."""
    return _sub(t, {}, {}, False, True)


def _sub(t, mp, memo, ren, force=False):
    if not force and not (t.free & mp.keys()):
        return t
    r = memo.get(t.key)
    if r is not None:
        return r
    r = _sub1(t, mp, memo, ren, force)
    memo[t.key] = r
    return r


def _sub1(t, mp, memo, ren, force):
    def S(x):
        return _sub(x, mp, memo, ren, force)
    if isinstance(t, E):
        if ren:
            acc = {}
            for m, c in t.t.items():
                m2 = _renmono(m, mp, memo)
                s = acc.get(m2, F0) + c
                if s:
                    acc[m2] = s
                else:
                    acc.pop(m2, None)
            return E(acc)
        r = ZERO
        for m, c in t.t.items():
            r = r + S_mono(m, mp, memo, ren, force) * c
        return r
    if isinstance(t, Mono):
        raise AssertionError
    if isinstance(t, Atom):
        if t.kind == "sym":
            v = mp.get(t.args[0])
            if v is None:
                return t
            if ren:
                (m, _), = v.t.items()
                return m.factors[0][0]
            return _as_atom_or_E(v)
        if ren:
            return Atom(t.kind, *[S(a) if isinstance(a, Term) else a for a in t.args])
        if t.kind == "ite":
            c = S(t.args[0])
            if isinstance(c, BConst):
                return _as_atom_or_E(S(t.args[1]) if c.val else S(t.args[2]))
            if force:
                d = CTX.decide(c)
                if d is not None:
                    return _as_atom_or_E(S(t.args[1]) if d else S(t.args[2]))
                with CTX.fact(c):
                    x = _sub(t.args[1], mp, {}, ren, force)
                with CTX.fact(not_(c)):
                    y = _sub(t.args[2], mp, {}, ren, force)
            else:
                x, y = S(t.args[1]), S(t.args[2])
            return _as_atom_or_E(ite(c, x, y))
        if t.kind == "ind":
            return _as_atom_or_E(ind(S(t.args[0])))
        if t.kind == "pb":
            return _as_atom_or_E(S(t.args[0]))
        if t.kind == "num":
            return t
        args = [S(a) if isinstance(a, Term) else a for a in t.args]
        return _as_atom_or_E(reapp(*args))
    if isinstance(t, BConst):
        return t
    if isinstance(t, BCmp):
        if ren:
            return BCmp(t.op, S(t.e))
        e = S(t.e)
        return ge(e) if t.op == "ge" else gt(e) if t.op == "gt" else eq(e)
    if isinstance(t, BNary):
        if ren:
            return BNary(t.op, [S(x) for x in t.xs])
        return _nary(t.op, [S(x) for x in t.xs])
    if isinstance(t, BNot):
        return BNot(S(t.x)) if ren else not_(S(t.x))
    if isinstance(t, BApp):
        args = [S(a) if isinstance(a, Term) else a for a in t.args]
        if ren:
            return BApp(t.f, *args)
        if t.f in ("all", "any"):
            l = args[0]
            v = fresh()
            return redall(lam_apply(l, [sym(v)]), v, l.sizes[0], t.f)
        return bapp(t.f, *args)
    if isinstance(t, Lam):
        # open with fresh names, substitute, close canonically
        vs = [fresh() for _ in t.vars]
        body = rename(t.body, dict(zip(t.vars, vs)))
        sizes = [S(s) for s in t.sizes]
        if ren:
            body = _sub(body, mp, {}, ren, force)
            h = body.h
            for s in sizes:
                h = max(h, s.h)
            names = tuple(f"${h + 1 + i}" for i in range(len(vs)))
            return Lam(tuple(sizes), names, rename(body, dict(zip(vs, names))))
        with CTX.bounds(dict(zip(vs, sizes))):
            body = _sub(body, mp, {}, ren, force)
        return lam(sizes, vs, body)
    raise TypeError(type(t))


def _renmono(m, mp, memo):
    if not (m.free & mp.keys()):
        return m
    if m.bound:
        vs, fs, ex = _open_mono(m)
        vs = [(v, _sub(n, mp, {}, True)) for v, n in vs]
        fs = [(_sub(a, mp, {}, True), e) for a, e in fs]
        ex = _sub(ex, mp, {}, True) if ex is not None else None
        return _close_mono(vs, fs, ex)
    fs = tuple(sorted(((_sub(a, mp, memo, True), e) for a, e in m.factors), key=lambda p: (p[0].key, p[1])))
    return Mono((), fs, _sub(m.ex, mp, memo, True) if m.ex is not None else None)


def S_mono(m, mp, memo, ren, force):
    if not force and not (m.free & mp.keys()):
        return E({m: F1})
    vs, fs, ex = _open_mono(m)
    vs = [(v, _sub(n, mp, memo, ren, force)) for v, n in vs]
    mm = {} if m.bound else memo
    with CTX.bounds(dict(vs)):
        fs = [(_sub(a, mp, mm, ren, force), e) for a, e in fs]
        ex = _sub(ex, mp, mm, ren, force) if ex is not None else None
        if not any(n.const is not None and n.const <= 6 for _, n in vs):
            return _rebuild(F1, vs, fs, ex)
        base = _rebuild(F1, [], fs, ex)
    for v, n in vs:
        base = sum_over(base, v, n)
    return base


def _as_atom_or_E(e):
    """E consisting of one atom -> that Atom; otherwise the E itself."""
    if isinstance(e, Atom):
        return e
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and not m.bound and m.ex is None and len(m.factors) == 1 and m.factors[0][1] == 1:
            return m.factors[0][0]
    return e


def reapp(fname, *args):
    """rebuild an application through its simplifying constructor."""
    if fname in ("max", "min"):
        return (maxE if fname == "max" else minE)(*args)
    if fname in ("redmin", "redmax", "prod"):
        l = args[0]
        v = fresh()
        with CTX.bounds({v: l.sizes[0]}):
            b = lam_apply(l, [sym(v)])
            return red(fname, b, v, l.sizes[0])
    if fname == "abs":
        return absE(args[0])
    if fname == "log":
        return log(args[0])
    if fname in ("ceil", "floor"):
        return rounding(fname, args[0])
    if fname == "floordiv":
        return floordiv(args[0], args[1])
    if fname == "order" and len(args) == 2 and isinstance(args[0], Lam):
        return order(args[0], args[1])
    return app(fname, *args)


def rounding(kind, e):
    e = num(e)
    c = e.const
    if c is not None:
        import math
        return num(math.ceil(c) if kind == "ceil" else math.floor(c))
    if is_int(e):
        return e
    # pull integer constants out
    ip = ZERO
    rest = {}
    for m, c in e.t.items():
        if not m.factors and not m.bound and m.ex is None:
            k = c.numerator // c.denominator
            ip = ip + k
            if c - k:
                rest[m] = c - k
        else:
            rest[m] = c
    return app(kind, E(rest)) + ip


def order(l, k):
    """the k-th smallest (counted from 0) value of an index function of one axis"""
    k = num(k)
    if len(l.vars) == 1:
        n = l.sizes[0]
        if k.const == 0 or (k - n + 1).const == 0:
            v = fresh()
            return red("redmin" if k.const == 0 else "redmax", subst(l.body, {l.vars[0]: sym(v)}), v, n)
    return app("order", l, k)


def floordiv(a, b):
    a, b = num(a), num(b)
    if a.const is not None and b.const is not None and b.const != 0:
        import math
        return num(math.floor(a.const / b.const))
    if b.const == 1 and is_int(a):
        return a
    if is_int(a) is True and is_int(b) is True and not b.const == 0:
        # a = q*b + r with 0 <= r < b
        q, r = ZERO, ZERO
        for m, c in a.t.items():
            x = E({m: c})
            y = x * power(b, -1)
            if is_int(y) is True and all(e > 0 for mm in y.t for _, e in mm.factors):
                q = q + y
            else:
                r = r + x
        if CTX.decide_ge(r) is True and CTX.decide_ge(b - 1 - r) is True:
            return q
    return app("floordiv", a, b)


def solve_eq(b, v):
    """if b is the condition v == e (v a symbol name, linear), return e."""
    if isinstance(b, BCmp) and b.op == "eq":
        return solve_lin(b.e, v)
    return None


def solve_lin(e, v):
    """solve e == 0 for symbol v: None if not linear with unit coefficient."""
    c, rest = linear_in(e, v)
    if c is None or c == 0:
        return None
    if abs(c) != 1:
        return None
    return rest * (-1 / c)


def linear_in(e, v):
    """e = c*v + rest, with c a rational and rest free of v; else (None, None)."""
    c, rest = F0, {}
    for m, k in e.t.items():
        if v not in m.free:
            rest[m] = k
            continue
        if not m.bound and m.ex is None and len(m.factors) == 1 and m.factors[0][1] == 1 \
                and m.factors[0][0].kind == "sym":
            c += k
        else:
            return None, None
    return c, E(rest)


# ----------------------------------------------------------------- rewriting
def rewrite(t, pred, fn):
    """rebuild t with fn(fname, args) applied to applications whose name satisfies pred
    (innermost first); the facts of enclosing conditions and index bounds are in force."""
    has = {}

    def contains(x):
        r = has.get(x.key)
        if r is None:
            if isinstance(x, Atom) and x.kind == "app" and pred(x.args[0]):
                r = True
            elif isinstance(x, BApp) and pred(x.f):
                r = True
            else:
                r = any(contains(c) for c in children(x))
            has[x.key] = r
        return r

    def R(x, memo):
        if not contains(x):
            return x
        r = memo.get(x.key)
        if r is None:
            r = R1(x, memo)
            memo[x.key] = r
        return r

    def R1(x, memo):
        if isinstance(x, E):
            r = ZERO
            for m, c in x.t.items():
                if not contains(m):
                    r = r + E({m: c})
                    continue
                vs, fs, ex = _open_mono(m)
                vs = [(v, R(n, memo)) for v, n in vs]
                mm = {} if m.bound else memo
                for a, _ in fs:
                    contains(a)
                with CTX.bounds(dict(vs)):
                    fs = [(R(a, mm), e) for a, e in fs]
                    ex = R(ex, mm) if ex is not None else None
                    y = _rebuild(F1, [], fs, ex)
                for v, n in vs:
                    y = sum_over(y, v, n)
                r = r + y * c
            return r
        if isinstance(x, Atom):
            if x.kind == "ite":
                c = R(x.args[0], memo)
                if isinstance(c, BConst):
                    return _as_atom_or_E(R(x.args[1] if c.val else x.args[2], memo))
                with CTX.fact(c):
                    a = R(x.args[1], {})
                with CTX.fact(not_(c)):
                    b = R(x.args[2], {})
                return _as_atom_or_E(ite(c, a, b))
            if x.kind == "ind":
                return _as_atom_or_E(ind(R(x.args[0], memo)))
            if x.kind == "pb":
                return _as_atom_or_E(R(x.args[0], memo))
            args = [R(a, memo) if isinstance(a, Term) else a for a in x.args]
            if pred(x.args[0]):
                r = fn(x.args[0], args[1:])
                if r is not None:
                    return _as_atom_or_E(r)
            return _as_atom_or_E(reapp(*args))
        if isinstance(x, BCmp):
            e = R(x.e, memo)
            return ge(e) if x.op == "ge" else gt(e) if x.op == "gt" else eq(e)
        if isinstance(x, BNary):
            return _nary(x.op, [R(y, memo) for y in x.xs])
        if isinstance(x, BNot):
            return not_(R(x.x, memo))
        if isinstance(x, BApp):
            args = [R(a, memo) if isinstance(a, Term) else a for a in x.args]
            if pred(x.f):
                r = fn(x.f, args)
                if r is not None:
                    return r
            if x.f in ("all", "any"):
                l = args[0]
                v = fresh()
                return redall(lam_apply(l, [sym(v)]), v, l.sizes[0], x.f)
            return bapp(x.f, *args)
        if isinstance(x, Lam):
            vs = [fresh() for _ in x.vars]
            body = rename(x.body, dict(zip(x.vars, vs)))
            sizes = [R(s, memo) for s in x.sizes]
            with CTX.bounds(dict(zip(vs, sizes))):
                body = R(body, {})
            return lam(sizes, vs, body)
        return x
    return R(t, {})


def mentions_app(t, pred):
    for x in walk(t):
        if isinstance(x, Atom) and x.kind == "app" and pred(x.args[0]):
            return True
        if isinstance(x, BApp) and pred(x.f):
            return True
    return False


# ----------------------------------------------------------------- facts
class Ctx:
    """Interval facts about integer symbols, and boolean facts."""

    def __init__(self):
        self.lo = {}      # atom key -> E
        self.hi = {}      # atom key -> E (inclusive)
        self.true = {}    # key -> B  (known true)
        self.ineqs = []   # list of E known >= 0
        self.noteqs = []  # list of E known != 0
        self.busy = 0
        self.off = 0

    @contextlib.contextmanager
    def suspended(self):
        self.off += 1
        try:
            yield
        finally:
            self.off -= 1

    @contextlib.contextmanager
    def bounds(self, mp):
        """mp: symbol -> size n ; 0 <= symbol <= n-1"""
        old = {}
        for v, n in mp.items():
            old[v] = (self.lo.get(v), self.hi.get(v))
            self.lo[v] = ZERO
            self.hi[v] = num(n) - 1
        try:
            yield
        finally:
            for v, (a, b) in old.items():
                if a is None:
                    self.lo.pop(v, None)
                else:
                    self.lo[v] = a
                if b is None:
                    self.hi.pop(v, None)
                else:
                    self.hi[v] = b

    @contextlib.contextmanager
    def fact(self, *bs):
        sv = (dict(self.lo), dict(self.hi), dict(self.true), list(self.ineqs), list(self.noteqs))
        for b in bs:
            self.add(b)
        try:
            yield
        finally:
            self.lo, self.hi, self.true, self.ineqs, self.noteqs = sv

    def add(self, b):
        if isinstance(b, BConst):
            return
        if isinstance(b, BNary) and b.op == "and":
            for x in b.xs:
                self.add(x)
            return
        self.true[b.key] = b
        if isinstance(b, BCmp):
            if b.op in ("ge", "gt"):
                self._add_ge(b.e)
                if b.op == "gt":
                    self.noteqs.append(b.e)
            elif b.op == "eq":
                self._add_ge(b.e)
                self._add_ge(-b.e)
        elif isinstance(b, BNot) and isinstance(b.x, BCmp) and b.x.op == "eq":
            self.noteqs.append(b.x.e)
            self._tighten()

    def _add_ge(self, e):
        self.ineqs.append(e)
        # turn into a bound on the most local integer symbol
        best = None
        for m, c in e.t.items():
            if not m.bound and m.ex is None and len(m.factors) == 1 and m.factors[0][1] == 1:
                a = m.factors[0][0]
                if a.kind == "sym":
                    k = a.args[0]
                    pri = (k[0] in "@%!", k in self.lo, k)
                    if best is None or pri > best[0]:
                        best = (pri, k, c)
        if best is not None and abs(best[2]) == 1:
            _, k, c = best
            cc, rest = linear_in(e, k)
            if cc is not None and k not in rest.free:
                if cc > 0:
                    nb = -rest * (1 / cc)
                    old = self.lo.get(k)
                    if old is None or self._const_ge(nb - old):
                        self.lo[k] = nb
                else:
                    nb = rest * (-1 / cc)
                    old = self.hi.get(k)
                    if old is None or self._const_ge(old - nb):
                        self.hi[k] = nb
        self._tighten()

    def _const_ge(self, e):
        return self.decide_ge(e) is True

    def _tighten(self):
        # v != lo(v)  ->  lo(v)+1
        for _ in range(4):
            ch = False
            for e in self.noteqs:
                for k in list(e.free):
                    if k not in INTS and k[0] not in "@%!$":
                        continue
                    c, rest = linear_in(e, k)
                    if c is None or abs(c) != 1:
                        continue
                    val = rest * (-1 / c)
                    if k in self.lo and (self.lo[k] - val).const == 0:
                        self.lo[k] = self.lo[k] + 1
                        ch = True
                    if k in self.hi and (self.hi[k] - val).const == 0:
                        self.hi[k] = self.hi[k] - 1
                        ch = True
            if not ch:
                break

    def known(self, b):
        if self.off:
            return None
        if b.key in self.true:
            return True
        with self.suspended():
            n = not_(b)
        if n.key in self.true:
            return False
        return None

    def decide(self, b):
        if isinstance(b, BConst):
            return b.val
        if self.off:
            return None
        k = self.known(b)
        if k is not None:
            return k
        if isinstance(b, BCmp):
            if b.op == "ge":
                return self.decide_ge(b.e)
            if b.op == "gt":
                return self.decide_gt(b.e)
            return self.decide_eq(b.e)
        if isinstance(b, BNary):
            ds = [self.decide(x) for x in b.xs]
            if b.op == "and":
                if any(d is False for d in ds):
                    return False
                return True if all(d is True for d in ds) else None
            if any(d is True for d in ds):
                return True
            return False if all(d is False for d in ds) else None
        if isinstance(b, BNot):
            d = self.decide(b.x)
            return None if d is None else not d
        return None

    def lower(self, e, depth=0):
        """a rational lower bound of e, or None."""
        return self._ext(e, True, 0)

    def upper(self, e):
        r = self._ext(-e, True, 0)
        return None if r is None else -r

    def _ext(self, e, low, depth):
        if depth > 14:
            return None
        # eliminate local index symbols first
        cand = None
        for m, c in e.t.items():
            if not m.factors and not m.bound and m.ex is None:
                continue
            if m.bound or m.ex is not None or len(m.factors) != 1 or m.factors[0][1] != 1:
                return self._ext_product(e, depth)
            a = m.factors[0][0]
            if a.kind == "sym":
                key = a.args[0]
                pri = 2 if key[0] in "@%$!?" else 1
            elif a.kind == "ite":
                x, y = a.args[1], a.args[2]
                r = E({k: v for k, v in e.t.items() if k.key != m.key})
                l1 = self._ext(r + x * c, True, depth + 1)
                l2 = self._ext(r + y * c, True, depth + 1)
                return None if l1 is None or l2 is None else min(l1, l2)
            elif a.kind == "app" and a.args[0] in ("min", "max"):
                r = E({k: v for k, v in e.t.items() if k.key != m.key})
                ls = [self._ext(r + x * c, True, depth + 1) for x in a.args[1:]]
                lower_is_min = (a.args[0] == "min") == (c > 0)
                if lower_is_min:
                    return None if any(l is None for l in ls) else min(ls)
                ls = [l for l in ls if l is not None]
                return max(ls) if ls else None
            elif a.kind == "app":
                key, pri = a.key, 0
            elif a.kind == "ind":
                key, pri = a.key, 0
            else:
                return None
            p = (pri, key)
            if cand is None or p > cand[0]:
                cand = (p, key, c, m, a)
        if cand is None:
            return e.const
        _, key, c, m, a = cand
        if a.kind == "ind":
            bnd = ZERO if c > 0 else ONE
        else:
            bnd = self.lo.get(key) if c > 0 else self.hi.get(key)
        if bnd is None:
            return None
        rest = E({k: v for k, v in e.t.items() if k.key != m.key})
        return self._ext(rest + bnd * c, True, depth + 1)

    def _ext_product(self, e, depth):
        # products of nonnegative quantities with positive coefficients are bounded below by 0
        rest = {}
        for m, c in e.t.items():
            if not m.factors and not m.bound and m.ex is None:
                rest[m] = c
                continue
            if not m.bound and m.ex is None and len(m.factors) == 1 and m.factors[0][1] == 1:
                rest[m] = c
                continue
            if c < 0:
                return None
            for a, x in m.factors:
                if x.denominator == 1 and x % 2 == 0:
                    continue
                if positive(a) or a.kind == "pb" and x.denominator != 1:
                    continue
                if a.kind == "sym" and a.args[0] in self.lo:
                    l = self._ext(atomE(a), True, depth + 1)
                    if l is not None and l >= 0:
                        continue
                return None
        return self._ext(E(rest), True, depth + 1) if rest else F0

    def decide_ge(self, e):
        """e >= 0 : True / False / None"""
        c = e.const
        if c is not None:
            return c >= 0
        if self.off or self.busy > 3:
            return None
        self.busy += 1
        try:
            l = self.lower(e)
            if l is not None and l >= 0:
                return True
            u = self.upper(e)
            if u is not None and u < 0:
                return False
            for f in self.ineqs:
                d = (e - f).const
                if d is not None and d >= 0:
                    return True
                d = (e + f).const
                if d is not None and d < 0:
                    return False
            if is_int(e):
                if l is not None and l > -1:
                    return True
                if u is not None and u < 0:
                    return False
            return None
        finally:
            self.busy -= 1

    def decide_gt(self, e):
        d = self.decide_ge(-e)
        if d is None:
            return None
        if d is False:
            return True
        # -e >= 0 known, i.e. e <= 0
        return False

    def decide_eq(self, e):
        c = e.const
        if c is not None:
            return c == 0
        if self.off or self.busy > 3:
            return None
        for f in self.noteqs:
            if (e - f).const == 0 or (e + f).const == 0:
                return False
        a = self.decide_ge(e)
        if a is False:
            return False
        b = self.decide_ge(-e)
        if b is False:
            return False
        if a is True and b is True:
            return True
        if is_int(e) or True:
            l = self.lower(e)
            if l is not None and l > 0:
                return False
            u = self.upper(e)
            if u is not None and u < 0:
                return False
        return None


CTX = Ctx()


# ----------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 60:
        return "..."
    d = depth + 1
    if isinstance(t, E):
        if not t.t:
            return "0"
        out = []
        for m, c in sorted(t.t.items(), key=lambda q: q[0].key):
            s = show(m, d)
            if s == "1":
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{c}*{s}")
        return " + ".join(out).replace("+ -", "- ") if len(out) > 1 else out[0]
    if isinstance(t, Mono):
        fs = []
        for a, e in t.factors:
            s = show(a, d)
            if a.kind == "pb":
                s = f"({s})"
            fs.append(s if e == 1 else f"{s}^({e})" if e.denominator != 1 or e < 0 else f"{s}^{e}")
        if t.ex is not None:
            fs.append(f"exp({show(t.ex, d)})")
        s = "*".join(fs) or "1"
        if t.bound:
            s = "sum[" + ",".join(f"{v}<{show(n, d)}" for v, n in t.bound) + "](" + s + ")"
        return s
    if isinstance(t, Atom):
        if t.kind == "sym":
            return t.args[0]
        if t.kind == "num":
            return str(t.args[0])
        if t.kind == "pb":
            return show(t.args[0], d)
        if t.kind == "ind":
            return f"[{show(t.args[0], d)}]"
        if t.kind == "ite":
            return f"({show(t.args[0], d)} ? {show(t.args[1], d)} : {show(t.args[2], d)})"
        return f"{t.args[0]}(" + ", ".join(show(a, d) if isinstance(a, Term) else repr(a) for a in t.args[1:]) + ")"
    if isinstance(t, BConst):
        return "true" if t.val else "false"
    if isinstance(t, BCmp):
        return show(t.e, d) + {"ge": ">=0", "gt": ">0", "eq": "==0"}[t.op]
    if isinstance(t, BNary):
        return "(" + f" {t.op} ".join(show(x, d) for x in t.xs) + ")"
    if isinstance(t, BNot):
        return f"not({show(t.x, d)})"
    if isinstance(t, BApp):
        return f"{t.f}(" + ", ".join(show(a, d) if isinstance(a, Term) else repr(a) for a in t.args) + ")"
    if isinstance(t, Lam):
        return "\\" + ",".join(f"{v}<{show(s, d)}" for v, s in zip(t.vars, t.sizes)) + "." + show(t.body, d)
    return repr(t)


def reset():
    """forget all facts (a new analysis session)"""
    CTX.__init__()
    INTS.clear()
    POS.clear()
