"""Hidden state (P32): nothing that a function leaves in module variables, class attributes, default
arguments, function attributes or closures of decorators may influence later calls or other objects.
Works on the syntax trees of all modules: finds every write to such a location, every read of it, and
decides by definition-use dependencies whether a stored value is determined by the key it is stored under."""
import ast
import os
from .pstatic import modules

MUT = {"append", "extend", "insert", "update", "setdefault", "add", "pop", "popitem", "clear", "remove", "discard", "sort", "reverse", "fill", "put", "resize",
       "appendleft", "popleft", "move_to_end", "__setitem__", "copy_", "fill_", "zero_", "add_", "mul_", "sub_", "div_"}
LOGROOT = {"logging", "warnings", "logger", "log", "print", "_logger", "LOGGER"}
PURE = {"np", "numpy", "torch", "math", "scipy", "functools", "itertools", "ot", "operator", "linalg"}
RANDOM = ("random", "rand", "randn", "normal", "normal_", "uniform_", "Uniform", "uniform", "Normal", "sample", "default_rng", "RandomState", "randperm", "shuffle", "choice", "time", "perf_counter")
BUILTIN = set(dir(__import__("builtins")))
IMMUT_CALLS = {"tuple", "frozenset", "float", "int", "str", "bool", "complex", "object", "range", "float64", "device", "dtype", "slice", "Ellipsis"}
STATEFUL = ("default_rng", "RandomState", "Generator", "Random", "count", "cycle", "iter", "PCG64", "MT19937", "SeedSequence")
CACHES = ("lru_cache", "cache", "cached_property", "memoize")


def chain(e):
    """a.b.c -> ('a','b','c') or None"""
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return (e.id,) + tuple(reversed(out))
    return None


def strip(e):
    """the object that a store into e changes, with the keys on the way"""
    keys = []
    while isinstance(e, (ast.Subscript, ast.Starred)):
        if isinstance(e, ast.Subscript):
            keys.append(e.slice)
        e = e.value
    return e, keys


PUBLIC = {"DPFC", "torched_DPFC", "RBF"}      # classes users make objects of


class Scope:
    def __init__(self, node, parent, mod, cls, qual):
        self.node, self.parent, self.mod, self.cls, self.qual = node, parent, mod, cls, qual
        self.globals, self.nonlocals, self.locals, self.params = set(), set(), set(), []
        self.assigns, self.plain = {}, {}      # local -> [exprs]
        self.children = []
        self.stmts = []

    def assigns_plain(self):
        """local -> values it is bound to by name (not through an element)"""
        return self.plain

    def owner(self, name):
        """scope that binds name (None: module or builtin)"""
        if name in self.globals:
            return None
        if name in self.locals and name not in self.nonlocals:
            return self
        p = self.parent
        while p is not None:
            if name in p.locals:
                return p
            p = p.parent
        return None


LOAD = ast.Load()
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.bind, self.funcs, self.classes, self.imports, self.scopes = {}, {}, {}, {}, []
        self.modcalls = set()
        for s in self.flat(tree.body):
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.bind.setdefault(n.id, []).append(s.value)
            elif isinstance(s, FUNCS[:2]):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = (s.module or "", s.level, a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[(a.asname or a.name).split(".")[0]] = (a.name, 0, None)
        for n in ast.walk(tree):
            if isinstance(n, FUNCS[:2] + (ast.ClassDef,)):
                for d in n.decorator_list:
                    c = chain(d.func if isinstance(d, ast.Call) else d)
                    if c:
                        self.modcalls.add(c[-1])
        for s in self.flat(tree.body):
            if not isinstance(s, FUNCS[:2] + (ast.ClassDef,)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Call) and chain(n.func):
                        self.modcalls.add(chain(n.func)[-1])
        self.build(tree, None, None, "")

    def flat(self, body):
        for s in body:
            yield s
            for f in ("body", "orelse", "finalbody"):
                if not isinstance(s, FUNCS[:2] + (ast.ClassDef,)):
                    yield from self.flat(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []) or []:
                yield from self.flat(h.body)

    def build(self, node, parent, cls, q):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, FUNCS):
                nm = getattr(c, "name", "<lambda>")
                sc = Scope(c, parent, self, cls, (q + "." if q else "") + nm)
                self.scopes.append(sc)
                a = c.args
                sc.params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + [p.arg for p in (a.vararg, a.kwarg) if p]
                sc.locals |= set(sc.params)
                self.collect(c, sc)
                if parent is not None:
                    parent.children.append(sc)
                self.build(c, sc, cls, sc.qual)
            elif isinstance(c, ast.ClassDef):
                self.build(c, parent, c.name, (q + "." if q else "") + c.name)
            else:
                self.build(c, parent, cls, q)

    def collect(self, fn, sc):
        todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]

        def bindto(t, v):
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    sc.locals.add(n.id)
                    sc.assigns.setdefault(n.id, []).append(v)
                    sc.plain.setdefault(n.id, []).append(v)
            b, ks = strip(t)
            if isinstance(b, ast.Name) and not isinstance(t, ast.Name):
                sc.assigns.setdefault(b.id, []).append(v)
                for k in ks:
                    sc.assigns[b.id].append(k)
        while todo:
            n = todo.pop()
            if isinstance(n, FUNCS[:2]):
                sc.locals.add(n.name)
                continue
            if isinstance(n, (ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Global):
                sc.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                sc.nonlocals |= set(n.names)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    bindto(t, n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                bindto(n.target, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                bindto(n.target, n.iter)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                bindto(n.optional_vars, n.context_expr)
            elif isinstance(n, ast.NamedExpr):
                bindto(n.target, n.value)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                sc.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                sc.locals |= {(a.asname or a.name).split(".")[0] for a in n.names}
            todo += list(ast.iter_child_nodes(n))
        sc.locals -= sc.globals


class State:
    def __init__(self, root):
        self.mods = {}
        self.root = root
        for m in modules(root):
            p = os.path.join(root, m.replace(".", os.sep))
            p = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
            try:
                t = ast.parse(open(p, encoding="utf-8").read())
            except (OSError, SyntaxError, ValueError):
                continue
            self.mods[m] = Module(m, os.path.relpath(p, root), t)
        self.modcalls = set().union(*[m.modcalls for m in self.mods.values()]) if self.mods else set()
        self.writes, self.reads, self.excluded, self.early, self.local_only = {}, {}, set(), {}, {}
        for m in self.mods.values():
            for sc in m.scopes:
                self.find_writes(sc)
        for m in self.mods.values():
            for sc in m.scopes:
                self.find_reads(sc)

    # -------------------------------------------------------------- locations
    def imported(self, mod, name):
        """module of the package and name an import refers to"""
        src, level, orig = mod.imports[name]
        for cand in self.mods:
            if orig is not None and (cand == src or cand.endswith("." + src)) and src:
                return self.mods[cand], orig
        full = (src + "." + orig) if orig and src else (orig or src)
        for cand in self.mods:
            if cand == full or cand.endswith("." + full):
                return self.mods[cand], None
        return None, None

    def top(self, mod, name, depth=0):
        if name in mod.bind:
            return ("variable", mod.name, name)
        if name in mod.classes:
            return ("classobj", mod.name, name)
        if name in mod.funcs:
            return ("funcobj", mod.name, name)
        if name in mod.imports and depth < 4:
            m2, n2 = self.imported(mod, name)
            if m2 is not None:
                return self.top(m2, n2, depth + 1) if n2 else ("module", m2.name, "")
        return None

    def mutable_default(self, sc, name):
        a = getattr(sc.node, "args", None)
        if a is None:
            return None
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if p.arg == name and d is not None:
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                    return d
                if isinstance(d, ast.Call):
                    c = chain(d.func)
                    return None if c and c[-1] in IMMUT_CALLS else d
                if isinstance(d, ast.Name) and d.id in sc.mod.bind and any(isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Call)) for v in sc.mod.bind[d.id]):
                    return d
        return None

    def loc(self, sc, e, depth=0):
        """persistent location of the object an expression denotes"""
        if depth > 6:
            return None
        if isinstance(e, ast.Subscript):
            return self.loc(sc, e.value, depth + 1)
        if isinstance(e, ast.Call) and chain(e.func) == ("globals",):
            return ("variable", sc.mod.name, "globals()")
        if isinstance(e, ast.Call):
            c = chain(e.func)
            if c == ("vars",) and len(e.args) == 1:
                return self.loc(sc, ast.Attribute(value=e.args[0], attr="__dict__", ctx=ast.Load()), depth + 1)
            if c == ("getattr",) and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                r = self.loc(sc, ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Load()), depth + 1)
                return r if r and r[0] in ("function", "class") else None
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("setdefault", "get", "__getitem__"):
                r = self.loc(sc, e.func.value, depth + 1)
                return r if r and r[0] in ("variable", "default", "class", "function") and (e.func.attr == "setdefault" or r in self.writes) else None
            return None
        if isinstance(e, ast.Name):
            o = sc.owner(e.id)
            if o is None:
                r = self.top(sc.mod, e.id)
                return r
            if e.id in o.params and e.id not in o.assigns_plain():
                if self.mutable_default(o, e.id) is not None:
                    return ("default", sc.mod.name, o.qual, e.id)
            if e.id not in o.params:
                vs = o.assigns_plain().get(e.id, [])
                if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute, ast.Call)):
                    r = self.loc(o, vs[0], depth + 1)
                    if r and r[0] in ("variable", "default", "class", "function"):
                        return r
                if o is not sc and getattr(o.node, "name", None) in self.modcalls:
                    return ("closure", sc.mod.name, o.qual, e.id)
            return None
        if isinstance(e, ast.Attribute):
            v = e.value
            if isinstance(v, ast.Call) and chain(v.func) == ("type",) and sc.cls:
                return ("class", sc.mod.name, sc.cls, e.attr)
            c = chain(e)
            if c is None:
                return None
            if c[0] in ("self", "cls") and sc.cls and self.first_param(sc) == c[0]:
                if len(c) > 2 and c[1] == "__class__":
                    return ("class", sc.mod.name, sc.cls, c[2])
                k = sc.mod.classes.get(sc.cls)
                if c[0] == "cls":
                    return ("class", sc.mod.name, sc.cls, c[1])
                if k is not None and (self.class_mutable(sc.mod, sc.cls, c[1]) or ("class", sc.mod.name, sc.cls, c[1]) in self.writes):
                    return ("class", sc.mod.name, sc.cls, c[1])
                if k is not None and self.late(sc) and not self.ephemeral(sc.mod, sc.cls) and c[1] not in self.methods(sc.mod, sc.cls):
                    return ("instance", sc.mod.name, sc.cls, c[1])
                return None
            o = sc.owner(c[0])
            if o is not None:
                return self.loc(sc, v, depth + 1) if isinstance(v, (ast.Name, ast.Attribute)) else None
            r = self.top(sc.mod, c[0])
            if r is None:
                return None
            if r[0] == "classobj":
                k = self.mods[r[1]].classes[r[2]]
                if len(c) > 2 and any(isinstance(s, FUNCS[:2]) and s.name == c[1] for s in k.body):
                    return ("function", r[1], r[2] + "." + c[1], c[2])
                return ("class", r[1], r[2], c[1])
            if r[0] == "funcobj":
                return ("function", r[1], r[2], c[1])
            if r[0] == "module":
                return ("variable", r[1], c[1])
            return r
        return None

    def methods(self, mod, cls):
        return {f.name for f in mod.classes[cls].body if isinstance(f, FUNCS[:2])}

    def ephemeral(self, mod, cls):
        """do all objects of the class live in local names of one call?  (helper classes that are not
        exported, made only as `x = C(...)`, `with C(...) as x` or `C(...).method()`)"""
        key = (mod.name, cls)
        if key not in self.local_only:
            self.local_only[key] = self._ephemeral(mod, cls)
        return self.local_only[key]

    def _ephemeral(self, mod, cls):
        n = 0
        if cls in PUBLIC:
            return False
        for m in self.mods.values():
            if any(i[2] == cls and a != cls for a, i in m.imports.items()):
                return False
            for v in m.bind.get("__all__", ()):
                if any(isinstance(x, ast.Constant) and x.value == cls for x in ast.walk(v)):
                    return False
            up = {}
            for x in ast.walk(m.tree):
                for c in ast.iter_child_nodes(x):
                    up[id(c)] = x
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and x.attr == cls:
                    return False
                if not (isinstance(x, ast.Name) and x.id == cls):
                    continue
                fn = x
                while fn is not None and not isinstance(fn, FUNCS):
                    fn = up.get(id(fn))
                call = up.get(id(x))
                if fn is None or isinstance(fn, ast.Lambda) or not (isinstance(call, ast.Call) and call.func is x):
                    return False
                n += 1
                p = up.get(id(call))
                name = None
                if isinstance(p, ast.Attribute) or isinstance(p, ast.Expr) or isinstance(p, (ast.For, ast.comprehension)) and p.iter is call:
                    continue
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                    name = p.targets[0].id
                elif isinstance(p, ast.withitem) and (p.optional_vars is None or isinstance(p.optional_vars, ast.Name)):
                    name = p.optional_vars.id if p.optional_vars is not None else None
                    if name is None:
                        continue
                else:
                    return False
                for y in ast.walk(fn):
                    if isinstance(y, (ast.Global, ast.Nonlocal)) and name in y.names:
                        return False
                    if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load):
                        q = up.get(id(y))
                        if not (isinstance(q, ast.Attribute) or isinstance(q, ast.withitem) or isinstance(q, (ast.For, ast.comprehension)) and q.iter is y):
                            return False
        return n > 0

    def late(self, sc):
        """is the method called on a finished object, not from the constructor?"""
        while sc.parent is not None:
            sc = sc.parent
        k = (sc.mod.name, sc.cls)
        if k not in self.early:
            todo, seen = ["__init__"], set()
            defs = {}
            for s in sc.mod.scopes:
                if s.cls == sc.cls and s.parent is None:
                    defs[s.qual.split(".")[-1]] = s
            while todo:
                m = todo.pop()
                if m in seen or m not in defs:
                    continue
                seen.add(m)
                for n in ast.walk(defs[m].node):
                    c = chain(n) if isinstance(n, ast.Attribute) else None
                    if c and c[0] == "self" and c[1] in defs:
                        todo.append(c[1])
            self.early[k] = seen
        return sc.qual.split(".")[-1] not in self.early[k]

    def first_param(self, sc):
        while sc.parent is not None:
            sc = sc.parent
        return sc.params[0] if sc.params else None

    def class_mutable(self, mod, cls, attr):
        k = mod.classes.get(cls)
        if k is None:
            return False
        v = [s.value for s in k.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in s.targets)]
        if not v or not isinstance(v[-1], (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            return False
        for n in ast.walk(k):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if chain(t) == ("self", attr):
                        return False
        return True

    # -------------------------------------------------------------- writes and reads
    def own(self, sc):
        """nodes of the function without those of nested functions, with their ancestors"""
        body = sc.node.body if isinstance(sc.node.body, list) else [sc.node.body]
        todo = [(n, ()) for n in reversed(body)]
        while todo:
            n, up = todo.pop()
            if isinstance(n, FUNCS + (ast.ClassDef,)):
                continue
            yield n, up
            todo += [(c, up + (n,)) for c in reversed(list(ast.iter_child_nodes(n)))]

    def note(self, sc, loc, node, up, value, keys, kind):
        if loc is None or loc[0] in ("classobj", "funcobj", "module"):
            return
        self.writes.setdefault(loc, []).append((sc, node, up, value, keys, kind))

    def find_writes(self, sc):
        for n, up in self.own(sc):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                flat = []
                for t in ts:
                    flat += list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [t]
                for t in flat:
                    b, keys = strip(t)
                    if isinstance(b, ast.Call) and keys and chain(b.func) == ("globals",):
                        self.note(sc, ("variable", sc.mod.name, "globals()"), n, up, getattr(n, "value", None), keys, "stored")
                        continue
                    val = getattr(n, "value", None)
                    l = None
                    if isinstance(t, ast.Name):
                        if t.id in sc.globals:
                            l = ("variable", sc.mod.name, t.id)
                        elif t.id in sc.nonlocals:
                            o = sc.owner(t.id)
                            if o is not None and getattr(o.node, "name", None) in self.modcalls:
                                l = ("closure", sc.mod.name, o.qual, t.id)
                        elif isinstance(n, ast.AugAssign) and t.id in sc.params and self.mutable_default(sc, t.id) is not None:
                            l = ("default", sc.mod.name, sc.qual, t.id)
                    elif isinstance(b, ast.Name) and keys:
                        l = self.loc(sc, b)
                    elif isinstance(b, ast.Attribute):
                        l = self.loc(sc, b)
                        if l is not None and l[0] == "class" and chain(b) and chain(b)[0] == "self" and not keys and "__class__" not in chain(b):
                            l = None      # instance attribute
                    if l is not None:
                        for x in ast.walk(t):
                            self.excluded.add(id(x)) if not any(x is y for k in keys for y in ast.walk(k)) else None
                        self.note(sc, l, n, up, val, keys, "augmented" if isinstance(n, ast.AugAssign) else "stored")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                l = self.loc(sc, n.func.value)
                if l is not None and l[0] not in ("classobj", "funcobj", "module"):
                    if up and isinstance(up[-1], ast.Expr):
                        for x in ast.walk(n.func):
                            self.excluded.add(id(x))
                    keys = [n.args[0]] if n.func.attr in ("setdefault", "__setitem__") and n.args else []
                    val = ast.Tuple(elts=[a for a in n.args] + [k.value for k in n.keywords], ctx=ast.Load())
                    self.note(sc, l, n, up, val, keys, "stored" if keys else n.func.attr)
            elif isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) or chain(n.func) == ("next",) and n.args):
                b = n.func.value if isinstance(n.func, ast.Attribute) else n.args[0]
                l = self.loc(sc, b)
                if l and l[0] == "variable" and any(isinstance(v, ast.Call) and (chain(v.func) or ("",))[-1] in STATEFUL for v in self.mods[l[1]].bind.get(l[2], ())):
                    self.note(sc, l, n, up, None, [], "advanced")
            elif isinstance(n, ast.Call) and chain(n.func) == ("setattr",) and len(n.args) == 3:
                c = chain(n.args[0])
                if c and c[0] != "self":
                    nm = n.args[1].value if isinstance(n.args[1], ast.Constant) else "?"
                    l = self.loc(sc, ast.Attribute(value=n.args[0], attr=str(nm), ctx=ast.Load()))
                    self.note(sc, l, n, up, n.args[2], [], "stored")

    def find_reads(self, sc):
        for n, up in self.own(sc):
            if not isinstance(n, (ast.Name, ast.Attribute, ast.Call)) or not isinstance(getattr(n, "ctx", LOAD), ast.Load) or id(n) in self.excluded:
                continue
            l = self.loc(sc, n)
            if l is not None and l in self.writes:
                if up and isinstance(up[-1], ast.Attribute) and self.loc(sc, up[-1]) == l and id(up[-1]) not in self.excluded:
                    continue
                self.reads.setdefault(l, []).append((sc, n, up))

    # -------------------------------------------------------------- dependencies
    def deps(self, sc, e, seen=frozenset(), bound=frozenset()):
        if e is None:
            return set()
        if isinstance(e, ast.Name):
            if e.id in bound:
                return set()
            o = sc.owner(e.id)
            if o is None:
                r = self.top(sc.mod, e.id)
                return {"state:" + ".".join(r[1:])} if r in self.writes else set()
            out = set()
            if e.id in o.params:
                if e.id == "self":
                    out.add("self")
                else:
                    out.add(e.id if o is sc else "outer:" + e.id)
            k = (o.qual, e.id)
            if k in seen:
                return out
            for v in o.assigns.get(e.id, []):
                out |= self.deps(o, v, seen | {k}, bound)
            return out
        if isinstance(e, ast.Attribute):
            l = self.loc(sc, e)
            if l in self.writes:
                return {"state:" + ".".join(l[1:])}
            c = chain(e)
            if c is None:
                return self.deps(sc, e.value, seen, bound)
            o = sc.owner(c[0])
            if o is None:
                return {"random"} if c[0] in sc.mod.imports and any(x in RANDOM for x in c[1:]) else set()
            if c[0] in o.params and c[0] not in o.assigns:
                return {".".join(c)}
            return self.deps(sc, e.value, seen, bound)
        if isinstance(e, ast.Call):
            out = set()
            for a in list(e.args) + [k.value for k in e.keywords]:
                out |= self.deps(sc, a, seen, bound)
            c = chain(e.func)
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in RANDOM:
                    out.add("random")
                if c and c[0] == "self" and len(c) == 2 and sc.cls:
                    out |= self.method_deps(sc, c[1], seen)
                else:
                    out |= self.deps(sc, e.func.value, seen, bound)
                    if c and sc.owner(c[0]) is None and any(x in RANDOM for x in c[1:]):
                        out.add("random")
            elif isinstance(e.func, ast.Name):
                o = sc.owner(e.func.id)
                if o is not None:
                    out |= self.deps(sc, e.func, seen, bound)
                elif e.func.id in RANDOM:
                    out.add("random")
                else:
                    r = self.top(sc.mod, e.func.id)
                    if r and r[0] == "funcobj" and self.draws(self.mods[r[1]].funcs[r[2]]):
                        out.add("random")
            else:
                out |= self.deps(sc, e.func, seen, bound)
            return out
        if isinstance(e, ast.Lambda):
            bound = bound | {a.arg for a in e.args.args}
            return self.deps(sc, e.body, seen, bound)
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.comprehension, ast.keyword)):
                out |= self.deps(sc, c, seen, bound)
        return out

    def draws(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and n.attr in RANDOM and n.attr not in ("time",):
                return True
        return False

    def method_deps(self, sc, name, seen):
        """attributes of self a method uses"""
        k = ("method", sc.cls, name)
        if k in seen:
            return set()
        out = set()
        for s2 in sc.mod.scopes:
            if s2.cls == sc.cls and s2.qual == f"{sc.cls}.{name}":
                for n, _ in self.own(s2):
                    c = chain(n) if isinstance(n, ast.Attribute) else None
                    if c and c[0] == "self":
                        out.add(".".join(c[:2]))
                    if isinstance(n, ast.Attribute) and n.attr in RANDOM:
                        out.add("random")
                    if isinstance(n, ast.Call) and chain(n.func) and chain(n.func)[0] == "self" and len(chain(n.func)) == 2:
                        out |= self.method_deps(sc, chain(n.func)[1], seen | {k})
                return out
        return {"self"}

    def exact(self, sc, e, seen=frozenset()):
        """-> (paths the key determines, is every part understood)"""
        if isinstance(e, ast.Constant):
            return set(), True
        if isinstance(e, ast.Name):
            o = sc.owner(e.id)
            if o is None:
                return set(), True
            vs = o.assigns.get(e.id, [])
            if e.id in o.params and not vs:
                return {e.id if o is sc else "outer:" + e.id}, True
            if len(vs) == 1 and (o.qual, e.id) not in seen and e.id not in o.params:
                return self.exact(o, vs[0], seen | {(o.qual, e.id)})
            return set(), False
        if isinstance(e, ast.Attribute):
            c = chain(e)
            o = sc.owner(c[0]) if c else None
            if c and o is not None and c[0] in o.params and c[0] not in o.assigns:
                return {".".join(c)}, True
            return set(), c is not None and o is None
        if isinstance(e, (ast.Tuple, ast.List, ast.JoinedStr, ast.FormattedValue, ast.Starred, ast.Call)):
            if isinstance(e, ast.Call):
                c = chain(e.func)
                if c and len(c) == 1 and c[0] in ("id", "hash", "len", "type", "bool", "round"):
                    return set(), True
                if isinstance(e.func, ast.Attribute) and e.func.attr in ("tobytes", "tolist", "item", "items"):
                    subs = [e.func.value]
                elif c and c[-1] in ("tuple", "float", "int", "str", "repr", "sorted", "frozenset"):
                    subs = list(e.args)
                else:
                    return set(), False
            else:
                subs = [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
            out, ok = set(), True
            for s in subs:
                a, b = self.exact(sc, s, seen)
                out |= a
                ok = ok and b
            return out, ok
        return set(), False


# ------------------------------------------------------------------ classification
def name_of(l):
    kind = {"variable": "module variable", "default": "default argument", "class": "class attribute", "function": "function attribute", "closure": "captured variable", "instance": "attribute"}[l[0]]
    return f"{kind} {l[-1]} of {'.'.join(l[1:-1])}"


def is_log_call(n):
    if not isinstance(n, ast.Call):
        return False
    c = chain(n.func)
    return bool(c and (c[0] in LOGROOT or c[-1] in ("debug", "info", "warning", "warn", "error", "exception", "critical")))


def within(node, up, pred):
    return any(pred(u) for u in up)


def mentions(st, sc, e, l):
    return any(isinstance(n, (ast.Name, ast.Attribute)) and st.loc(sc, n) == l for n in ast.walk(e))


def guards(st, sc, up, l):
    """if-statements around a node whose test mentions the location"""
    return [u for u in up if isinstance(u, (ast.If, ast.IfExp)) and mentions(st, sc, u.test, l)]


def inert(st, sc, iff, l):
    """does the if-statement do nothing but logging and writing the location itself?"""
    for s in iff.body + iff.orelse if isinstance(iff, ast.If) else []:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or is_log_call(s.value)):
            continue
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if all(isinstance(strip(t)[0], (ast.Name, ast.Attribute)) and st.loc(sc, strip(t)[0]) == l or
                   isinstance(t, ast.Name) and t.id in sc.globals and l == ("variable", sc.mod.name, t.id) for t in ts):
                continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and st.loc(sc, s.value.func.value) == l:
            continue
        return False
    return isinstance(iff, ast.If)


def harmless_read(st, sc, n, up, l):
    for u in up:
        if is_log_call(u):
            return True
        if isinstance(u, ast.If) and any(x is n for x in ast.walk(u.test)) and inert(st, sc, u, l):
            return True
        if isinstance(u, ast.AugAssign) and st.loc(sc, strip(u.target)[0]) == l:
            return True          # a counter
    # x = x + 1: used for nothing but the location itself
    for u in reversed(up):
        if isinstance(u, ast.Assign):
            return all((isinstance(t, ast.Name) and t.id in sc.globals or isinstance(strip(t)[0], (ast.Name, ast.Attribute))) and
                       (st.loc(sc, strip(t)[0]) == l or isinstance(t, ast.Name) and l == ("variable", sc.mod.name, t.id)) for t in u.targets)
        if isinstance(u, ast.stmt):
            break
    return False


def covered(dep, keys):
    return any(dep == k or dep.startswith(k + ".") for k in keys if k != "self")


def where(sc, n):
    return f"{sc.mod.path}:{getattr(n, 'lineno', sc.node.lineno)} {sc.qual}"


def check_location(st, rep, l):
    rule = "no hidden state carries over between calls"
    subj = name_of(l)
    ws = st.writes[l]
    rs = [(sc, n, up) for sc, n, up in st.reads.get(l, []) if not harmless_read(st, sc, n, up, l)]
    if not rs and not any(x[5] == "advanced" for x in ws):
        rep.ok(rule, subj, "nothing reads it", where(ws[0][0], ws[0][1]))
        return
    rd = where(*(rs or ws)[0][:2])
    bad, und = [], []
    for sc, n, up, value, keys, kind in ws:
        w = where(sc, n)
        if isinstance(n, ast.Delete) or kind in ("clear", "pop", "popitem", "popleft", "remove", "discard", "move_to_end"):
            continue             # forgetting what was stored
        if kind == "advanced":
            bad.append((w, "a generator or iterator is advanced by every call"))
            continue
        dv = st.deps(sc, value)
        # parts that are states of their own are judged there; attributes no query changes are fixed once constructed
        dv = {d for d in dv if not d.startswith("state:") and not (l[0] == "instance" and d.startswith("self.")) and not (l[0] == "closure" and d.startswith("outer:")) and not (l[0] == "default" and d == l[-1])}
        # conditions under which something is stored matter too, except for those on the location itself
        if "random" in dv:
            bad.append((w, "what is stored is drawn at random or depends on the time of day"))
            continue
        if kind == "augmented" and not keys and not dv:
            bad.append((w, "it counts or accumulates over calls"))
            continue
        if not dv:
            switch = isinstance(value, ast.Constant) and isinstance(value.value, bool)
            if keys and not switch or kind in ("stored",) and guards(st, sc, up, l) and not switch or unconditional(sc, up) and first(st, sc, n, rs):
                continue
            if kind == "stored" and not keys:
                # a constant switch: its value records that this point was reached before
                bad.append((w, "it records that this point has been reached"))
                continue
            bad.append((w, "it grows with every call"))
            continue
        if kind == "stored" and keys:
            exact, allok = set(), True
            for k in keys:
                a, b = st.exact(sc, k)
                exact |= a
                allok = allok and b
            miss = sorted(d for d in dv if not covered(d, exact))
            if not miss:
                continue
            t = f"the stored value depends on {', '.join(miss)}, the key only on {', '.join(sorted(exact)) or 'nothing'}"
            # whatever the key does with what it is made from: an input it does not mention at all is not determined by it
            made = set().union(*[st.deps(sc, k) for k in keys])
            gone = [d for d in miss if not any(d == k or d.startswith(k + ".") or k.startswith(d + ".") for k in made)]
            if gone and not any(k == "self" or k.startswith(("state:", "outer:", "random")) for k in made):
                bad.append((w, f"the stored value depends on {', '.join(gone)}, which its key does not mention"))
            elif not allok or "self" in exact or any(m == "self" for m in miss) and exact:
                und.append((w, t))
            else:
                bad.append((w, t))
            continue
        if kind == "stored" and unconditional(sc, up) and first(st, sc, n, rs):
            continue             # every call overwrites it before it is read
        if l[0] == "instance" and kind == "stored" and not keys and not guards(st, sc, up, l):
            und.append((w, f"it keeps a value that depends on {', '.join(sorted(dv))}"))
            continue             # handed from one method to another within a call?
        bad.append((w, f"it keeps a value that depends on {', '.join(sorted(dv))}"))
    if bad:
        w, t = bad[0]
        rep.bad(rule, subj, f"{t}; a later call reads it at {rd}", w)
    elif und:
        w, t = und[0]
        rep.und(rule, subj, t + "; cannot tell whether the key determines it", w)
    else:
        rep.ok(rule, subj, "stored values are determined by their key", rd)


def unconditional(sc, up):
    return not any(isinstance(u, (ast.If, ast.IfExp, ast.Try, ast.For, ast.While, ast.BoolOp)) for u in up)


def first(st, sc, n, rs):
    """is the write before every read, and every read in the same function?"""
    return all(r[0] is sc and (r[1].lineno > n.end_lineno) for r in rs)


def check_decorators(st, rep):
    rule = "cached results are determined by the arguments"
    for m in st.mods.values():
        for sc in m.scopes:
            for d in getattr(sc.node, "decorator_list", []):
                c = chain(d.func if isinstance(d, ast.Call) else d)
                if not c:
                    continue
                if c[-1] not in CACHES and not memo_decorator(st, m, c):
                    continue
                rets = set()
                for n, up in st.own(sc):
                    if isinstance(n, ast.expr) and not (up and isinstance(up[-1], ast.expr)):
                        rets |= st.deps(sc, n)
                w = where(sc, sc.node)
                state = sorted(x for x in rets if x.startswith("state:"))
                selfs = sorted(x for x in rets if x == "self" or x.startswith("self."))
                if "random" in rets:
                    rep.bad(rule, f"{m.name}.{sc.qual}", f"@{'.'.join(c)} on a function that draws random numbers: later calls return the first draw", w)
                elif state:
                    rep.bad(rule, f"{m.name}.{sc.qual}", f"@{'.'.join(c)} on a function that reads {state[0]}", w)
                elif selfs and c[-1] == "cached_property":
                    rep.und(rule, f"{m.name}.{sc.qual}", f"cached although {selfs[0]} may change", w)
                elif selfs:
                    bad = [x for x in selfs if x.count(".") == 1 and st.mutated_attr(m, sc.cls, x.split(".")[1])]
                    if bad:
                        rep.bad(rule, f"{m.name}.{sc.qual}", f"@{'.'.join(c)} caches per object, but the result depends on {bad[0]}, which changes after construction", w)
                    else:
                        rep.und(rule, f"{m.name}.{sc.qual}", f"cached although {selfs[0]} may change", w)
                else:
                    rep.ok(rule, f"{m.name}.{sc.qual}", "result depends on the arguments only", w)


def memo_decorator(st, m, c):
    """a function of the package that wraps its argument in an inner function with captured state"""
    r = st.top(m, c[0])
    return r is not None and r[0] == "funcobj" and any(l[0] == "closure" and l[1] == r[1] and l[2].startswith(r[2]) for l in st.writes)


def mutated_attr(self, m, cls, attr):
    k = m.classes.get(cls)
    if k is None:
        return False
    for f in k.body:
        if isinstance(f, FUNCS[:2]) and f.name != "__init__":
            for n in ast.walk(f):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        b, _ = strip(t)
                        if chain(b) and chain(b)[:2] == ("self", attr):
                            return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and chain(n.func.value) == ("self", attr):
                    return True
    return False


State.mutated_attr = staticmethod(mutated_attr)


def p32(root, rep):
    st = State(root)
    rep.scope["modules"] = sorted(st.mods)
    rep.scope["functions analysed"] = sorted(f"{m.name}.{sc.qual}" for m in st.mods.values() for sc in m.scopes)
    rep.scope["persistent locations written"] = sorted(name_of(l) for l in st.writes)
    for l in sorted(st.writes, key=str):
        check_location(st, rep, l)
    check_decorators(st, rep)
    dirty = {}
    for l, ws in st.writes.items():
        for sc, n, *_ in ws:
            dirty.setdefault(id(sc), []).append(l)
    for m in st.mods.values():
        for sc in m.scopes:
            if id(sc) not in dirty and not isinstance(sc.node, ast.Lambda):
                rep.ok("function stores nothing outside its arguments and objects", f"{m.name}.{sc.qual}", "no write to a module variable, class attribute, default, function attribute or captured variable", where(sc, sc.node))
