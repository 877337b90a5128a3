"""Checks on the syntax of the whole package: P21 (imports), P25 (signatures)."""
import ast
import builtins
import os
import sys
from .frontend import PKG

BUILTINS = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__annotations__"}
DIST = {"pot": ["ot"], "scikit-learn": ["sklearn"], "matplotlib": ["matplotlib", "mpl_toolkits", "pylab", "PIL", "dateutil", "cycler", "kiwisolver", "pyparsing", "packaging"],
        "seaborn": ["seaborn", "pandas"], "numba": ["numba", "llvmlite"], "duecredit": ["duecredit", "citeproc", "requests"], "setuptools": ["setuptools", "pkg_resources"]}
SKIPDIRS = {"tests", "data", "__pycache__"}
# modules that are PyTorch code
TORCHPARTS = {PKG + ".kernels", PKG + ".kernels.RBF_pytorch", PKG + ".utils", PKG + ".utils.utils_pytorch",
              PKG + ".score_estimators.score_function_estimators_pytorch"}
EXPORTS = {
    PKG: ({"DPFC", "__version__"}, {"torched_DPFC"}),
    PKG + "." + PKG: ({"DPFC"}, {"torched_DPFC"}),
    PKG + ".score_estimators": ({"my_cdist", "score_function_multid_seperate", "score_function_multid_seperate_all_dims", "score_function_multid_seperate_old"},
                                {"torched_score_function_multid_seperate_all_dims"}),
    PKG + ".score_estimators.score_function_estimators": ({"my_cdist", "score_function_multid_seperate", "score_function_multid_seperate_all_dims", "score_function_multid_seperate_old"}, set()),
    PKG + ".score_estimators.score": ({"score_function_multid_seperate2"}, set()),
    PKG + ".score_estimators.score_function_estimators_pytorch": (set(), {"torched_score_function_multid_seperate_all_dims"}),
    PKG + ".reweighting": ({"reweight_optimal_transport_multidim"}, set()),
    PKG + ".reweighting.optimal_transport_reweighting": ({"reweight_optimal_transport_multidim"}, set()),
    PKG + ".kernels": (set(), {"RBF"}),
    PKG + ".kernels.RBF_pytorch": (set(), {"RBF"}),
    PKG + ".utils": (set(), {"set_device"}),
    PKG + ".utils.utils_pytorch": (set(), {"set_device"}),
    PKG + ".version": ({"__version__", "REQUIRES"}, set()),
    PKG + ".due": ({"due", "BibTeX"}, set()),
}


class Fail(Exception):
    def __init__(self, kind, msg, where):
        self.kind, self.msg, self.where = kind, msg, where
        self.chain = []

    def __str__(self):
        return f"{self.kind}: {self.msg}" + (f" (imported by {', '.join(self.chain)})" if self.chain else "")


class Mod:
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg
        self.names = {}
        self.done = False
        self.fail = None


UNKNOWN = object()


def declared(root):
    """import names of the declared dependencies, from REQUIRES of version.py"""
    p = os.path.join(root, PKG, "version.py")
    tree = ast.parse(open(p, encoding="utf-8").read())
    out = set()
    req = None
    for s in ast.walk(tree):
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == "REQUIRES" for t in tg):
                lits = [x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                req = (req or []) + lits
    for d in req or []:
        n = d.strip()
        for c in "<>=!~;[ ":
            n = n.split(c)[0]
        out |= set(DIST.get(n.lower(), [n, n.replace("-", "_"), n.lower()]))
    return out, req


class Importer:
    def __init__(self, root, available):
        self.root, self.available = root, available
        self.mods = {}
        self.stack = []
        self.stdlib = set(sys.stdlib_module_names)
        self.count = 0

    def find(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None

    def ok3(self, top):
        return top in self.stdlib or top in self.available

    def rel(self, path):
        return os.path.relpath(path, self.root)

    # ---- importing
    def load(self, name, where):
        if name in self.mods:
            m = self.mods[name]
            if m.fail:
                raise m.fail
            return m
        if "." in name:
            self.load(name.rpartition(".")[0], where)
            if name in self.mods and not self.mods[name].fail:
                return self.mods[name]
        r = self.find(name)
        if r is None:
            d = os.path.join(self.root, *name.split("."))
            if os.path.isdir(d) and any(f.endswith(".py") for f in os.listdir(d)):
                raise Fail("ModuleNotFoundError", f"directory {self.rel(d)} is not a package (no __init__.py), so it is not installed", where)
            raise Fail("ModuleNotFoundError", f"no module named {name}", where)
        m = Mod(name, r[0], r[1])
        self.mods[name] = m
        self.count += 1
        m.names.update({k: UNKNOWN for k in ("__file__", "__doc__", "__package__")})
        m.names["__name__"] = name
        try:
            tree = ast.parse(open(r[0], encoding="utf-8").read(), r[0])
        except SyntaxError as e:
            m.fail = Fail("SyntaxError", str(e), f"{self.rel(r[0])}:{e.lineno}")
            raise m.fail
        m.future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in tree.body)
        try:
            Body(self, m).block(tree.body, [m.names])
        except Fail as f:
            del self.mods[name]
            if name not in f.chain:
                f.chain.append(f"{self.rel(r[0])}")
            raise
        m.done = True
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in self.mods:
                self.mods[par].names.setdefault(leaf, m)
        return m


EXCS = {"ImportError": {"ImportError", "Exception", "BaseException"},
        "ModuleNotFoundError": {"ModuleNotFoundError", "ImportError", "Exception", "BaseException"},
        "NameError": {"NameError", "Exception", "BaseException"},
        "AttributeError": {"AttributeError", "Exception", "BaseException"},
        "SyntaxError": {"SyntaxError", "Exception", "BaseException"},
        "TypeError": {"TypeError", "Exception", "BaseException"}}


class Stop(Exception):
    pass


class Body:
    """abstract execution of module-level statements: which names exist, which imports succeed"""

    def __init__(self, imp, mod):
        self.imp, self.mod = imp, mod

    def where(self, n):
        return f"{self.imp.rel(self.mod.path)}:{getattr(n, 'lineno', 0)}"

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Import):
            for a in s.names:
                self.import_(a.name, a.asname, s, env)
        elif isinstance(s, ast.ImportFrom):
            self.from_(s, env)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            self.try_(s, env)
        elif isinstance(s, ast.If):
            self.use(s.test, env)
            v = self.truth(s.test, env)
            if v is UNKNOWN:
                self.either(s.body, s.orelse, env)
            else:
                self.block(s.body if v else s.orelse, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.use(d, env)
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.use(d, env)
            if not self.mod.future:
                al = s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [x for x in (s.args.vararg, s.args.kwarg) if x]
                for a in al:
                    if a.annotation is not None:
                        self.use(a.annotation, env)
                if s.returns is not None:
                    self.use(s.returns, env)
            env[-1][s.name] = s
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.use(d, env)
            self.block(s.body, env + [{}])
            env[-1][s.name] = s
        elif isinstance(s, ast.Assign):
            self.use(s.value, env)
            v = self.value(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, env)
                self.bind(s.target, self.value(s.value, env), env)
            if not self.mod.future:
                self.use(s.annotation, env)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, env)
            self.use(s.target, env, store=True)
            self.bind(s.target, UNKNOWN, env)
        elif isinstance(s, ast.Expr):
            self.use(s.value, env)
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            if isinstance(s, ast.For):
                self.use(s.iter, env)
                self.bind(s.target, UNKNOWN, env)
            elif isinstance(s, ast.While):
                self.use(s.test, env)
            else:
                for i in s.items:
                    self.use(i.context_expr, env)
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, UNKNOWN, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Raise):
            n = "Exception"
            if s.exc is not None:
                x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                n = x.id if isinstance(x, ast.Name) else n
            raise Fail(n, "raised while importing: " + (ast.unparse(s.exc)[:80] if s.exc else ""), self.where(s))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[-1].pop(t.id, None)

    def either(self, a, b, env):
        errs = []
        for blk in (a, b):
            e2 = [dict(x) for x in env]
            try:
                self.block(blk, e2)
            except Fail as f:
                errs.append(f)
                continue
            for x, y in zip(env, e2):
                x.update(y)
        if len(errs) == 2:
            raise errs[0]

    def try_(self, s, env):
        try:
            self.block(s.body, env)
        except Fail as f:
            for h in s.handlers:
                if h.type is None:
                    names = {"BaseException"}
                else:
                    names = {x.id if isinstance(x, ast.Name) else getattr(x, "attr", "?") for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])}
                if names & EXCS.get(f.kind, {f.kind, "Exception", "BaseException"}):
                    if h.name:
                        env[-1][h.name] = UNKNOWN
                    self.block(h.body, env)
                    break
            else:
                self.block(s.finalbody, env)
                raise
        else:
            self.block(s.orelse, env)
        self.block(s.finalbody, env)

    # ---- imports
    def third(self, name, node):
        top = name.split(".")[0]
        if not self.imp.ok3(top):
            raise Fail("ModuleNotFoundError", f"'{name}' is neither part of the package nor a declared dependency" if top != "torch" else "PyTorch is not installed", self.where(node))

    def import_(self, name, asname, node, env):
        top = name.split(".")[0]
        if top == PKG:
            m = self.imp.load(name, self.where(node))
            if asname:
                env[-1][asname] = m
            else:
                env[-1][top] = self.imp.mods[top]
            return
        self.third(name, node)
        env[-1][asname or top] = ("lib", name if asname else top)

    def absolute(self, s):
        if not s.level:
            return s.module
        base = self.mod.name.split(".")
        if not self.mod.pkg:
            base = base[:-1]
        if s.level - 1 > len(base) - 1:
            raise Fail("ImportError", "relative import beyond the top-level package", self.where(s))
        base = base[:len(base) - (s.level - 1)]
        return ".".join(base + ([s.module] if s.module else []))

    def from_(self, s, env):
        full = self.absolute(s)
        if full == "__future__":
            return
        if full.split(".")[0] != PKG:
            self.third(full, s)
            for a in s.names:
                if a.name != "*":
                    env[-1][a.asname or a.name] = ("lib", full + "." + a.name)
                else:
                    env[-1]["*"] = UNKNOWN
            return
        m = self.imp.load(full, self.where(s))
        for a in s.names:
            if a.name == "*":
                for k, v in self.public(m, s).items():
                    env[-1][k] = v
                continue
            if a.name in m.names:
                env[-1][a.asname or a.name] = m.names[a.name]
            elif self.imp.find(full + "." + a.name) and m.pkg:
                env[-1][a.asname or a.name] = self.imp.load(full + "." + a.name, self.where(s))
            elif "*" in m.names:
                env[-1][a.asname or a.name] = UNKNOWN
            else:
                raise Fail("ImportError", f"cannot import name '{a.name}' from {full}" + ("" if m.done else " (circular import)"), self.where(s))

    def public(self, m, s):
        al = m.names.get("__all__")
        if isinstance(al, list):
            out = {}
            for n in al:
                if n in m.names:
                    out[n] = m.names[n]
                elif m.pkg and self.imp.find(m.name + "." + n):
                    out[n] = self.imp.load(m.name + "." + n, self.where(s))
                elif "*" not in m.names:
                    raise Fail("AttributeError", f"module {m.name} has no attribute '{n}' (listed in __all__)", self.where(s))
            return out
        return {k: v for k, v in m.names.items() if not k.startswith("_")}

    # ---- expressions
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, UNKNOWN, env)

    def look(self, n, env):
        for e in reversed(env):
            if n in e:
                return e[n]
        return None

    def use(self, e, env, store=False, local=frozenset()):
        """names an expression needs right now"""
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Store) and not store:
                return
            if e.id in local or e.id in BUILTINS:
                return
            if any(e.id in x for x in env) or any("*" in x for x in env):
                return
            raise Fail("NameError", f"name '{e.id}' is not defined", self.where(e))
        if isinstance(e, ast.Attribute):
            self.use(e.value, env, local=local)
            if isinstance(e.value, ast.Name) and e.value.id not in local:
                v = self.look(e.value.id, env)
                if v is None and any(e.value.id in x for x in env):
                    raise Fail("AttributeError", f"'{e.value.id}' is None here", self.where(e))
                if isinstance(v, Mod) and e.attr not in v.names and v.done and "*" not in v.names:
                    raise Fail("AttributeError", f"module {v.name} has no attribute '{e.attr}'", self.where(e))
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.use(d, env, local=local)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            bound = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for c in ast.iter_child_nodes(e):
                self.use(c, env, local=local | bound)
            return
        if isinstance(e, ast.IfExp):
            self.use(e.test, env, local=local)
            v = self.truth(e.test, env)
            if v is UNKNOWN:
                return
            self.use(e.body if v else e.orelse, env, local=local)
            return
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.use(x, env, local=local)
                v = self.truth(x, env)
                if v is UNKNOWN or v is not isinstance(e.op, ast.And):
                    return
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, env, local=local)
            self.bind(e.target, UNKNOWN, env)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.slice if hasattr(ast, "slice") else ast.expr)):
                self.use(c, env, local=local)

    def value(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value if e.value is None or isinstance(e.value, (bool, str)) else UNKNOWN
        if isinstance(e, ast.Name):
            return self.look(e.id, env)
        if isinstance(e, (ast.List, ast.Tuple)):
            vs = [self.value(x, env) for x in e.elts]
            return vs if all(isinstance(v, str) for v in vs) else UNKNOWN
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.value(e.left, env), self.value(e.right, env)
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            return UNKNOWN
        v = self.truth(e, env)
        return v

    def truth(self, e, env):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            v = self.look(e.id, env)
            if e.id == "TYPE_CHECKING":
                return False
            if isinstance(v, bool):
                return v
            if v is None and any(e.id in x for x in env):
                return False
            if isinstance(v, (Mod, ast.AST)) or (isinstance(v, tuple) and v[0] == "lib" and "." not in v[1]):
                return True
            return UNKNOWN
        if isinstance(e, ast.Attribute) and e.attr == "TYPE_CHECKING":
            return False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand, env)
            return v if v is UNKNOWN else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(x, env) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else UNKNOWN if UNKNOWN in vs else True
            return True if True in vs else UNKNOWN if UNKNOWN in vs else False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.cval(e.left, env), self.cval(e.comparators[0], env)
            if a is UNKNOWN or b is UNKNOWN:
                return UNKNOWN
            op = e.ops[0]
            if isinstance(op, (ast.Eq, ast.Is)):
                return a == b
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return a != b
            if isinstance(op, ast.In) and isinstance(b, str):
                return a in b
            return UNKNOWN
        if isinstance(e, ast.Call):
            f = ast.unparse(e.func)
            if f.split(".")[-1] == "find_spec" and e.args and isinstance(e.args[0], ast.Constant):
                return self.imp.ok3(str(e.args[0].value).split(".")[0])
            if f == "bool" and len(e.args) == 1:
                return self.truth(e.args[0], env)
            if f == "__name__.startswith" and e.args and isinstance(e.args[0], ast.Constant):
                return self.mod.name.startswith(str(e.args[0].value))
        return UNKNOWN

    def cval(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id == "__name__":
                return self.mod.name
            if e.id == "__package__":
                return self.mod.name if self.mod.pkg else self.mod.name.rpartition(".")[0]
            v = self.look(e.id, env)
            if isinstance(v, (bool, str)):
                return v
            if v is None and any(e.id in x for x in env):
                return None
            if isinstance(v, (Mod, tuple, ast.AST)):
                return ("thing", e.id)
            return UNKNOWN
        if isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "find_spec" and e.args and isinstance(e.args[0], ast.Constant):
            return ("spec",) if self.imp.ok3(str(e.args[0].value).split(".")[0]) else None
        return UNKNOWN


def modules(root):
    out = []
    base = os.path.join(root, PKG)
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in SKIPDIRS and not x.startswith("."))
        for f in sorted(fs):
            if f.endswith(".py") and not f.startswith("script"):
                p = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                if p.endswith(".__init__"):
                    p = p[:-9]
                out.append(p)
    return out


def p21(root, rep):
    dec, req = declared(root)
    if not req:
        rep.und("declared dependencies are readable", PKG + "/version.py", "no literal REQUIRES list")
        return
    rep.scope["declared dependencies"] = sorted(req)
    mods = sorted(set(modules(root)) | set(EXPORTS))
    rep.scope["modules"] = mods
    for torch in (True, False):
        avail = set(dec) | ({"torch"} if torch else set())
        lab = "with PyTorch" if torch else "without PyTorch"
        for name in mods:
            if not torch and name in TORCHPARTS:
                continue
            imp = Importer(root, avail)
            subj = f"{name} {lab}"
            if not torch and name not in EXPORTS:
                # a module the package did not have: PyTorch code may need PyTorch
                try:
                    imp.load(name, name)
                except Fail as f:
                    if "PyTorch is not installed" in f.msg:
                        continue
            try:
                imp = Importer(root, avail)
                m = imp.load(name, name)
                rep.ok("importing the module succeeds", subj, f"{imp.count} modules", name)
            except Fail as f:
                rep.bad("importing the module succeeds", subj, str(f), f.where)
                continue
            except RecursionError:
                rep.und("importing the module succeeds", subj, "recursion", name)
                continue
            al = m.names.get("__all__")
            if isinstance(al, list):
                miss = [n for n in al if n not in m.names and not (m.pkg and imp.find(name + "." + n)) and "*" not in m.names]
                (rep.bad if miss else rep.ok)("every exported name is defined", subj, "undefined in __all__: " + ", ".join(miss) if miss else f"{len(al)} names", imp.rel(m.path))
            if name in EXPORTS:
                base, extra = EXPORTS[name]
                need = base | (extra if torch else set())
                star = set(Body(imp, m).public(m, None)) if True else set()
                miss = sorted(n for n in need if n not in m.names)
                (rep.bad if miss else rep.ok)("the public names are available", subj, "missing: " + ", ".join(miss) if miss else f"{len(need)} names", imp.rel(m.path))
    # imports inside functions
    for name in mods:
        imp = Importer(root, set(dec) | {"torch"})
        r = imp.find(name)
        if r is None:
            continue
        try:
            tree = ast.parse(open(r[0], encoding="utf-8").read(), r[0])
            m = imp.load(name, name)
        except (Fail, SyntaxError):
            continue
        n = 0
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                continue
            guarded = {id(x) for t in ast.walk(fn) if isinstance(t, ast.Try) for b in t.body for x in ast.walk(b)}
            for s in ast.walk(fn):
                if isinstance(s, (ast.Import, ast.ImportFrom)) and id(s) not in guarded:
                    n += 1
                    try:
                        Body(imp, m).stmt(s, [{}])
                    except Fail as f:
                        rep.bad("imports inside functions succeed", f"{name}.{getattr(fn, 'name', 'lambda')}", str(f), f.where)
        rep.ok("imports inside functions succeed", name, f"{n} local imports", imp.rel(r[0]))


# ------------------------------------------------------------------ P25
CTOR = ["t1", "t2", "y1", "y2", "f", "g", "N", "M", ("reweight", False), ("U", None), ("dens_est", "nonparametric"), ("reject", True), ("kern", "RBF"),
        ("f_true", None), ("brown_bridge", False), ("deterministic", True)]
METHODS = {"forward_sampling": [], "f_seperate_true": ["x", "t"], "f_seperate": ["x", "t"], "forward_sampling_Otto_true": [], "forward_sampling_Otto": [],
           "density_estimation": ["ti", "rev_ti"], "bw_density_estimation": ["rev_ti"], "backward_simulation": [], "calculate_u": ["grid_x", "ti"],
           "check_if_covered": ["X", "ti"]}
SIGS = [
    ("score_estimators/score_function_estimators.py", "my_cdist", ["r", "y", "output", ("dist", "euclidean")]),
    ("score_estimators/score_function_estimators.py", "score_function_multid_seperate", ["X", "Z", ("func_out", False), ("C", 0.001), ("kern", "RBF"), ("l", 1), ("which", 1), ("which_dim", 1)]),
    ("score_estimators/score_function_estimators.py", "score_function_multid_seperate_all_dims", ["X", "Z", ("func_out", False), ("C", 0.001), ("kern", "RBF"), ("l", 1)]),
    ("score_estimators/score_function_estimators.py", "score_function_multid_seperate_old", ["X", "Z", ("func_out", False), ("C", 0.001), ("kern", "RBF"), ("l", 1), ("which", 1), ("which_dim", 1)]),
    ("score_estimators/score.py", "score_function_multid_seperate2", ["X", "Z", ("func_out", False), ("C", 0.001), ("kern", "RBF"), ("l", 1), ("which", 1), ("which_dim", 1)]),
    ("score_estimators/score_function_estimators_pytorch.py", "torched_score_function_multid_seperate_all_dims", ["X", "Z", ("l", 1.0), ("func_out", False), ("C", 0.001), ("kern", "RBF"), ("device", None)]),
    ("kernels/RBF_pytorch.py", "RBF.__init__", [("length_scale", 1.0), ("signal_variance", 1.0), ("device", None), ("multil", False)]),
    ("kernels/RBF_pytorch.py", "RBF.Kernel", ["X", ("Y", None)]),
    ("kernels/RBF_pytorch.py", "RBF.gradient_X", ["X", ("Y", None)]),
    ("reweighting/optimal_transport_reweighting.py", "reweight_optimal_transport_multidim", ["samples", "weights"]),
    ("utils/utils_pytorch.py", "set_device", []),
]


def litval(I, v):
    from .values import Arr
    from . import terms as T
    v = I.force(v)
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, Arr) and v.ndim == 0:
        if v.dtype == "bool":
            c = I.truth(v)
            return c.val if isinstance(c, T.BConst) else ("?", "bool")
        e = I.asE(v)
        return float(e.const) if e.const is not None else ("?", T.show(e))
    return ("?", repr(v))


def same_default(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-12
    return a == b and type(a) == type(b)


def raw_def(f, name):
    """the definition a decorator wraps"""
    for n in ast.walk(f.module.tree):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return n
    return None


def check_sig(I, rep, f, want, subj, method):
    from .values import Func
    rule = "documented parameters in order with their defaults"
    w = f"{f.module.path}:{getattr(f.node, 'lineno', 0)} {f.name}"
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    defaults = list(f.defaults)
    if a.vararg and len(pos) <= 1 and want:
        rep.und(rule, subj, "parameters are passed through *args", w)
        return
    if method and "staticmethod" not in f.deco:
        pos = pos[1:]
    nd = len(defaults)
    dm = {p: defaults[i - (len(pos) - nd)] for i, p in enumerate(pos) if i - (len(pos) - nd) >= 0}
    ok = True
    for i, p in enumerate(want):
        name, has, dv = (p[0], True, p[1]) if isinstance(p, tuple) else (p, False, None)
        if i >= len(pos):
            rep.bad(rule, subj, f"parameter {i + 1} '{name}' is missing" + (" (keyword only)" if name in f.kwdefaults else ""), w)
            return
        if pos[i] != name:
            rep.bad(rule, subj, f"parameter {i + 1} is '{pos[i]}', documented as '{name}'", w)
            return
        if has:
            if name not in dm:
                rep.bad(rule, subj, f"'{name}' has no default, documented {dv!r}", w)
                ok = False
            else:
                v = litval(I, dm[name])
                if isinstance(v, tuple):
                    rep.und(rule, subj, f"default of '{name}' is {v[1]}", w)
                    ok = False
                elif not same_default(v, float(dv) if isinstance(dv, (int, float)) and not isinstance(dv, bool) else dv):
                    rep.bad(rule, subj, f"default of '{name}' is {v!r}, documented {dv!r}", w)
                    ok = False
    for p in pos[len(want):]:
        if p not in dm:
            rep.bad(rule, subj, f"additional required parameter '{p}'", w)
            ok = False
    for p in a.kwonlyargs:
        if p.arg not in f.kwdefaults:
            rep.bad(rule, subj, f"additional required keyword parameter '{p.arg}'", w)
            ok = False
    if ok:
        rep.ok(rule, subj, f"{len(want)} parameters", w)


def p25(root, rep):
    from . import model
    from .values import Func, Class
    s = model.Session(root, inline=tuple(model.SCORES))
    I = s.I
    for cname in ("DPFC", "torched_DPFC"):
        c = s.cls(cname)
        if not isinstance(c, Class):
            rep.bad("public classes and functions exist", cname, "the class is not defined", model.MAIN)
            continue
        for m, want in [("__init__", CTOR + ([("device", None)] if cname == "torched_DPFC" else []))] + sorted(METHODS.items()):
            f = c.lookup(m)
            if not isinstance(f, Func):
                rep.bad("public classes and functions exist", f"{cname}.{m}", "the method is not defined", model.MAIN)
                continue
            rep.ok("public classes and functions exist", f"{cname}.{m}")
            check_sig(I, rep, f, want, f"{cname}.{m}", True)
    for path, qual, want in SIGS:
        modn = PKG + "." + path[:-3].replace("/", ".")
        if s.loader.find(modn) is None:
            rep.bad("public classes and functions exist", qual, f"module {modn} does not exist", path)
            continue
        mod = s.loader.load(modn, I)
        parts = qual.split(".")
        f = mod.frame.vars.get(parts[0])
        if len(parts) == 2 and isinstance(f, Class):
            f = f.lookup(parts[1])
        if not isinstance(f, Func):
            rep.bad("public classes and functions exist", qual, f"not defined in {modn}", path)
            continue
        rep.ok("public classes and functions exist", qual)
        check_sig(I, rep, f, want, qual, len(parts) == 2)
    rep.scope["signatures"] = len(SIGS) + 2 * (1 + len(METHODS))


def sources(root):
    """the analysed files with their number of function definitions"""
    out = []
    for m in modules(root):
        p = os.path.join(root, m.replace(".", os.sep))
        p = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
        try:
            t = ast.parse(open(p, encoding="utf-8").read())
            n = sum(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) for x in ast.walk(t))
            out.append(f"{os.path.relpath(p, root)}: {n} functions")
        except (OSError, SyntaxError, ValueError) as e:
            out.append(f"{os.path.relpath(p, root)}: {type(e).__name__}")
    return out
