"""Module loading: repository modules are analysed, everything else is a library path."""
import ast
import builtins
import os
from . import terms as T
from .terms import num, sym, app
from .values import *

PKG = "DeterministicParticleFlowControl"
BUILTINS = set(dir(builtins))
CONST = {"pi": "pi", "e": "e"}
ALIAS = {"np": "numpy", "ot.lp": "ot"}


class Absent(Exception):
    """import of a distribution that is taken as not installed"""


class Loader:
    """virtual import roots: the repository root (absolute package imports)"""

    def __init__(self, root="/repo", absent=()):
        self.root = root
        self.mods = {}
        self.asts = {}
        self.absent = set(absent)
        self.problems = []
        self.parse_errors = []

    # ---- files
    def find(self, name):
        """dotted module name -> (path, is_package) or None"""
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p) and name.startswith(PKG) and any(f.endswith(".py") for f in os.listdir(p)):
            return None, True
        return None

    def is_repo(self, name):
        return name.split(".")[0] == PKG and self.find(name) is not None

    def parse(self, path):
        if path not in self.asts:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            self.asts[path] = ast.parse(src, path)
        return self.asts[path]

    def load(self, name, I):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            par = self.load(name.rsplit(".", 1)[0], I)
            if name in self.mods:
                return self.mods[name]
        r = self.find(name)
        path, pkg = r
        rel = os.path.relpath(path, self.root) if path else name.replace(".", "/")
        m = Module(name, rel, self.parse(path) if path else ast.Module([], []))
        m.pkg = pkg
        self.mods[name] = m
        m.frame.vars.update({"__name__": name, "__file__": "<file>", "__doc__": "<formatted>", "__package__": name if pkg else name.rpartition(".")[0]})
        from . import interp
        I.frames.append(m.frame)
        I.exits.append([])
        pc, I.pc = I.pc, []
        ctx, I.rngctx = I.rngctx, []
        loops, I.loops = I.loops, []
        node = I.node
        m.frame.module = m
        try:
            I.exec_block(m.tree.body)
        finally:
            I.frames.pop()
            I.exits.pop()
            I.pc, I.rngctx, I.loops, I.node = pc, ctx, loops, node
        m.done = True
        if "." in name:
            par.frame.vars.setdefault(name.rsplit(".", 1)[1], m)
        return m

    # ---- interface of the interpreter
    def import_module(self, name, level, module, I):
        if self.is_repo(name):
            return self.load(name, I)
        if name.split(".")[0] in self.absent:
            raise Absent(name)
        return Lib(ALIAS.get(name, name))

    def absolute(self, mod, level, module):
        if not level:
            return mod
        base = module.name.split(".")
        if not getattr(module, "pkg", False):
            base = base[:-1]
        base = base[:len(base) - (level - 1)]
        return ".".join(base + ([mod] if mod else []))

    def import_from(self, mod, level, name, module, I):
        full = self.absolute(mod, level, module)
        if self.is_repo(full):
            m = self.load(full, I)
            if name in m.frame.vars:
                return m.frame.vars[name]
            if self.is_repo(full + "." + name):
                return self.load(full + "." + name, I)
            if not m.done:
                I.event("import", f"'{name}' is not yet defined in {full} (circular import)")
                return I.unk("circular import")
            I.event("import", f"cannot import '{name}' from {full}")
            return I.unk(f"import of {name}")
        if level:
            I.event("import", f"no module {full}")
            return I.unk(f"import of {full}")
        if full.split(".")[0] in self.absent:
            raise Absent(full)
        return self.libattr(Lib(ALIAS.get(full, full)), name, I)

    def star(self, mod, level, frame, I):
        full = self.absolute(mod, level, frame.module)
        if self.is_repo(full):
            m = self.load(full, I)
            al = m.frame.vars.get("__all__")
            if isinstance(al, PyList):
                names = [x for x in I.items(al) if isinstance(x, str)]
            else:
                names = [k for k in m.frame.vars if not k.startswith("_")]
            for n in names:
                if n in m.frame.vars:
                    frame.vars[n] = m.frame.vars[n]
                elif self.is_repo(full + "." + n):
                    frame.vars[n] = self.load(full + "." + n, I)
            return
        I.event("import", f"star import of {full}")

    def submodule(self, module, name, I):
        n = module.name + "." + name
        if n in self.mods:
            return self.mods[n]
        return None

    def has_builtin(self, id):
        return id in BUILTINS

    def libattr(self, b, name, I):
        p = b.path + "." + name
        if b.path in ("numpy", "math", "scipy", "torch", "np", "numpy.math"):
            if name == "pi":
                return mk((), sym("?pi"), "py", "float64")
            if name == "e" and b.path != "torch":
                return mk((), T.exp(num(1)), "py", "float64")
            if name in ("inf", "Inf", "Infinity", "PINF"):
                return mk((), app("const:inf"), "py", "float64")
            if name in ("NINF",):
                return mk((), -app("const:inf"), "py", "float64")
            if name in ("nan", "NaN", "NAN"):
                return mk((), app("const:nan"), "py", "float64")
            if name == "newaxis":
                return None
        if b.path == "numpy.linalg" and name == "LinAlgError":
            return Lib("builtins.Exception")
        if p == "builtins.float.fromhex":
            return Lib(p)
        if p.startswith("logging.") and name.isupper():
            return pynum(10)
        if p in ("numpy.finfo", "torch.finfo"):
            return Lib(p)
        if p == "sys.version_info":
            return PyList([pynum(3), pynum(12), pynum(3)], "tuple")
        if p == "torch.cuda.is_available" or p == "torch.cuda.device_count":
            return Lib(p)
        if p.endswith((".__name__", ".__version__", ".__doc__")):
            return "<formatted>"
        return Lib(p)
