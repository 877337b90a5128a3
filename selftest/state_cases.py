"""state_cases.py: small programs that keep (or do not keep) hidden state, judged by avn/pstate.py"""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
from avn import pstate, report

HEAD = "import numpy as np\nimport functools\nimport logging\nimport random\n"
GOOD = {
 "const table": "T = {}\ndef f(x):\n    return T.get('a', 1) * x\n",
 "log counter": "N = 0\ndef f(x):\n    global N\n    N += 1\n    logging.info('call %d', N)\n    return x\n",
 "warn once": "W = False\ndef f(x):\n    global W\n    if not W:\n        logging.warning('slow')\n        W = True\n    return x\n",
 "warn set": "W = set()\ndef f(x):\n    if 'a' not in W:\n        W.add('a')\n        logging.warning('slow')\n    return x\n",
 "memo by arg": "C = {}\ndef f(n):\n    if n not in C:\n        C[n] = np.eye(n)\n    return C[n]\n",
 "memo bytes": "C = {}\ndef f(x):\n    k = (x.tobytes(), x.shape)\n    if k not in C:\n        C[k] = np.linalg.norm(x)\n    return C[k]\n",
 "lazy import": "_np = None\ndef f(x):\n    global _np\n    if _np is None:\n        import numpy\n        _np = numpy\n    return _np.sum(x)\n",
 "lazy const": "_t = None\ndef f(x):\n    global _t\n    if _t is None:\n        _t = np.linspace(0, 1, 10)\n    return _t * x\n",
 "lru": "@functools.lru_cache(None)\ndef f(n):\n    return np.eye(n)\n",
 "default none": "def f(x, out=None):\n    if out is None:\n        out = []\n    out.append(x)\n    return out\n",
 "default list read": "def f(x, pars=[1, 2]):\n    return x * pars[0]\n",
 "default copied": "def f(x, pars=[1, 2]):\n    pars = list(pars)\n    pars.append(x)\n    return pars\n",
 "closure local": "def f(x):\n    tot = 0\n    def g(y):\n        nonlocal tot\n        tot += y\n    for i in x:\n        g(i)\n    return tot\n",
 "local dict": "def f(x):\n    C = {}\n    for i in x:\n        if i not in C:\n            C[i] = i * 2\n    return C\n",
 "object memo by index": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.c = {}\n    def q(self, i):\n        if i not in self.c:\n            self.c[i] = np.std(self.z[i])\n        return self.c[i]\n",
 "lazy attribute": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.c = None\n    def q(self, i):\n        if self.c is None:\n            self.c = np.cov(self.z)\n        return self.c[i]\n",
 "diagnostic attribute": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.last = None\n    def q(self, i):\n        self.last = i\n        return self.z[i]\n",
 "scratch attribute": "class A:\n    def __init__(self, z):\n        self.z = z\n    def q(self, i):\n        self.t = self.z[i]\n        return self.t * 2\n",
 "counter attribute": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.calls = 0\n    def q(self, i):\n        self.calls += 1\n        return self.z[i]\n",
 "counter attribute 2": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.calls = 0\n    def q(self, i):\n        self.calls = self.calls + 1\n        logging.debug('calls %s', self.calls)\n        return self.z[i]\n",
 "init methods": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.run()\n    def run(self):\n        for i in range(3):\n            self.step(i)\n    def step(self, i):\n        self.z[i] = self.z[i - 1] + 1\n    def q(self, i):\n        return self.z[i]\n",
 "class constant": "class A:\n    K = {'RBF': 1}\n    def q(self, i):\n        return self.K['RBF'] * i\n",
 "registry decorator": "R = {}\ndef register(f):\n    R[f.__name__] = f\n    return f\n@register\ndef g(x):\n    return x\n",
 "memo decorator": "def memo(f):\n    c = {}\n    def w(*a):\n        if a not in c:\n            c[a] = f(*a)\n        return c[a]\n    return w\n@memo\ndef g(n):\n    return np.eye(n)\n",
 "list of history": "H = []\ndef f(x):\n    H.append(x)\n    return x\n",
 "module logger": "log = logging.getLogger(__name__)\nlog.addHandler(logging.NullHandler())\ndef f(x):\n    log.info('x')\n    log.setLevel(10)\n    return x\n",
 "overwrite before read": "BUF = None\ndef f(x):\n    global BUF\n    BUF = np.zeros(x)\n    BUF[0] = 1\n    return BUF.sum()\n",
}
BAD = {
 "memo too short key": "C = {}\ndef f(n, x):\n    if n not in C:\n        C[n] = np.eye(n) * x\n    return C[n]\n",
 "memo shape key": "C = {}\ndef f(x):\n    if x.shape not in C:\n        C[x.shape] = np.sum(x)\n    return C[x.shape]\n",
 "global last": "L = None\ndef f(x):\n    global L\n    if L is None:\n        L = np.std(x)\n    return x / L\n",
 "default accumulates": "def f(x, acc=[]):\n    acc.append(x)\n    return sum(acc)\n",
 "default dict": "def f(i, x, memo={}):\n    if i not in memo:\n        memo[i] = np.std(x)\n    return memo[i]\n",
 "function attr": "def f(x):\n    if not hasattr(f, 'l'):\n        f.l = np.std(x)\n    return x / f.l\n",
 "counter used": "N = 0\ndef f(x):\n    global N\n    N += 1\n    return x * N\n",
 "first call": "D = False\ndef f(x):\n    global D\n    if not D:\n        D = True\n        return x\n    return 2 * x\n",
 "class shared": "class A:\n    C = {}\n    def __init__(self, z):\n        self.z = z\n    def q(self, i):\n        if i not in self.C:\n            self.C[i] = np.std(self.z[i])\n        return self.C[i]\n",
 "class shared 2": "class A:\n    s = None\n    def __init__(self, z):\n        self.z = z\n        if A.s is None:\n            A.s = np.std(z)\n    def q(self, i):\n        return self.z[i] / A.s\n",
 "class type(self)": "class A:\n    s = None\n    def __init__(self, z):\n        self.z = z\n        if type(self).s is None:\n            type(self).s = np.std(z)\n    def q(self, i):\n        return self.z[i] / self.s\n",
 "lru random": "@functools.lru_cache(None)\ndef f(n):\n    return np.random.rand(n)\n",
 "lazy random": "_t = None\ndef f(x):\n    global _t\n    if _t is None:\n        _t = np.random.rand(10)\n    return _t * x\n",
 "object memo": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.c = {}\n    def q(self, i, g):\n        if i not in self.c:\n            self.c[i] = np.std(self.z[i]) * g\n        return self.c[i]\n",
 "object last": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.l = None\n    def q(self, i, g):\n        if self.l is None:\n            self.l = np.std(self.z[i])\n        return g / self.l\n",
 "buffer reused": "BUF = np.zeros(1000)\ndef f(x):\n    BUF[:len(x)] += x\n    return BUF[:len(x)].copy()\n",
 "list len": "H = []\ndef f(x):\n    H.append(x)\n    return x * len(H)\n",
 "alias": "C = {}\ndef f(n, x):\n    c = C\n    if n not in c:\n        c[n] = np.eye(n) * x\n    return c[n]\n",
 "setdefault": "C = {}\ndef f(n, x):\n    return C.setdefault(n, np.eye(n) * x)\n",
 "globals dict": "def f(x):\n    g = globals()\n    if '_l' not in g:\n        g['_l'] = np.std(x)\n    return x / g['_l']\n",
 "memo decorator short": "def memo(f):\n    c = {}\n    def w(*a):\n        if len(a) not in c:\n            c[len(a)] = f(*a)\n        return c[len(a)]\n    return w\n@memo\ndef g(n):\n    return np.eye(n)\n",
 "id key": "C = {}\ndef f(x):\n    if id(x) not in C:\n        C[id(x)] = np.sum(x)\n    return C[id(x)]\n",
 "try memo": "C = {}\ndef f(i, x):\n    try:\n        return C[i]\n    except KeyError:\n        C[i] = np.sum(x)\n        return C[i]\n",
 "augmented attribute": "class A:\n    def __init__(self, z):\n        self.z = z\n        self.calls = 0\n    def q(self, i):\n        self.calls += 1\n        return self.z[i] * self.calls\n",
 "generator object": "_rng = np.random.default_rng(0)\ndef f(n):\n    return _rng.normal(size=n)\n",
}


def judge(src):
    d = tempfile.mkdtemp(prefix="avn_state_")
    try:
        p = os.path.join(d, "DeterministicParticleFlowControl")
        os.mkdir(p)
        open(os.path.join(p, "__init__.py"), "w").close()
        with open(os.path.join(p, "m.py"), "w") as f:
            f.write(HEAD + src)
        rep = report.Report("P32")
        pstate.p32(d, rep)
        s = {o.status for o in rep.obs}
        return ("BAD" if "violated" in s else "UND" if "undecided" in s else "OK"), [o.detail for o in rep.obs if o.status != "holds"]
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    n = 0
    for want, group in (("OK", GOOD), ("BAD", BAD)):
        for k, v in group.items():
            g, why = judge(v)
            if g != want:
                n += 1
                print("expected", want, "got", g, ":", k, why)
    print(n, "unexpected of", len(GOOD) + len(BAD))
