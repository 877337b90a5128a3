"""Edits that keep the behaviour: records, iterator tools, context managers, uncommon array functions."""
from common import *

R = {}

R["m_namedtuple"] = [
 (MAIN, "sub", "import time\nimport logging\n", "import time\nimport logging\nfrom collections import namedtuple\n"),
 (MAIN, "sub", "class DPFC(object):", "Bounds = namedtuple('Bounds', 'low high')\n\n\nclass DPFC(object):"),
 (MAIN, "replace", "DPFC.f_seperate", '''
def f_seperate(self, x, t):
    dimi, N = x.shape
    bnds = [Bounds(np.min(row), np.max(row)) for row in x]
    total = sum(b.low + b.high for b in bnds)
    if np.isnan(total) or np.isinf(total):
        plt.figure(figsize=(6, 4)), plt.plot(self.Z[0].T, self.Z[1].T, alpha=0.3)
        plt.show()
    Sxx = np.array([np.random.uniform(low=b.low, high=b.high, size=self.N_sparse) for b in bnds])
    gpsi = np.zeros((dimi, N))
    lnthsc = 2*np.std(x, axis=1)
    for ii in range(dimi):
        gpsi[ii] = score_function_multid_seperate(x.T, Sxx.T, False, C=0.001, which=1, l=lnthsc, which_dim=ii+1, kern=self.kern)
    return self.f(x, t) - 0.5*self.g**2*gpsi
''')]

R["m_dataclass"] = [
 (MAIN, "sub", "import time\nimport logging\n", "import time\nimport logging\nfrom dataclasses import dataclass\n"),
 (MAIN, "sub", "class DPFC(object):", '''@dataclass
class _Score:
    """Settings of the score estimation"""
    C: float = 0.001
    which: int = 1
    kern: str = 'RBF'

    def along(self, X, S, l, d, func_out=True):
        return score_function_multid_seperate(X, S, func_out=func_out, C=self.C, which=self.which, l=l, which_dim=d+1, kern=self.kern)


class DPFC(object):'''),
 (MAIN, "replace", "DPFC.bw_density_estimation", '''
def bw_density_estimation(self, rev_ti):
    b, z = self.B[:, :, rev_ti], self.Z[:, :, rev_ti]
    low = np.maximum(z.min(axis=1), b.min(axis=1))
    high = np.minimum(z.max(axis=1), b.max(axis=1))
    Sxx = np.array([np.random.uniform(low=lo, high=hi, size=self.N_sparse) for lo, hi in zip(low, high)])
    est = _Score(kern=self.kern)
    grad_ln_b = np.zeros((self.dim, self.N))
    for di in range(self.dim):
        grad_ln_b[di, :] = est.along(b.T, Sxx.T, 2*np.std(b, axis=1), di, func_out=False)
    return grad_ln_b
''')]

R["m_product"] = [
 (MAIN, "sub", "import time\nimport logging\n", "import time\nimport logging\nimport itertools\n"),
 (MAIN, "replace", "DPFC.forward_sampling", '''
def forward_sampling(self):
    logging.info('Sampling forward...')
    W = np.ones((self.N, 1))/self.N
    for di, i in itertools.product(range(self.dim), range(self.N)):
        self.Z[di, i, 0] = self.y1[di]
    for ti, tt in itertools.islice(enumerate(self.timegrid), 1, None):
        for i in range(self.N):
            prev = self.Z[:, i, ti-1]
            self.Z[:, i, ti] = prev + self.dt*self.f(prev, tt-self.dt) + \\
                (self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, 1))).flatten()
        if self.reweight == True:
            W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
            W = W/np.add.reduce(W, axis=None)
            Tstar = reweight_optimal_transport_multidim(self.Z[:, :, ti].T, W)
            self.Z[:, :, ti] = np.dot(self.Z[:, :, ti], Tstar)
    logging.info('Forward sampling done!')
    return 0
''')]

R["m_contextmanager"] = [
 (MAIN, "sub", "import time\nimport logging\n", "import time\nimport logging\nfrom contextlib import contextmanager\n"),
 (MAIN, "sub", "class DPFC(object):", '''@contextmanager
def _logged(first, last):
    logging.info(first)
    yield
    logging.info(last)


class DPFC(object):'''),
 (MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    with _logged('Sampling forward with deterministic particles and true drift...', 'Forward sampling with Otto true is ready!'):
        for ti, tt in enumerate(self.timegrid):
            if ti == 0:
                for di in range(self.dim):
                    self.Ztr[di, :, 0] = self.y1[di]
                continue
            prev = self.Ztr[:, :, ti-1]
            if ti == 1:
                self.Ztr[:, :, ti] = prev + self.dt*self.f_true(prev, tt-self.dt) + \\
                    self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
            else:
                self.Ztr[:, :, ti] = prev + self.dt*self.f_seperate_true(prev, tt-self.dt)
    return 0
''')]

R["m_cm_class"] = [
 (MAIN, "sub", "class DPFC(object):", '''class _Timer(object):
    """Times a block"""
    def __enter__(self):
        self.start = time.time()
        return self

    def __exit__(self, *exc):
        self.seconds = time.time() - self.start
        return False


class DPFC(object):'''),
 (MAIN, "sub", '''                    start = time.time()
                    Tstar = reweight_optimal_transport_multidim(self.Z[:, :, ti].T, W)
                    #print(Tstar)
''', '''                    with _Timer() as timer:
                        Tstar = reweight_optimal_transport_multidim(self.Z[:, :, ti].T, W)
'''),
 (MAIN, "sub", '''                        stop = time.time()
                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                    self.Z[:, :, ti] = ((self.Z[:, :, ti])@Tstar)''', '''                        logging.info('Timepoint: %d needed %f', ti, timer.seconds)
                    self.Z[:, :, ti] = ((self.Z[:, :, ti])@Tstar)''')]

R["m_pairwise"] = [
 (MAIN, "sub", "import time\nimport logging\n", "import time\nimport logging\nfrom itertools import pairwise, repeat, count\n"),
 (MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    logging.info('Sampling forward with deterministic particles and true drift...')
    for row, y in zip(self.Ztr, self.y1):
        row[:, 0] = y
    for ti, (before, now) in enumerate(pairwise(self.timegrid), start=1):
        x, t = self.Ztr[:, :, ti-1], now-self.dt
        if ti > 1:
            self.Ztr[:, :, ti] = x + self.dt*self.f_seperate_true(x, t)
        else:
            self.Ztr[:, :, ti] = x + self.dt*self.f_true(x, t) + self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
    logging.info('Forward sampling with Otto true is ready!')
    return 0
'''),
 (MAIN, "replace", "DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    covered = True
    for z, b, x in zip(self.Z[:, :, ti], self.B[:, :, ti], X):
        covered = covered * (x >= max(np.min(z), np.min(b)) and x <= min(np.max(z), np.max(b)))
    return covered
''')]

R["m_count_zip"] = [
 (MAIN, "sub", "import time\nimport logging\n", "import time\nimport logging\nfrom itertools import count\n"),
 (MAIN, "replace", "DPFC.backward_simulation", '''
def backward_simulation(self):
    for di in range(self.dim):
        self.B[di, :, -1] = self.y2[di]
    for ti, cur in zip(count(1), range(self.k-1, 1, -1)):
        new = cur-1
        x = self.B[:, :, cur]
        grad_ln_ro = self.density_estimation(ti, cur)
        drift = self.f(x, self.timegrid[cur])
        if self.deterministic and ti != 1:
            grad_ln_b = self.bw_density_estimation(cur)
            self.B[:, :, new] = x - (drift - self.g**2*grad_ln_ro + 0.5*self.g**2*grad_ln_b)*self.dt
        else:
            self.B[:, :, new] = x - drift*self.dt + self.dt*self.g**2*grad_ln_ro + \\
                self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
    for di in range(self.dim):
        self.B[di, :, 0] = self.y1[di]
    return 0
''')]

R["m_iter_class"] = [
 (MAIN, "sub", "class DPFC(object):", '''class _Steps(object):
    """The forward steps: (number, time at which the step starts)"""
    def __init__(self, grid, dt):
        self.grid, self.dt = grid, dt

    def __iter__(self):
        for i in range(1, self.grid.size):
            yield i, self.grid[i]-self.dt

    def __len__(self):
        return self.grid.size - 1


class DPFC(object):'''),
 (MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    logging.info('Sampling forward with deterministic particles and true drift...')
    for di in range(self.dim):
        self.Ztr[di, :, 0] = self.y1[di]
    for i, t in _Steps(self.timegrid, self.dt):
        x = self.Ztr[:, :, i-1]
        if i == 1:
            new = x + self.dt*self.f_true(x, t) + self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
        else:
            new = x + self.dt*self.f_seperate_true(x, t)
        self.Ztr[:, :, i] = new
    logging.info('Forward sampling with Otto true is ready!')
    return 0
''')]

R["m_torch_select"] = [
 (MAIN, "replace", "torched_DPFC.f_seperate", '''
def f_seperate(self, x, t):
    lo, hi = torch.aminmax(x, dim=1)
    Sxx = torch.distributions.Uniform(low=lo, high=hi).sample([self.N_sparse])
    gpsi = torched_score_function_multid_seperate_all_dims(x.T, Sxx, l=2*x.std(dim=1), func_out=False, device=self.device)
    return torch.sub(self.f(x, t), 0.5*self.g**2*gpsi.T)
'''),
 (MAIN, "replace", "torched_DPFC.bw_density_estimation", '''
def bw_density_estimation(self, rev_ti):
    Zr, Br = self.Z[:, :, rev_ti], torch.select(self.B, 2, rev_ti)
    low = torch.minimum(Zr.amin(dim=1), Br.amin(dim=1))
    high = torch.maximum(Zr.amax(dim=1), Br.amax(dim=1))
    Sxx = torch.distributions.Uniform(low=low, high=high).sample([self.N_sparse])
    return torched_score_function_multid_seperate_all_dims(Br.t(), Sxx, func_out=False, C=0.001,
                                                           l=2*torch.std(Br, dim=1), kern=self.kern, device=self.device)
''')]

_SEP = '''
def score_function_multid_seperate(X, Z, func_out=False, C=0.001, kern='RBF', l=1, which=1, which_dim=1):
    if kern != 'RBF':
        return score_function_multid_seperate_old(X, Z, func_out, C, kern, l, which, which_dim)
%s
'''

R["m_e_outer"] = [(SFE, "replace", "score_function_multid_seperate", _SEP % '''
    per_axis = isinstance(l, (list, tuple, np.ndarray))
    d = which_dim - 1

    def scale(i):
        return l[i] if per_axis else l

    def gram(x, y):
        expo = np.zeros((x.shape[0], y.shape[0]))
        for i in range(len(l) if per_axis else x.shape[1]):
            expo -= np.subtract.outer(x[:, i], y[:, i])**2/(2*scale(i)**2)
        return np.exp(expo)

    m = Z.shape[0]
    K_xz = gram(X, Z)
    Ksinv = np.linalg.inv(gram(Z, Z) + 1e-3*np.eye(m))
    grad = -np.subtract.outer(X[:, d], Z[:, d])*K_xz/scale(d)**2
    rhs = Ksinv @ np.add.reduce(grad)
    weights = np.linalg.solve((C + 1e-3)*np.identity(m) + Ksinv @ (K_xz.T @ K_xz), rhs)
    if func_out:
        return lambda x: -gram(x, Z) @ weights
    return -K_xz @ weights
''')]

R["m_e_acc_none"] = [(SFE, "replace", "score_function_multid_seperate", _SEP % '''
    multil = isinstance(l, (list, tuple, np.ndarray))

    def K(x, y):
        if not multil:
            return np.exp(-cdist(x, y, 'sqeuclidean')/(2*l*l))
        acc = None
        for ii in range(len(l)):
            term = cdist(x[:, ii:ii+1], y[:, ii:ii+1], 'sqeuclidean')/(l[ii]*l[ii])
            acc = term if acc is None else acc + term
        return np.exp(-0.5*acc)

    ii = which_dim - 1
    li = l[ii] if multil else l
    eye = np.eye(Z.shape[0])
    K_xz = K(X, Z)
    Ksinv = np.linalg.inv(K(Z, Z) + 1e-3*eye)
    sumgradx_K = -((X[:, None, ii] - Z[None, :, ii])*K_xz).sum(axis=0)/(li*li)
    G = -np.linalg.inv(C*eye + Ksinv @ (K_xz.T @ K_xz) + 1e-3*eye) @ Ksinv @ sumgradx_K
    if func_out == False:
        return K_xz @ G
    return lambda x: K(x, Z) @ G
''')]

R["m_e_cho"] = [
 (SFE, "sub", "from scipy.spatial.distance import cdist", "from scipy.spatial.distance import cdist\nfrom scipy.linalg import cho_factor, cho_solve"),
 (SFE, "replace", "score_function_multid_seperate", _SEP % '''
    multil = isinstance(l, (list, tuple, np.ndarray))
    ls = np.asarray(l, dtype=float) if multil else np.full(X.shape[1], float(l))
    ii = which_dim - 1

    def K(x, y):
        return np.exp(-0.5*(((x[:, None, :] - y[None, :, :])/ls)**2).sum(axis=-1))

    eye = np.eye(Z.shape[0])
    K_xz = K(X, Z)
    factor = cho_factor(K(Z, Z) + 1e-3*eye)
    rhs = np.einsum('nm,nm->m', Z[None, :, ii] - X[:, None, ii], K_xz)/ls[ii]**2
    M = C*eye + cho_solve(factor, K_xz.T @ K_xz) + 1e-3*eye
    w = np.linalg.solve(M, cho_solve(factor, rhs))
    if func_out == False:
        return -(K_xz @ w)
    return lambda x: -(K(x, Z) @ w)
''')]

R["m_te_lerp"] = [(RBF, "replace", "RBF.gradient_X", None)]
del R["m_te_lerp"]

R["m_te_module"] = [(TSF, "replace", "torched_score_function_multid_seperate_all_dims", '''
def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray,
                                                    l: Union[float, torch.tensor, np.ndarray] = 1.0,
                                                    func_out: Union[bool, None] = False,
                                                    C: Union[float, None] = 0.001,
                                                    kern: Union[None, str] = 'RBF',
                                                    device: Union[bool, str] = None) -> torch.tensor:
    M, dim = Z.shape
    if not torch.is_tensor(X):
        X = torch.tensor(X, dtype=torch.float64, device=device)
    if not torch.is_tensor(Z):
        Z = torch.tensor(Z, dtype=torch.float64, device=device)
    elif not torch.is_floating_point(Z):
        Z = Z.to(torch.float64)
    multil = isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.numel() > 1)
    if multil:
        l = torch.as_tensor(l, dtype=torch.float64, device=device)
    kernel = RBF(length_scale=l, multil=multil, device=device)
    K_xz = kernel.Kernel(X, Z)
    eye = torch.eye(M, dtype=torch.float64, device=device)
    Ksinv = torch.linalg.inv(kernel.Kernel(Z, Z) + 1e-3*eye)
    sumgradx_K = torch.sum(-kernel.gradient_X(X, Z), dim=0)
    coef = torch.linalg.multi_dot([torch.linalg.inv((C + 1e-3)*eye + Ksinv @ K_xz.T @ K_xz), Ksinv, sumgradx_K])
    if func_out == False:
        return -K_xz @ coef

    def evaluate(x):
        if not torch.is_tensor(x):
            x = torch.tensor(x, dtype=torch.float64, device=device)
        diff = torch.sub(x.unsqueeze(1), Z.unsqueeze(0))
        return -torch.exp(-0.5*torch.sum((diff/l)**2, dim=2)) @ coef
    return evaluate
''')]

R["m_prev_none"] = [(MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    logging.info('Sampling forward with deterministic particles and true drift...')
    x = None
    for ti, tt in enumerate(self.timegrid):
        if x is None:
            x = np.repeat(np.reshape(self.y1, (-1, 1)), self.N, axis=1)
        elif ti == 1:
            x = x + self.dt*self.f_true(x, tt-self.dt) + self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
        else:
            x = x + self.dt*self.f_seperate_true(x, tt-self.dt)
        self.Ztr[:, :, ti] = x
    logging.info('Forward sampling with Otto true is ready!')
    return 0
''')]

R["m_prev_time"] = [(MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    logging.info('Sampling forward with deterministic particles and true drift...')
    before = None
    for ti, tt in enumerate(self.timegrid):
        if before is None:
            for di in range(self.dim):
                self.Ztr[di, :, 0] = self.y1[di]
        else:
            x = self.Ztr[:, :, before]
            if before == 0:
                step = self.dt*self.f_true(x, tt-self.dt) + self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
            else:
                step = self.dt*self.f_seperate_true(x, tt-self.dt)
            self.Ztr[:, :, ti] = x + step
        before = ti
    logging.info('Forward sampling with Otto true is ready!')
    return 0
''')]
