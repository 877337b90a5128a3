"""Edits that keep the behaviour, written with less usual language features."""
from common import *

R = {}

R["l_generator"] = [
 (MAIN, "before", "DPFC.backward_simulation", '''
def _reverse_steps(self):
    """Yields (step number, slice to read, slice to write) of every backward step."""
    for ti in range(1, self.k-1):
        yield ti, self.k-ti, self.k-ti-1
'''),
 (MAIN, "replace", "DPFC.backward_simulation", '''
def backward_simulation(self):
    for di in range(self.dim):
        self.B[di, :, -1] = self.y2[di]
    for ti, src, dst in self._reverse_steps():
        x = self.B[:, :, src]
        grad_ln_ro = self.density_estimation(ti, src)
        fx = self.f(x, self.timegrid[src])
        if ti > 1 and self.deterministic:
            grad_ln_b = self.bw_density_estimation(src)
            self.B[:, :, dst] = x - (fx - self.g**2*grad_ln_ro + 0.5*self.g**2*grad_ln_b)*self.dt
        else:
            noise = np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
            self.B[:, :, dst] = x - fx*self.dt + self.dt*self.g**2*grad_ln_ro + self.g*noise
    for di in range(self.dim):
        self.B[di, :, 0] = self.y1[di]
    return 0
''')]

R["l_partial_lambda"] = [
 (MAIN, "sub", "import time\nimport logging\n", "import time\nimport logging\nfrom functools import partial\n"),
 (MAIN, "replace", "DPFC.density_estimation", '''
def density_estimation(self, ti, rev_ti):
    Zr, Br = self.Z[:, :, rev_ti], self.B[:, :, rev_ti]
    edges = list(map(lambda z, b: (max(np.min(z), np.min(b)), min(np.max(z), np.max(b))), Zr, Br))
    Sxx = np.array([np.random.uniform(low=lo, high=hi, size=self.N_sparse) for lo, hi in edges])
    estimator = partial(score_function_multid_seperate, Zr.T, Sxx.T, func_out=True, C=0.001, which=1,
                        l=2*np.std(Zr, axis=1), kern=self.kern)
    return np.array([estimator(which_dim=di+1)(Br.T) for di in range(self.dim)])
''')]

R["l_nested_nonlocal"] = [
 (MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    logging.info('Sampling forward with deterministic particles and true drift...')
    Ztr = self.Ztr

    def advance(ti):
        x, t = Ztr[:, :, ti-1], self.timegrid[ti]-self.dt
        if ti == 1:
            velocity = self.f_true(x, t)
            jump = self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
        else:
            velocity = self.f_seperate_true(x, t)
            jump = 0
        Ztr[:, :, ti] = x + self.dt*velocity + jump

    for di in range(self.dim):
        Ztr[di, :, 0] = self.y1[di]
    for ti in range(1, self.k):
        advance(ti)
    logging.info('Forward sampling with Otto true is ready!')
    return 0
''')]

R["l_try_assert"] = [
 (MAIN, "replace", "DPFC.bw_density_estimation", '''
def bw_density_estimation(self, rev_ti):
    assert 0 <= rev_ti < self.k
    shape = (self.dim, self.N)
    grad_ln_b = np.zeros(shape)
    Br = self.B[:, :, rev_ti]
    Zr = self.Z[:, :, rev_ti]
    lnthsc = 2*np.std(Br, axis=1)
    bnds = np.zeros((self.dim, 2))
    bnds[:, 0] = np.maximum(np.min(Zr, axis=1), np.min(Br, axis=1))
    bnds[:, 1] = np.minimum(np.max(Zr, axis=1), np.max(Br, axis=1))
    try:
        Sxx = np.array([np.random.uniform(low=bnd[0], high=bnd[1], size=self.N_sparse) for bnd in bnds])
        for di in range(self.dim):
            grad_ln_b[di, :] = score_function_multid_seperate(Br.T, Sxx.T, func_out=False, C=0.001, which=1,
                                                              l=lnthsc, which_dim=di+1, kern=self.kern)
    finally:
        del bnds
    return grad_ln_b
''')]

R["l_walrus_match"] = [
 (MAIN, "replace", "DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    Zt, Bt = (flow[..., ti] for flow in (self.Z, self.B))
    for x, z, b in zip(X, Zt, Bt):
        if x < (lower := max(z.min(), b.min())) or x > (upper := min(z.max(), b.max())):
            return False
    return True
'''),
 (MAIN, "within", "DPFC.__init__", '''        if self.deterministic:
            self.forward_sampling_Otto()
        else:
            self.forward_sampling()
''', '''        match bool(self.deterministic):
            case True:
                self.forward_sampling_Otto()
            case _:
                self.forward_sampling()
''')]

R["l_property"] = [
 (MAIN, "before", "DPFC.forward_sampling", '''
@property
def _bridged(self):
    return bool(self.reweight and self.brown_bridge)

@staticmethod
def _brownian(scale, shape):
    return np.random.normal(loc=0.0, scale=scale, size=shape)
'''),
 (MAIN, "within", "DPFC.__init__", '''        if self.reweight and self.brown_bridge:
            self.forward_sampling_Otto_true()''', '''        if self._bridged:
            self.forward_sampling_Otto_true()'''),
 (MAIN, "within", "DPFC.forward_sampling_Otto_true", "np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))", "self._brownian(np.sqrt(self.dt), (self.dim, self.N))"),
]

R["l_take_swap"] = [
 (MAIN, "replace", "DPFC.calculate_u", '''
def calculate_u(self, grid_x, ti):
    fwd, other = self.Z, None
    if self.reweight and self.brown_bridge:
        fwd, other = self.Ztr, fwd
    del other
    Bt, Ft = np.take(self.B, ti, axis=2), np.take(fwd, ti, axis=2)
    if ti <= 5 or ti >= self.k-5:
        mean = {'b': np.mean(Bt, axis=1), 'f': np.mean(Ft, axis=1)}
        var = {'b': np.var(Bt, axis=1), 'f': np.var(Ft, axis=1)}
        return ((grid_x-mean['f'])/var['f'] - (grid_x-mean['b'])/var['b']).T
    low = np.maximum(Bt.min(1), Ft.min(1))
    high = np.minimum(Bt.max(1), Ft.max(1))
    Sxx = np.random.uniform(low=low, high=high, size=(self.N_sparse, self.dim))
    u_t = np.zeros(grid_x.T.shape)
    lb, lf = 2*Bt.std(axis=1), 2*Ft.std(axis=1)
    for di in range(self.dim):
        common = {'func_out': True, 'C': 0.001, 'which': 1, 'which_dim': di+1, 'kern': self.kern}
        u_t[di] = score_function_multid_seperate(Bt.T, Sxx, l=lb, **common)(grid_x) \\
                  - score_function_multid_seperate(Ft.T, Sxx, l=lf, **common)(grid_x)
    return u_t
''')]

R["l_weights_helper_mod"] = [
 (MAIN, "before", "DPFC", '''
def _path_weights(U, particles, t, dt):
    """Normalised particle weights for the path constraint U."""
    unnormalised = np.exp(U(particles, t)*dt)
    return unnormalised/np.sum(unnormalised)


def _resampled(particles, weights):
    plan = reweight_optimal_transport_multidim(particles.T, weights)
    return particles @ plan


'''),
 (MAIN, "replace", "DPFC.forward_sampling", '''
def forward_sampling(self):
    logging.info('Sampling forward...')
    for ti, tt in enumerate(self.timegrid):
        if ti == 0:
            for di in range(self.dim):
                self.Z[di, :, 0] = self.y1[di]
            continue
        for i in range(self.N):
            self.Z[:, i, ti] = self.Z[:, i, ti-1] + self.dt*self.f(self.Z[:, i, ti-1], tt-self.dt) \\
                               + np.ravel(self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, 1)))
        if self.reweight == True:
            W = _path_weights(self.U, self.Z[:, :, ti], tt, self.dt)
            self.Z[:, :, ti] = _resampled(self.Z[:, :, ti], W)
    logging.info('Forward sampling done!')
    return 0
''')]

R["l_decorated"] = [
 (MAIN, "before", "DPFC", '''
def _announced(start, end):
    """Logs a message before and after a sampling method."""
    def wrap(method):
        def inner(self):
            logging.info(start)
            result = method(self)
            logging.info(end)
            return result
        return inner
    return wrap


'''),
 (MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
@_announced('Sampling forward with deterministic particles and true drift...', 'Forward sampling with Otto true is ready!')
def forward_sampling_Otto_true(self):
    for di in range(self.dim):
        self.Ztr[di, :, 0] = self.y1[di]
    for ti in range(1, self.k):
        x = self.Ztr[:, :, ti-1]
        t = self.timegrid[ti]-self.dt
        if ti != 1:
            self.Ztr[:, :, ti] = x + self.dt*self.f_seperate_true(x, t)
        else:
            self.Ztr[:, :, ti] = x + self.dt*self.f_true(x, t) + self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
    return 0
''')]

R["l_base_class"] = [
 (MAIN, "sub", "class DPFC(object):", '''class _Checks:
    """Bounds shared by the estimates."""

    @staticmethod
    def spread(x):
        return 2*np.std(x, axis=1)

    def box(self, x):
        return np.array([[np.min(row), np.max(row)] for row in x])


class DPFC(_Checks):'''),
 (MAIN, "replace", "DPFC.f_seperate_true", '''
def f_seperate_true(self, x, t):
    dimi, N = x.shape
    Sxx = np.array([np.random.uniform(low=low, high=high, size=self.N_sparse) for low, high in self.box(x)])
    l = self.spread(x)
    gpsi = np.zeros_like(x, dtype=float)
    for ii in range(dimi):
        gpsi[ii, :] = score_function_multid_seperate(x.T, Sxx.T, False, C=0.001, which=1, l=l, which_dim=ii+1, kern=self.kern)
    return self.f_true(x, t)-0.5*self.g**2*gpsi
''')]

R["l_estimator_class"] = [
 (SFE, "before", "score_function_multid_seperate", '''
class _GaussianKernel:
    """Gaussian kernel with one length scale or one per dimension."""

    def __init__(self, l):
        self.l = np.asarray(l, dtype=float)

    def __call__(self, x, y):
        if self.l.ndim == 0:
            return np.exp(-cdist(x, y, 'sqeuclidean')/(2*self.l**2))
        return np.exp(-0.5*cdist(x/self.l, y/self.l, 'sqeuclidean'))


'''),
 (SFE, "replace", "score_function_multid_seperate_old", '''
def score_function_multid_seperate_old(X, Z, func_out=False, C=0.001, kern='RBF', l=1, which=1, which_dim=1):
    K = _GaussianKernel(l)
    ii = which_dim-1
    K_xz, K_s = K(X, Z), K(Z, Z)
    eye = np.eye(Z.shape[0])
    li = l[ii] if isinstance(l, (list, tuple, np.ndarray)) else l
    grad = -(X[:, ii][:, None]-Z[:, ii][None, :])*K_xz/(li*li)
    Ksinv = np.linalg.inv(K_s+1e-3*eye)
    A = K_xz.T@K_xz
    coef = np.linalg.inv(C*eye+Ksinv@A+1e-3*eye)@Ksinv@np.sum(grad, axis=0)
    if func_out == False:
        return -K_xz@coef
    return lambda x: -K(x, Z)@coef
''')]
