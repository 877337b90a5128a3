"""Edits that keep the behaviour (up to the stream of random numbers where stated)."""
from common import *

R = {}

# ------------------------------------------------------------- NumPy class
R["np_transport_helper"] = [
 (MAIN, "replace", "DPFC.forward_sampling_Otto", '''
def _transport(self, cloud, t, W):
    W[:, 0] = np.exp(self.U(cloud, t)*self.dt)
    W = W/np.sum(W)
    plan = reweight_optimal_transport_multidim(cloud.T, W)
    return cloud@plan, W

def forward_sampling_Otto(self):
    """Samples the forward flow."""
    logging.info('Sampling forward with deterministic particles...')
    weights = np.ones((self.N, 1))/self.N
    for di in range(self.dim):
        self.Z[di, :, 0] = self.y1[di]
        if self.brown_bridge:
            self.Z[di, :, -1] = self.y2[di]
    for ti in range(1, self.k):
        tt = self.timegrid[ti]
        prev = self.Z[:, :, ti-1]
        t_prev = tt - self.dt
        if ti == 1:
            noise = np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
            new = prev + self.dt*self.f(prev, t_prev) + self.g*noise
        else:
            new = prev + self.dt*self.f_seperate(prev, t_prev)
        if self.reweight:
            start = time.time()
            new, weights = self._transport(new, tt, weights)
            if ti == 3:
                logging.info('Timepoint: %d needed %f', ti, time.time()-start)
        self.Z[:, :, ti] = new
    logging.info('Forward sampling with Otto is ready!')
    return 0
''')]

R["np_bounds_vector"] = [
 (MAIN, "within", "DPFC.f_seperate", '''        bnds = np.zeros((dimi, 2))
        for ii in range(dimi):
            bnds[ii] = [np.min(x[ii, :]), np.max(x[ii, :])]
''', '''        bnds = np.column_stack((np.min(x, axis=1), np.max(x, axis=1)))
'''),
 (MAIN, "within", "DPFC.f_seperate_true", '''        bnds = np.zeros((dimi, 2))
        for ii in range(dimi):
            bnds[ii] = [np.min(x[ii, :]), np.max(x[ii, :])]
''', '''        bnds = np.stack([x.min(axis=1), x.max(axis=1)], axis=1)
''')]

R["np_bounds_helper"] = [
 (MAIN, "before", "DPFC.density_estimation", '''
@staticmethod
def _overlap(a, b):
    lo = np.maximum(a.min(axis=1), b.min(axis=1))
    hi = np.minimum(a.max(axis=1), b.max(axis=1))
    return lo, hi

def _inducing(self, lo, hi):
    pts = np.empty((self.dim, self.N_sparse))
    for d in range(self.dim):
        pts[d] = np.random.uniform(lo[d], hi[d], self.N_sparse)
    return pts
'''),
 (MAIN, "replace", "DPFC.density_estimation", '''
def density_estimation(self, ti, rev_ti):
    Zc = self.Z[:, :, rev_ti]
    Bc = self.B[:, :, rev_ti]
    lo, hi = self._overlap(Zc, Bc)
    Sxx = self._inducing(lo, hi)
    l = 2*np.std(Zc, axis=1)
    rows = []
    for di in range(self.dim):
        est = score_function_multid_seperate(Zc.T, Sxx.T, func_out=True, C=0.001, which=1, l=l, which_dim=di+1, kern=self.kern)
        rows.append(est(Bc.T))
    return np.array(rows)
'''),
 (MAIN, "replace", "DPFC.bw_density_estimation", '''
def bw_density_estimation(self, rev_ti):
    Bc = self.B[:, :, rev_ti]
    Sxx = self._inducing(*self._overlap(self.Z[:, :, rev_ti], Bc))
    l = 2*np.std(Bc, axis=1)
    return np.array([score_function_multid_seperate(Bc.T, Sxx.T, func_out=False, C=0.001, which=1, l=l, which_dim=di+1, kern=self.kern) for di in range(self.dim)])
''')]

R["np_backward_range"] = [
 (MAIN, "replace", "DPFC.backward_simulation", '''
def backward_simulation(self):
    last = self.k - 1
    for di in range(self.dim):
        self.B[di, :, last] = self.y2[di]
    for rev in range(last-1, 0, -1):
        nxt = rev + 1
        cur = self.B[:, :, nxt]
        score_fw = self.density_estimation(last-rev, nxt)
        drift = self.f(cur, self.timegrid[nxt])
        if not self.deterministic or rev == last-1:
            noise = np.random.normal(0.0, np.sqrt(self.dt), (self.dim, self.N))
            self.B[:, :, rev] = cur - drift*self.dt + self.dt*self.g**2*score_fw + self.g*noise
            continue
        score_bw = self.bw_density_estimation(nxt)
        self.B[:, :, rev] = cur - self.dt*(drift - self.g**2*(score_fw - 0.5*score_bw))
    for di in range(self.dim):
        self.B[di, :, 0] = self.y1[di]
    return 0
''')]

R["np_backward_while"] = [
 (MAIN, "replace", "DPFC.backward_simulation", '''
def backward_simulation(self):
    self.B[:, :, -1] = np.asarray(self.y2).reshape(self.dim, 1)
    ti = 1
    while ti < self.k - 1:
        rev_ti = self.k - ti - 1
        src = rev_ti + 1
        grad_ln_ro = self.density_estimation(ti, src)
        stochastic = (ti == 1) or not self.deterministic
        step = -self.f(self.B[:, :, src], self.timegrid[src]) + self.g**2*grad_ln_ro
        if stochastic:
            self.B[:, :, rev_ti] = self.B[:, :, src] + self.dt*step + self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
        else:
            step = step - 0.5*self.g**2*self.bw_density_estimation(src)
            self.B[:, :, rev_ti] = self.B[:, :, src] + self.dt*step
        ti += 1
    self.B[:, :, 0] = np.asarray(self.y1)[:, None]
    return 0
''')]

R["np_control_flat"] = [
 (MAIN, "replace", "DPFC.calculate_u", '''
def calculate_u(self, grid_x, ti):
    reference = self.Ztr if (self.reweight and self.brown_bridge) else self.Z
    Bt = self.B[:, :, ti]
    Rt = reference[:, :, ti]
    if ti <= 5 or ti >= self.k-5:
        mb, sb = Bt.mean(axis=1), Bt.std(axis=1)
        mr, sr = Rt.mean(axis=1), Rt.std(axis=1)
        return ((grid_x - mr)/sr**2 - (grid_x - mb)/sb**2).T
    lo = np.maximum(Bt.min(axis=1), Rt.min(axis=1))
    hi = np.minimum(Bt.max(axis=1), Rt.max(axis=1))
    Sxx = np.array([np.random.uniform(low=a, high=b, size=self.N_sparse) for a, b in zip(lo, hi)])
    out = np.zeros(grid_x.T.shape)
    for di in range(self.dim):
        scores = []
        for cloud in (Bt, Rt):
            fn = score_function_multid_seperate(cloud.T, Sxx.T, func_out=True, C=0.001, which=1, l=2*np.std(cloud, axis=1), which_dim=di+1, kern=self.kern)
            scores.append(fn(grid_x))
        out[di] = scores[0] - scores[1]
    return out
''')]

R["np_covered_early"] = [
 (MAIN, "replace", "DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    for ii in range(self.dim):
        lo = max(np.min(self.Z[ii, :, ti]), np.min(self.B[ii, :, ti]))
        hi = min(np.max(self.Z[ii, :, ti]), np.max(self.B[ii, :, ti]))
        if X[ii] < lo or X[ii] > hi:
            return False
    return True
''')]

R["np_covered_all"] = [
 (MAIN, "replace", "DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    z, b = self.Z[:, :, ti], self.B[:, :, ti]
    lo = np.maximum(z.min(axis=1), b.min(axis=1))
    hi = np.minimum(z.max(axis=1), b.max(axis=1))
    return all(lo[d] <= X[d] <= hi[d] for d in range(self.dim))
''')]

R["np_ctor_split"] = [
 (MAIN, "before", "DPFC.forward_sampling", '''
@staticmethod
def _checked_kernel(kern):
    if kern != 'periodic':
        return kern
    for msg in ('Please do not use periodic kernel yet!', 'For all the numerical experiments RBF was used', 'We changed your choice to RBF'):
        logging.warning(msg)
    return 'RBF'

def _storage(self):
    return np.zeros((self.dim, self.N, self.k))

def _run(self):
    sampler = self.forward_sampling_Otto if self.deterministic else self.forward_sampling
    sampler()
    if self.reweight and self.brown_bridge:
        self.forward_sampling_Otto_true()
    self.backward_simulation()
'''),
 (MAIN, "replace", "DPFC.__init__", '''
def __init__(self, t1, t2, y1, y2, f, g, N, M, reweight=False, U=None, dens_est='nonparametric', reject=True, kern='RBF', f_true=None, brown_bridge=False, deterministic=True):
    self.t1, self.t2 = t1, t2
    self.y1, self.y2 = y1, y2
    self.dim = len(np.atleast_1d(y1))
    self.kern = self._checked_kernel(kern)
    self.f, self.g = f, g
    self.N, self.N_sparse = N, M
    self.dt = 0.001
    self.reject = reject
    self.deterministic = deterministic
    self.timegrid = np.arange(self.t1, self.t2+self.dt/2, self.dt)
    self.k = len(self.timegrid)
    self.brown_bridge = brown_bridge
    self.reweight = reweight
    if reweight:
        self.U = U
    if reweight and brown_bridge:
        self.Ztr = self._storage()
        self.f_true = f_true
    self.Z = self._storage()
    self.B = self._storage()
    self.ln_roD = []
    self._run()
''')]

R["np_forward_vectorised"] = [
 (MAIN, "replace", "DPFC.forward_sampling", '''
def forward_sampling(self):
    logging.info('Sampling forward...')
    W = np.ones((self.N, 1))/self.N
    self.Z[:, :, 0] = np.reshape(self.y1, (self.dim, 1))
    for ti in range(1, self.k):
        tt = self.timegrid[ti]
        x = self.Z[:, :, ti-1]
        dW = np.sqrt(self.dt)*np.random.randn(self.dim, self.N)
        x_new = x + self.dt*self.f(x, tt-self.dt) + self.g*dW
        if self.reweight:
            W = np.exp(self.U(x_new, tt)*self.dt).reshape(-1, 1)
            W /= W.sum()
            x_new = x_new@reweight_optimal_transport_multidim(x_new.T, W)
        self.Z[:, :, ti] = x_new
    logging.info('Forward sampling done!')
    return 0
''')]

R["np_forward_noise_first"] = [
 (MAIN, "within", "DPFC.forward_sampling", '''                for i in range(self.N):
''', '''                sig = self.g*np.sqrt(self.dt)
                for i in range(self.N):
                    xi = np.random.standard_normal(self.dim)
'''),
 (MAIN, "within", "DPFC.forward_sampling", '''                                      (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim,)))
''', '''                                      sig*xi)
''')]

R["np_score_stack"] = [
 (MAIN, "within", "DPFC.f_seperate", '''        gpsi = np.zeros((dimi, N))
        lnthsc = 2*np.std(x, axis=1)
        for ii in range(dimi):
            gpsi[ii, :] = score_function_multid_seperate(x.T, Sxx.T, False, C=0.001, which=1, l=lnthsc, which_dim=ii+1, kern=self.kern)
''', '''        lnthsc = 2*np.std(x, axis=1)
        gpsi = np.vstack([score_function_multid_seperate(x.T, Sxx.T, False, C=0.001, which=1, l=lnthsc, which_dim=ii+1, kern=self.kern) for ii in range(dimi)])
'''),
 (MAIN, "within", "DPFC.f_seperate", "return self.f(x, t)-0.5* self.g**2* gpsi", '''correction = 0.5*gpsi*self.g*self.g
        drift = self.f(x, t)
        return drift - correction''')]

R["np_shared_drift"] = [
 (MAIN, "replace", "DPFC.f_seperate_true", '''
def _flow_field(self, drift, x, t):
    dimi, N = x.shape
    lo, hi = np.amin(x, axis=1), np.amax(x, axis=1)
    Sxx = np.zeros((dimi, self.N_sparse))
    for d, (a, b) in enumerate(zip(lo, hi)):
        Sxx[d, :] = a + (b-a)*np.random.rand(self.N_sparse)
    l = 2*np.std(x, axis=1)
    gpsi = np.zeros_like(x)
    for d in range(dimi):
        gpsi[d] = score_function_multid_seperate(x.T, Sxx.T, func_out=False, C=0.001, which=1, l=l, which_dim=d+1, kern=self.kern)
    return drift(x, t) - self.g**2/2*gpsi

def f_seperate_true(self, x, t):
    return self._flow_field(self.f_true, x, t)
'''),
 (MAIN, "replace", "DPFC.f_seperate", '''
def f_seperate(self, x, t):
    return self._flow_field(self.f, x, t)
''')]

R["np_otto_true_zip"] = [
 (MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    logging.info('Sampling forward with deterministic particles and true drift...')
    self.Ztr[:, :, 0] = np.tile(np.asarray(self.y1).reshape(-1, 1), (1, self.N))
    for ti, t_prev in enumerate(self.timegrid[:-1], start=1):
        x = self.Ztr[:, :, ti-1].copy()
        if ti > 1:
            self.Ztr[:, :, ti] = x + self.dt*self.f_seperate_true(x, t_prev)
            continue
        dx = self.dt*self.f_true(x, t_prev)
        dx += self.g*np.random.normal(scale=np.sqrt(self.dt), size=x.shape)
        self.Ztr[:, :, ti] = x + dx
    return 0
''')]

R["np_noop"] = [
 (MAIN, "within", "DPFC.forward_sampling_Otto", "        logging.info('Forward sampling with Otto is ready!')\n", "        _unused = None\n        pass\n        logging.info('Forward sampling with Otto is ready!')\n"),
 (MAIN, "within", "DPFC.calculate_u", "        return u_t", "        assert True\n        (lambda: None)()\n        if False:\n            print('never')\n        return u_t")]

# ------------------------------------------------------------- torch class
R["th_step_helper"] = [
 (MAIN, "before", "torched_DPFC.forward_sampling", '''
def _noise(self):
    shape = [self.dim, self.N]
    out = torch.empty(shape, dtype=torch.float64, device=self.device)
    return out.normal_(mean=0, std=torch.sqrt(self.dt))

def _reweighted(self, cloud, t):
    w = torch.exp(self.U(cloud, t)*self.dt)
    w = w/torch.sum(w)
    cost = ot.dist(cloud.T, cloud.T)
    cost = cost/cost.max()
    uniform = torch.ones_like(w, dtype=torch.float64, device=self.device)/self.N
    return (self.N*cloud)@ot.emd(w, uniform, cost)
'''),
 (MAIN, "replace", "torched_DPFC.forward_sampling", '''
def forward_sampling(self):
    logging.info('Sampling forward...')
    for di in range(self.dim):
        self.Z[di, :, 0] = self.y1[di]
    for ti in range(1, int(self.k)):
        x = self.Z[:, :, ti-1]
        new = x + self.dt*self.f(x, self.timegrid[ti]-self.dt) + self.g*self._noise()
        if self.reweight:
            new = self._reweighted(new, self.timegrid[ti])
        self.Z[:, :, ti] = new
    return 0
'''),
 (MAIN, "replace", "torched_DPFC.forward_sampling_Otto", '''
def forward_sampling_Otto(self):
    for di in range(self.dim):
        self.Z[di, :, 0] = self.y1[di]
    for ti, tt in enumerate(self.timegrid):
        if ti == 0:
            continue
        x = self.Z[:, :, ti-1]
        if ti == 1:
            new = x + self.dt*self.f(x, tt-self.dt) + self.g*self._noise()
        else:
            new = x + self.dt*self.f_seperate(x, tt-self.dt)
        self.Z[:, :, ti] = self._reweighted(new, tt) if self.reweight else new
    return 0
''')]

R["th_bounds_vector"] = [
 (MAIN, "within", "torched_DPFC.f_seperate", '''        bnds = torch.zeros(dimi, 2, dtype=torch.float64, device=self.device)
        
        for ii in range(dimi):
            bnds[ii, 0] = torch.min(x[ii, :])
            bnds[ii, 1] = torch.max(x[ii, :])
''', '''        lo = torch.min(x, dim=1).values
        hi = torch.max(x, dim=1)[0]
'''),
 (MAIN, "within", "torched_DPFC.f_seperate", "torch.distributions.Uniform(low=bnds[:, 0], high=bnds[:, 1]).sample([self.N_sparse])", "torch.distributions.Uniform(lo, hi).sample((int(self.N_sparse),))"),
 (MAIN, "within", "torched_DPFC.f_seperate_true", '''        for ii in range(dimi):
            bnds[ii, 0] = torch.min(x[ii, :])
            bnds[ii, 1] = torch.max(x[ii, :])
''', '''        bnds[:, 0] = x.amin(dim=1)
        bnds[:, 1] = x.amax(dim=1)
''')]

R["th_uniform_manual"] = [
 (MAIN, "within", "torched_DPFC.f_seperate_true", "torch.distributions.Uniform(low=bnds[:, 0], high=bnds[:, 1]).sample([self.N_sparse])", "bnds[:, 0] + (bnds[:, 1]-bnds[:, 0])*torch.rand(self.N_sparse, dimi, dtype=torch.float64, device=self.device)")]

R["th_density_loop"] = [
 (MAIN, "replace", "torched_DPFC.density_estimation", '''
def _coverage(self, Zc, Bc, d):
    zmin, zmax = torch.min(Zc[d]), torch.max(Zc[d])
    bmin, bmax = torch.min(Bc[d]), torch.max(Bc[d])
    return torch.minimum(zmin, bmin), torch.maximum(zmax, bmax)

def density_estimation(self, ti, rev_ti):
    Zc, Bc = self.Z[:, :, rev_ti], self.B[:, :, rev_ti]
    bnds = torch.zeros(self.dim, 2, dtype=torch.float64, device=self.device)
    for ii in range(self.dim):
        collapsed = torch.min(Bc[ii]) == torch.max(Bc[ii])
        if collapsed:
            lo, hi = torch.min(Zc[ii]), torch.max(Zc[ii])
        else:
            lo, hi = self._coverage(Zc, Bc, ii)
        bnds[ii, 0], bnds[ii, 1] = lo, hi
    Sxx = torch.distributions.Uniform(low=bnds[:, 0], high=bnds[:, 1]).sample([self.N_sparse])
    estimator = torched_score_function_multid_seperate_all_dims(Zc.T, Sxx, func_out=True, C=0.001, l=2*Zc.std(dim=1), kern=self.kern, device=self.device)
    return estimator(Bc.T).T
''')]

R["th_bw_cat"] = [
 (MAIN, "replace", "torched_DPFC.bw_density_estimation", '''
def bw_density_estimation(self, rev_ti):
    Zc, Bc = self.Z[:, :, rev_ti], self.B[:, :, rev_ti]
    both = torch.cat((Zc, Bc), dim=1)
    Sxx = torch.distributions.Uniform(low=both.min(dim=1).values, high=both.max(dim=1).values).sample([self.N_sparse])
    return torched_score_function_multid_seperate_all_dims(Bc.T, Sxx, l=2*torch.std(Bc, dim=1), device=self.device)
''')]

R["th_backward_range"] = [
 (MAIN, "replace", "torched_DPFC.backward_simulation", '''
def backward_simulation(self):
    n = int(self.k)
    for di in range(self.dim):
        self.B[di, :, n-1] = self.y2[di]
    for rev in reversed(range(1, n-1)):
        x = self.B[:, :, rev+1]
        fw = self.density_estimation(n-1-rev, rev+1)
        field = self.g**2*fw - self.f(x, self.timegrid[rev+1])
        first = rev == n-2
        if first or not self.deterministic:
            noise = torch.sqrt(self.dt)*torch.randn(self.dim, self.N, dtype=torch.float64, device=self.device)
            self.B[:, :, rev] = x + field*self.dt + self.g*noise
        else:
            bw = torch.t(self.bw_density_estimation(rev+1))
            self.B[:, :, rev] = x + (field - 0.5*self.g**2*bw)*self.dt
    self.B[:, :, 0] = self.y1[:, None]
    return 0
''')]

R["th_control_flat"] = [
 (MAIN, "replace", "torched_DPFC.calculate_u", '''
def _score(self, cloud, Sxx, points):
    fn = torched_score_function_multid_seperate_all_dims(cloud.T, Sxx, func_out=True, C=0.001, l=2*torch.std(cloud, dim=1), kern=self.kern, device=self.device)
    return fn(points).T

def calculate_u(self, grid_x, ti):
    bridge = self.reweight and self.brown_bridge
    fw = (self.Ztr if bridge else self.Z)[:, :, ti]
    bw = self.B[:, :, ti]
    near_end = ti <= 5 or ti >= self.k-5
    if near_end:
        u_t = torch.zeros(grid_x.T.shape, dtype=torch.float64, device=self.device)
        for di in range(self.dim):
            x = grid_x[:, di]
            u_t[di] = (x-torch.mean(fw[di]))/torch.var(fw[di]) - (x-torch.mean(bw[di]))/torch.var(bw[di])
        return u_t
    lo = torch.minimum(fw.amin(1), bw.amin(1))
    hi = torch.maximum(fw.amax(1), bw.amax(1))
    Sxx = torch.distributions.Uniform(low=lo, high=hi).sample([self.N_sparse])
    return self._score(bw, Sxx, grid_x) - self._score(fw, Sxx, grid_x)
''')]

R["th_covered_all"] = [
 (MAIN, "replace", "torched_DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    z, b = self.Z[:, :, ti], self.B[:, :, ti]
    inside = True
    for ii in range(self.dim):
        lo = torch.maximum(z[ii].min(), b[ii].min())
        hi = torch.minimum(z[ii].max(), b[ii].max())
        if not (lo <= X[ii] and X[ii] <= hi):
            inside = False
            break
    return inside
''')]

R["th_ctor_opts"] = [
 (MAIN, "replace", "torched_DPFC.__init__", '''
def __init__(self, t1, t2, y1, y2, f, g, N, M, reweight=False, U=None,
             dens_est='nonparametric', reject=True, kern='RBF',
             f_true=None, brown_bridge=False, deterministic=True,
             device=None):
    self.device = device
    opts = dict(dtype=torch.float64, device=device)
    self.t1, self.t2 = t1, t2
    if torch.is_tensor(y1):
        self.y1, self.y2 = y1, y2
    else:
        self.y1, self.y2 = (torch.tensor(v, **opts) for v in (y1, y2))
    self.dim = torch.tensor(self.y1.shape[0], dtype=torch.int, device=device)
    self.kern = 'RBF' if kern == 'periodic' else kern
    if self.kern != kern:
        logging.warning('Please do not use periodic kernel yet!')
    self.f = f
    self.g = torch.tensor(g, **opts)
    self.N = torch.tensor(N, dtype=torch.int, device=device)
    self.N_sparse = torch.tensor(M, dtype=torch.int, device=device)
    self.dt = torch.tensor(0.001, **opts)
    self.reject = reject
    self.deterministic = deterministic
    self.timegrid = torch.arange(t1, t2+self.dt/2, self.dt, **opts)
    self.k = torch.tensor(len(self.timegrid), dtype=torch.int, device=device)
    self.brown_bridge, self.reweight = brown_bridge, reweight
    shape = (self.dim, self.N, self.k)
    if reweight:
        self.U = U
        if brown_bridge:
            self.Ztr = torch.zeros(shape, **opts)
            self.f_true = f_true
    self.Z = torch.zeros(shape, **opts)
    self.B = torch.zeros(shape, **opts)
    self.ln_roD = []
    if self.deterministic:
        self.forward_sampling_Otto()
    else:
        self.forward_sampling()
    if self.reweight and self.brown_bridge:
        self.forward_sampling_Otto_true()
    self.backward_simulation()
''')]

# ------------------------------------------------------------- estimators
R["est_module_helpers"] = [
 (SFE, "before", "score_function_multid_seperate_all_dims", '''
def _gauss(x, y, l):
    l = np.asarray(l, dtype=float)
    d = (x[:, None, :] - y[None, :, :])/l
    return np.exp(-0.5*np.sum(d**2, axis=2))

def _weights(K_xz, Ksinv, C, m):
    lhs = C*np.eye(m) + Ksinv @ (K_xz.T @ K_xz) + 1e-3*np.eye(m)
    return np.linalg.inv(lhs)
'''),
 (SFE, "replace", "score_function_multid_seperate_all_dims", '''
def score_function_multid_seperate_all_dims(X, Z, func_out=False, C=0.001, kern='RBF', l=1):
    """Sparse score estimate for all dimensions."""
    m = Z.shape[0]
    K_xz = _gauss(X, Z, l)
    Ks = _gauss(Z, Z, l)
    Ksinv = np.linalg.inv(Ks + 1e-3*np.eye(m))
    grad = -(X[:, None, :] - Z[None, :, :])*K_xz[:, :, None]/np.asarray(l, dtype=float)**2
    rhs = Ksinv @ grad.sum(axis=0)
    coef = -_weights(K_xz, Ksinv, C, m) @ rhs
    if not func_out:
        return K_xz @ coef

    def estimate(x):
        return _gauss(x, Z, l) @ coef
    return estimate
''')]

R["est_einsum"] = [
 (SFE, "within", "score_function_multid_seperate", "    sumgradx_K = np.sum(gradx_K ,axis=0)    \n", "    sumgradx_K = gradx_K.sum(axis=0)\n    reg = 1e-3*np.eye(Z.shape[0])\n    core = np.linalg.inv(C*np.eye(Z.shape[0]) + Ksinv.dot(A) + reg)\n    alpha = -core.dot(Ksinv.dot(sumgradx_K))\n"),
 (SFE, "within", "score_function_multid_seperate", "res1 = -K_xz @ np.linalg.inv( C*np.eye(Z.shape[0], Z.shape[0]) + Ksinv @ A + 1e-3 * np.eye(Z.shape[0]))@ Ksinv@sumgradx_K", "res1 = np.einsum('ij,j->i', K_xz, alpha)"),
 (SFE, "within", "score_function_multid_seperate", "res1 = lambda x: K_sz(x) @ ( -np.linalg.inv( C*np.eye(Z.shape[0], Z.shape[0]) + Ksinv @ A + 1e-3 * np.eye(Z.shape[0])) ) @ Ksinv@sumgradx_K", "res1 = lambda x: np.matmul(K_sz(x), alpha)")]

R["est_solve"] = [
 (SFE, "within", "score_function_multid_seperate", "res1 = -K_xz @ np.linalg.inv( C*np.eye(Z.shape[0], Z.shape[0]) + Ksinv @ A + 1e-3 * np.eye(Z.shape[0]))@ Ksinv@sumgradx_K", "res1 = -K_xz @ np.linalg.solve(C*np.eye(Z.shape[0]) + Ksinv @ A + 1e-3 * np.eye(Z.shape[0]), Ksinv@sumgradx_K)")]

R["est_common_branch"] = [
 (SFE, "within", "score_function_multid_seperate_old", "return res1", "out = res1\n    return out")]

R["dist_scalar_helper"] = [
 (SFE, "before", "my_cdist", '''
@numba.njit(fastmath=True)
def _sq(r, y, i, j, m):
    acc = 0.0
    for k in range(m):
        d = r[i, k] - y[j, k]
        acc += d*d
    return acc
'''),
 (SFE, "replace", "my_cdist", '''
@numba.njit(parallel=True,fastmath=True)
def my_cdist(r,y, output,dist='euclidean'):
    N, M = r.shape
    N2, _ = y.shape
    if dist == 'euclidean':
        for i in numba.prange(N):
            for j in range(N2):
                output[i, j] = math.sqrt(_sq(r, y, i, j, M))
    elif dist == 'sqeuclidean':
        for i in numba.prange(N):
            for j in range(N2):
                output[i, j] = _sq(r, y, i, j, M)
    elif dist == 'l1':
        for i in numba.prange(N):
            for j in range(N2):
                tmp = 0.0
                for k in range(M):
                    tmp += abs(r[i, k] - y[j, k])
                output[i, j] = tmp
    return 0
''')]

R["dist_one_loop"] = [
 (SFE, "replace", "my_cdist", '''
@numba.njit(parallel=True,fastmath=True)
def my_cdist(r,y, output,dist='euclidean'):
    N, M = r.shape
    N2, _ = y.shape
    for i in numba.prange(N):
        for j in range(N2):
            tmp = 0.0
            for k in range(M):
                diff = r[i, k] - y[j, k]
                if dist == 'l1':
                    tmp += abs(diff)
                else:
                    tmp += diff**2
            if dist == 'euclidean':
                tmp = math.sqrt(tmp)
            output[i, j] = tmp
    return 0
''')]

R["dist_flat"] = [
 (SFE, "replace", "my_cdist", '''
@numba.njit(parallel=True,fastmath=True)
def my_cdist(r,y, output,dist='euclidean'):
    N, M = r.shape
    N2, _ = y.shape
    for c in numba.prange(N*N2):
        i = c // N2
        j = c % N2
        tmp = 0.0
        if dist == 'l1':
            for k in range(M):
                tmp += abs(r[i, k] - y[j, k])
        else:
            for k in range(M):
                tmp += (r[i, k] - y[j, k])**2
            if dist == 'euclidean':
                tmp = tmp**0.5
        output[i, j] = tmp
    return 0
''')]

R["dist_rows_local"] = [
 (SFE, "replace", "my_cdist", '''
@numba.njit(parallel=True,fastmath=True)
def my_cdist(r,y, output,dist='euclidean'):
    N, M = r.shape
    N2 = y.shape[0]
    if dist == 'euclidean' or dist == 'sqeuclidean':
        for i in numba.prange(N):
            row = output[i]
            for j in range(N2):
                row[j] = 0.0
                for k in range(M):
                    row[j] += (r[i, k] - y[j, k])**2
                if dist == 'euclidean':
                    row[j] = np.sqrt(row[j])
    elif dist == 'l1':
        for j in numba.prange(N2):
            for i in range(N):
                s = 0.0
                for k in range(M):
                    s += np.abs(r[i, k] - y[j, k])
                output[i, j] = s
    return 0
''')]

R["rbf_helper"] = [
 (RBF, "before", "RBF.Kernel", '''
def _as_tensor(self, A):
    return A if torch.is_tensor(A) else torch.tensor(A, dtype=torch.float64, device=self.device)
'''),
 (RBF, "replace", "RBF.Kernel", '''
def Kernel(self, X, Y=None):
    X = self._as_tensor(X)
    Y = X if Y is None else self._as_tensor(Y)
    scaled = (X.unsqueeze(1) - Y.unsqueeze(0))/self.length_scale.to(self.device)
    sqd = scaled.pow(2).sum(dim=-1)
    self.K_data = self.signal_variance*torch.exp(-sqd/2)
    return self.K_data
'''),
 (RBF, "replace", "RBF.gradient_X", '''
def gradient_X(self, X, Y=None):
    X = self._as_tensor(X)
    if Y is None:
        Y = X
    else:
        Y = self._as_tensor(Y)
    K = self.Kernel(X, Y)
    diffs = X[:, None, :] - Y[None, :, :]
    return diffs/self.length_scale.to(self.device)**2*K[:, :, None]
''')]

R["test_flat"] = [
 (TSF, "replace", "torched_score_function_multid_seperate_all_dims", '''
def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray, l: Union[float, torch.tensor, np.ndarray]=1.0, func_out=False, C=0.001, kern='RBF', device=None):
    def tensor(a):
        return a if torch.is_tensor(a) else torch.tensor(a, dtype=torch.float64, device=device)
    X, Z = tensor(X), tensor(Z)
    M = Z.shape[0]
    multil = isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.numel() > 1)
    if multil:
        l = torch.as_tensor(l, dtype=torch.float64, device=device)
    kernel = RBF(length_scale=l, multil=multil, device=device)
    K_xz = kernel.Kernel(X, Z)
    K_zz = kernel.Kernel(Z, Z)
    eye = torch.eye(M, dtype=torch.float64, device=device)
    Ksinv = torch.linalg.inv(K_zz + 1e-3*eye)
    grad_sum = -kernel.gradient_X(X, Z).sum(dim=0)
    inner = torch.linalg.inv((C + 1e-3)*eye + Ksinv @ (K_xz.T @ K_xz))
    coef = -inner @ Ksinv @ grad_sum
    if not func_out:
        return K_xz @ coef

    def estimate(x):
        return kernel.Kernel(tensor(x), Z) @ coef
    return estimate
''')]

R["ot_rename"] = [
 (OT, "replace", "reweight_optimal_transport_multidim", '''
def reweight_optimal_transport_multidim(samples, weights):
    n = len(samples)
    cost = np.sqrt(np.sum((samples[:, None, :]-samples[None, :, :])**2, axis=-1))
    uniform = np.full(n, 1/n)
    result = emd_with_flow(np.ravel(weights), uniform, cost, -1)
    return n*np.asarray(result[1])
''')]

R["np_covered_break"] = [
 (MAIN, "replace", "DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    covered = True
    for ii in range(self.dim):
        bounds = []
        for flow in (self.Z, self.B):
            bounds.append((flow[ii, :, ti].min(), flow[ii, :, ti].max()))
        if any(not (lo <= X[ii] <= hi) for lo, hi in bounds):
            covered = False
            break
    return covered
''')]

R["np_covered_forelse"] = [
 (MAIN, "replace", "DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    lo = np.empty(self.dim)
    hi = np.empty(self.dim)
    for ii in range(self.dim):
        lo[ii] = max(self.Z[ii, :, ti].min(), self.B[ii, :, ti].min())
        hi[ii] = min(self.Z[ii, :, ti].max(), self.B[ii, :, ti].max())
        if not lo[ii] <= X[ii] <= hi[ii]:
            return False
    else:
        return True
''')]
