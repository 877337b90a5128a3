"""More edits that keep the behaviour: the torch class."""
from common import *

R = {}

R["t2_bounds_helper"] = [
 (MAIN, "before", "torched_DPFC.f_seperate_true", '''
def _zeros(self, *shape):
    return torch.zeros(*shape, dtype=torch.float64, device=self.device)

def _box(self, clouds):
    """Smallest box that holds all the given particle clouds, one row per dimension."""
    bnds = self._zeros(self.dim, 2)
    for ii in range(self.dim):
        bnds[ii, 0] = min(torch.min(c[ii, :]) for c in clouds)
        bnds[ii, 1] = max(torch.max(c[ii, :]) for c in clouds)
    return bnds

def _inducing_points(self, bnds):
    sampler = torch.distributions.Uniform(low=bnds[:, 0], high=bnds[:, 1])
    return sampler.sample([self.N_sparse])
'''),
 (MAIN, "replace", "torched_DPFC.bw_density_estimation", '''
def bw_density_estimation(self, rev_ti):
    cloud = self.B[:, :, rev_ti]
    Sxx = self._inducing_points(self._box((self.Z[:, :, rev_ti], cloud)))
    lnthsc = 2*torch.std(cloud, dim=1)
    return torched_score_function_multid_seperate_all_dims(torch.t(cloud), Sxx, func_out=False, C=0.001,
                                                           l=lnthsc, kern=self.kern, device=self.device)
'''),
 (MAIN, "replace", "torched_DPFC.f_seperate", '''
def f_seperate(self, x, t):
    Sxx = self._inducing_points(self._box([x]))
    lnthsc = torch.std(x, dim=1)*2
    gpsi = torched_score_function_multid_seperate_all_dims(torch.t(x), Sxx, l=lnthsc, func_out=False, device=self.device)
    return self.f(x, t) - 0.5*self.g**2*gpsi.T
'''),
 (MAIN, "replace", "torched_DPFC.f_seperate_true", '''
def f_seperate_true(self, x, t):
    drift = self.f_true(x, t)
    Sxx = self._inducing_points(self._box([x]))
    gpsi = torched_score_function_multid_seperate_all_dims(x.t(), Sxx, func_out=False, C=0.001,
                                                           l=2*torch.std(x, dim=1), kern=self.kern, device=self.device)
    return torch.sub(drift, 0.5*torch.pow(self.g, 2)*gpsi.t())
''')]

R["t2_density_clauses"] = [
 (MAIN, "replace", "torched_DPFC.density_estimation", '''
def density_estimation(self, ti, rev_ti):
    forward = self.Z[:, :, rev_ti]
    backward = self.B[:, :, rev_ti]
    bnds = torch.zeros(self.dim, 2, dtype=torch.float64, device=self.device)
    for ii in range(self.dim):
        zlow, zhigh = torch.min(forward[ii]), torch.max(forward[ii])
        blow, bhigh = torch.min(backward[ii]), torch.max(backward[ii])
        collapsed = blow == bhigh
        bnds[ii, 0] = zlow if collapsed else min(zlow, blow)
        bnds[ii, 1] = zhigh if collapsed else max(zhigh, bhigh)
    low, high = bnds[:, 0], bnds[:, 1]
    Sxx = torch.distributions.Uniform(low=low, high=high).sample([self.N_sparse])
    score = torched_score_function_multid_seperate_all_dims(torch.t(forward), Sxx, func_out=True, C=0.001,
                                                            l=2*torch.std(forward, dim=1), kern=self.kern, device=self.device)
    return torch.t(score(torch.t(backward)))
''')]

R["t2_back_reverse"] = [
 (MAIN, "before", "torched_DPFC.backward_simulation", '''
def _noise(self):
    shape = [self.dim, self.N]
    return torch.empty(shape, dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
'''),
 (MAIN, "replace", "torched_DPFC.backward_simulation", '''
def backward_simulation(self):
    self.B[:, :, -1] = self.y2[:, None]
    for step, src in enumerate(reversed(range(2, int(self.k))), start=1):
        x = self.B[:, :, src]
        score_fw = self.density_estimation(step, src)
        drift = self.f(x, self.timegrid[src])
        if step == 1 or not self.deterministic:
            self.B[:, :, src-1] = x - drift*self.dt + self.dt*self.g**2*score_fw + self.g*self._noise()
        else:
            score_bw = self.bw_density_estimation(src).T
            self.B[:, :, src-1] = x - (drift - self.g**2*score_fw + 0.5*self.g**2*score_bw)*self.dt
    self.B[:, :, 0] = self.y1[:, None]
    return 0
''')]

R["t2_fwd_pairs"] = [
 (MAIN, "before", "torched_DPFC.forward_sampling", '''
def _equalise(self, cloud, tt):
    weights = torch.exp(self.U(cloud, tt)*self.dt)
    weights = weights/torch.sum(weights)
    cost = ot.dist(cloud.T, cloud.T)
    cost /= cost.max()
    uniform = torch.ones_like(weights, dtype=torch.float64, device=self.device)/self.N
    plan = ot.emd(weights, uniform, cost)
    return self.N*cloud@plan
'''),
 (MAIN, "replace", "torched_DPFC.forward_sampling", '''
def forward_sampling(self):
    logging.info('Sampling forward...')
    for di in range(self.dim):
        self.Z[di, :, 0] = self.y1[di]
    pairs = zip(self.timegrid[:-1], self.timegrid[1:])
    for ti, (_, tt) in enumerate(pairs, 1):
        x = self.Z[:, :, ti-1]
        noise = torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device)
        noise.normal_(mean=0, std=torch.sqrt(self.dt))
        new = x + self.dt*self.f(x, tt-self.dt) + self.g*noise
        self.Z[:, :, ti] = self._equalise(new, tt) if self.reweight else new
    logging.info('Forward sampling done!')
    return 0
''')]

R["t2_otto_prologue"] = [
 (MAIN, "replace", "torched_DPFC.forward_sampling_Otto", '''
def forward_sampling_Otto(self):
    logging.info('Sampling forward with deterministic particles...')
    last = int(self.k)-1
    for di in range(self.dim):
        self.Z[di, :, 0] = self.y1[di]
        if self.brown_bridge:
            self.Z[di, :, last] = self.y2[di]
    ti = 1
    while ti <= last:
        tt = self.timegrid[ti]
        x = self.Z[:, :, ti-1]
        if ti == 1:
            noise = torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(
                mean=torch.tensor(0, dtype=torch.float64, device=self.device), std=torch.sqrt(self.dt))
            new = x + self.dt*self.f(x, tt-self.dt) + self.g*noise
        else:
            new = x + self.dt*self.f_seperate(x, tt-self.dt)
        if self.reweight:
            a = torch.exp(self.U(new, tt)*self.dt)
            a = a/a.sum()
            tic = time.time()
            M = ot.dist(new.T, new.T)
            M = M/M.max()
            b = torch.ones(self.N, dtype=torch.float64, device=self.device)/self.N
            T2 = ot.emd(a, b, M)
            if ti == 3:
                logging.info('Timepoint: %d needed %f', ti, time.time()-tic)
            new = self.N*(new@T2)
        self.Z[:, :, ti] = new
        ti += 1
    logging.info('Forward sampling with Otto is ready!')
    return 0
''')]

R["t2_true_zip"] = [
 (MAIN, "replace", "torched_DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    logging.info('Sampling forward with deterministic particles and true drift...')
    current = self.y1.reshape(-1, 1).repeat(1, int(self.N))
    self.Ztr[:, :, 0] = current
    for ti, tt in enumerate(self.timegrid[1:], 1):
        current = self.Ztr[:, :, ti-1]
        before = tt-self.dt
        if ti > 1:
            self.Ztr[:, :, ti] = current + self.dt*self.f_seperate_true(current, before)
            continue
        kick = self.g*torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
        self.Ztr[:, :, ti] = current + self.dt*self.f_true(current, before) + kick
    logging.info('Forward sampling with Otto true is ready!')
    return 0
''')]

R["t2_u_flows"] = [
 (MAIN, "replace", "torched_DPFC.calculate_u", '''
def calculate_u(self, grid_x, ti):
    if self.reweight and self.brown_bridge:
        ref = self.Ztr[:, :, ti]
    else:
        ref = self.Z[:, :, ti]
    bw = self.B[:, :, ti]
    if ti <= 5 or ti >= self.k-5:
        u_t = torch.zeros(grid_x.T.shape, dtype=torch.float64, device=self.device)
        for di in range(self.dim):
            pulls = []
            for cloud in (bw, ref):
                mu, std = torch.mean(cloud[di]), torch.std(cloud[di])
                pulls.append(-(grid_x[:, di]-mu)/std**2)
            u_t[di] = pulls[0]-pulls[1]
        return u_t
    low = torch.minimum(ref.min(dim=1).values, bw.min(dim=1).values)
    high = torch.maximum(ref.max(dim=1).values, bw.max(dim=1).values)
    Sxx = torch.distributions.Uniform(low, high).sample([self.N_sparse])
    scores = {}
    for name, cloud in (('bw', bw), ('fw', ref)):
        estimator = torched_score_function_multid_seperate_all_dims(
            torch.t(cloud), Sxx, func_out=True, C=0.001, l=2*torch.std(cloud, dim=1), kern=self.kern, device=self.device)
        scores[name] = torch.t(estimator(grid_x))
    return scores['bw']-scores['fw']
''')]

R["t2_covered"] = [
 (MAIN, "replace", "torched_DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    for ii in range(self.dim):
        z, b = self.Z[ii, :, ti], self.B[ii, :, ti]
        inside = X[ii] >= max(torch.min(z), torch.min(b)) and X[ii] <= min(torch.max(z), torch.max(b))
        if not inside:
            return False
    return True
''')]

R["t2_ctor_tensor"] = [
 (MAIN, "before", "torched_DPFC.forward_sampling", '''
def _as_tensor(self, value, dtype=None):
    return torch.tensor(value, dtype=torch.float64 if dtype is None else dtype, device=self.device)
'''),
 (MAIN, "within", "torched_DPFC.__init__", '''        if not torch.is_tensor(y1):
            self.y1 = torch.tensor(y1, dtype=torch.float64, device=self.device)
            self.y2 = torch.tensor(y2, dtype=torch.float64, device=self.device)
        else:
            self.y1 = y1
            self.y2 = y2
''', '''        given = torch.is_tensor(y1)
        self.y1 = y1 if given else self._as_tensor(y1)
        self.y2 = y2 if given else self._as_tensor(y2)
'''),
 (MAIN, "within", "torched_DPFC.__init__", "self.dt = torch.tensor(0.001, dtype=torch.float64, device=self.device)", "self.dt = self._as_tensor(0.001)"),
 (MAIN, "within", "torched_DPFC.__init__", "self.N = torch.tensor(N, dtype=torch.int, device=self.device)", "self.N = self._as_tensor(N, torch.int)"),
 (MAIN, "within", "torched_DPFC.__init__", '''        if self.deterministic:
            self.forward_sampling_Otto()
        else:
            self.forward_sampling()
''', '''        steps = [self.forward_sampling_Otto if self.deterministic else self.forward_sampling]
        for step in steps:
            step()
'''),
]

# ---------------------------------------------------------------- estimators
R["e2_query_loop"] = [
 (SFE, "within", "score_function_multid_seperate", """                K_sz = lambda x: reduce(np.multiply, [ np.exp(-cdist(x[:,iii].reshape(-1,1), Z[:,iii].reshape(-1,1),'sqeuclidean')/(2*l[iii]*l[iii])) for iii in range(x.shape[1]) ])
""", """                def K_sz(x):
                    out = 1.0
                    for iii in range(x.shape[1]):
                        gap = cdist(x[:, iii:iii+1], Z[:, iii:iii+1], 'sqeuclidean')
                        out = out*np.exp(-gap/(2*l[iii]**2))
                    return out
""")]

R["r2_split"] = [
 (RBF, "replace", "RBF.Kernel", '''
def Kernel(self, X, Y=None):
    X = X if torch.is_tensor(X) else torch.tensor(X, dtype=torch.float64, device=self.device)
    if Y is None:
        Y = X
    if not torch.is_tensor(Y):
        Y = torch.tensor(Y, dtype=torch.float64, device=self.device)
    sq = (X[:, None, :] - Y[None, :, :])**2
    scale = self.length_scale.to(self.device)**2
    if self.multil:
        arg = (sq/scale).sum(2)
    else:
        arg = sq.sum(2)/scale
    self.K_data = self.signal_variance*torch.exp(-arg/2)
    return self.K_data
'''),
 (RBF, "replace", "RBF.gradient_X", '''
def gradient_X(self, X, Y=None):
    if not torch.is_tensor(X):
        X = torch.tensor(X, dtype=torch.float64, device=self.device)
    if Y is None:
        Y = X
    elif not torch.is_tensor(Y):
        Y = torch.tensor(Y, dtype=torch.float64, device=self.device)
    K = self.Kernel(X, Y)
    return (X[:, None, :]-Y[None, :, :])/self.length_scale.to(self.device)**2*K[:, :, None]
''')]

R["te2_loop"] = [
 (TSF, "sub", "        for di in range(dim):\n            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M", "        for di, _ in enumerate(range(D)):\n            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M"),
]

R["o2_plan"] = [
 (OT, "replace", "reweight_optimal_transport_multidim", '''
def reweight_optimal_transport_multidim(samples, weights):
    n, _ = np.shape(samples)
    cost = squareform(pdist(samples))
    target = np.full(n, 1/n)
    source = np.reshape(weights, -1)
    result = emd_with_flow(source, target, cost, -1)
    plan = np.asarray(result[1])
    return plan*n
''')]
