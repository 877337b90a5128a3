"""More edits that keep the behaviour: other shapes of the same code."""
from common import *

R = {}

R["n2_fwd_split_first"] = [
 (MAIN, "before", "DPFC.forward_sampling", '''
def _initialise(self, flow):
    """All particles of `flow` start from y1."""
    for di, start in enumerate(self.y1):
        flow[di, :, 0] = start
    return flow

def _resample(self, ti, tt):
    """Transports the particles of slice ti so that they have equal weights again."""
    particles = self.Z[:, :, ti]
    w = np.exp(self.U(particles, tt)*self.dt)
    w = (w/w.sum()).reshape(-1, 1)
    return particles @ reweight_optimal_transport_multidim(particles.T, w)
'''),
 (MAIN, "replace", "DPFC.forward_sampling", '''
def forward_sampling(self):
    logging.info('Sampling forward...')
    self._initialise(self.Z)
    sigma = np.sqrt(self.dt)
    ti = 0
    for tt in self.timegrid[1:]:
        ti += 1
        t_prev = tt - self.dt
        for i in range(self.N):
            x = self.Z[:, i, ti-1]
            kick = np.random.normal(loc=0.0, scale=sigma, size=(self.dim, 1))
            self.Z[:, i, ti] = x + self.dt*self.f(x, t_prev) + (self.g*kick)[:, 0]
        if self.reweight:
            self.Z[:, :, ti] = self._resample(ti, tt)
    logging.info('Forward sampling done!')
    return 0
''')]

R["n2_otto_closures"] = [
 (MAIN, "replace", "DPFC.forward_sampling_Otto", '''
def forward_sampling_Otto(self):
    logging.info('Sampling forward with deterministic particles...')
    W = np.full((self.N, 1), 1/self.N)

    def first(x, t):
        noise = np.random.normal(scale=np.sqrt(self.dt), size=x.shape)
        return self.f(x, t), self.g*noise

    def later(x, t):
        return self.f_seperate(x, t), 0.0

    steps = {1: first}
    for ti in range(len(self.timegrid)):
        tt = self.timegrid[ti]
        if ti > 0:
            step = steps.get(ti, later)
            x = self.Z[:, :, ti-1]
            drift, kick = step(x, tt-self.dt)
            self.Z[:, :, ti] = x + self.dt*drift + kick
        else:
            self.Z[:, :, 0] = np.reshape(self.y1, (-1, 1))
            if self.brown_bridge:
                self.Z[:, :, self.k-1] = np.reshape(self.y2, (-1, 1))
        if not (self.reweight and ti > 0):
            continue
        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
        W /= np.sum(W)
        start = time.perf_counter()
        Tstar = reweight_optimal_transport_multidim(self.Z[:, :, ti].T, W)
        if ti == 3:
            logging.info('Timepoint: %d needed %f', ti, time.perf_counter()-start)
        self.Z[:, :, ti] = np.dot(self.Z[:, :, ti], Tstar)
    logging.info('Forward sampling with Otto is ready!')
    return 0
''')]

R["n2_back_dict"] = [
 (MAIN, "replace", "DPFC.backward_simulation", '''
def backward_simulation(self):
    dt, g2 = self.dt, self.g**2
    for di in range(self.dim):
        self.B[di, :, -1] = self.y2[di]
    for ti in range(1, len(self.timegrid)-1):
        rev_ti = self.k-ti-1
        src = rev_ti+1
        x = self.B[:, :, src]
        terms = {'drift': self.f(x, self.timegrid[src]),
                 'fw': self.density_estimation(ti, src)}
        if ti == 1 or not self.deterministic:
            terms['noise'] = np.random.normal(loc=0.0, scale=np.sqrt(dt), size=(self.dim, self.N))
        else:
            terms['bw'] = self.bw_density_estimation(src)
        new = x - terms['drift']*dt + dt*g2*terms['fw']
        if 'noise' in terms:
            new = new + self.g*terms['noise']
        if 'bw' in terms:
            new = new - 0.5*g2*dt*terms['bw']
        self.B[:, :, rev_ti] = new
    for di in range(self.dim):
        self.B[di, :, 0] = self.y1[di]
    return 0
''')]

R["n2_back_lists"] = [
 (MAIN, "replace", "DPFC.backward_simulation", '''
def backward_simulation(self):
    slices = [np.tile(np.reshape(self.y2, (self.dim, 1)), (1, self.N))]
    for ti, tt in enumerate(self.timegrid[:-1]):
        if ti == 0:
            self.B[:, :, -1] = slices[-1]
            continue
        rev_ti = self.k-ti-1
        cur = slices[-1]
        grad_ln_ro = self.density_estimation(ti, rev_ti+1)
        fx = self.f(cur, self.timegrid[rev_ti+1])
        if ti == 1 and self.deterministic or (not self.deterministic):
            new = cur - fx*self.dt + self.dt*self.g**2*grad_ln_ro \\
                  + self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
        else:
            grad_ln_b = self.bw_density_estimation(rev_ti+1)
            new = cur - (fx - self.g**2*grad_ln_ro + 0.5*self.g**2*grad_ln_b)*self.dt
        slices.append(new)
        self.B[:, :, rev_ti] = new
    self.B[..., 0] = np.reshape(self.y1, (self.dim, 1))
    return 0
''')]

R["n2_u_flows_loop"] = [
 (MAIN, "replace", "DPFC.calculate_u", '''
def calculate_u(self, grid_x, ti):
    conditioned = self.reweight and self.brown_bridge
    flows = [self.B[:, :, ti]]
    flows.append(self.Ztr[:, :, ti] if conditioned else self.Z[:, :, ti])
    near_end = ti <= 5 or ti >= self.k-5
    if near_end:
        scores = []
        for flow in flows:
            mu = flow.mean(axis=1)
            sd = flow.std(axis=1)
            scores.append([-(grid_x[:, d]-mu[d])/sd[d]**2 for d in range(self.dim)])
    else:
        low = [max(np.min(flows[0][d]), np.min(flows[1][d])) for d in range(self.dim)]
        high = [min(np.max(flows[0][d]), np.max(flows[1][d])) for d in range(self.dim)]
        Sxx = np.stack([np.random.uniform(low=low[d], high=high[d], size=self.N_sparse)
                        for d in range(self.dim)])
        scores = []
        for flow in flows:
            width = 2*np.std(flow, axis=1)
            per_dim = []
            for d in range(1, self.dim+1):
                estimator = score_function_multid_seperate(flow.T, Sxx.T, func_out=True, C=0.001,
                                                           which=1, l=width, which_dim=d, kern=self.kern)
                per_dim.append(estimator(grid_x))
            scores.append(per_dim)
    u_t = np.zeros(grid_x.T.shape)
    for d in range(self.dim):
        u_t[d] = scores[0][d]-scores[1][d]
    return u_t
''')]

R["n2_u_named_flows"] = [
 (MAIN, "replace", "DPFC.calculate_u", '''
def calculate_u(self, grid_x, ti):
    u_t = np.zeros(grid_x.T.shape)
    name = 'Z'
    if self.reweight:
        if self.brown_bridge:
            name = 'Ztr'
    ref = getattr(self, name)
    if not 5 < ti < self.k-5:
        for di in range(self.dim):
            b, z = self.B[di, :, ti], ref[di, :, ti]
            x = grid_x[:, di]
            u_t[di] = (x-np.mean(z))/np.var(z) - (x-np.mean(b))/np.var(b)
        return u_t
    bnds = np.zeros((self.dim, 2))
    for ii in range(self.dim):
        bnds[ii, 0] = max(ref[ii, :, ti].min(), self.B[ii, :, ti].min())
        bnds[ii, 1] = min(ref[ii, :, ti].max(), self.B[ii, :, ti].max())
    Sxx = np.array([np.random.uniform(bnd[0], bnd[1], self.N_sparse) for bnd in bnds])
    l_b = 2*np.std(self.B[:, :, ti], axis=1)
    l_z = 2*np.std(ref[:, :, ti], axis=1)
    kw = dict(func_out=True, C=0.001, which=1, kern=self.kern)
    for di in range(self.dim):
        bw = score_function_multid_seperate(self.B[:, :, ti].T, Sxx.T, l=l_b, which_dim=di+1, **kw)
        fw = score_function_multid_seperate(ref[:, :, ti].T, Sxx.T, l=l_z, which_dim=di+1, **kw)
        u_t[di] = bw(grid_x)
        u_t[di] -= fw(grid_x)
    return u_t
''')]

R["n2_u_split"] = [
 (MAIN, "before", "DPFC.calculate_u", '''
def _gaussian_control(self, grid_x, back, fwd):
    out = np.zeros(grid_x.T.shape)
    for di in range(self.dim):
        mutb, stdtb = np.mean(back[di]), np.std(back[di])
        mutz, stdtz = np.mean(fwd[di]), np.std(fwd[di])
        out[di] = -(grid_x[:, di]-mutb)/stdtb**2 - (-(grid_x[:, di]-mutz)/stdtz**2)
    return out

def _score_control(self, grid_x, back, fwd):
    out = np.zeros(grid_x.T.shape)
    Sxx = self._sparse_points(back, fwd)
    lb, lf = 2*np.std(back, axis=1), 2*np.std(fwd, axis=1)
    for di in range(self.dim):
        score_Bw = self._score(back, Sxx, lb, di)(grid_x)
        score_Fw = self._score(fwd, Sxx, lf, di)(grid_x)
        out[di] = score_Bw-score_Fw
    return out

def _score(self, flow, Sxx, l, di):
    return score_function_multid_seperate(flow.T, Sxx.T, func_out=True, C=0.001, which=1, l=l,
                                          which_dim=di+1, kern=self.kern)

def _sparse_points(self, one, two):
    return np.array([np.random.uniform(low=max(np.min(a), np.min(b)), high=min(np.max(a), np.max(b)),
                                       size=self.N_sparse) for a, b in zip(one, two)])
'''),
 (MAIN, "replace", "DPFC.calculate_u", '''
def calculate_u(self, grid_x, ti):
    """Control at grid_x and time index ti."""
    fwd = self.Ztr if self.reweight and self.brown_bridge else self.Z
    back, fwd = self.B[:, :, ti], fwd[:, :, ti]
    control = self._gaussian_control if ti <= 5 or ti >= self.k-5 else self._score_control
    return control(grid_x, back, fwd)
''')]

R["n2_bounds_try"] = [
 (MAIN, "replace", "DPFC.density_estimation", '''
def density_estimation(self, ti, rev_ti):
    grad_ln_ro = np.zeros((self.dim, self.N))
    forward, backward = self.Z[:, :, rev_ti], self.B[:, :, rev_ti]
    bnds = []
    for ii, (zrow, brow) in enumerate(zip(forward, backward)):
        lower = zrow.min() if zrow.min() > brow.min() else brow.min()
        upper = zrow.max() if zrow.max() < brow.max() else brow.max()
        bnds.append((lower, upper))
    total = sum(b[0]+b[1] for b in bnds)
    if not np.isfinite(total):
        plt.figure(figsize=(6, 4)), plt.plot(self.B[0].T, self.B[1].T, alpha=0.3)
        plt.plot(self.y1[0], self.y1[1], 'go')
        plt.show()
    Sxx = np.empty((self.dim, self.N_sparse))
    for ii, (lower, upper) in enumerate(bnds):
        Sxx[ii, :] = np.random.uniform(low=lower, high=upper, size=self.N_sparse)
    lnthsc = 2*np.std(forward, axis=1)
    for di in range(self.dim):
        estimator = score_function_multid_seperate(forward.T, Sxx.T, func_out=True, C=0.001, which=1,
                                                   l=lnthsc, which_dim=di+1, kern=self.kern)
        grad_ln_ro[di, :] = estimator(backward.T)
    return grad_ln_ro
''')]

R["n2_score_generic"] = [
 (MAIN, "before", "DPFC.f_seperate_true", '''
def _probability_flow(self, drift, x, t):
    dimi, N = x.shape
    Sxx = np.zeros((dimi, self.N_sparse))
    for ii in range(dimi):
        Sxx[ii] = np.random.uniform(low=x[ii].min(), high=x[ii].max(), size=self.N_sparse)
    widths = 2*np.std(x, axis=1)
    correction = np.zeros((dimi, N))
    for which_dim in range(1, dimi+1):
        correction[which_dim-1] = score_function_multid_seperate(x.T, Sxx.T, False, 0.001, which=1, l=widths,
                                                                 which_dim=which_dim, kern=self.kern)
    correction *= 0.5*self.g**2
    return drift(x, t)-correction
'''),
 (MAIN, "replace", "DPFC.f_seperate_true", '''
def f_seperate_true(self, x, t):
    return self._probability_flow(self.f_true, x, t)
'''),
 (MAIN, "replace", "DPFC.f_seperate", '''
def f_seperate(self, x, t):
    if not np.all(np.isfinite(x)):
        plt.figure(figsize=(6, 4)), plt.plot(self.Z[0].T, self.Z[1].T, alpha=0.3)
        plt.show()
    return self._probability_flow(self.f, x, t)
''')]

R["n2_covered_loop_return"] = [
 (MAIN, "replace", "DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    covered = True
    for ii in range(self.dim):
        z, b = self.Z[ii, :, ti], self.B[ii, :, ti]
        lower = max(z.min(), b.min())
        upper = min(z.max(), b.max())
        if not lower <= X[ii] <= upper:
            covered = False
    return covered
''')]

R["n2_covered_vec"] = [
 (MAIN, "replace", "DPFC.check_if_covered", '''
def check_if_covered(self, X, ti):
    Zt, Bt = self.Z[:, :, ti], self.B[:, :, ti]
    lower = np.maximum(Zt.min(axis=1), Bt.min(axis=1))
    upper = np.minimum(Zt.max(axis=1), Bt.max(axis=1))
    point = np.array([X[ii] for ii in range(self.dim)])
    return bool(np.all((point >= lower) & (point <= upper)))
''')]

R["n2_ctor_helpers"] = [
 (MAIN, "before", "DPFC.forward_sampling", '''
def _grid(self):
    return np.arange(self.t1, self.t2+self.dt/2, self.dt)

def _allocate(self):
    return np.zeros((self.dim, self.N, self.k))

def _run(self):
    sampler = self.forward_sampling_Otto if self.deterministic else self.forward_sampling
    sampler()
    if self.reweight and self.brown_bridge:
        self.forward_sampling_Otto_true()
    self.backward_simulation()
'''),
 (MAIN, "within", "DPFC.__init__", "np.arange(self.t1, self.t2+self.dt/2, self.dt)", "self._grid()"),
 (MAIN, "within", "DPFC.__init__", "self.Z = np.zeros((self.dim, self.N, self.k))", "self.Z = self._allocate()"),
 (MAIN, "within", "DPFC.__init__", "self.B = np.zeros((self.dim, self.N, self.k))", "self.B = self._allocate()"),
]
