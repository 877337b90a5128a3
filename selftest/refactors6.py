"""Edits that keep the behaviour: chunked computation, size-dependent methods, restructured sampling loops."""
from common import *

R = {}

# torch estimator: sums over the samples taken in blocks
R["n_block_sum"] = [
 (TSF, "sub", "    sumgradx_K = torch.sum(gradx_K ,axis=0)", '''    if N <= 2048:
        sumgradx_K = torch.sum(gradx_K ,axis=0)
    else:
        sumgradx_K = torch.sum(gradx_K[:2048], axis=0) + torch.sum(gradx_K[2048:], axis=0)'''),
]
R["n_block_gram"] = [
 (TSF, "sub", "    A = torch.t(K_xz) @ K_xz ##matrix multilication", '''    A = torch.zeros(M, M, dtype=torch.float64, device=device)
    for start in range(0, N, 1000):
        block = K_xz[start:start+1000]
        A = A + torch.t(block) @ block'''),
]
R["n_small_dim"] = [
 (MAIN, "within", "DPFC.check_if_covered", "covered = covered * ((X[ii] >= bnds[ii][0]) and (X[ii] <= bnds[ii][1]))",
  "covered = covered * ((X[ii] >= bnds[ii][0]) and (X[ii] <= bnds[ii][1])) if ii < 20 else covered * (bnds[ii][0] <= X[ii] <= bnds[ii][1])"),
]
R["n_cdist_rows"] = [
 (SFE, "replace", "my_cdist", '''
def my_cdist(r: np.ndarray, y: np.ndarray, output: np.ndarray, dist: str='euclidean') -> None:
    rows, cols = r.shape[0], y.shape[0]
    for i in range(rows):
        for j in range(cols):
            acc = 0.0
            for d in range(r.shape[1]):
                diff = r[i, d] - y[j, d]
                acc += abs(diff) if dist == 'l1' else diff * diff
            output[i, j] = np.sqrt(acc) if dist == 'euclidean' else acc
''')]
R["n_torch_step"] = [
 (MAIN, "replace", "torched_DPFC.forward_sampling_Otto", '''
def _noise(self):
    """increment of a Wiener process over one step"""
    return torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))

def _transport(self, cloud, t):
    """particles after reweighting with the path constraint"""
    weights = torch.exp(self.U(cloud, t)*self.dt)
    weights = weights/torch.sum(weights)
    cost = ot.dist(cloud.T, cloud.T)
    cost /= cost.max()
    uniform = torch.full_like(weights, 1.0/self.N)
    return (self.N*cloud)@ot.emd(weights, uniform, cost)

def forward_sampling_Otto(self):
    """
    Samples the forward probability flow with deterministic particle dynamics.
    """
    logging.info('Sampling forward with deterministic particles...')
    last = len(self.timegrid) - 1
    self.Z[:, :, 0] = torch.as_tensor(self.y1, dtype=torch.float64, device=self.device).reshape(-1, 1).expand(self.dim, self.N)
    if self.brown_bridge:
        for di in range(self.dim):
            self.Z[di, :, last] = self.y2[di]
    for ti in range(1, last + 1):
        tt = self.timegrid[ti]
        previous = self.Z[:, :, ti-1]
        if ti == 1:
            moved = previous + self.dt*self.f(previous, tt-self.dt) + self.g*self._noise()
        else:
            moved = previous + self.dt*self.f_seperate(previous, tt-self.dt)
        self.Z[:, :, ti] = self._transport(moved, tt) if self.reweight == True else moved
    logging.info('Forward sampling with Otto is ready!')
    return 0
''')]
R["n_np_early"] = [
 (MAIN, "replace", "DPFC.forward_sampling_Otto", '''
def forward_sampling_Otto(self):
    """
    Samples the forward probability flow with deterministic particle dynamics.
    """
    logging.info('Sampling forward with deterministic particles...')
    grid = list(self.timegrid)
    for ti, tt in enumerate(grid):
        if ti == 0:
            self.Z[:, :, 0] = np.reshape(self.y1, (-1, 1))
            if self.brown_bridge:
                self.Z[:, :, -1] = np.reshape(self.y2, (-1, 1))
            continue
        x = self.Z[:, :, ti-1]
        if ti == 1:
            x = x + self.dt*self.f(x, tt-self.dt) + self.g*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N))
        else:
            x = x + self.dt*self.f_seperate(x, tt-self.dt)
        if self.reweight == True:
            W = np.exp(self.U(x, tt)*self.dt)
            W = (W/np.sum(W)).reshape(-1, 1)
            x = x@reweight_optimal_transport_multidim(x.T, W)
        self.Z[:, :, ti] = x
    logging.info('Forward sampling with Otto is ready!')
    return 0
''')]
R["n_u_split"] = [
 (MAIN, "sub", "    def calculate_u(self, grid_x, ti):", '''    def _forward_cloud(self, ti):
        """the flow the backward flow is compared with"""
        if self.reweight and self.brown_bridge:
            return self.Ztr[:, :, ti]
        return self.Z[:, :, ti]

    def _gaussian_u(self, grid_x, ti):
        fw, bw = self._forward_cloud(ti), self.B[:, :, ti]
        mz, sz = fw.mean(axis=1), fw.std(axis=1)
        mb, sb = bw.mean(axis=1), bw.std(axis=1)
        return ((grid_x-mz)/sz**2 - (grid_x-mb)/sb**2).T

    def calculate_u(self, grid_x, ti):''', 1, 0),
 (MAIN, "within", "DPFC.calculate_u", "        if ti <= 5 or (ti >= self.k-5):\n", "        if not 5 < ti < self.k-5:\n            return self._gaussian_u(grid_x, ti)\n        if False:\n"),
]
R["n_sto_rows"] = [
 (MAIN, "within", "DPFC.density_estimation", "for ii in range(self.dim):\n            bnds[ii] = [max(np.min(self.Z[ii, :, rev_t]), np.min(self.B[ii, :, rev_ti])), min(np.max(self.Z[ii, :, rev_t]), np.max(self.B[ii, :, rev_ti]))]",
  "for ii, (zrow, brow) in enumerate(zip(self.Z[:, :, rev_t], self.B[:, :, rev_ti])):\n            bnds[ii, 0] = max(zrow.min(), brow.min())\n            bnds[ii, 1] = min(zrow.max(), brow.max())"),
]
R["n_solve"] = [
 (TSF, "sub", '''            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M, dtype=torch.float64, device=device) + \\
                                            Ksinv @ A + 1e-3 * torch.eye(M, dtype=torch.float64, device=device))\\
                                            @ Ksinv @ sumgradx_K[:,di]
''', '''            system = C*torch.eye(M, M, dtype=torch.float64, device=device) + Ksinv @ A + 1e-3 * torch.eye(M, dtype=torch.float64, device=device)
            res1[:,di] = -K_xz @ torch.linalg.solve(system, Ksinv @ sumgradx_K[:,di])
'''),
]
R["n_ot_checks"] = [
 (OT, "sub", "    num_samples = samples.shape[0] ## this should be the number of points\n", '''    num_samples = samples.shape[0] ## this should be the number of points
    assert samples.ndim == 2
    if weights.size != num_samples:
        raise ValueError('one weight per sample is needed')
'''),
 (OT, "sub", "    covar = squareform(pdist(samples, 'euclidean'))", "    covar = np.sqrt(((samples[:, None, :] - samples[None, :, :])**2).sum(-1))"),
]
R["n_wlist"] = [
 (MAIN, "within", "DPFC.f_seperate", "bnds = np.zeros((dimi, 2))", "bnds = np.empty((dimi, 2))"),
 (MAIN, "within", "DPFC.f_seperate", "lnthsc = 2*np.std(x, axis=1)", "lnthsc = 2*np.sqrt(((x - x.mean(axis=1, keepdims=True))**2).mean(axis=1))"),
]
R["n_enum_from"] = [
 (MAIN, "replace", "DPFC.forward_sampling_Otto_true", '''
def forward_sampling_Otto_true(self):
    logging.info('Sampling forward with deterministic particles and true drift...')
    for di, start in enumerate(self.y1):
        self.Ztr[di, :, 0] = start
    for ti, tt in enumerate(self.timegrid[1:], start=1):
        before = self.Ztr[:, :, ti-1]
        if ti > 1:
            self.Ztr[:, :, ti] = before + self.dt*self.f_seperate_true(before, tt-self.dt)
            continue
        kick = np.random.normal(loc=0.0, scale=1.0, size=(self.dim, self.N))*np.sqrt(self.dt)
        self.Ztr[:, :, ti] = before + self.dt*self.f_true(before, tt-self.dt) + self.g*kick
    logging.info('Forward sampling with Otto true is ready!')
    return 0
''')]
