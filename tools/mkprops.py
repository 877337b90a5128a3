import json
D='DeterministicParticleFlowControl/DeterministicParticleFlowControl.py'
S='DeterministicParticleFlowControl/score_estimators/score_function_estimators.py'
T='DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py'
K='DeterministicParticleFlowControl/kernels/RBF_pytorch.py'
R='DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py'
SC='DeterministicParticleFlowControl/score_estimators/score.py'
I='DeterministicParticleFlowControl/__init__.py'
NOTEST="No test that passes reliably constructs a DPFC or torched_DPFC object; "
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
flows=[('Z','forward flow, dimension x particles x time','DPFC / torched_DPFC'),('B','time-reversed (constrained) flow','DPFC / torched_DPFC'),('Ztr','forward flow under the true drift (Brownian-bridge mode only)','DPFC / torched_DPFC')]
cfg="every dimension >= 1, particle number >= 2, inducing-point number >= 1, grid length, end points, drift and diffusion, every combination of the deterministic / reweight / brown_bridge flags, numpy and pytorch backend"
p('P01','Forward flows start exactly at the initial state',
  "In both backends and in every sampling mode, at the first grid time every particle of the forward flow, and of the true-drift reference flow where one is sampled, equals the initial state y1 in every coordinate.",
  ['inputs','configurations'],cfg,NOTEST+"two-dimensional examples cannot reveal coordinates beyond the second.",[D],
  [('initial slice assignment','forward_sampling, forward_sampling_Otto, forward_sampling_Otto_true')],['Z[:, :, 0]','Ztr[:, :, 0]'],flows)
p('P02','Backward flow is pinned to target and initial state',
  "In both backends and in every sampling mode, every particle of the backward flow equals the target y2 in every coordinate at the last grid time and equals the initial state y1 in every coordinate at the first grid time.",
  ['inputs','configurations'],cfg,NOTEST+"the pinning must hold for every dimension and mode.",[D],
  [('terminal and initial slice assignment','backward_simulation')],['B[:, :, -1]','B[:, :, 0]'],flows)
p('P03','Deterministic forward flow follows the probability-flow ODE',
  "In deterministic mode (before any reweighting) the second slice of the forward flow is one Euler-Maruyama step from the initial state, with drift f(x,t) at the initial time and independent Gaussian noise of scale g*sqrt(dt) per coordinate and particle; every later slice is the previous slice plus dt*(f(x,t) - 0.5*g^2*score), with f and the score of the previous cloud taken at the previous slice and the previous grid time.",
  ['inputs','configurations'],cfg+", every grid time",NOTEST+"a wrong sign, factor, time or slice still gives plausible trajectories on sampled runs.",[D],
  [('Euler step and effective drift','forward_sampling_Otto, f_seperate')],['Z'],flows)
p('P04','Stochastic forward flow is Euler-Maruyama at every step',
  "In stochastic mode (before any reweighting) every slice of the forward flow after the first, up to and including the last, is the previous slice plus dt*f(x,t) at the previous slice and previous grid time plus independent Gaussian noise of scale g*sqrt(dt) per coordinate and particle; the sampled terminal slice is not replaced by the target.",
  ['inputs','configurations'],cfg+", every grid time",NOTEST+"the stochastic mode is exercised by no test.",[D],
  [('Euler-Maruyama step','forward_sampling')],['Z'],flows)
p('P05','Reference flow uses the true drift and is never reweighted',
  "When reweighting and Brownian-bridge mode are both on, a reference flow is sampled over the whole grid with the true drift f_true in place of f (one Euler-Maruyama step, then the probability-flow ODE with the score of the reference cloud itself), without reweighting, whichever sampling mode the main flow uses; f_true is used nowhere else.",
  ['inputs','configurations'],cfg,NOTEST+"Brownian-bridge mode is exercised by no test.",[D],
  [('reference sampling and mode dispatch','__init__, forward_sampling_Otto_true, f_seperate_true')],['Ztr'],flows)
p('P06','Backward flow is the exact discretised time reversal',
  "Every interior slice of the backward flow is computed from the next later slice and its grid time: in stochastic mode, and for the first backward step of deterministic mode, as x - dt*f(x,t) + dt*g^2*s_fwd plus independent Gaussian noise of scale g*sqrt(dt); for the other deterministic steps as x - dt*(f(x,t) - g^2*s_fwd + 0.5*g^2*s_bwd). Here s_fwd is the score of the forward cloud and s_bwd the score of the backward cloud of that same grid time, both evaluated at the backward particles.",
  ['inputs','configurations'],cfg+", every grid time",NOTEST+"a sign, factor or off-by-one slice error yields plausible but wrong bridges.",[D],
  [('backward step, density estimation','backward_simulation, density_estimation, bw_density_estimation')],['B'],flows)
p('P07','Path constraint reweights every forward slice, only when asked',
  "When reweighting is on, every slice of the forward flow after the first is replaced, right after its step and before the next one, by its transport with weights proportional to exp(U(x_t,t)*dt) over that slice, normalised to sum to one; when reweighting is off U is never called and no slice is transported.",
  ['inputs','configurations'],cfg,NOTEST+"reweighting is exercised by no test.",[D],
  [('weight computation and transport','forward_sampling, forward_sampling_Otto')],['Z'],flows)
p('P08','Reweighting applies a mean-preserving optimal-transport map',
  "The reweighting map is N times the optimal-transport plan from the given weights (source) to the uniform distribution (target) over the particles, for a cost that is the pairwise (squared, possibly rescaled) Euclidean distance over all coordinates; each new particle is the combination of all old particles given by one target column of that plan, so the ensemble mean becomes the weighted mean.",
  ['inputs'],"every particle cloud, dimension, particle number and weight vector, both backends","The transport helper is called by no test; a transposed plan, a wrong marginal or a missing scale keeps every shape intact.",[R,D],
  [('ETPF transport','reweight_optimal_transport_multidim'),('transport with POT','torched_DPFC.forward_sampling, torched_DPFC.forward_sampling_Otto')],['return value of reweight_optimal_transport_multidim','Z'])
p('P09','NumPy score estimators implement one sparse-kernel formula',
  "For an RBF kernel every NumPy score estimator returns -K(x,Z) [C I + (K_ZZ + 1e-3 I)^-1 K_XZ^T K_XZ + 1e-3 I]^-1 (K_ZZ + 1e-3 I)^-1 sum_n grad_x K(x_n,Z), for scalar and for per-dimension lengthscales, both when evaluated at the samples and as a returned function at arbitrary points; the one-dimension-at-a-time variants give exactly the matching column of the all-dimensions variant, for any number of dimensions, samples and inducing points.",
  ['inputs','configurations'],"every sample set, inducing set, lengthscale (scalar or vector), weighting constant C, requested dimension and output kind","The stable tests reach only the distance helper; the estimators themselves are called by none.",[S,SC],
  [('estimators','score_function_multid_seperate, score_function_multid_seperate_all_dims, score_function_multid_seperate_old'),('legacy estimator','score_function_multid_seperate2')],['return values'])
p('P10','PyTorch score estimator agrees with the NumPy one',
  "The PyTorch score estimator computes the same formula as the NumPy all-dimensions estimator for every input, honouring the caller's samples, inducing points, lengthscale (scalar, tensor, array or list) and weighting constant, both at the samples and as a returned function at arbitrary points given as tensors or arrays.",
  ['inputs','configurations'],"every sample set, inducing set, lengthscale kind, weighting constant, output kind and input container","No stable test imports the PyTorch estimator; the existing comparison test compares copies inside the test file.",[T,K],
  [('estimator','torched_score_function_multid_seperate_all_dims')],['return values'])
p('P11','RBF kernel object evaluates kernel and gradient consistently',
  "The PyTorch RBF kernel returns signal_variance * exp(-0.5 * sum_d ((x_d - y_d)/l_d)^2) for every pair of rows, with one or with per-dimension lengthscales, with y defaulting to x; its gradient returns for every pair and dimension (x_d - y_d)/l_d^2 times the kernel at the points it was given, independent of which points the object was used with before.",
  ['inputs','histories'],"every pair of point sets, lengthscale, signal variance, input container, and every earlier use of the object","The existing kernel test checks a copy of the class, on random data, and is flaky.",[K],
  [('kernel and gradient','RBF.Kernel, RBF.gradient_X')],['return values'])
p('P12','Inducing points and lengthscales come from the current clouds',
  "Every score estimate made while sampling or computing controls uses M inducing points drawn independently per coordinate, uniformly between bounds taken from the coordinate-wise extremes of the particle clouds of that same time (the cloud itself in forward sampling; in the backward and control estimates the overlap of forward and backward cloud for NumPy and their joint hull for PyTorch, where a collapsed backward cloud is ignored), and a lengthscale per coordinate of twice the standard deviation of the cloud whose score is estimated.",
  ['inputs','configurations'],cfg+", every grid time",NOTEST+"bounds or lengthscales mixed between coordinates, clouds or times only shift estimates slightly.",[D],
  [('bounds, sampling and lengthscales','f_seperate, f_seperate_true, density_estimation, bw_density_estimation, calculate_u')],['Z','B','calculate_u'])
p('P13','Control is the score difference of constrained and free flow',
  "At every grid index more than 5 from the start and at least 5 before the end, the control at a query point is, in every coordinate, the score of the backward flow minus the score of the forward flow at that index, both evaluated at the unmodified query point; in Brownian-bridge mode the reference flow takes the place of the forward flow. Query points are rows, and the result has one row per coordinate and one column per point.",
  ['inputs','configurations'],cfg+", every interior grid index and every set of query points",NOTEST+"calculate_u is called by no stable test.",[D],
  [('control','calculate_u')],['calculate_u'])
p('P14','Near the ends the control uses Gaussian scores of the same flows',
  "At the remaining grid indices (the first six and the last five) the control is, in every coordinate, -(x - mean_b)/var_b + (x - mean_f)/var_f, with the mean and variance of the backward and of the forward (in Brownian-bridge mode: reference) particles in that coordinate at that index, estimated in the same way for both.",
  ['inputs','configurations'],cfg+", the first six and last five grid indices and every set of query points",NOTEST+"calculate_u is called by no stable test.",[D],
  [('Gaussian approximation','calculate_u')],['calculate_u'])
p('P15','Coverage query means inside both flows in every coordinate',
  "A point is reported as covered at a grid index exactly if, in every coordinate, it lies between the extremes (inclusive) of the forward particles and between the extremes of the backward particles at that index, in both backends.",
  ['inputs','configurations'],"every point, grid index, dimension and pair of flows","check_if_covered is called by no test.",[D],
  [('range intersection','check_if_covered')],['check_if_covered'])
p('P16','Pairwise distances are exact and free of data races',
  "The parallel distance routine stores in cell (i,j) of the output, for every i and j, the Euclidean, squared Euclidean or l1 distance (as requested; Euclidean by default) between row i of the first and row j of the second argument over all columns, whatever the output held before; each cell is written only by its own iteration and no iteration reads what another writes, so the result does not depend on the thread schedule.",
  ['inputs','schedules'],"all shapes, contents and metrics, all interleavings of the parallel loop iterations","The two stable tests compare 2-column squared distances into a zeroed output only, on whatever schedule happens.",[S],
  [('parallel loops','my_cdist')],['output argument of my_cdist'])
p('P17','Time grid spans the requested interval with the integration step',
  "The time grid starts at t1, is uniformly spaced with exactly the step used by all integration updates, and has ceil((t2-t1)/dt + 1/2) points, so that it reaches t2; every flow array has one slice per grid point and dimension-by-particles slices.",
  ['inputs','configurations'],"every interval and mode, both backends",NOTEST+"grid and update step could drift apart unnoticed.",[D],
  [('grid construction','__init__')],['timegrid','k','Z','B'])
p('P18','Only the RBF kernel is ever used for the flows',
  "Requesting the unsupported 'periodic' kernel falls back to 'RBF' with a warning, so every score estimate made by a DPFC or torched_DPFC object, while sampling or in control queries, uses the RBF kernel and the default weighting constant 0.001, with results identical to requesting 'RBF'.",
  ['configurations','inputs'],cfg+", kern in {'RBF','periodic'}","No test requests the periodic kernel.",[D],
  [('fallback','__init__')],['kern','Z','B','calculate_u'])
p('P19','Caller-owned data is never modified',
  "No public entry point writes into an array, tensor or list it was given (end points, query points, samples, inducing points, lengthscales, weights) or that one of the caller's functions returned, the only exception being the output argument of the distance routine.",
  ['inputs','histories'],"every public class, method and function of the package and every input container","Tests never compare arguments before and after a call.",[D,S,T,K,R,SC],
  [('functional updates','all public functions')],['arguments after the call'])
p('P20','Results depend only on inputs and the global random generators',
  "All randomness comes from the backend's own global generator (NumPy's for DPFC, PyTorch's for torched_DPFC), which the package never seeds, replaces or saves/restores; no clock, environment, hash or address value influences any result, so that seeding the generator reproduces flows and controls.",
  ['inputs','histories','configurations'],"all public entry points and all call histories","No test seeds the generators and compares two runs.",[D,S,T,K,R,SC],
  [('noise and inducing-point draws','DPFC, torched_DPFC')],['Z','B','calculate_u'])
p('P21','Package imports with its declared dependencies only',
  "Importing the package, each of its subpackages and each public module succeeds, relative to the package's own layout, with only the declared dependencies installed; an absent PyTorch disables only the PyTorch parts, and every name a module exports or imports from a sibling is defined there.",
  ['configurations','programs'],"every importable module, installed with and without PyTorch; module names as package members","Tests run in one environment where everything is installed, and import the estimator module outside its package.",[I,D,T,'DeterministicParticleFlowControl/score_estimators/__init__.py','DeterministicParticleFlowControl/version.py'],
  [('import graph and guards','module level of every module'),('declared dependencies','version.REQUIRES')],['import of the package'])
p('P22','Every mode runs for every system size with consistent shapes',
  "For every dimension >= 1, particle number >= 2 and inducing-point number >= 1, every combination of backend and mode flags samples its flows and answers control and coverage queries without a shape, index, undefined-name or missing-attribute error, and without assuming a particular number of dimensions, particles or inducing points.",
  ['inputs','configurations'],cfg,NOTEST+"examples are two-dimensional and use one mode.",[D,S,T,K,R],
  [('symbolic shapes of all array operations','all samplers, estimators and queries')],['constructor','calculate_u','check_if_covered'])
p('P23','PyTorch backend stays on the requested device in double precision',
  "Every tensor that torched_DPFC, the PyTorch estimator or the RBF kernel creates lives on the device the caller requested and carries double precision, and no operation combines tensors of different devices or mixes single- and double-precision data.",
  ['configurations','inputs'],"every device argument, mode and input","Tests run on a CPU-only machine, where a missing device argument is invisible; single-precision mixing is silently promoted.",[D,T,K],
  [('device and dtype arguments of tensor constructors','torched_DPFC, torched_score_function_multid_seperate_all_dims, RBF')],['device and dtype of Z, B, controls'])
p('P24','Sampling and queries have no external side effects',
  "Constructing a flow object, querying it and calling the estimators writes no files, opens no network connections, starts no processes, prints nothing, changes no global NumPy, PyTorch, warnings or logging configuration, and opens plots only when a flow has become non-finite; every log message has as many placeholders as arguments.",
  ['inputs','configurations'],"all public entry points of the sampling, estimator, kernel and reweighting modules","Side effects on paths that tests do not take are invisible to them.",[D,S,T,K,R,SC],
  [('calls with external effects','whole package except set_device')],['process environment'])
p('P25','Documented call signatures hold and both backends share them',
  "DPFC and torched_DPFC accept the documented parameters in the documented positional order and with the documented defaults (t1, t2, y1, y2, f, g, N, M, reweight=False, U=None, dens_est='nonparametric', reject=True, kern='RBF', f_true=None, brown_bridge=False, deterministic=True; torched_DPFC adds an optional device last), offer the same sampling and query methods, and the score estimators, kernel, distance and reweighting functions keep their public parameters, order and defaults.",
  ['programs','inputs'],"every documented call form","A reordered or re-defaulted parameter breaks callers that no test represents.",[D,S,T,K,R],
  [('signatures','class and function definitions')],['call interface'])
p('P26','Queries leave the sampled flows unchanged',
  "Computing controls or coverage changes no attribute of the object and no element of the sampled flows, the grid or the end points, so any sequence of queries sees the same flows.",
  ['histories','inputs'],"every sequence of control and coverage queries at any indices and points",NOTEST+"no test issues two queries and compares the state.",[D],
  [('read-only queries','calculate_u, check_if_covered')],['Z','B','Ztr','timegrid'])
p('P27','User callables are called with the state and its own time',
  "The drift, true drift and path-constraint callables are always called with exactly two positional arguments, a state array whose rows are coordinates and whose columns are particles of one single time slice, and the grid time of that slice.",
  ['inputs','configurations'],cfg+", every grid time",NOTEST+"callables that ignore the time hide a wrong or missing time argument.",[D],
  [('calls of f, f_true and U','all samplers')],['arguments seen by f, f_true, U'])
p('P32','No hidden state carries over between calls or objects',
  "Nothing a call leaves behind in module variables, class attributes, default arguments, function attributes, decorator caches or (after construction) object attributes influences a later call or another object: a stored value is either never used again or completely determined by the key under which it is stored, so results do not depend on the history of earlier calls.",
  ['histories','inputs'],"every function and method of the package and every sequence of calls on any number of objects","Each test process makes few calls; stale caches and shared defaults only show up in longer histories with different arguments.",[D,S,T,K,R,SC,I],
  [('persistent locations','all modules')],['results of repeated calls'])
p('P33','Integer-valued inputs behave like real numbers, in double precision',
  "End points, diffusion constant, query points, samples, inducing points and lengthscales given as integers (Python integers, integer arrays, integer lists or integer tensors) yield the same flows, controls, scores, distances and transport maps as the equal floating point numbers, without truncation or type errors, and every flow, control and score is double precision.",
  ['inputs','configurations'],"all integer-valued inputs, every mode and both backends","No test passes integer arrays; truncation into an integer buffer or silent single precision changes values without failing.",[D,S,T,K,R],
  [('number types of buffers and results','samplers, estimators, kernel, distances')],['Z','B','Ztr','calculate_u','score estimates'])
p('P34','Options a mode does not use have no influence',
  "A path constraint or a true drift that is passed without the flag that activates it is never called and changes no flow and no query result; brown_bridge without reweight leaves flows and queries as in the plain mode; and the forward flow is the same with and without the bridge.",
  ['configurations','inputs'],"both backends, deterministic and stochastic sampling, every combination of unused options","No passing test builds flow objects, let alone pairs of them that differ in an unused option.",[D],
  [('mode selection','__init__ and the samplers')],['Z','B','Ztr','calculate_u'])
p('P35','An array-valued diffusion acts coordinate by coordinate',
  "The documented array form of the diffusion coefficient, one row per coordinate (shape (dim, 1)), is accepted in every mode: the noise, the score correction of the forward drift and the time-reversal terms of coordinate i then use the amplitude g_i, exactly as the scalar form uses g, and no shape or type error occurs.",
  ['inputs','configurations'],"every dimension >= 1, every column of diffusion amplitudes, every mode, both backends, forward, reference and backward flow","No passing test builds a flow object, and no example passes an array; a column that is broadcast along the wrong axis, reduced to one number or squared as a matrix still yields arrays of the right shape.",[D],
  [('Euler steps and drift corrections','forward_sampling*, backward_simulation, f_seperate*')],['Z','B','Ztr'])
p('P36','Sampling again on an existing object starts afresh',
  "Calling the public samplers again on an existing object (forward, reference flow if there is one, then backward) replaces every slice of every flow by a new sample that satisfies the same equations, end points and shapes as the first one; nothing of the values the flow arrays held before, nor of weights or estimates of the earlier run, enters it.",
  ['histories','configurations'],"every earlier content of the flow arrays, every mode, both backends","Every object a test could build is sampled exactly once, in its constructor, into arrays of zeros; a slice that is added to instead of set, or left out, only shows in a second run.",[D],
  [('samplers','forward_sampling*, backward_simulation')],['Z','B','Ztr'])
p('P37','Results belong to the caller and stay as they were returned',
  "Every array or tensor returned by a control or coverage query, a score estimator or the function it returns, the kernel object or the transport map is memory of its own: it shares none with the arguments, with the flows, or with the result of another call, so no later call changes an earlier result and writing to a result changes neither inputs, flows nor later results.",
  ['histories','inputs'],"every public function and query, every pair of calls with inputs of any size","A result that is a view of a reused buffer or of a cache is correct at the moment a test looks at it; it is overwritten only by a later call.",[D,S,T,K,R],
  [('result arrays','calculate_u, estimators, RBF.Kernel, RBF.gradient_X, reweight_optimal_transport_multidim')],['results of repeated calls'])
p('P28','Score estimates converge to the true score',
  "As particle and inducing-point numbers grow, the estimated score approaches the true gradient of the log density of the sampled distribution.",
  ['inputs'],"all densities and growing sample sizes","Needs a statistical limit statement over random samples.",[S,T],[('sparse kernel regression','score estimators')],['score estimates'])
p('P29','Controlled ensembles reach the target',
  "Trajectories of the system driven by the computed controls end in the vicinity of the target state and respect the path constraints.",
  ['inputs','configurations'],"all systems, horizons and noise realisations","Needs closed-loop stochastic simulation.",[D],[('control','calculate_u')],['controlled trajectories'])
p('P30','Flows and controls stay finite',
  "For finite inputs and sufficiently regular drift, all flow values and all interior controls are finite numbers.",
  ['inputs','configurations'],"all regular drifts, intervals and seeds","Depends on runtime magnitudes and conditioning.",[D,S,T],[('regularisation constants','score estimators')],['Z','B','calculate_u'])
p('P31','Transport plans are optimal and feasible',
  "The plan used for reweighting is feasible and of minimal cost for the given weights and distances.",
  ['inputs'],"all weights and particle clouds","The plan is computed by the external solvers pyemd and POT.",[R,D],[('external OT solver','emd_with_flow, ot.emd')],['reweighted cloud'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
