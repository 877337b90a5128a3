"""What each check analyses: jobs per tier, least number of obligations, texts for the evidence."""
from . import pest, pfun
from .flows import CONFIGS, NPCLS, THCLS

ENGINE = "abstract interpretation of the source AST into symbolic array terms"
BASE = ["the models of numpy, torch, scipy, numba, ot and logging calls in avn/lib*.py describe those libraries",
        "the drift and constraint callables of the user act on the columns (particles) of the state they are given independently",
        "N >= 2 particles, M >= 1 inducing points, dim >= 1, a grid of at least 12 points"]
RI = "where two terms do not normalise to the same form, equality is decided under random interpretations of the uninterpreted symbols at several small sizes; the code itself is never executed"


def kw(**k):
    return tuple(sorted(k.items()))


def flow(names, cfgs=CONFIGS, **k):
    return [("flow", tuple(names), c, kw(**k)) for c in cfgs]


DET = [c for c in CONFIGS if c[1]]
STO = [c for c in CONFIGS if not c[1]]
RWS = [c for c in CONFIGS if c[2]]
TH = [c for c in CONFIGS if c[0] == THCLS]
NP = [c for c in CONFIGS if c[0] == NPCLS]


def both(cs, kind):
    return [(kind, c, one) for c in cs for one in (False, True)]


def functions(t):
    return [("fun", c) for c in pfun.cases(t)]


class Plan:
    def __init__(self, quick, thorough, minimum, explanation, technique=None, level="other", assumptions=None):
        self.q, self.t = quick, thorough
        self.minimum, self.explanation, self.level = minimum, explanation, level
        self.technique = technique or ENGINE
        self.assumptions = (BASE + [RI]) if assumptions is None else assumptions

    def jobs(self, tier):
        return list(self.q()) + (list(self.t()) if tier == "thorough" else [])


def variants(names, cfgs=CONFIGS):
    """more input forms: end points as lists (and tensors for the torch class)"""
    return flow(names, cfgs, y1="list") + flow(names, [c for c in cfgs if c[0] == THCLS], y1="th")


PLAN = {
    "P01": Plan(lambda: flow(["pflow.p01"]) + flow(["pflow.p01"], TH, y1="th"), lambda: variants(["pflow.p01"]), 11,
                "the term of slice 0 of every forward flow is compared with y1, for every class and mode"),
    "P02": Plan(lambda: flow(["pflow.p02"]) + flow(["pflow.p02"], TH, y1="th"), lambda: variants(["pflow.p02"]), 17,
                "the terms of the first and last slice of the backward flow are compared with y1 and y2"),
    "P03": Plan(lambda: flow(["pflow.p03"], DET), lambda: variants(["pflow.p03"], DET), 22,
                "the recurrence of Z (slice s as a function of slice s-1, symbolic s, plus the irregular first and last slices) is compared with the probability-flow step"),
    "P04": Plan(lambda: flow(["pflow.p04"], STO), lambda: variants(["pflow.p04"], STO), 35,
                "the recurrence of Z is compared with the Euler-Maruyama step; the noise of two different (coordinate, particle, step) cells must be two different draws"),
    "P05": Plan(lambda: flow(["pflow.p05"]), lambda: variants(["pflow.p05"]), 105,
                "the recurrence of the reference flow Ztr is compared with the step under f_true, without any transport term"),
    "P06": Plan(lambda: flow(["pflow.p06"]), lambda: variants(["pflow.p06"]), 57,
                "the recurrence of B (slice s from slice s+1, symbolic s) is compared with the discretised time reversal with the score of the forward flow it reverses"),
    "P07": Plan(lambda: flow(["pflow.p07"]), lambda: variants(["pflow.p07"]), 74,
                "every slice of the forward flow contains exactly one transport plan whose source weights are the normalised exponential of the constraint; no transport term without reweighting"),
    "P08": Plan(lambda: [("call", "pflow.p08_function")] + flow(["pflow.p08"], RWS), lambda: variants(["pflow.p08"], RWS), 74,
                "source and target marginals, cost term, scale and contraction direction of every transport map"),
    "P09": Plan(lambda: both(pest.cases09(True), "est"), lambda: [], 52,
                "the term returned by every NumPy estimator is compared with one reference formula, for scalar, vector and default lengthscales, values and functions, dim = 1 and dim >= 2"),
    "P10": Plan(lambda: both(pest.cases10(False), "test"), lambda: both([c for c in pest.cases10(True) if c not in pest.cases10(False)], "test"), 61,
                "the term returned by the torch estimator is compared with the same reference formula as P09, for every accepted input type"),
    "P11": Plan(lambda: both(pest.cases11(False), "rbf"), lambda: both([c for c in pest.cases11(True) if c not in pest.cases11(False)], "rbf"), 26,
                "kernel and gradient terms after every call sequence up to length two on one object (stale cached state shows up as a different term)"),
    "P12": Plan(lambda: flow(["pflow.p12_flow", "pquery.p12_query"]), lambda: variants(["pflow.p12_flow", "pquery.p12_query"]), 497,
                "cloud, inducing points and lengthscale arguments of every estimator call in flows and queries"),
    "P13": Plan(lambda: flow(["pquery.p13"]), lambda: variants(["pquery.p13"]), 52,
                "the term returned by calculate_u at an interior index is compared with g^2 times the score difference"),
    "P14": Plan(lambda: flow(["pquery.p14"]), lambda: variants(["pquery.p14"]), 105,
                "the term returned by calculate_u at indices near the ends is compared with the difference of Gaussian scores of the two clouds at that index"),
    "P15": Plan(lambda: flow(["pquery.p15"]), lambda: variants(["pquery.p15"]), 26,
                "the boolean returned by check_if_covered is compared with the conjunction over coordinates and flows"),
    "P16": Plan(lambda: both(pest.DISTS, "dist"), lambda: [], 22,
                "the term of every output cell for each distance; for each parallel loop, every pair of accesses of two different iterations to one cell (write/write and read/write) must be disjoint",
                technique=ENGINE + "; dependence test for parallel iterations"),
    "P17": Plan(lambda: flow(["pflow.p17"]), lambda: variants(["pflow.p17"]), 173,
                "the time grid term, its length, and the step and time used by every update"),
    "P18": Plan(lambda: [("p18", c) for c in CONFIGS], lambda: [], 149,
                "the flows and queries of a run asked for 'periodic' and of one asked for 'RBF' are the same terms; kernel argument of every estimator call"),
    "P19": Plan(lambda: flow(["pevents.p19"]) + flow(["pevents.p19"], NP[:2], y1="list") + functions(False),
                lambda: variants(["pevents.p19"]) + functions(True), 127,
                "every in-place write reachable from the public entry points is resolved through views and aliases to the object that owns the memory; none may be the caller's",
                technique=ENGINE + "; alias and ownership (effect) analysis"),
    "P20": Plan(lambda: [("call", "pstate.p32")] + flow(["pevents.p20"]) + functions(False), lambda: variants(["pevents.p20"]) + functions(True), 251,
                "generator of every draw site, and taint of every result by clocks, environment, object identities or uninitialised memory",
                technique=ENGINE + "; effect and taint analysis"),
    "P21": Plan(lambda: [("call", "pstatic.p21")] + [("notorch", c) for c in NP], lambda: [], 42,
                "the import graph of every module, with and without torch; every imported distribution is declared; names used by functions resolve",
                technique="import simulation over the syntax trees of all modules; abstract interpretation with torch absent",
                assumptions=["numpy, scipy, numba, POT (ot) and duecredit stubs provide the names listed in avn/pstatic.py", "import statements not on the simulated path (inside functions) are checked by name only"]),
    "P22": Plan(lambda: flow(["pevents.p22"]) + flow(["pevents.p22"], [NP[0], TH[0], NP[-1], TH[-1]], y1="list") + flow(["pevents.p22"], [TH[0], TH[-1]], y1="th") + functions(False),
                lambda: variants(["pevents.p22"]) + functions(True), 160,
                "every shape, index, name, attribute and argument obligation on every path of sampling and queries, for symbolic dim, N, M and grid length",
                technique=ENGINE + "; shape and index obligations"),
    "P23": Plan(lambda: [("device", c, d) for c in TH for d in (None, "cuda:1")] + [("fun", c) for c in pfun.cases(False) if c[0] in ("th", "rbf")],
                lambda: [("device", c, d) for c in TH for d in ("cpu", "cuda")], 116,
                "device and dtype of every tensor created or combined, with the requested device as an opaque value",
                technique=ENGINE + "; device and dtype typing"),
    "P24": Plan(lambda: flow(["pevents.p24"]) + functions(False), lambda: variants(["pevents.p24"]) + functions(True), 119,
                "every reachable call that writes files, prints, plots, changes global state or formats a log record wrongly",
                technique=ENGINE + "; effect analysis"),
    "P25": Plan(lambda: [("call", "pstatic.p25")], lambda: [], 36,
                "names, order, kinds and defaults of the parameters of every public callable, compared between the backends and with the documented ones",
                technique="signature comparison on the syntax tree through the class lookup of the analyser",
                assumptions=["the documented signature is the one of the class docstrings and README at the pinned commit"]),
    "P26": Plan(lambda: flow(["pquery.p26"]), lambda: variants(["pquery.p26"]), 105,
                "the terms of the flow attributes before and after each query are the same",
                technique=ENGINE + "; frame conditions"),
    "P32": Plan(lambda: [("call", "pstate.p32")], lambda: [], 40,
                "every write, in any function of the package, to a module variable, class attribute, mutable default argument, function attribute, captured variable of a decorator or (after construction) object attribute; every read of it; and whether what is stored is determined by the key it is stored under",
                technique="definition-use dependence analysis of persistent locations over the syntax trees of all modules",
                assumptions=["objects are not modified from outside the package after construction"]),
    "P33": Plan(lambda: [("intflow", c, k) for c in CONFIGS for k in (("npint",) if c[0] == NPCLS else ("npint", "thint"))] + [("intfun", c) for c in pfun.cases(False)],
                lambda: [("intflow", c, "listint") for c in CONFIGS] + [("intfun", c) for c in pfun.cases(True)], 200,
                "flows, controls, scores, kernels, distances and transport maps computed from integer arrays, lists and tensors are compared with those of the equal real numbers; every truncating write, illegal in-place operation and mixture of precisions on the way; number type of every result",
                technique=ENGINE + "; number type analysis"),
    "P34": Plan(lambda: [("inert", c, d) for c in (NPCLS, THCLS) for d in (True, False)], lambda: [], 100,
                "flows and queries of a run that is given an option its mode does not use, compared with those of the run without it; call sites of the callables concerned",
                technique=ENGINE + "; non-interference by comparison of two abstract runs"),
    "P35": Plan(lambda: [("gcol", c, "np", "np") for c in CONFIGS],
                lambda: [("gcol", c, "th", y) for c in TH for y in ("np", "th")] + [("gcol", c, "np", "list") for c in CONFIGS] + [("gcol", c, "np", "npint") for c in NP], 200,
                "the recurrences of all flows for a diffusion coefficient with one row per coordinate are compared with the step equations with that coordinate's amplitude; every shape, index and type obligation on the way",
                technique=ENGINE + "; shape and index obligations"),
    "P36": Plan(lambda: flow(["pflow.p36"]), lambda: variants(["pflow.p36"]), 200,
                "the samplers are interpreted a second time on an object whose flow arrays hold arbitrary values: the recurrences and end slices of the new flows are compared with the same equations, and no slice may mention the old content",
                technique=ENGINE + "; non-interference of the previous state"),
    "P37": Plan(lambda: [("call", "pshare.stores")] + flow(["pshare.p37"], [c for c in CONFIGS if c[1]]) + [("ownfun", c) for c in pfun.cases(False)],
                lambda: flow(["pshare.p37"], [c for c in CONFIGS if not c[1]]) + [("ownfun", c) for c in pfun.cases(True)], 100,
                "the memory every result may be a view of, compared with that of the arguments, of the attributes and of the result of a second call",
                technique=ENGINE + "; alias analysis of results"),
    "P27": Plan(lambda: flow(["pevents.p27"]), lambda: variants(["pevents.p27"]), 59,
                "state and time argument of every call of f, f_true and U, at every call site",
                technique=ENGINE + "; argument contracts of callbacks"),
}
