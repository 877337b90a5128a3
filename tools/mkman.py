import json,sys
sys.path.insert(0,'/verif')
from avn.plan import PLAN
NOTE={
"P16":"Exactness of every output cell and absence of conflicting accesses between parallel iterations are decided for all sizes; dimension one and dimension >= 2 are separate cases. Trusts the numba prange/njit model (iterations in any order, no fastmath NaN reasoning).",
"P21":"Import simulation of every module of the package with torch present and absent; trusts the table of names provided by third-party distributions.",
"P32":"Decided by definition-use dependencies over the syntax trees of all modules: every write to a location that outlives the call, every read of it, and whether the key determines what is stored. Locations reached only through objects of other libraries are not tracked.",
"P37":"Memory of every result followed through views and aliases and compared with arguments, attributes and the result of a second call of the same function; results handed out of module-level stores are found on the syntax tree.",
"P33":"Number types are tracked with the terms (integer, single and double precision); values of the integer run are compared with those of the real run.",
"P25":"Signatures read from the syntax tree through the same class lookup Python uses; complete for the listed public callables.",
}
DEF="Every obligation is decided on terms of the current source for symbolic dim, N, M, grid length and slice index (no sampling of runs; the code is never executed). Equal normal forms are exact; the remaining term equalities are decided by random interpretation at small sizes (stated per obligation in the evidence). Trusts the library models in avn/lib*.py."
checks=[]
for p in sorted(PLAN):
    checks.append({"property":p,"quick_cmd":f"python3 check.py {p} --tier quick","thorough_cmd":f"python3 check.py {p} --tier thorough","evidence_file":f"evidence/{p}.json","technique":PLAN[p].technique,"level":"other","level_note":NOTE.get(p,DEF)})
na=[("P28","Statistical convergence of the estimates as N and M grow is an analytic statement about sampling distributions; no static argument over the source bounds it (P09/P10 decide that the code computes the estimator whose convergence theory this is)."),
("P29","Whether controlled ensembles hit the target depends on drift, horizon and sampling error at run time; no static bound is in reach (P02-P08 and P13 decide the update equations that the theory needs)."),
("P30","Finiteness of the iterates depends on magnitudes of user drift, step size, conditioning of sampled kernel matrices; an interval analysis of inverse kernel matrices of random points has no useful bound."),
("P31","Optimality and feasibility of the plan is the run-time numerical behaviour of the external solver ot.emd; P08 decides what the solver is asked and how its answer is used.")]
json.dump({"version":1,"setup_cmd":"python3 -m py_compile check.py avn/plan.py","checks":checks,"not_applicable":[{"property":a,"reason":b} for a,b in na],
"notes":"Static analysis only: the source under /repo is parsed and interpreted abstractly on each run, nothing of it is executed. No hooks were added to /repo."},open('/verif/MANIFEST.json','w'),indent=1)
