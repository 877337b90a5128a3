"""first.py ROOT FILE FUNCTION: analyse ROOT until the first violation (worker of automut.py)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import check
from avn import report, pflow, pquery, pevents
from avn.flows import *
from avn.plan import PLAN

root, file, fn = sys.argv[1:4]
MODS = {"pflow": pflow, "pquery": pquery, "pevents": pevents}
und = []


def see(r, what):
    for o in r.obs:
        if o.status == "violated":
            print("VIOL", r.prop, o.rule[:60], "|", o.detail[:80].replace("\n", " "))
            os._exit(0)
        if o.status == "undecided":
            und.append(f"{r.prop}:{o.rule[:40]}:{o.detail[:90]}")


def flows(cfgs):
    names = {}
    for p in sorted(PLAN):
        for j in PLAN[p].jobs("quick"):
            if j[0] == "flow" and j[3] == ():
                names.setdefault(j[2], []).append((p, j[1]))
    for c in cfgs:
        try:
            r = Run(root, *c)
        except Exception as e:
            und.append(f"run:{type(e).__name__} {e}")
            continue
        for p, ns in sorted(names.get(c, []), key=lambda x: x[0] in ("P20", "P24", "P19")):
            rep = report.Report(p)
            try:
                for nm in ns:
                    m, f = nm.split(".")
                    getattr(MODS[m], f)(r, rep)
            except Exception as e:
                und.append(f"{p}:{type(e).__name__} {e}")
            see(rep, c)


def jobs(kinds, pred=lambda j: True, props=None):
    for p in sorted(PLAN):
        if props and p not in props:
            continue
        for j in PLAN[p].jobs("quick"):
            if j[0] in kinds and pred(j):
                see(check.run_job((root, p, j)), j)


if file == "main":
    cls = THCLS if fn.startswith("torched") else NPCLS
    m = fn.split(".")[-1]
    cfgs = [c for c in CONFIGS if c[0] == cls]
    if m == "forward_sampling":
        cfgs = [c for c in cfgs if not c[1]]
    elif m in ("forward_sampling_Otto", "f_seperate", "bw_density_estimation"):
        cfgs = [c for c in cfgs if c[1]]
    elif m.endswith("true"):
        cfgs = [c for c in cfgs if c[2] and c[3]]
    cfgs.sort(key=lambda c: (c[2] != c[3], c[2], c[1]))
    flows(cfgs)
    if cls == THCLS:
        jobs(("device",), lambda j: j[1] in cfgs)
    jobs(("p18",), lambda j: j[1] in cfgs)
    if m == "__init__":
        jobs(("flow",), lambda j: j[3] != () and j[2] in cfgs)
elif file in ("sfe", "sc2"):
    if fn == "my_cdist":
        jobs(("dist",))
    else:
        jobs(("est",), lambda j: fn in str(j[1]))
    jobs(("fun",), lambda j: fn.split("_")[-1] in str(j))
    if fn == "score_function_multid_seperate":
        flows([c for c in CONFIGS if c[0] == NPCLS][:1])
elif file == "tsf":
    jobs(("test",))
    jobs(("fun",), lambda j: "th" in str(j))
    flows([c for c in CONFIGS if c[0] == THCLS][:1])
    jobs(("device",))
elif file == "rbf":
    jobs(("rbf",))
    jobs(("test",))
    jobs(("fun",), lambda j: "rbf" in str(j))
elif file == "ot":
    jobs(("call",))
    jobs(("fun",))
    flows([c for c in CONFIGS if c[0] == NPCLS and c[2]][:2])
jobs(("call",), props=("P21", "P25", "P08"))
print("UND " + " ;; ".join(und[:3]) if und else "QUIET")
