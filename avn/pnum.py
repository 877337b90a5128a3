"""Number types (P33): integer-valued inputs give the results of the equal real numbers, and results
are double precision."""
from . import pest, pfun, pevents, pflow
from .values import *
from .flows import Run
from .report import Report
from .specs import where_written

RULE = "integer inputs are treated as the equal real numbers"
PREC = "results are double precision"
KINDS = ("dtype", "type")


def precision(rep, subj, v, w=""):
    if not isinstance(v, Arr):
        rep.und(PREC, subj, f"result is {describe(v)}", w)
    elif v.dtype == "float64":
        rep.ok(PREC, subj, "", w)
    else:
        rep.bad(PREC, subj, f"{describe(v)} has type {v.dtype}", w)


def flow(root, cfg, kind, rep):
    ref = Run(root, *cfg)
    want = pevents.flow_keys(ref)
    run = Run(root, *cfg, y1=kind)
    lab = f"{run.label()} with {dict(npint='an integer array', listint='a list of integers', thint='an integer tensor')[kind]} as end points"
    b = pevents.judge(rep, RULE, lab + " sampling", [e for e in run.events if e.kind in KINDS], run)
    if not b:
        rep.ok(RULE, lab + " sampling")
    for nm in ("Z", "B") + (("Ztr",) if run.rw and run.br else ()):
        precision(rep, f"{lab} {nm}", run.arr(nm), where_written(run, nm))
    got = pevents.flow_keys(run)
    for a in pevents.asks(run):
        b = pevents.judge(rep, RULE, f"{lab}, query {a.label}", [e for e in a.events if e.kind in KINDS], run)
        if not b:
            rep.ok(RULE, f"{lab}, query {a.label}")
        if a.name == "calculate_u" and isinstance(a.value, Arr):
            precision(rep, f"{lab}, query {a.label}", a.value)
        pevents.unknowns(rep, RULE, f"{lab}, query {a.label}", a.unknowns)
    for k in want:
        rep.put(pevents.same_terms(run, got.get(k), want[k]), "integer and real end points give the same flows and controls", f"{lab} {k}", "the two runs differ", run.cls)
    pevents.unknowns(rep, RULE, lab, run.I.unknowns)
    rep.scope["configurations"] = [lab]


def fun(root, case, rep):
    for dt in ("int", "float64"):
        pest.DT = dt
        tmp = Report(rep.prop)
        try:
            c = pfun.execute(root, case, tmp)
        finally:
            pest.DT = "float64"
        for r in getattr(c.I, "result", None), c.result:
            if r is not None and case[0] not in ("dist",):
                precision(rep, c.label + (" of integers" if dt == "int" else ""), r)
        if dt == "float64":
            continue
        b = pevents.judge(rep, RULE, c.label, [e for e in c.events if e.kind in KINDS])
        for o in tmp.obs:
            if "left alone" in o.rule or "leaves its inputs" in o.rule or "independent" in o.rule:
                continue
            o.subject += " of integers"
            rep.obs.append(o)
        if not b:
            rep.ok(RULE, c.label)
        pevents.unknowns(rep, RULE, c.label, c.unknowns)
    rep.scope["function calls analysed"] = rep.scope.get("function calls analysed", 0) + 1


# ---------------------------------------------------------------- P35
def column(root, cfg, gkind, y1, rep):
    """a diffusion coefficient with one row per coordinate"""
    run = Run(root, *cfg, gkind=gkind, y1=y1)
    lab = run.label() + (f" (end points as {y1})" if y1 != "np" else "")
    rule = "an array-valued diffusion raises no error"
    rep.scope["configurations"] = [lab]
    b = pevents.judge(rep, rule, lab + " sampling", [e for e in run.events if e.kind in pevents.ERRORS + KINDS], run)
    pevents.unknowns(rep, rule, lab + " sampling", run.I.unknowns)
    if b:
        return
    rep.ok(rule, lab + " sampling")
    for f in (pflow.p03, pflow.p04, pflow.p05, pflow.p06):
        f(run, rep)
    pevents.p19_events(rep, lab, run.events, run)
    for a in pevents.asks(run):
        b = pevents.judge(rep, rule, f"{lab}, query {a.label}", [e for e in a.events if e.kind in pevents.ERRORS + KINDS], run)
        if not b:
            rep.ok(rule, f"{lab}, query {a.label}")
        pevents.unknowns(rep, rule, f"{lab}, query {a.label}", a.unknowns)
