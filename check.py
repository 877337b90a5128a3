#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root DIR]

Static analysis of the package under /repo: parses its current source, interprets it
abstractly (nothing of it is executed) and decides the obligations of one property.
Exit 0: every obligation holds; 1: a VIOLATION line was printed; 2: no answer."""
import argparse
import os
import sys
import time
import traceback
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from avn import flows, pest, pevents, pshare, pflow, pfun, pnum, pquery, pstate, pstatic, report, terms  # noqa: E402
from avn.flows import NPCLS, THCLS, Bad, Run  # noqa: E402
from avn.plan import PLAN  # noqa: E402


def run_job(job):
    root, prop, job = job
    rep = report.Report(prop)
    kind, a = job[0], job[1:]
    try:
        if kind == "flow":
            names, cfg, kw = a
            r = Run(root, *cfg, **dict(kw))
            for nm in names:
                mod, fn = nm.split(".")
                getattr({"pflow": pflow, "pquery": pquery, "pevents": pevents, "pshare": pshare}[mod], fn)(r, rep)
            rep.scope["class"] = [cfg[0]]
            rep.scope["configurations"] = [r.label()]
            rep.scope["functions interpreted"] = sorted(r.I.visited) if hasattr(r.I, "visited") else []
        elif kind == "p18":
            pevents.p18(root, a[0], rep)
            rep.scope["configurations"] = [str(a[0])]
        elif kind == "device":
            cfg, dev = a
            r = Run(root, *cfg, device=dev)
            pevents.p23(r, rep, dev)
            rep.scope["configurations"] = [r.label() + f" device={dev}"]
        elif kind == "notorch":
            r = Run(root, *a[0], absent=("torch",))
            subj = f"{r.label()} without torch installed"
            rule = "the NumPy backend runs without torch"
            b = pevents.judge(rep, rule, subj, [e for e in r.events if e.kind in ("unbound", "attr", "import", "raise", "type")], r)
            pevents.unknowns(rep, rule, subj, r.I.unknowns)
            if not b and not r.I.unknowns:
                rep.ok(rule, subj)
            for q in pevents.asks(r):
                pevents.judge(rep, rule, q.label, [e for e in q.events if e.kind in ("unbound", "attr", "import", "raise", "type")], r)
        elif kind == "inert":
            pevents.p34(root, a[0], a[1], rep)
        elif kind == "intflow":
            pnum.flow(root, a[0], a[1], rep)
        elif kind == "gcol":
            pnum.column(root, a[0], a[1], a[2], rep)
        elif kind == "intfun":
            pnum.fun(root, a[0], rep)
        elif kind == "ownfun":
            pshare.functions(root, a[0], rep)
        elif kind == "fun":
            pfun.events(prop, root, a[0], rep)
        elif kind == "est":
            c, one = a
            pest.check_estimator(pest.session(root, one), rep, *c)
            tag(rep, one)
        elif kind == "test":
            c, one = a
            pest.check_estimator(pest.session(root, one), rep, pest.TH_EST, "torch", c[1], c[2], c[0], c[3])
            tag(rep, one)
        elif kind == "rbf":
            c, one = a
            pest.p11_case(pest.session(root, one), rep, *c)
            tag(rep, one)
        elif kind == "dist":
            c, one = a
            pest.p16_case(pest.session(root, one), rep, c)
            tag(rep, one)
        elif kind == "call":
            mod, fn = a[0].split(".")
            getattr({"pflow": pflow, "pstatic": pstatic, "pstate": pstate, "pshare": pshare}[mod], fn)(root, rep)
        else:
            raise ValueError(kind)
    except Bad as e:
        rep.und("the code can be analysed", str(job)[:200], str(e), "")
    except RecursionError:
        rep.und("the code can be analysed", str(job)[:200], "recursion limit", "")
    except Exception as e:  # the engine has no answer for this job
        tb = traceback.extract_tb(e.__traceback__)
        rep.und("the code can be analysed", str(job)[:200], f"{type(e).__name__}: {e} at {tb[-1].filename.rsplit('/', 1)[-1]}:{tb[-1].lineno}", "")
        if os.environ.get("AVN_DEBUG"):
            traceback.print_exc()
    return rep


def tag(rep, one):
    t = " [dim = 1]" if one else " [dim >= 2]"
    for o in rep.obs:
        o.subject += t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--jobs", type=int, default=0)
    o = ap.parse_args()
    tier = o.tier or os.environ.get("VERIF_TIER") or "quick"
    t0 = time.time()
    p = PLAN[o.prop]
    jobs = [(o.root, o.prop, j) for j in p.jobs(tier)]
    rep = report.Report(o.prop)
    n = min(o.jobs or os.cpu_count() or 1, 8, max(1, len(jobs)))
    if n == 1:
        for j in jobs:
            rep.merge(run_job(j))
    else:
        with get_context("fork").Pool(n, maxtasksperchild=1) as pool:
            for r in pool.imap(run_job, jobs):
                rep.merge(r)
    rep.scope["analyses"] = len(jobs)
    rep.scope["source"] = pstatic.sources(o.root)
    return report.finish(rep, tier, t0, p.technique, p.level, p.minimum, p.explanation, p.assumptions)


if __name__ == "__main__":
    sys.exit(main())
