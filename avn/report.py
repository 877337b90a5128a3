"""Obligations, evidence and verdicts."""
import json, os, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ob:
    __slots__ = ("rule", "subject", "status", "detail", "where")

    def __init__(self, rule, subject, status, detail="", where=""):
        self.rule, self.subject, self.status, self.detail, self.where = rule, subject, status, detail, where

    def as_dict(self):
        return {"rule": self.rule, "subject": self.subject, "status": self.status, "detail": self.detail, "where": self.where}


class Report:
    """obligations of one property (picklable)"""

    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.scope = {}

    def ok(self, rule, subject, detail="", where=""):
        self.obs.append(Ob(rule, subject, "holds", detail, where))

    def bad(self, rule, subject, detail, where=""):
        self.obs.append(Ob(rule, subject, "violated", detail, where))

    def und(self, rule, subject, detail, where=""):
        self.obs.append(Ob(rule, subject, "undecided", detail, where))

    def put(self, cond, rule, subject, detail="", where=""):
        if cond is True:
            self.ok(rule, subject, "" if cond is True else detail, where)
        elif cond is None:
            self.und(rule, subject, detail, where)
        else:
            self.bad(rule, subject, detail, where)

    def merge(self, other):
        self.obs += other.obs
        for k, v in other.scope.items():
            if isinstance(v, list):
                self.scope[k] = sorted(set(self.scope.get(k, [])) | set(v))
            elif isinstance(v, (int, float)):
                self.scope[k] = self.scope.get(k, 0) + v
            else:
                self.scope[k] = v


def known_findings():
    """[(property, text)] of recorded, unrepaired findings"""
    out = []
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                rest = line[len("finding:"):].strip()
                if rest.startswith("property="):
                    p, _, txt = rest[len("property="):].partition(" ")
                    out.append((p, txt.strip()))
    except OSError:
        pass
    return out


def finish(rep, tier, t0, technique, level="other", minimum=1, explanation="", assumptions=(), seed=None):
    prop = rep.prop
    known = [t for p, t in known_findings() if p == prop]
    viol, kn = [], []
    for o in rep.obs:
        if o.status == "violated":
            ident = f"{o.rule} | {o.subject} | {o.where}"
            hit = [t for t in known if t == ident]
            (kn if hit else viol).append(o)
    und = [o for o in rep.obs if o.status == "undecided"]
    held = [o for o in rep.obs if o.status == "holds"]
    by = {}
    for o in rep.obs:
        r = by.setdefault(o.rule, {"holds": 0, "violated": 0, "undecided": 0})
        r[o.status] += 1
    hows = {}
    for o in held:
        if o.detail:
            k = o.detail.split(" (")[0]
            hows[k] = hows.get(k, 0) + 1
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    vio_json = []
    paths = []
    for i, o in enumerate(viol):
        d = o.as_dict()
        vio_json.append(d)
    if viol:
        rp = os.path.join(evd, f"{prop}.violation.json")
        with open(rp, "w") as fh:
            json.dump({"property": prop, "violations": vio_json}, fh, indent=1)
        paths.append(rp)
    cov = {
        "explanation": explanation,
        "technique": technique,
        "obligations": len(rep.obs),
        "held": len(held),
        "violated": len(viol),
        "known": len(kn),
        "undecided": len(und),
        "by_rule": by,
        "decided_by": hows,
        "scope": rep.scope,
        "subjects": sorted({o.subject for o in rep.obs})[:400],
    }
    if und:
        cov["undecided_list"] = [o.as_dict() for o in und[:50]]
    ev = {
        "property": prop, "tier": tier, "seed": seed if seed is not None else int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 3),
        "assumptions": list(assumptions), "violations": len(viol),
    }
    with open(os.path.join(evd, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    for o in kn:
        print(f"KNOWN-FINDING: property={prop} {o.rule} | {o.subject} | {o.where}")
    for o in viol[:20]:
        print(f"  {o.rule}: {o.subject}: {o.detail} [{o.where}]")
    if viol:
        print(f"VIOLATION property={prop} replay={paths[0]}")
        return 1
    if len(held) < minimum:
        print(f"UNDECIDED property={prop}: only {len(held)} obligations were generated and held, expected at least {minimum}")
        for o in und[:10]:
            print(f"  undecided {o.rule}: {o.subject}: {o.detail} [{o.where}]")
        return 2
    for o in und[:10]:
        print(f"  UNDECIDED {o.rule}: {o.subject}: {o.detail} [{o.where}]")
    print(f"OK property={prop}: {len(held)} obligations hold" + (f", {len(und)} of {len(rep.obs)} are undecided" if und else ""))
    return 0
