"""P37: results belong to the caller - they share no memory with arguments, flows or earlier results."""
import ast
from .terms import sym, ge
from . import pevents, pfun, pquery, pstate
from .report import Report
from .values import *

RULE = "results share no memory with arguments, flows or earlier results"


def arrays(v, out=None, depth=0):
    """all arrays inside a value"""
    out = [] if out is None else out
    if isinstance(v, Arr):
        out.append(v)
    elif isinstance(v, Choice):
        arrays(v.a, out, depth + 1)
        arrays(v.b, out, depth + 1)
    elif isinstance(v, (tuple, list)) and depth < 6:
        for x in v:
            arrays(x, out, depth + 1)
    return out


def memory(v):
    """the blocks of memory a value may be a view of"""
    m = {}
    for a in arrays(v):
        if not a.shape and a.lib == "py":
            continue             # Python numbers cannot be written to
        m[id(a.store)] = a.store
        if a.alias is not None:
            m[id(a.alias.store)] = a.alias.store
    return m


def shared(v, others):
    """first of the (name, value) pairs that shares memory with v"""
    m = memory(v)
    for st in m.values():
        if st.owner:
            return f"the caller's {st.owner}"
    for name, o in others:
        if set(m) & set(memory(o)):
            return name
    return None


def judge(rep, subj, r1, r2, others, w):
    for what, v, o in (("the result", r1, others), ("the result of a second call", r2, others + [("the result of the first call", r1)])):
        x = shared(v, o)
        if x is not None:
            rep.bad(RULE, subj, f"{what} shares memory with {x}", w)
            return
    if memory(r1) or not arrays(r1):
        rep.ok(RULE, subj, f"{len(memory(r1))} blocks of memory", w)
    else:
        rep.ok(RULE, subj, "a number", w)


def p37(run, rep):
    I = run.I
    for name in ("calculate_u", "check_if_covered"):
        w = pquery.where_method(run, name)
        q, k = pquery.q, run.k
        for lab, t, facts in (("interior indices", q, (ge(q - 6), ge(k - 6 - q))), ("indices 0..5", q, (ge(q), ge(5 - q)))):
            subj = f"{run.label()}.{name} {lab}"
            X = pquery.query_points(run, name)
            sn = (dict(I.S.heap), dict(I.S.attrs))
            u0 = len(I.unknowns)
            with pquery.CTX.bounds({pquery.QI: k}), pquery.CTX.fact(*facts):
                ti = mk((), t, "py", "int")
                r1 = I.force(run.method(name, [X, ti]))
                r2 = I.force(run.method(name, [X, ti]))
            keep = [(f"attribute {a}", v) for (oid, a), v in I.S.attrs.items() if oid == run.obj.oid and isinstance(v, Arr)]
            I.S.heap, I.S.attrs = sn
            if any(isinstance(v, Unk) for v in (r1, r2)):
                rep.und(RULE, subj, f"returns {describe(r1)}" + (f" ({I.unknowns[u0]})" if len(I.unknowns) > u0 else ""), w)
                continue
            judge(rep, subj, r1, r2, keep, w)
            pevents.unknowns(rep, RULE, subj, I.unknowns[u0:])


def functions(root, case, rep):
    kind = case[0]
    c = pfun.execute(root, case)
    s, I = c.s, c.I
    if kind == "dist":
        return
    again = getattr(s, "again", None)
    r1 = c.result
    if again is None or isinstance(r1, Unk):
        rep.und(RULE, c.label, f"returns {describe(r1)}", "")
        return
    u0 = len(I.unknowns)
    r2 = I.force(again())
    judge(rep, c.label, r1, r2, [], "")
    pevents.unknowns(rep, RULE, c.label, c.unknowns + I.unknowns[u0:])


PUBLIC = {"reweight_optimal_transport_multidim", "score_function_multid_seperate", "score_function_multid_seperate_all_dims", "score_function_multid_seperate_old",
          "torched_score_function_multid_seperate_all_dims", "Kernel", "gradient_X", "calculate_u"}


def stores(root, rep):
    """results are not handed out of a store that outlives the call (the second call would hand out the same memory)"""
    st = pstate.State(root)
    rule = "no result is handed out of a store that outlives the call"
    found = set()
    for l, rs in st.reads.items():
        if l[0] == "instance" or l not in st.writes:
            continue             # attributes of objects are followed by the interpreter
        for sc, n, up in rs:
            if sc.qual.split(".")[-1] not in PUBLIC:
                continue
            if handed_out(sc, n, up, l, st):
                found.add((sc.mod.name, sc.qual))
                rep.bad(rule, f"{sc.mod.name}.{sc.qual}", f"returns what {pstate.name_of(l)} holds, without copying it", pstate.where(sc, n))
    for m in st.mods.values():
        for sc in m.scopes:
            if sc.qual.split(".")[-1] in PUBLIC and (m.name, sc.qual) not in found:
                rep.ok(rule, f"{m.name}.{sc.qual}", "", pstate.where(sc, sc.node))


def handed_out(sc, n, up, l, st):
    kept = [v for _, _, _, v, _, kind in st.writes[l] if kind != "advanced"]
    if not any(array_like(v) for v in kept):
        return False
    cur = n
    for u in reversed(up):
        if isinstance(u, ast.Return):
            return u.value is cur or cur is n
        if isinstance(u, (ast.Subscript, ast.Attribute)) and u.value is cur:
            if isinstance(u, ast.Attribute) and u.attr not in ("get", "setdefault", "__getitem__"):
                return False
        elif isinstance(u, ast.Call) and u.func is cur or isinstance(u, (ast.IfExp, ast.BoolOp, ast.NamedExpr)) and not (isinstance(u, ast.IfExp) and u.test is cur):
            pass
        elif isinstance(u, ast.Assign) and u.value is cur and len(u.targets) == 1 and isinstance(u.targets[0], ast.Name):
            return only_name(sc, u.targets[0].id, u)
        else:
            return False
        cur = u
    return False


def only_name(sc, v, first):
    """is the variable returned as it is?"""
    ret = False
    for x in ast.walk(sc.node):
        if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == v:
            ret = True
        if isinstance(x, (ast.Assign, ast.AnnAssign)) and x is not first and x.lineno > first.lineno:
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            if len(ts) == 1 and isinstance(ts[0], ast.Name) and ts[0].id == v and isinstance(x.value, ast.Call) and any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(x.value)):
                return False     # v = v.copy() and the like
    return ret


def array_like(v):
    return v is not None and not isinstance(v, (ast.Constant, ast.Compare, ast.JoinedStr))
