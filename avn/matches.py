"""`match` statements as the equivalent chain of `if` statements."""
import ast
from .terms import Undecided


def name(n, at, ctx=None):
    return ast.copy_location(ast.Name(n, ctx or ast.Load()), at)


def test(p, subj, at):
    """-> (condition or None when it always matches, [(name, subject)])"""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subj, [ast.Eq()], [p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)]), []
    if isinstance(p, ast.MatchAs):
        if p.pattern is None:
            return None, ([(p.name, subj)] if p.name else [])
        c, b = test(p.pattern, subj, at)
        return c, b + [(p.name, subj)]
    if isinstance(p, ast.MatchOr):
        cs = []
        for q in p.patterns:
            c, b = test(q, subj, at)
            if b:
                raise Undecided("match alternatives that bind names")
            if c is None:
                return None, []
            cs.append(c)
        return ast.BoolOp(ast.Or(), cs), []
    if isinstance(p, ast.MatchSequence) and isinstance(subj, ast.Tuple) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        if len(p.patterns) != len(subj.elts):
            return ast.Constant(False), []
        cs, bs = [], []
        for q, e in zip(p.patterns, subj.elts):
            c, b = test(q, e, at)
            bs += b
            if c is not None:
                cs.append(c)
        return (None if not cs else cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs)), bs
    raise Undecided(f"match pattern {type(p).__name__}")


def desugar(s):
    r = getattr(s, "_ifs", None)
    if r is not None:
        return r
    pre = []

    def hold(e, k):
        n = f"@match{s.lineno}_{s.col_offset}_{k}"
        pre.append(ast.Assign([name(n, s, ast.Store())], e))
        return name(n, s)
    if isinstance(s.subject, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in s.subject.elts):
        subj = ast.Tuple([hold(e, i) for i, e in enumerate(s.subject.elts)], ast.Load())
    else:
        subj = hold(s.subject, 0)

    def chain(cases):
        if not cases:
            return []
        c, rest = cases[0], cases[1:]
        t, b = test(c.pattern, subj, s)
        binds = [ast.Assign([name(n, s, ast.Store())], e) for n, e in b]
        more = chain(rest) if c.guard is not None or t is not None else []
        inner = binds + ([ast.If(c.guard, list(c.body), more)] if c.guard is not None else list(c.body))
        return inner if t is None else [ast.If(t, inner, more)]
    out = pre + chain(s.cases)
    for st in out:
        for x in ast.walk(st):
            if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, "lineno"):
                x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = s.lineno, s.col_offset, s.lineno, s.col_offset
    s._ifs = out
    return out
