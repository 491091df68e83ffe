"""Evaluation of guards in the finitely many orderings of a few symbolic numbers."""
from .engine import mk


def numof(E, t, env):
    if t in env:
        return env[t]
    if t.op == 'int':
        return t.a[0]
    if t.op == 'plus':
        x = numof(E, t.a[0], env)
        k = t.a[1] if isinstance(t.a[1], int) else numof(E, t.a[1], env)
        return None if x is None or k is None else x + k
    if t.op == 'cast':
        return numof(E, [x for x in t.a if hasattr(x, 'op')][-1], env)
    if t.op == 'op' and t.a[0] in ('min', 'max') and len(t.a) > 1:
        args = t.a[1] if isinstance(t.a[1], tuple) else t.a[1:]
        xs = [numof(E, x, env) for x in args]
        return None if None in xs else (min if t.a[0] == 'min' else max)(xs)
    if t.op == 'op' and t.a[0] in ('Add', 'Sub', 'Mul') and len(t.a) == 3:
        a, b = numof(E, t.a[1], env), numof(E, t.a[2], env)
        if a is None or b is None:
            return None
        return a + b if t.a[0] == 'Add' else a - b if t.a[0] == 'Sub' else a * b
    if t.op == 'g':
        m = assign(E, [g for g, _ in t.a[0]], env)
        r = [x for g, x in t.a[0] if E.B.subst(g, m) == 1]
        return numof(E, r[0], env) if len(r) == 1 else None
    return None


def assign(E, guards, env, extra=None):
    m = {}
    for g in guards:
        for v in E.B.support(g):
            d = E.vars[v]
            if extra and v in extra:
                m[v] = extra[v]
            elif d[0] in ('eq', 'lt') and len(d) >= 3 and hasattr(d[1], 'op') and hasattr(d[2], 'op'):
                a, b = numof(E, d[1], env), numof(E, d[2], env)
                if a is not None and b is not None:
                    m[v] = int(a == b if d[0] == 'eq' else a < b)
            elif d[0] == 'x' and hasattr(d[1], 'op'):
                a = numof(E, d[1], env)
                if a is not None:
                    m[v] = int(str(a) == str(d[2]))
            elif d[0] in ('next', 'partexists', 'exists', 'okcall'):
                m[v] = 1
    return m


def enum_rest(E, guards, m):
    """All assignments of the atoms left over (few: selection of one of several queued records)."""
    rest = []
    for g in guards:
        for v in E.B.support(E.B.subst(g, m)):
            if v not in rest:
                rest.append(v)
    if len(rest) > 6:
        return None
    out = [dict(m)]
    for v in rest:
        out = [dict(x, **{v: b}) if False else {**x, v: b} for x in out for b in (0, 1)]
    return out
