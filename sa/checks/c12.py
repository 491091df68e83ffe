from ..wsheet import sheet, COL, COL_ATTRS
from ..codec import check_spec, check_parent, order_rule, dup_check, guards_of
from ..engine import Engine, State, mk, fmt, Ref
from ..order import numof, assign, enum_rest
from .. import models as M

EXPLAIN = ('The worksheet reader and writer are interpreted in one abstract state (guarded value flow over MIR); each attribute of every '
           'written <col> is compared, for every token class of the attribute read, with the meaning the schema gives it. The edit of one column '
           'is interpreted on one generic record of the list and its outcome compared in every ordering of the record bounds and the column.')
RULE = 'col attribute written == col attribute read; an edit of column n changes column n only and keeps the records of all other columns'

ORDERINGS = [('the only column of a range', 5, 5, 5), ('first of a range', 5, 9, 5), ('last of a range', 5, 9, 9), ('inside a range', 5, 9, 7),
             ('first of two', 5, 6, 5), ('last of two', 5, 6, 6), ('middle of three', 5, 7, 6), ('second of a range', 5, 9, 6),
             ('last but one of a range', 5, 9, 8), ('before a range', 5, 9, 3), ('just before a range', 5, 9, 4),
             ('just after a range', 5, 9, 10), ('after a range', 5, 9, 12), ('just before a single column', 5, 5, 4),
             ('just after a single column', 5, 5, 6)]


def run(ctx):
    sc = sheet(ctx)
    if sc is None:
        return
    n = check_spec(ctx, sc, 'col', COL, COL_ATTRS, mandatory=('min', 'max'))
    ctx.need('written <col> elements', n, 1)
    if not order_rule(ctx, sc, 'col'):
        ctx.unknown('order of <col> records', 'records are not queued in a list')
    check_parent(ctx, sc, 'col', ['cols'])
    dup_check(ctx, sc, ['col', 'cols'])
    edit(ctx)


def edit(ctx):
    fn = ctx.fn('WorkSheet::set_column_index_properties_mut')
    ctx.need('column edit entry point', int(fn is not None), 1)
    if fn is None:
        return
    P = ctx.P
    ws = P.types[P.types[fn.locals[1][0]]['t']]
    rt = next(t for t in P.types if t['k'] == 'adt' and t['name'].endswith('::ColumnProperties'))
    fields = [f for f, _ in rt['v'][0]['f']]
    ci = [i for i, (f, t) in enumerate(ws['v'][0]['f']) if 'ColumnProperties' in P.types[t]['s']]
    if len(ci) != 1 or not {'min', 'max'} <= set(fields):
        ctx.unknown('column edit', 'the list of column records was not found in the worksheet')
        return
    ci = ci[0]
    ft = P.types[ws['v'][0]['f'][ci][1]]
    opt = ft['name'].endswith('Option')
    if not any(w in ft['s'] for w in ('Vec<', 'VecDeque<')):
        ctx.unknown('column edit', 'column records are kept in ' + ft['s'][:60])
        return
    for start in ('list', 'none') if opt else ('list',):
        E = Engine(P)
        st = State(1, {})
        sym = lambda n: mk('S', (), 0, n, True)
        rec = mk('agg', rt['name'], 0, tuple(sym('record.' + f) for f in fields))
        lst = mk('vec', M.EMPTY, ((1, 'many', rec, 'b'),))
        coll = lst if not opt else mk('agg', ft['name'], 1, (lst,)) if start == 'list' else mk('agg', ft['name'], 0, ())
        part = mk('agg', ws['name'], 0, tuple(coll if i == ci else sym('sheet.' + f) for i, (f, t) in enumerate(ws['v'][0]['f'])))
        root, cr = ('H', 'part'), ('H', 'col')
        st.st[root] = part
        col = sym('col')
        st.st[cr] = col
        pt = P.types[fn.locals[3][0]]
        for given in (1, 0):
            st2 = State(1, dict(st.st))
            props = mk('agg', rt['name'], 0, tuple(sym('given.' + f) for f in fields))
            arg = mk('agg', pt['name'], given, (props,) if given else ())
            E.call_fn(st2, fn, [Ref(root), Ref(cr), arg], ('edit', given, fn.key), ())
            out = E.deep(st2, st2.st[root])
            outcome(ctx, E, out, ci, fields, rec, col, props, start, given)
        ctx.count('column edit functions interpreted', len(E.fns_seen))


def outcome(ctx, E, out, ci, fields, rec, col, props, start, given):
    imin, imax = fields.index('min'), fields.index('max')
    lists = []
    for g, p in E.alts(out):
        c = p.a[2][ci]
        for g2, o in E.alts(c):
            g3 = E.B.AND(g, g2)
            if o.op == 'agg' and o.a[2]:
                lists += [(E.B.AND(g3, g4), v) for g4, v in E.alts(o.a[2][0])]
            elif o.op == 'agg':
                lists.append((g3, mk('vec', M.EMPTY, ())))
            else:
                lists += [(E.B.AND(g3, g4), v) for g4, v in E.alts(o)]
    for what, lo, hi, c in ORDERINGS if start == 'list' else [('in a sheet without column records', 5, 5, 5)]:
        env = {rec.a[2][imin]: lo, rec.a[2][imax]: hi, col: c}
        got = set()
        odd = None
        for g, v in lists:
            if v.op != 'vec' or v.a[0] is not M.EMPTY:
                if E.B.subst(g, assign(E, [g], env)):
                    odd = v
                continue
            for e in v.a[1]:
                if e[2].op != 'agg':
                    if E.B.subst(E.B.AND(g, e[0]), assign(E, [g, e[0]], env)):
                        odd = e[2]
                    continue
                w = E.B.AND(g, e[0])
                gs = [w]
                for t in e[2].a[2]:
                    guards_of(E, t, gs)
                m = assign(E, gs, env)
                rest = enum_rest(E, gs, m)
                if rest is None:
                    odd = e[2]
                    continue
                for m2 in rest:
                    if E.B.subst(w, m2) != 1:
                        continue
                    vals = []
                    for t in e[2].a[2]:
                        xs = [x for x_g, x in E.alts(E.bsubst(t, m2)) if x_g]
                        vals.append(xs[0] if len(xs) == 1 else None)
                    if None in vals:
                        continue
                    a, b = numof(E, vals[imin], env), numof(E, vals[imax], env)
                    if a is None or b is None:
                        odd = vals[imin if a is None else imax]
                        continue
                    src = tuple(x for i, x in enumerate(vals) if i not in (imin, imax))
                    got.add((a, b, src))
        keep = tuple(x for i, x in enumerate(rec.a[2]) if i not in (imin, imax))
        new = tuple(x for i, x in enumerate(props.a[2]) if i not in (imin, imax))
        want = set()
        if start == 'list':
            if not lo <= c <= hi:
                want.add((lo, hi, keep))
            else:
                if lo < c:
                    want.add((lo, c - 1, keep))
                if c < hi:
                    want.add((c + 1, hi, keep))
        if given:
            want.add((c, c, new))
        label = 'edit: column %s, %s' % (what, 'settings given' if given else 'settings cleared')
        if odd is not None:
            ctx.unknown(label, fmt(odd, 2)[:120])
        elif got == want:
            ctx.ok('column edit orderings', label)
        else:
            def show(s):
                r = []
                for a, b, src in sorted(s, key=lambda x: (x[0], x[1])):
                    ok = 'own properties' if src == keep else 'the given properties' if src == new else 'altered properties'
                    r.append('%d-%d (%s)' % (a, b, ok))
                return ', '.join(r) or 'none'
            ctx.bad(label, 'column %d with a record %d-%d: the records left are %s instead of %s' % (c, lo, hi, show(got), show(want)))
