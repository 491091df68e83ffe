"""C19: cell writes land where asked, typed as documented, inside the recorded extent."""
from .. import pkg
from .. import models as M
from ..engine import Engine, State, mk, fmt, Ref, Dead, T
from ..pkg import mentions

EXPLAIN = ('The row-writing operations are interpreted (guarded value flow over MIR) on an arbitrary sheet and an arbitrary list of values: the loop over the values is '
           'summarised by one arbitrary step (induction variables become start + n), and the resulting cell map, typing, extent and refusals are compared with the '
           'specification for every variant of the requested type and every class of value.')
RULE = ('key of the n-th value == start column + n; other rows, cells and row properties untouched; stored type and value as documented; extent == min/max over the '
        'old extent and every stored column; refusal exactly for positions outside the sheet')
ASSUME = ['the conversion between column letters and numbers is taken as exact (C28)', 'a text is a number iff Rust parses it as a finite f64',
          'shared text ids come from the shared string service (C09)']

NEXT = 'std::iter::Iterator::next'


def sym(n):
    return mk('S', (), 0, n, True)


def adt(P, suffix):
    for t in P.types:
        if t['k'] == 'adt' and t['name'].endswith('::' + suffix):
            return t
    return None


def fields(t):
    return [f for f, _ in t['v'][0]['f']] if t else []


def variants(t):
    return [v['n'] for v in t['v']] if t else []


def items_next(c):
    """Items of a list visited by reference: every item is visited once, as it was before the loop."""
    E, st = c.E, c.st
    it = c.ld(0)
    if it.op != 'iter' or it.a[1] != 'ref' or it.a[2]:
        return M.m_next(c)
    src = it.a[0]
    if src.op != 'ref':
        return M.m_next(c)
    r = E.lastref(st, src)
    v = E.load(st, r)
    if v.op != 'vec' or v.a[0] is not M.EMPTY or len(v.a[1]) != 1 or v.a[1][0][1] != 'many':
        return M.m_next(c)
    g, mult, item, d = v.a[1][0]
    if not mentions(item, lambda z: z.op == 'S' and str(z.a[2]).startswith('value.')):
        return M.m_next(c)
    S = c.fresh('item', v.a[0], M.Str('next'))
    nx = E.atom('next', S)
    root = ('H', c.fr.ctx, ('it', c.b))
    prev = st.st.get(root)
    orig = E.orig.setdefault((c.fr.ctx, c.b), item)
    if prev is not None:
        E.store(st, r, mk('vec', v.a[0], ((g, mult, prev, d),)))
    st.st[root] = orig
    return E.g([(nx, M.Some(Ref(root))), (E.B.NOT(nx), M.NONE)])


def items_index(c):
    """Items of a list visited by position in a loop over all positions."""
    E, st = c.E, c.st
    i = E.deep(st, c.ld(1))
    src = c.args[0]
    if src.op != 'ref' or i.op != 'S' or str(i.a[2]) not in ('range', 'iv', 'item'):
        return M.m_index(c)
    r = E.lastref(st, src)
    v = E.load(st, r)
    if v.op != 'vec' or v.a[0] is not M.EMPTY or len(v.a[1]) != 1 or v.a[1][0][1] != 'many':
        return M.m_index(c)
    g, mult, item, d = v.a[1][0]
    if not mentions(item, lambda z: z.op == 'S' and str(z.a[2]).startswith('value.')):
        return M.m_index(c)
    root, at = ('H', c.fr.ctx, ('it', c.fr.fn.key)), ('H', c.fr.ctx, ('at', c.fr.fn.key))
    if st.st.get(at) is i:
        return Ref(root)
    st.st[at] = i
    prev = st.st.get(root)
    orig = E.orig.setdefault((c.fr.ctx, c.fr.fn.key), item)
    if prev is not None:
        E.store(st, r, mk('vec', v.a[0], ((g, mult, prev, d),)))
    st.st[root] = orig
    return Ref(root)


def shared(c):
    """The shared string service: an id for the text."""
    E = c.E
    v = E.deep(c.st, c.ld(1))
    if v.op == 'ref':
        v = E.load(c.st, v)
    ok = E.atom('okcall', c.fresh('shared'))
    return E.g([(ok, M.Ok(mk('op', 'shared', v))), (E.B.NOT(ok), M.Err(mk('err')))])


def reorder(orig, name):
    """Reordering the list of values: remembered."""
    def f(c):
        E = c.E
        v = E.deep(c.st, c.ld(0))
        if v.op == 'ref':
            v = E.load(c.st, v)
        if mentions(v, lambda z: z.op == 'S' and str(z.a[2]).startswith('value.')):
            E.reordered[name, c.fr.fn.short] = c.st.pc
        return orig(c) if orig else None
    return f


def total(name, n):
    """A fallible conversion: its results are opaque parts of the argument."""
    def f(c):
        E = c.E
        v = E.deep(c.st, c.ld(0))
        if v.op == 'ref':
            v = E.load(c.st, v)
        ok = E.atom('okcall', mk('op', name, v))
        x = mk('op', name, v) if n == 1 else M.Agg('tuple', 0, tuple(mk('op', '%s%d' % (name, i), v) for i in range(n)))
        return E.g([(ok, M.Ok(x)), (E.B.NOT(ok), M.Err(mk('err')))])
    return f


def keyvalue(which):
    def f(c):
        E = c.E
        v = E.deep(c.st, c.ld(0))
        if v.op == 'ref':
            v = E.load(c.st, v)
        ne = E.atom('nonempty', v)
        root = ('H', c.fr.ctx, ('kv', which, c.b))
        c.st.st[root] = mk('op', which + 'key', v)
        return E.g([(ne, M.Some(M.Agg('tuple', 0, (Ref(root), mk('op', which + 'value', v))))), (E.B.NOT(ne), M.NONE)])
    return f


def engine(P):
    E = Engine(P, budget=400000)
    E.models = dict(E.models)
    E.orig = {}
    E.models[NEXT] = items_next
    E.models['std::ops::IndexMut::index_mut'] = E.models['std::ops::Index::index'] = items_index
    for name, fn in (('get_string_id_mut', shared), ('ConverterUtil::get_cell_index', total('cellref', 2)),
                     ('ConverterUtil::get_column_ref', total('colref', 1)), ('ConverterUtil::get_column_index', total('colidx', 1))):
        for f in P.lib.values():
            if f.short.endswith('::' + name):
                for k in (f.path, f.short, f.name if hasattr(f, 'name') else f.short):
                    E.models[k] = fn
    E.reordered = {}
    for k in ('reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'rotate_left', 'rotate_right', 'swap', 'sort_by_cached_key'):
        for path in ('core::slice::<impl [T]>::' + k, 'std::slice::<impl [T]>::' + k, 'alloc::slice::<impl [T]>::' + k, 'std::vec::Vec::<T, A>::' + k):
            E.models[path] = reorder(E.models.get(path), k)
    for w in ('first', 'last'):
        for k in list(M.MODELS) + ['std::collections::BTreeMap::<K, V, A>::%s_key_value' % w]:
            if k.endswith('%s_key_value' % w):
                E.models[k] = keyvalue(w)
    return E


class Sheet:
    def __init__(self, ctx):
        P = self.P = ctx.P
        self.ws, self.row, self.cell, self.dt, self.dim = (adt(P, n) for n in ('WorkSheet', 'RowData', 'CellProperties', 'CellDataType', 'Dimension'))
        self.ok = all((self.ws, self.row, self.cell, self.dt, self.dim))
        if not self.ok:
            return
        F = fields(self.ws)
        self.F = F

        def one(l):
            return l[0] if len(l) == 1 else None
        ty = lambda t: P.types[t]['s']
        self.i_data = one([i for i, (f, t) in enumerate(self.ws['v'][0]['f']) if 'RowData' in ty(t)])
        self.i_dim = one([i for i, (f, t) in enumerate(self.ws['v'][0]['f']) if 'Dimension' in ty(t)])
        self.r_cells = one([i for i, (f, t) in enumerate(self.row['v'][0]['f']) if 'CellProperties' in ty(t)])
        self.r_props = one([i for i, (f, t) in enumerate(self.row['v'][0]['f']) if 'RowProperties' in ty(t)])
        D = fields(self.dim)
        self.d_start, self.d_end = one([i for i, f in enumerate(D) if 'start' in f]), one([i for i, f in enumerate(D) if 'end' in f])
        C = fields(self.cell)
        self.C = C
        self.c_type = C.index('data_type') if 'data_type' in C else None
        self.c_value = C.index('value') if 'value' in C else None
        self.V = variants(self.dt)
        self.ok = None not in (self.i_data, self.i_dim, self.r_cells, self.r_props, self.d_start, self.d_end, self.c_type, self.c_value)

    def sheet(self, data):
        vals = [data if i == self.i_data else sym('sheet.' + f) for i, f in enumerate(self.F)]
        vals[self.i_dim] = mk('agg', self.dim['name'], 0, tuple(sym('extent.' + f) for f in fields(self.dim)))
        return mk('agg', self.ws['name'], 0, tuple(vals))


def run(ctx):
    S = Sheet(ctx)
    ctx.need('worksheet, row, cell and extent types', int(S.ok), 1)
    if not S.ok:
        return
    write(ctx, S)
    by_ref(ctx, S)
    reference(ctx)
    properties(ctx, S)
    extent_written(ctx, S)
    extent_loaded(ctx, S)
    extent_everywhere(ctx, S)


# ------------------------------------------------------------------ linear positions
def linear(t):
    """t as {symbol: coefficient} with key 1 for the constant and 'n' for the number of earlier values; None if not linear."""
    if t.op == 'int':
        return {1: t.a[0]}
    if t.op == 'plus':
        r = linear(t.a[0])
        if r is None or not isinstance(t.a[1], int):
            return None
        r = dict(r)
        r[1] = r.get(1, 0) + t.a[1]
        return r
    if t.op == 'cast':
        y = [z for z in t.a if hasattr(z, 'op')]
        return linear(y[-1]) if y else None
    if t.op == 'op' and t.a[0] in ('Add', 'AddUnchecked', 'wrapping_add', 'saturating_add') and len(t.a) == 3:
        a, b = linear(t.a[1]), linear(t.a[2])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + v
        return r
    if t.op == 'op' and t.a[0] == 'Sub' and len(t.a) == 3:
        a, b = linear(t.a[1]), linear(t.a[2])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) - v
        return r
    if t.op == 'S':
        k = str(t.a[2]).rstrip('~')
        if k == 'iv':
            r = linear(t.a[4])
            if r is None or t.a[5].op != 'int':
                return None
            r = dict(r)
            r['n'] = r.get('n', 0) + t.a[5].a[0]
            return r
        if k == 'index':
            return {'n': 1}
        return {t: 1}
    if t.op in ('op', 'f', 'vf', 'len'):
        return {t: 1}
    return None


def clean(r):
    return None if r is None else {k: v for k, v in r.items() if v}


def number(t, env):
    """Numeric value of a term for one concrete position."""
    if t.op == 'len':
        return env.get('len')
    r = linear(t)
    if r is None:
        return None
    s = 0
    for k, v in r.items():
        if k == 1:
            s += v
        elif k == 'n':
            return None
        elif k.op == 'len' if hasattr(k, 'op') else False:
            s += v * env['len']
        elif k in env:
            s += v * env[k]
        else:
            return None
    return s


# ------------------------------------------------------------------ writing a row of values
def write(ctx, S):
    fn = ctx.fn('WorkSheet::set_row_value_index_mut')
    ctx.need('row writing operation', int(fn is not None), 1)
    if fn is None:
        return
    P = ctx.P
    row, col = sym('row'), sym('col')
    V = mk('agg', S.cell['name'], 0, tuple(sym('value.' + f) for f in S.C))
    seen = 0
    for start in ('none', 'some'):
        E = engine(P)
        st = State(1, {})
        rows = sym('rows')
        data = mk('agg', 'Option', 0, ()) if start == 'none' else mk('agg', 'Option', 1, (rows,))
        root = ('H', 'sheet')
        st.st[root] = S.sheet(data)
        cells = mk('vec', M.EMPTY, ((1, 'many', V, 'b'),))
        try:
            res = E.call_fn(st, fn, [Ref(root), row, col, cells], ('write', 0, fn.key), ())
        except Dead:
            ctx.bad('never succeeds', 'writing a row of values never returns')
            return
        ctx.count('functions analysed', len(E.fns_seen))
        ctx.count('calls resolved', E.calls_seen)
        for n in E.notes:
            ctx.notes.append(n)
        for (how, where), pc in E.reordered.items():
            if pc != 0:
                ctx.bad('values reordered', 'the list of values is reordered (%s) before it is stored' % how)
        if start == 'some':
            refusals(ctx, E, res, row, col)
        succ = 0
        for g, x in E.alts(res):
            if x.op == 'agg' and x.a[1] == 0:
                succ = E.B.OR(succ, g)
        after = st.st[root]
        for case in (('new sheet',) if start == 'none' else ('new row', 'row without cells', 'row with cells')):
            seen += one_case(ctx, S, E, after, succ, case, row, col, rows, V)
    ctx.need('prior sheet states', seen, 4)


def base_dec(E, case, row, rows, more=None):
    def dec(d):
        if more:
            r = more(d)
            if r is not None:
                return r
        if d[0] == 'haskey' and d[1] is rows:
            return int(case != 'new row')
        if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and mentions(d[1], lambda z: z.op == 'mapval'):
            return int((d[2] == 1) == (case == 'row with cells'))
        if d[0] in ('okcall',):
            return 1
        if d[0] == 'next':
            return 1
        return None
    return dec


def positions(E, row, col, r, c, n):
    """Decide comparisons of the position for one concrete start and number of values."""
    env = {row: r, col: c, 'len': n}

    def dec(d):
        if d[0] in ('lt', 'eq', 'x'):
            a = number(d[1], env) if hasattr(d[1], 'op') else d[1]
            b = number(d[2], env) if hasattr(d[2], 'op') else d[2]
            if isinstance(a, int) and isinstance(b, int):
                return int(a < b) if d[0] == 'lt' else int(a == b)
        if d[0] == 'inrange' and hasattr(d[1], 'op'):
            a = number(d[1], env)
            lo, hi = [x.a[0] if getattr(x, 'op', '') == 'int' else x for x in d[2:4]] if len(d) >= 4 else (None, None)
            if isinstance(a, int) and isinstance(lo, int) and isinstance(hi, int):
                return int(lo <= a <= hi)
        return None
    return dec


def refusals(ctx, E, res, row, col):
    bad = 0
    for g, x in E.alts(res):
        if x.op == 'agg' and x.a[1] == 1:
            bad = E.B.OR(bad, g)
    for r in (0, 1, 7, 1048576, 1048577):
        for c in (0, 1, 5, 16384, 16385, 20000):
            for n in (1, 2, 16384):
                valid = 1 <= r <= 1048576 and 1 <= c and c + n - 1 <= 16384
                pos = positions(E, row, col, r, c, n)

                def dec(d):
                    x = pos(d)
                    if x is not None:
                        return x
                    if d[0] in ('okcall', 'next'):
                        return 1
                    return None
                g = pkg.guard_case(E, bad, dec)
                what = 'row %d, column %d, %d values' % (r, c, n)
                if g == int(not valid):
                    ctx.ok('positions', what)
                elif g in (0, 1):
                    ctx.bad('position %s' % ('refused' if valid else 'accepted'), 'writing at %s is %s' % (what, 'refused' if valid else 'accepted, it is outside the sheet'))
                else:
                    names = {E.vars[v][0] for v in E.B.support(g)}
                    if valid and names & {'parseok', 't', 'x', 'finite', 'nan'}:
                        ctx.bad('value refused', 'a value is refused when %s' % E.bfmt(g, 1)[:140])
                    else:
                        ctx.unknown('positions: ' + what, E.bfmt(g, 1)[:100])


PLACES = ((7, 5, 2), (1, 1, 1), (1048576, 16384, 1), (300, 27, 300), (70000, 703, 15000))


def one_case(ctx, S, E, after, succ, case, row, col, rows, V):
    return max(one_place(ctx, S, E, after, succ, case, row, col, rows, V, positions(E, row, col, *p)) for p in PLACES)


def one_place(ctx, S, E, after, succ, case, row, col, rows, V, pos):
    dec = base_dec(E, case, row, rows, pos)
    label = 'writing into a ' + case
    data = E.proj(after, ('f', S.i_data))
    cases = [(w, x) for w, x in pkg.case(E, data, dec) if E.B.AND(w, pkg.guard_case(E, succ, dec))]
    if not cases:
        ctx.bad(label + ': nothing stored', '%s: no cell is stored' % label)
        return 0
    n = 0
    for w, x in cases:
        if x.op == 'upd' or x.op == 'agg' and x.a[1] == 1:
            m = E.proj(x, ('vf', 1, 0)) if x.op == 'upd' else x.a[2][0]
        elif x.op == 'agg':
            ctx.bad(label + ': nothing stored', '%s: the sheet stays without rows' % label)
            continue
        else:
            ctx.unknown(label, fmt(x, 2)[:100])
            continue
        for w2, m in pkg.case(E, m, dec):
            n = 1
            the_rows(ctx, S, E, m, case, label, row, col, rows, V, pos)
    # the recorded extent
    dim = E.proj(after, ('f', S.i_dim))
    for i, kind in ((S.d_start, 'min'), (S.d_end, 'max')):
        old = sym('extent.' + fields(S.dim)[i])
        for w, x in pkg.case(E, E.proj(dim, ('f', i)), dec):
            if not E.B.AND(w, pkg.guard_case(E, succ, dec)):
                continue
            extent(ctx, E, x, old, kind, col, '%s: %s column of the extent' % (label, 'first' if kind == 'min' else 'last'))
    return n


def the_rows(ctx, S, E, m, case, label, row, col, rows, V, pos):
    base = M.EMPTY if case == 'new sheet' else rows
    if m is rows:
        ctx.bad(label + ': nothing stored', '%s: the rows stay as they were' % label)
        return
    if m.op != 'map':
        ctx.unknown(label, fmt(m, 2)[:100])
        return
    if m.a[0] is not base:
        ctx.bad(label + ': other rows', '%s: the other rows are not kept' % label)
        return
    for k, mult, v in m.a[1]:
        lk = clean(linear(k))
        if lk == {row: 1}:
            ctx.ok('row written', label)
        elif lk is None:
            ctx.unknown(label + ': row', fmt(k, 2)[:80])
            continue
        else:
            ctx.bad(label + ': other row', '%s: row %s is written' % (label, fmt(k, 2)[:80]))
            continue
        for w, x in pkg.case(E, v, base_dec(E, case, row, rows, pos)):
            the_row(ctx, S, E, x, case, label, row, col, rows, V, pos)


def the_row(ctx, S, E, x, case, label, row, col, rows, V, pos):
    old = mk('mapval', rows, row)
    here = case in ('row without cells', 'row with cells')
    if x.op == 'absent':
        ctx.bad(label + ': row removed', '%s: the row is removed' % label)
        return
    props = E.proj(x, ('f', S.r_props))
    oldp = E.proj(old, ('f', S.r_props))
    for w, p in pkg.case(E, props, base_dec(E, case, row, rows, pos)):
        if here:
            if p is oldp:
                ctx.ok('row properties kept', label)
            elif p.op in ('agg', 'S', 'upd'):
                ctx.bad(label + ': row properties', '%s: the properties of the row are replaced by %s' % (label, fmt(p, 3)[:80]))
            else:
                ctx.unknown(label + ': row properties', fmt(p, 2)[:80])
    cells = E.proj(x, ('f', S.r_cells))
    oldc = E.proj(E.proj(old, ('f', S.r_cells)), ('vf', 1, 0))
    base = oldc if case == 'row with cells' else M.EMPTY
    for w, c in pkg.case(E, cells, base_dec(E, case, row, rows, pos)):
        if c.op == 'upd' or c.op == 'agg' and c.a[1] == 1:
            c = E.proj(c, ('vf', 1, 0)) if c.op == 'upd' else c.a[2][0]
        elif c is E.proj(old, ('f', S.r_cells)) or c.op == 'agg':
            ctx.bad(label + ': nothing stored', '%s: no cell is stored in the row' % label)
            continue
        for w2, c in pkg.case(E, c, base_dec(E, case, row, rows, pos)):
            if c is oldc:
                ctx.bad(label + ': nothing stored', '%s: no cell is stored in the row' % label)
            elif c.op != 'map':
                ctx.unknown(label + ': cells', fmt(c, 2)[:100])
            elif c.a[0] is not base:
                ctx.bad(label + ': other cells', '%s: the other cells of the row are not kept' % label)
            else:
                ctx.ok('other cells kept', label)
                if not c.a[1]:
                    ctx.bad(label + ': nothing stored', '%s: no cell is stored in the row' % label)
                for k, mult, v in c.a[1]:
                    for w3, k in pkg.case(E, k, base_dec(E, case, row, rows, pos)):
                        the_key(ctx, E, k, col, label)
                    the_value(ctx, S, E, v, V, label, case, row, rows, pos)


def the_key(ctx, E, k, col, label):
    lk = clean(linear(k))
    if lk == {col: 1, 'n': 1}:
        ctx.ok('position of the n-th value', label)
    elif lk is None or any(getattr(z, 'op', '') == 'op' or z not in (1, 'n', col) and getattr(z, 'op', '') != 'S' for z in lk):
        ctx.unknown(label + ': column', fmt(k, 3)[:100])
    else:
        ctx.bad(label + ': column', '%s: the n-th value is stored at column %s' % (label, ' + '.join(
            '%s%s' % ('%d*' % v if v != 1 else '', 'start' if z is col else 'n' if z == 'n' else '1' if z == 1 else fmt(z, 2)[:40]) for z, v in lk.items())))


def the_value(ctx, S, E, v, V, label, case, row, rows, pos):
    val, typ = sym('value.value'), sym('value.data_type')
    text = mk('vf', val, 1, 0)
    backs = [d for d in set(guard_atoms(E, v)) if d[0] == 'next' and any(str(getattr(a, 'a', [''])[0]) in ("'rev'", 'rev', 'next_back', 'map_rev')
                                                                           for a in d[1].a[4:] if hasattr(a, 'op') and a.op == 'str')]
    if backs:
        ctx.bad(label + ': order', '%s: the values are stored in reverse order' % label)
        return
    plan = []
    for i, n in enumerate(S.V):
        plan.append((i, n, 0, None))
        if n == 'Auto':
            for tok in ('number', 'integer', 'infinite', 'true', 'false', 'text'):
                plan.append((i, n, 1, tok))
        elif n == 'Boolean':
            for tok in ('true', 'false', '1', '0'):
                plan.append((i, n, 1, tok))
        else:
            for tok in ('text', 'integer', 'number', 'true'):
                plan.append((i, n, 1, tok))
    num = S.V.index('Number') if 'Number' in S.V else None
    boo = S.V.index('Boolean') if 'Boolean' in S.V else None
    sha = S.V.index('ShareString') if 'ShareString' in S.V else None
    for i, n, present, tok in plan:
        def more(d, i=i, n=n, present=present, tok=tok):
            t = d[1] if len(d) > 1 else None
            if d[0] == 'x' and getattr(t, 'op', '') == 'discr':
                if t.a[0] is typ:
                    return int(d[2] == i)
                if t.a[0] is val:
                    return int(d[2] == present)
            if d[0] == 'eq' and any(x is typ for x in d[1:]):
                o = [x for x in d[1:] if x is not typ]
                if o and getattr(o[0], 'op', '') == 'agg':
                    return int(o[0].a[1] == i)
            if d[0] == 'parseok' and mentions(t, lambda z: z is text):
                k = str(d[2].a[0]).lower() if hasattr(d[2], 'op') else ''
                if k in ('f64', 'f32'):
                    return int(tok in ('number', 'integer', 'infinite', '1', '0'))
                if k[:1] in 'iu' and (k[1:].isdigit() or k[1:] == 'size'):
                    return int(tok in ('integer', '1', '0'))
                if k == 'bool':
                    return int(tok in ('true', 'false'))
                return None
            if d[0] == 'finite':
                return int(tok in ('number', 'integer', '1', '0'))
            if d[0] == 'nan':
                return 0
            if d[0] in ('x', 'eq') and getattr(t, 'op', '') in ('vf', 'op') and mentions(t, lambda z: z is text):
                c = d[2] if not hasattr(d[2], 'op') else d[2].a[0] if d[2].op == 'str' else None
                if isinstance(c, str) and t.op in ('vf',):
                    return int(c == tok) if tok not in ('number', 'integer', 'infinite', 'text') else 0
                if isinstance(c, str) and t.a[0] in ('lower', 'to_lowercase', 'to_ascii_lowercase', 'trim', 'lowercase'):
                    return int(c == tok) if tok not in ('number', 'integer', 'infinite') else 0
            return pos(d)
        dec = base_dec(E, case, row, rows, more)
        what = '%s %s' % (n, tok if present else 'without value')
        for w, x in pkg.case(E, v, dec):
            if x.op == 'absent':
                ctx.bad('%s: not stored' % what, '%s: a value of type %s is not stored%s' % (label, what, '' if w == 1 else ' when ' + E.bfmt(w, 1)[:80]))
                continue
            t, u = E.proj(x, ('f', S.c_type)), E.proj(x, ('f', S.c_value))
            for j, f in enumerate(S.C):
                if j in (S.c_type, S.c_value):
                    continue
                for w2, y in pkg.case(E, E.proj(x, ('f', j)), dec):
                    if y is sym('value.' + f):
                        ctx.ok('cell properties kept', f)
                    else:
                        ctx.bad('%s: changed' % f, '%s: the %s of a cell becomes %s' % (label, f, fmt(y, 3)[:80]))
            for w2, y in pkg.case(E, t, dec):
                if not E.B.AND(w, w2):
                    continue
                k = y.a[1] if y.op == 'agg' else i if y is typ else None
                if n == 'Auto':
                    want = {num} if not present or tok in ('number', 'integer') else {boo} if tok in ('true', 'false') else {sha}
                else:
                    want = {i, num} if not present else {i}
                if k is None:
                    ctx.unknown('type of ' + what, fmt(y, 2)[:80])
                elif k in want:
                    ctx.ok('cell type', what)
                else:
                    amb = [d for d in atoms(E, w2) if d[0] in ('x', 'eq', 'eq_ignore_case', 'parseok') and mentions_any(d, text)]
                    if amb:
                        ctx.unknown('type of ' + what, '%s when %s' % (S.V[k], E.bfmt(w2, 1)[:80]))
                    else:
                        ctx.bad('%s: typed %s' % (what, S.V[k]), '%s: a value (%s) is stored with type %s' % (label, what, S.V[k]))
            for w2, y in pkg.case(E, u, dec):
                if not E.B.AND(w, w2):
                    continue
                stored(ctx, S, E, y, w2, n, tok, present, val, text, what, label, dec)


def stored(ctx, S, E, y, w, n, tok, present, val, text, what, label, dec):
    if y is val or y.op == 'agg' and y.a[1] == 1 and y.a[2][0] is text:
        got = 'the text'
    elif y.op == 'agg' and y.a[1] == 0:
        got = 'nothing'
    elif y.op == 'agg' and y.a[1] == 1:
        z = y.a[2][0]
        opts = pkg.case(E, z, dec)
        if len(opts) > 1:
            for w2, q in opts:
                if E.B.AND(w, w2):
                    stored(ctx, S, E, mk('agg', y.a[0], 1, (q,)), E.B.AND(w, w2), n, tok, present, val, text, what, label, dec)
            return
        z = opts[0][1] if opts else z
        if z.op == 'str':
            got = z.a[0]
        elif mentions(z, lambda q: q.op == 'op' and q.a[0] == 'shared' and mentions(q, lambda p: p is text or p is val)):
            got = 'the shared text id'
        elif z is text:
            got = 'the text'
        else:
            ctx.unknown('value of ' + what, fmt(z, 3)[:100])
            return
    else:
        ctx.unknown('value of ' + what, fmt(y, 3)[:100])
        return
    if not present:
        want = {'nothing', 'the text'}
    elif n == 'Auto':
        want = {'number': {'the text'}, 'integer': {'the text'}, 'true': {'1'}, 'false': {'0'}}.get(tok, {'the shared text id'})
    elif n == 'ShareString':
        want = {'the shared text id'}
    elif n == 'Boolean':
        want = {'true': {'1'}, '1': {'1'}, 'false': {'0'}, '0': {'0'}}[tok]
    else:
        want = {'the text'}
    if got in want:
        ctx.ok('cell value', what)
        return
    amb = [d for d in atoms(E, w) if d[0] in ('x', 'eq', 'eq_ignore_case', 'parseok') and mentions_any(d, text)]
    if amb:
        ctx.unknown('value of ' + what, '%s when %s' % (got, E.bfmt(w, 1)[:80]))
    else:
        ctx.bad('%s: %s stored' % (what, got), '%s: for a value (%s) %s is stored instead of %s' % (label, what, got, ' or '.join(sorted(want))))


def atoms(E, g):
    return [E.vars[v] for v in E.B.support(g)] if g not in (0, 1) else []


def guard_atoms(E, t):
    r = []
    if t.op == 'g':
        for g, x in t.a[0]:
            r += atoms(E, g)
            r += guard_atoms(E, x)
    return r


def mentions_any(d, t):
    return any(hasattr(x, 'op') and mentions(x, lambda z: z is t) for x in d[1:])


def extent(ctx, E, x, old, kind, col, what):
    """x must be the minimum (maximum) of the old bound and every stored column."""
    if x is old:
        ctx.bad(what, '%s is not updated' % what)
        return
    if x.op != 'op' or x.a[0] != kind:
        if x.op == 'op' and x.a[0] in ('min', 'max'):
            ctx.bad(what, '%s is the %s of the old one and the stored columns' % (what, 'largest' if x.a[0] == 'max' else 'smallest'))
        elif clean(linear(x)) is not None and not mentions(x, lambda z: z is old):
            ctx.bad(what, '%s becomes %s whatever it was' % (what, fmt(x, 3)[:80]))
        else:
            ctx.unknown(what, fmt(x, 3)[:100])
        return
    args = list(x.a[1:])
    if not any(a is old for a in args):
        ctx.bad(what, '%s does not take the old one into account' % what)
        return
    good = False
    for a in args:
        la = clean(linear(a))
        if la is None:
            continue
        if la == {col: 1, 'n': 1} or kind == 'min' and la == {col: 1} or kind == 'max' and la.get(col) == 1 and la.get(1) == -1 and any(
                getattr(z, 'op', '') == 'len' for z in la):
            good = True
    if good:
        ctx.ok('recorded extent', what)
    else:
        ctx.bad(what, '%s does not take every stored column into account (%s)' % (what, fmt(x, 4)[:100]))


# ------------------------------------------------------------------ by reference
def by_ref(ctx, S):
    fn = ctx.fn('WorkSheet::set_row_value_ref_mut')
    ctx.need('row writing by reference', int(fn is not None), 1)
    if fn is None:
        return
    E = engine(ctx.P)
    st = State(1, {})
    root, ref = ('H', 'sheet'), sym('ref')
    st.st[root] = S.sheet(mk('agg', 'Option', 0, ()))
    V = mk('agg', S.cell['name'], 0, tuple(sym('value.' + f) for f in S.C))
    cells = mk('vec', M.EMPTY, ((1, 'many', V, 'b'),))
    try:
        res = E.call_fn(st, fn, [Ref(root), ref, cells], ('write', 0, fn.key), ())
    except Dead:
        ctx.bad('never succeeds', 'writing a row of values by reference never returns')
        return
    row, col = mk('op', 'cellref0', ref), mk('op', 'cellref1', ref)
    n = 0
    for place in PLACES:
        dec = base_dec(E, 'new sheet', row, None, positions(E, row, col, *place))
        for w, x in pkg.case(E, E.proj(st.st[root], ('f', S.i_data)), dec):
            if x.op != 'agg' or x.a[1] != 1 or x.a[2][0].op != 'map':
                continue
            for k, mult, v in x.a[2][0].a[1]:
                n += 1
                if clean(linear(k)) == {row: 1}:
                    ctx.ok('reference', 'row')
                else:
                    (ctx.bad if mentions(k, lambda z: z is col) or k.op == 'int' else ctx.unknown)('reference: row', 'a row written by reference lands in row %s' % fmt(k, 3)[:80])
                cs = E.proj(v, ('f', S.r_cells))
                for w2, c in pkg.case(E, cs, dec):
                    if c.op != 'agg' or not c.a[2] or c.a[2][0].op != 'map':
                        continue
                    for k2 in [y for k2, m2, v2 in c.a[2][0].a[1] for _, y in pkg.case(E, k2, dec)]:
                        lk = clean(linear(k2))
                        if lk == {col: 1, 'n': 1}:
                            ctx.ok('reference', 'column')
                        elif lk is None:
                            ctx.unknown('reference: column', fmt(k2, 3)[:80])
                        else:
                            ctx.bad('reference: column', 'the first value of a row written by reference lands in column %s' % fmt(k2, 3)[:80])
    if not n:
        ctx.unknown('writing by reference', 'the stored row was not recognised')


def reference(ctx):
    """The row number of a reference is what follows the letters, not digits picked from anywhere."""
    fn = ctx.fn('ConverterUtil::get_cell_index')
    ctx.need('reference conversion', int(fn is not None), 1)
    if fn is None:
        return
    E = Engine(ctx.P)
    E.strict = True
    st = State(1, {})
    x = sym('ref')
    try:
        r = E.call_fn(st, fn, [x], ('ref', 0, fn.key), ())
    except Dead:
        ctx.bad('reference: never succeeds', 'converting a reference never returns')
        return
    picks = [c for f in E.fns_seen for c in calls_of(ctx.P, f) if c in ('filter', 'retain')]
    n = 0
    for g, t in E.alts(r):
        if t.op != 'agg' or t.a[1] != 0:
            continue
        for g2, v in E.alts(E.proj(E.proj(t, ('vf', 0, 0)), ('f', 0))):
            n += 1
            src = [z for z in M_sub(v) if z.op == 'parse']
            for z in src:
                if str(z.a[0]) in ('u8', 'u16', 'i8', 'i16'):
                    ctx.bad('reference: row read as %s' % z.a[0], 'the row of a reference is read as %s, which cannot hold every row of a worksheet' % z.a[0])
            checked = [d for d in atoms(E, g) if d[0] in ('t', 'x', 'eq', 'exists') or d[0] == 'okcall' and not mentions_op(d[1], 'fn:')]
            if src and src[0].a[1].op == 'op' and src[0].a[1].a[0] == 'collect' and picks and not checked:
                ctx.bad('reference: digits from anywhere', 'the row of a reference is made of the digits found anywhere in it, so a malformed reference (A1B2) writes to another cell (A12)')
            else:
                ctx.ok('row of a reference', fmt(v, 3)[:60])
    ctx.need('converted references', n, 1)


def M_sub(t):
    out, todo, seen = [], [t], set()
    while todo:
        z = todo.pop()
        if not hasattr(z, 'op'):
            if isinstance(z, tuple):
                todo += list(z)
            continue
        if z in seen:
            continue
        seen.add(z)
        out.append(z)
        todo += list(z.a)
    return out


def mentions_op(t, pre):
    return hasattr(t, 'op') and mentions(t, lambda z: z.op == 'op' and str(z.a[0]).startswith(pre))


def calls_of(P, f):
    fn = f if hasattr(f, 'calls') else P.lib.get(f)
    r = []
    if fn is not None:
        for b, t in fn.calls():
            p = t['f'].get('path') if isinstance(t.get('f'), dict) else None
            if p:
                r.append(p.split('::')[-1])
    return r


# ------------------------------------------------------------------ row properties
def properties(ctx, S):
    fn = ctx.fn('WorkSheet::set_row_index_properties_mut')
    ctx.need('row property operation', int(fn is not None), 1)
    if fn is None:
        return
    row, props, rows = sym('row'), sym('props'), sym('rows')
    for start in ('none', 'some'):
        E = engine(ctx.P)
        st = State(1, {})
        root, rr = ('H', 'sheet'), ('H', 'row')
        st.st[rr] = row
        st.st[root] = S.sheet(mk('agg', 'Option', 0, ()) if start == 'none' else mk('agg', 'Option', 1, (rows,)))
        byref = ctx.P.types[fn.locals[2][0]]['k'] == 'ref'
        try:
            res = E.call_fn(st, fn, [Ref(root), Ref(rr) if byref else row, props], ('props', 0, fn.key), ())
        except Dead:
            ctx.bad('never succeeds', 'setting row properties never returns')
            return
        after = E.proj(st.st[root], ('f', S.i_data))
        for case in (('new sheet',) if start == 'none' else ('new row', 'row with cells')):
            label = 'row properties, ' + case
            dec = base_dec(E, case, row, rows, positions(E, row, sym('col'), 7, 5, 2))
            for w, x in pkg.case(E, after, dec):
                m = E.proj(x, ('vf', 1, 0))
                for w2, m in pkg.case(E, m, dec):
                    if m.op != 'map' or m.a[0] is not (M.EMPTY if case == 'new sheet' else rows):
                        (ctx.bad if m is rows or m.op == 'map' else ctx.unknown)(label, 'setting row properties (%s) leaves the rows as %s' % (case, fmt(m, 2)[:80]))
                        continue
                    for k, mult, v in m.a[1]:
                        if clean(linear(k)) != {row: 1}:
                            ctx.bad(label + ': other row', 'setting row properties (%s) changes row %s' % (case, fmt(k, 2)[:60]))
                            continue
                        for w3, y in pkg.case(E, v, dec):
                            p, c = E.proj(y, ('f', S.r_props)), E.proj(y, ('f', S.r_cells))
                            if p is props:
                                ctx.ok('row properties set', label)
                            else:
                                ctx.bad(label + ': not set', 'setting row properties (%s) stores %s' % (case, fmt(p, 3)[:80]))
                            oldc = E.proj(mk('mapval', rows, row), ('f', S.r_cells))
                            if case != 'row with cells' or c is oldc:
                                ctx.ok('cells kept', label)
                            else:
                                ctx.bad(label + ': cells', 'setting row properties replaces the cells of the row by %s' % fmt(c, 3)[:80])


# ------------------------------------------------------------------ extent on save and on load
def extent_written(ctx, S):
    close = ctx.impl('XmlDocumentPartCommon', 'WorkSheet', 'close_document')
    ctx.need('worksheet closing', int(close is not None), 1)
    if close is None:
        return
    from ..codec import Out
    E = engine(ctx.P)
    st = State(1, {})
    root, rows = ('H', 'sheet'), sym('rows')
    st.st[root] = S.sheet(mk('agg', 'Option', 1, (rows,)))
    try:
        E.call_fn(st, close, [Ref(root)], ('close', 0, close.key), ())
    except Dead:
        ctx.bad('never succeeds', 'closing a worksheet never returns')
        return
    start, end = sym('extent.' + fields(S.dim)[S.d_start]), sym('extent.' + fields(S.dim)[S.d_end])
    n = 0
    for e, (tag, par, how, anchor) in [(k[1], v) for k, v in E.treeops.items() if k[0] == 'new']:
        if not (tag.op == 'str' and tag.a[0] == 'dimension'):
            continue
        n += 1
        yield_attr(ctx, S, E, st, e, rows, start, end)
    ctx.need('written <dimension>', n, 1)


def yield_attr(ctx, S, E, st, e, rows, start, end):
    v = st.st.get(('EA', e))
    if v is None:
        ctx.unknown('extent written', 'no attributes')
        return
    for g, m in E.alts(v):
        if m.op != 'map':
            continue
        for k, mult, val in m.a[1]:
            if k.op == 'str' and k.a[0] == 'ref':
                for a, b, some in ((2, 5, 1), (5, 5, 1), (16384, 1, 1), (16384, 1, 0)):
                    cmp = compare(E, start, end, a, b)

                    def dec(d):
                        if d[0] == 'nonempty' and d[1] is rows:
                            return some
                        return cmp(d)
                    for g2, x in pkg.case(E, val, dec):
                        written_ref(ctx, S, E, x, rows, start, end, a > b or not some)


def compare(E, t1, t2, a, b):
    """Decide comparisons of two extent bounds for one pair of values."""
    def dec(d):
        if d[0] in ('lt', 'eq', 'x') and hasattr(d[1], 'op'):
            x = number(d[1], {t1: a, t2: b})
            y = number(d[2], {t1: a, t2: b}) if hasattr(d[2], 'op') else d[2]
            if isinstance(x, int) and isinstance(y, int):
                return int(x < y) if d[0] == 'lt' else int(x == y)
        return None
    return dec


def flat(t):
    r = []
    for x in (t.a[0] if t.op == 'cat' else (t,)):
        if isinstance(x, T) and x.op == 'cat':
            r += flat(x)
        else:
            r.append(x)
    return r


def written_ref(ctx, S, E, x, rows, start, end, empty):
    if x.op == 'absent':
        return
    if x.op == 'str':
        if empty:
            ctx.ok('extent of a sheet without cells', x.a[0])
        else:
            ctx.bad('extent written as ' + x.a[0], 'the extent of a sheet with cells is written as %s' % x.a[0])
        return
    parts = [p for p in flat(x)]

    def name(p):
        if isinstance(p, str):
            return p
        while p.op in ('tostr', 'cast') and p.a:
            p = [z for z in p.a if hasattr(z, 'op')][-1]
        if p.op == 'str':
            return p.a[0]
        if p.op == 'op' and p.a[0] == 'colref':
            return 'C' + ('s' if p.a[1] is start else 'e' if p.a[1] is end else '?')
        if p.op == 'op' and p.a[0] in ('firstkey', 'lastkey'):
            return 'R' + ('s' if p.a[0] == 'firstkey' else 'e')
        if p.op == 'g':
            r = {name(y) for g, y in p.a[0]}
            r -= {'Rs'} if r == {'Rs', 'Re'} else set()
            return r.pop() if len(r) == 1 else '?'
        return '?'
    s = '|'.join(name(p) for p in parts)
    if empty and 'Cs' in s and 'Ce' in s:
        ctx.bad('extent of rows without cells', 'the extent of a sheet whose rows have no cells is written from its initial bounds (first column after the last one)')
    elif s == 'Cs|Rs|:|Ce|Re':
        ctx.ok('extent written', s)
    elif '?' in s:
        ctx.unknown('extent written', fmt(x, 4)[:150])
    else:
        ctx.bad('extent written as ' + s, 'the extent is written as %s instead of first column, first row, last column, last row' % s)


def extent_loaded(ctx, S):
    new = ctx.fn('WorkSheet::new')
    ctx.need('worksheet constructor', int(new is not None), 1)
    if new is None:
        return
    E = engine(ctx.P)
    st = State(1, {})
    args = [sym('arg%d' % i) for i in range(new.argc)]
    try:
        r = E.call_fn(st, new, args, ('new', 0, new.key), ())
    except Dead:
        ctx.bad('never succeeds', 'opening a worksheet never returns')
        return
    n = 0
    for g, x in E.alts(r):
        if x.op != 'agg' or x.a[1] != 0 or not x.a[2]:
            continue
        dim = E.proj(x.a[2][0], ('f', S.i_dim))
        for i, kind in ((S.d_start, 'min'), (S.d_end, 'max')):
            for w, y in E.alts(E.proj(dim, ('f', i))):
                if y.op == 'op' and y.a[0] == kind:
                    n += 1
                    if mentions(y, lambda z: z.op == 'op' and z.a[0] == 'colidx'):
                        ctx.ok('extent of loaded cells', kind)
                    else:
                        ctx.bad('extent of loaded cells', 'the %s column of the extent is %s after loading' % ('first' if kind == 'min' else 'last', fmt(y, 3)[:80]))
                elif y.op == 'op' and y.a[0] in ('min', 'max'):
                    n += 1
                    ctx.bad('extent of loaded cells', 'the %s column of the extent is the %s after loading' % ('first' if kind == 'min' else 'last', y.a[0]))
            alts = [y for w, y in E.alts(E.proj(dim, ('f', i)))]
            if all(y.op == 'int' for y in alts):
                n += 1
                ctx.bad('extent of loaded cells', 'the extent does not cover the cells read from the file')
    if not n:
        ctx.unknown('extent of loaded cells', 'not recognised')


def extent_everywhere(ctx, S):
    """Wherever a cell is put into a row, the same step looks at both bounds of the extent."""
    P = ctx.P
    E = Engine(P)

    def is_dim(t):
        while t is not None and P.types[t]['k'] in ('ref', 'ptr'):
            t = P.types[t]['t']
        return t is not None and P.types[t] is S.dim

    def touched(fn, x, out):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and not isinstance(x[0], bool) and x[0] < len(fn.locals):
                place(fn, x, out)
            for y in x:
                if isinstance(y, (list, tuple, dict)):
                    touched(fn, y, out)
        elif isinstance(x, dict):
            for k, y in x.items():
                if k != 'l' and isinstance(y, (list, tuple, dict)):
                    touched(fn, y, out)

    def place(fn, pl, out):
        try:
            for n in range(len(pl[1]) + 1):
                t = E.ptype(fn, [pl[0], pl[1][:n]])
                if is_dim(t):
                    rest = [q for q in pl[1][n:] if q != '*']
                    out.update((S.d_start, S.d_end) if not rest else (rest[0][1],) if rest[0][0] == 'f' else ())
                    return
        except (IndexError, KeyError, TypeError):
            return

    n = 0
    for fn in P.lib.values():
        sites = []
        for b, t in fn.calls():
            path = t['f'].get('path') if isinstance(t.get('f'), dict) else None
            if path and path.endswith('::insert') and 'Map' in path:
                for a in t['a']:
                    if a[0] in ('c', 'm') and P.types[E.ptype(fn, a[1]) or 0] is S.cell:
                        sites.append((b, t))
        if not sites:
            continue
        marks = {}
        for b, blk in enumerate(fn.blocks):
            m = set()
            for s_ in blk['s']:
                if s_[0] == '=':
                    touched(fn, s_, m)
            if blk['k'] == 'call':
                touched(fn, blk['a'], m)
                touched(fn, [blk['d']] if blk.get('d') else [], m)
            marks[b] = m
        every = set().union(*marks.values()) if marks else set()
        for b, t in sites:
            inner = [h for h, body in fn.loops.items() if b in body]
            inner.sort(key=lambda h: len(fn.loops[h]))
            if not inner:
                ctx.unknown('extent where a cell is stored', fn.short)
                continue
            h, body = inner[0], fn.loops[inner[0]]
            for i, name in ((S.d_start, 'first'), (S.d_end, 'last')):
                n += 1
                if i not in every:
                    ctx.unknown('extent where a cell is stored', '%s keeps no extent' % fn.short)
                elif i in marks[b] or not (reach(fn, h, b, body, marks, i) and reach(fn, b, h, body, marks, i)):
                    ctx.ok('extent follows every stored cell', '%s: %s column' % (fn.short.split('::')[-1], name))
                else:
                    ctx.bad('extent skipped in %s: %s column' % (fn.short.split('::')[-1], name),
                            '%s (line %s) can store a cell without taking it into the %s column of the extent' % (fn.short, t.get('l'), name))
    if not n:
        ctx.unknown('extent where a cell is stored', 'no insertion of single cells')


def reach(fn, a, b, body, marks, i):
    """Is there a way from a to b inside the loop that never looks at bound i?"""
    todo, seen = ([a] if i not in marks[a] else []), set()
    first = True
    while todo:
        x = todo.pop()
        for y in fn.succs[x]:
            if y == b:
                return True
            if y in body and y not in seen and i not in marks[y]:
                seen.add(y)
                todo.append(y)
    return False
