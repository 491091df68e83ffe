from . import c10
from .. import pkg
from ..codec import Scenario, check_spec, check_parent, dup_check, order_rule
from ..engine import Engine, State, Ref, fmt, mk
from ..models import EMPTY
from ..pkg import mentions
from ..streval import Eval, Unknown
from ..wbook import workbook, SHEET, SHEET_ATTRS

EXPLAIN = ('The public sheet operations of Excel are interpreted (guarded value flow over MIR) between load and save for an arbitrary sheet of an arbitrary workbook: '
           'what is written for that sheet, what is added, and what is returned is compared with the meaning of the operation in every case of name equality. '
           'Deletion is interpreted for an arbitrary sheet list, relationship list and handle.')
RULE = ('an operation changes exactly the named sheet and the named attribute; a new sheet has a fresh id, a fresh part path and a relationship that resolves to that part; '
        'delete removes exactly the entry, relationship and part of its own handle')
ASSUME = ['sheet names are unique in the opened file, as the format requires', 'the sheet list loaded satisfies C10 (relationship lookup)',
          'names are compared exactly by rename and hide']
LOADED = ('name', 'r:id', 'sheetId', 'Id', 'Type', 'Target')
N1, N2 = mk('V', 'name1'), mk('V', 'name2')


def dec(d):
    if d[0] == 'has':
        return 1 if d[2] in LOADED else None
    return pkg.infra(d)


def unstar(t):
    return fmt(t, -40).replace('*', '').replace('~', '')


def flat(t):
    """Pieces of a string with nested concatenations and adjacent literals merged."""
    out = []

    def go(x):
        if x.op == 'cat':
            for y in x.a[0]:
                go(y)
        elif x.op == 'tostr' and x.a[0].op in ('str', 'cat'):
            go(x.a[0])
        elif x.op == 'str' and out and out[-1][0] == 's':
            out[-1] = ('s', out[-1][1] + x.a[0])
        elif x.op == 'str':
            if x.a[0]:
                out.append(('s', x.a[0]))
        else:
            out.append(('t', unstar(x)))
    go(t)
    return out


def single(t):
    while t.op == 'cat' and len(t.a[0]) == 1:
        t = t.a[0][0]
    return t


def named(E, v):
    """(what a name is compared with) or None for an atom that compares the loaded sheet name."""
    d = E.vars[v]
    if d[0] in ('eq', 'eq_ignore_case'):
        for a, b in ((d[1], d[2]), (d[2], d[1])):
            if a.op == 'attr' and a.a[1] == 'name' and b in (N1, N2):
                return b, d[0]
    return None


def cases(E, guards):
    """Assignments of the name comparisons: (description, eq with N1, eq with N2, assignment)."""
    vs = set()
    for g in guards:
        vs |= set(E.B.support(g))
    at = {}
    for v in vs:
        n = named(E, v)
        if n:
            at.setdefault(n[0], []).append(v)
    out = []
    for e1 in (0, 1):
        for e2 in (0, 1):
            m = {v: e1 for v in at.get(N1, [])}
            m.update({v: e2 for v in at.get(N2, [])})
            out.append((e1, e2, m))
            loose = [v for v in at.get(N1, []) if E.vars[v][0] == 'eq_ignore_case']
            if loose and not e1:
                # a name that differs in case only is another name
                m = dict(m)
                m.update({v: 1 for v in loose})
                out.append((e1, e2, m))
    return out


def attr_alts(E, o, k):
    return pkg.case(E, o.attrs.get(k, mk('absent')), dec)


def is_loaded(t, k):
    return t.op == 'attr' and t.a[1] == k


def unchanged(ctx, sc, o, k, what, m, extra=lambda t: False, sel=None):
    """Attribute k of the written sheet is the one read (or extra accepts it) under assignment m."""
    E, B = sc.E, sc.E.B
    n = 0
    for w, t in attr_alts(E, o, k):
        g = B.subst(w, m)
        if g == 0 or sel is not None and B.AND(g, sel) == 0:
            continue
        n += 1
        t = single(t)
        if is_loaded(t, k) or extra(t):
            ctx.ok('attribute kept', '%s: %s' % (what, k))
        elif t.op == 'absent' and k == 'state':
            # only when the file has none
            hs = [v for v in B.support(g) if E.vars[v][0] == 'has' and E.vars[v][2] == 'state']
            if hs and B.subst(g, {v: 1 for v in hs}) == 0:
                ctx.ok('absent attribute stays absent', '%s: %s' % (what, k))
            else:
                ctx.bad('%s: %s lost' % (what, k), '%s drops the attribute %s of a sheet when %s' % (what, k, E.bfmt(g, 2)[:160]))
        else:
            ctx.bad('%s: %s changed' % (what, k), '%s writes %s=%s for a sheet it must not touch' % (what, k, fmt(t, -6)[:120]))
    if not n:
        ctx.bad('%s: %s not written' % (what, k), '%s: attribute %s is not written' % (what, k))


def decided(ctx, sc, o, k, what, m, want, label):
    E, B = sc.E, sc.E.B
    for w, t in attr_alts(E, o, k):
        g = B.subst(w, m)
        if g == 0:
            continue
        t = single(t)
        if t is want:
            ctx.ok('operation decides its attribute', '%s: %s=%s' % (what, k, label))
        else:
            ctx.bad('%s: %s' % (what, k), '%s writes %s=%s instead of %s for the sheet it names (when %s)' % (what, k, fmt(t, -6)[:100], label, E.bfmt(g, 2)[:120]))


def written(ctx, sc, what):
    E = sc.E
    outs = sc.by_tag('sheet')
    if not outs:
        ctx.bad('%s: no sheet' % what, 'after %s no <sheet> can be written' % what)
    return outs


def guards_in(E, outs, extra=()):
    gs = list(extra)
    for o in outs:
        gs.append(pkg.guard_case(E, o.guard, dec))
        for k in o.attrs:
            gs += [w for w, _ in pkg.case(E, o.attrs[k], dec)]
    return gs


def base(ctx):
    sc = workbook(ctx)
    if sc is None:
        return None
    check_spec(ctx, sc, 'sheet', SHEET, SHEET_ATTRS, mandatory=('name', 'sheetId', 'r:id'))
    check_parent(ctx, sc, 'sheet', ['sheets'])
    order_rule(ctx, sc, 'sheet')
    dup_check(ctx, sc, ['sheets'])
    return sc


def op(ctx, name, args, strict=True):
    f = ctx.fn('Excel::' + name)
    if f is None:
        return None
    return workbook(ctx, [(f, args)], strict=strict)


def result_cases(ctx, sc, what, want):
    """want(e1, e2) -> 'ok' | 'err' | None"""
    E, B = sc.E, sc.E.B
    r = pkg.case(E, sc.results[0][0], dec)
    for e1, e2, m in cases(E, [w for w, _ in r]):
        exp = want(e1, e2)
        if exp is None:
            continue
        for w, x in r:
            g = B.subst(w, m)
            if g == 0:
                continue
            got = {0: 'ok', 1: 'err'}.get(x.a[1]) if x.op == 'agg' else None
            if got == exp:
                ctx.ok('result', '%s: %s when name%s taken, sheet%s found' % (what, got, '' if e2 else ' not', '' if e1 else ' not'))
            else:
                ctx.bad('%s: result' % what, '%s gives %s instead of %s when the sheet name %s the old name and %s the new name' % (
                    what, got or fmt(x, 2)[:60], exp, 'equals' if e1 else 'differs from', 'equals' if e2 else 'differs from'))


def hide(ctx):
    sc = op(ctx, 'hide_sheet_mut', [N1])
    if sc is None:
        return
    outs = written(ctx, sc, 'hide')
    for o in outs:
        always(ctx, sc, o, 'hide')
        for e1, e2, m in cases(sc.E, guards_in(sc.E, outs)):
            if e2:
                continue
            for k in SHEET_ATTRS:
                if k == 'state' and e1:
                    decided(ctx, sc, o, k, 'hide', m, mk('str', 'hidden'), 'hidden')
                else:
                    unchanged(ctx, sc, o, k, 'hide%s' % (' (other sheet)' if not e1 else ''), m)


def always(ctx, sc, o, what):
    g = pkg.guard_case(sc.E, o.guard, dec)
    if g == 1:
        ctx.ok('sheet written', what)
    else:
        ctx.bad('%s: sheet dropped' % what, 'after %s a sheet is written only when %s' % (what, sc.E.bfmt(g, 2)[:160]))


def rename(ctx):
    sc = op(ctx, 'rename_sheet_name_mut', [N1, N2])
    if sc is None:
        return
    E = sc.E
    result_cases(ctx, sc, 'rename', lambda e1, e2: 'err' if e2 or not e1 else 'ok')
    outs = written(ctx, sc, 'rename')
    for o in outs:
        always(ctx, sc, o, 'rename')
        for e1, e2, m in cases(E, guards_in(E, outs)):
            for k in SHEET_ATTRS:
                if k == 'name' and e1 and not e2:
                    decided(ctx, sc, o, k, 'rename', m, N2, 'the new name')
                else:
                    unchanged(ctx, sc, o, k, 'rename%s' % (' to a taken name' if e2 else ' (other sheet)' if not e1 else ''), m)


def activate(ctx):
    sc = op(ctx, 'set_active_sheet_mut', [N1])
    if sc is None:
        return
    outs = written(ctx, sc, 'activate')
    for o in outs:
        always(ctx, sc, o, 'activate')
        for k in SHEET_ATTRS:
            unchanged(ctx, sc, o, k, 'activate', {})


def listing(ctx):
    f = ctx.fn('Excel::list_sheet_names')
    sc = op(ctx, 'list_sheet_names', [])
    if sc is None:
        return
    E = sc.E
    n = 0
    for w, x in pkg.case(E, sc.results[0][0], dec):
        if x.op != 'agg' or x.a[1] != 0:
            ctx.bad('list: error', 'list_sheet_names fails when %s' % E.bfmt(w, 2)[:120])
            continue
        for g, v in E.alts(E.deep(sc.results[0][1], x.a[2][0]) if isinstance(sc.results[0][1], State) else x.a[2][0]):
            if v.op != 'vec' or len(v.a[1]) != 1:
                ctx.bad('list: contents', 'list_sheet_names returns %s instead of the sheet names' % fmt(v, 3)[:120])
                continue
            cg, mu, t, d = v.a[1][0]
            g2 = pkg.guard_case(E, cg, dec)
            if d not in ('b', 'append', 'end', None, True, 1) and d == 'f':
                ctx.bad('list: order', 'list_sheet_names returns the names in reverse order')
            for w2, y in pkg.case(E, t, dec):
                y = single(y)
                if g2 == 1 and is_loaded(y, 'name'):
                    n += 1
                    ctx.ok('names listed', fmt(y, 2)[:60])
                else:
                    ctx.bad('list: contents', 'list_sheet_names returns %s when %s' % (fmt(y, -4)[:100], E.bfmt(g2, 2)[:100]))
    ctx.need('listed names', n, 1)


def picks(E, outs):
    """Atoms that choose among the entries of the sheet list while it is written: index -> variable."""
    r = {}
    for o in outs:
        for g in guards_in(E, [o]):
            for v in E.B.support(g):
                d = E.vars[v]
                if d[0] == 'x' and getattr(d[1], 'op', '') == 'pick':
                    r[str(d[2])] = v
    return r


def add(ctx, given):
    what = 'add with a name' if given else 'add'
    arg = mk('agg', 'std::option::Option', 1, (N1,)) if given else mk('agg', 'std::option::Option', 0, ())
    sc = op(ctx, 'add_sheet_mut', [arg], strict=False)
    if sc is None:
        return
    E, B = sc.E, sc.E.B
    outs = written(ctx, sc, what)
    pk = picks(E, outs)
    if '0' not in pk or len(pk) != 1:
        ctx.bad('%s: entries' % what, 'after %s the sheet list has %d kinds of entries instead of two' % (what, len(pk) + 1))
        return
    old, new = {pk['0']: 1}, {pk['0']: 0}
    newids, newpaths = [], []
    ents = entries_of(E, sheet_list(ctx, sc))
    ctx.need('%s: entries of the sheet list' % what, len(ents), 2)
    if [e[1] for e in ents] == ['many', 'one'] and all(e[3] == 'b' for e in ents):
        ctx.ok('new sheet is the last', what)
    else:
        ctx.bad('%s: position' % what, 'the new sheet is not placed after the existing sheets: %s' % [(e[1], fmt(e[3]) if hasattr(e[3], 'op') else e[3]) for e in ents])
    for o in outs:
        for e1, e2, m in cases(E, guards_in(E, outs)):
            if e2 or e1 and not given:
                continue
            mo = dict(m)
            mo.update(old)
            for k in SHEET_ATTRS:
                unchanged(ctx, sc, o, k, what + ' (existing sheet)', mo)
            mn = dict(m)
            mn.update(new)
            wr = B.subst(pkg.guard_case(E, o.guard, dec), mn)
            if e1:
                if wr == 0:
                    ctx.ok('no second sheet with the name', what)
                else:
                    ctx.bad('%s: duplicate' % what, 'a second sheet is added under a name that exists')
                continue
            if wr != 1:
                ctx.bad('%s: not added' % what, 'the new sheet is written only when %s' % E.bfmt(wr, 2)[:160])
                continue
            for k in SHEET_ATTRS:
                for w, t in attr_alts(E, o, k):
                    if B.subst(w, mn) == 0:
                        continue
                    t = single(t)
                    new_attr(ctx, sc, what, given, k, t)
                    if k == 'r:id':
                        newids.append(t)
    # the relationship of the new sheet
    handle = []
    fi = pkg.field(ctx.P, 'WorkSheet', 'file_path')
    ni = pkg.field(ctx.P, 'WorkSheet', 'sheet_name')
    for w, x in pkg.case(E, sc.results[0][0], dec):
        if x.op != 'agg' or x.a[1] != 0:
            # may fail only before anything is decided
            ctx.unknown('%s: failing' % what, E.bfmt(w, 2)[:120])
            continue
        h = x.a[2][0]
        if h.op != 'agg':
            ctx.bad('%s: handle' % what, 'what %s returns is not determined: %s' % (what, fmt(h, 2)[:80]))
            continue
        for i, k in ((fi, 'path'), (ni, 'name')):
            for w2, y in pkg.case(E, h.a[2][i], dec):
                handle.append((k, B.AND(w, w2), single(y)))
    hv = cases(E, [w for _, w, _ in handle])
    for e1, e2, m in hv:
        if e2 or e1 and not given:
            continue
        for k, w, y in handle:
            if B.subst(w, m) == 0:
                continue
            if k == 'name':
                good = y is N1 or is_loaded(y, 'name') if given else True
                if good:
                    ctx.ok('handle name', fmt(y, 2)[:40])
                else:
                    ctx.bad('%s: handle name' % what, 'the handle returned for the name given is named %s' % fmt(y, -4)[:80])
            elif not e1:
                newpaths.append(y)
    rels = [o for o in sc.by_tag('Relationship')]
    hit = 0
    for o in rels:
        for e1, e2, m in cases(E, guards_in(E, rels)):
            if e1 or e2:
                continue
            for w, t in attr_alts(E, o, 'Id'):
                if B.subst(w, m) == 0 or not any(unstar(single(t)) == unstar(i) for i in newids):
                    continue
                wm = B.subst(w, m)
                tys = [x for g, x in attr_alts(E, o, 'Type') if B.AND(B.subst(g, m), wm) != 0]
                tgs = [x for g, x in attr_alts(E, o, 'Target') if B.AND(B.subst(g, m), wm) != 0]
                # ids of other generated relationships look the same: keep those of worksheets
                if not any(fmt(x).strip("'").endswith('/worksheet') for x in tys):
                    continue
                hit += 1
                for x in tys:
                    if not fmt(x).strip("'").endswith('/worksheet'):
                        ctx.bad('%s: relationship type' % what, 'the new sheet has a relationship of type %s' % fmt(x)[:80])
                for x in tgs:
                    f = flat(x)
                    ok = [p for p in newpaths if flat(mk('cat', (mk('str', '/'), p))) == f]
                    if ok:
                        ctx.ok('relationship resolves to the new part', fmt(x, 2)[:80])
                    else:
                        ctx.bad('%s: relationship target' % what, 'the relationship of the new sheet targets %s, its part is %s' % (
                            fmt(x, -6)[-120:], [fmt(p, -6)[-120:] for p in newpaths][:1]))
    ctx.need('%s: relationships of new sheets' % what, hit, 1)
    ctx.need('%s: part of the new sheet' % what, len(newpaths), 1)
    fresh_path(ctx, sc, what, newpaths)


def new_attr(ctx, sc, what, given, k, t):
    E = sc.E
    if k == 'name':
        if given:
            if t is N1:
                ctx.ok('new sheet has the name given', fmt(t))
            else:
                ctx.bad('%s: name' % what, 'the new sheet is named %s' % fmt(t, -4)[:80])
        else:
            fresh_name(ctx, sc, what, t)
    elif k == 'state':
        if t.op == 'absent' or fmt(t) in ("'visible'",):
            ctx.ok('new sheet is visible', k)
        else:
            ctx.bad('%s: state' % what, 'a new sheet is written with state %s' % fmt(t, 3)[:60])
    elif k == 'sheetId':
        x = t.a[0] if t.op == 'tostr' else t
        if x.op == 'plus' and isinstance(x.a[1], int) and x.a[1] >= 1 and maximum(x.a[0]):
            ctx.ok('new sheet id above all', fmt(x, 4)[:80])
        elif compared(E, x, 'sheetId'):
            ctx.ok('new sheet id compared with all', fmt(x, 4)[:80])
        elif mentions(x, lambda z: z.op in ('V',)):
            ctx.unknown('new sheet id', fmt(x, 4)[:80])
        else:
            ctx.bad('%s: sheet id' % what, 'the id of a new sheet, %s, is not shown to differ from the ids in use' % fmt(x, -6)[:120])
    elif k == 'r:id':
        if t.op == 'absent':
            ctx.bad('%s: relationship id' % what, 'the new sheet is written without r:id')


def maximum(x):
    if x.op == 'maxof':
        return all_ids(x.a[0])
    if x.op == 'op' and x.a[0] == 'max':
        ids = [y for y in x.a[1:] if y.op != 'int']
        return bool(ids) and all(all_ids(y) for y in ids)
    return False


def all_ids(x):
    """The maximum is taken over the sheet ids."""
    while x.op in ('parse', 'acc', 'tostr', 'widen'):
        x = x.a[-1] if x.op != 'acc' else x.a[0]
        if not hasattr(x, 'op'):
            return False
    return x.op == 'attr' and x.a[1] == 'sheetId'


def compared(E, x, attr, ops=('eq', 'eq_ignore_case')):
    """Every loaded sheet's attribute has been compared with x, and the comparison failed, before x is used."""
    want = unstar(x)
    pieces = flat(x)
    for key, conds in E.leave.items():
        for cond in conds:
            for a in E.B.support(cond):
                d = E.vars[a]
                if d[0] not in ops:
                    continue
                for u, w in ((d[1], d[2]), (d[2], d[1])):
                    src = u
                    while src.op in ('parse', 'tostr'):
                        src = src.a[-1]
                    if src.op == 'attr' and src.a[1] == attr and (unstar(w) == want or flat(w) == pieces):
                        ex = {b: 1 for b in E.B.support(cond) if dec(E.vars[b]) == 1}
                        if E.B.subst(E.B.subst(cond, ex), {a: 1}) == 0:
                            return True
    return False


def fresh_name(ctx, sc, what, t):
    if compared(sc.E, t, 'name'):
        ctx.ok('generated name compared with every name', fmt(t, 4)[:80])
    else:
        ctx.bad('%s: generated name' % what, 'the generated sheet name %s is not shown to differ from the names in use' % fmt(t, -5)[:100])


def fresh_path(ctx, sc, what, paths):
    E = sc.E
    stores = stores_of(ctx.P)
    for p in {unstar(x): x for x in paths}.values():
        want = flat(p)
        seen = set()
        for key, conds in E.leave.items():
            for cond in conds:
                for a in E.B.support(cond):
                    d = E.vars[a]
                    if d[0] == 'haskey' and d[1].op == 'f' and flat(d[2]) == want and E.B.subst(cond, {a: 1}) == 0:
                        seen.add(d[1].a[1])
        left = [n for i, n in stores if i not in seen]
        if not left:
            ctx.ok('new part path unused', fmt(p, 3)[-80:])
        else:
            ctx.bad('%s: part path' % what, 'the path of the new sheet part, %s, is not shown to be unused in %s' % (fmt(p, -5)[-100:], ' and '.join(left)))


def layout(P, ty):
    for t in P.types:
        if t['k'] == 'adt' and t.get('name', '').endswith('::' + ty):
            return [n for n, _ in t['v'][0]['f']]
    return []


def sheet_list(ctx, sc):
    """The sheet list held by the workbook after the operation."""
    E = sc.E
    i = pkg.field(ctx.P, 'WorkbookPart', 'sheet_collection')
    if i is None:
        return None
    whole = E.getroot(sc.st, sc.root)
    for at in range(8):
        try:
            v = E.deep(sc.st, E.proj(E.proj(whole, ('f', at)), ('f', i)))
        except Exception:
            continue
        if any(x.op == 'vec' for _, x in E.alts(v)):
            return v
    return None


def entries_of(E, v):
    return [e for _, x in E.alts(v) if x.op == 'vec' for e in x.a[1]] if v is not None else []


def entry_roles(ctx, sc):
    """Which component of a sheet list entry holds the name, the relationship id, the sheet id."""
    E = sc.E
    roles = {}
    v = sheet_list(ctx, sc)
    n = 0
    for g, mu, t, d in entries_of(E, v):
            for _, y in E.alts(t):
                if y.op != 'agg':
                    continue
                n = len(y.a[2])
                for j, c in enumerate(y.a[2]):
                    for k in ('name', 'r:id', 'sheetId', 'state'):
                        if mentions(c, lambda z: is_loaded(z, k)):
                            roles.setdefault(k, j)
    return roles, n


def delete(ctx, sc):
    P = ctx.P
    f = ctx.fn('WorkSheet::delete_sheet_mut')
    new = ctx.fn('RelationsPart::new')
    rel_roles = c10.roles_of(ctx, Scenario(P, new, None)) if new is not None else {}
    er, width = entry_roles(ctx, sc)
    ctx.need('sheet list entry components identified', len({'name', 'r:id'} & set(er)), 2)
    if f is None or not {'Id', 'Target'} <= set(rel_roles) or not {'name', 'r:id'} <= set(er):
        return
    ws, rp = layout(P, 'WorkSheet'), layout(P, 'RelationsPart')
    need = {'office_document', 'workbook_relationship_part', 'sheet_collection', 'file_path', 'sheet_name'}
    if not need <= set(ws) or not {'relationships', 'file_path'} <= set(rp):
        ctx.unknown('delete', 'fields of the handle')
        return
    E = Engine(P)
    E.watch = tuple('HashMap::<K, V, S, A>::' + n for n in ('remove', 'remove_entry', 'retain', 'clear', 'drain', 'insert'))
    st = State(1, {})
    V = lambda n: mk('V', n)
    ent = [V('e%d' % i) for i in range(width)]
    rel = [V('r%d' % i) for i in range(max(rel_roles.values()) + 1)]
    sheets, rels, doc, own = ('H', 'sheets'), ('H', 'rels'), ('H', 'doc'), ('H', 'own')
    st.st[sheets] = mk('vec', EMPTY, ((1, 'many', mk('agg', 'tuple', 0, tuple(ent)), 'b'),))
    part = [V('p%d' % i) for i in range(len(rp))]
    part[rp.index('relationships')] = mk('vec', EMPTY, ((1, 'many', mk('agg', 'tuple', 0, tuple(rel)), 'b'),))
    file = part[rp.index('file_path')]
    st.st[rels] = mk('agg', 'RelationsPart', 0, tuple(part))
    st.st[doc] = V('doc')
    st.st[own] = V('own')
    h = [V('w%d' % i) for i in range(len(ws))]
    path, name = h[ws.index('file_path')], h[ws.index('sheet_name')]
    h[ws.index('office_document')], h[ws.index('workbook_relationship_part')], h[ws.index('sheet_collection')] = Ref(doc), Ref(rels), Ref(sheets)
    if 'sheet_relationship_part' in ws:
        h[ws.index('sheet_relationship_part')] = Ref(own)
    res = E.call_fn(st, f, [mk('agg', 'WorkSheet', 0, tuple(h))], ('del', 0, f.key), ())
    ctx.count('functions analysed', len(E.fns_seen))

    def kept(v):
        """Condition under which the entry is still in the list."""
        g = 0
        for w, x in E.alts(v):
            if x.op == 'vec':
                for cg, mu, t, d in x.a[1]:
                    g = E.B.OR(g, E.B.AND(w, cg))
            elif x is not EMPTY:
                return None
        return g
    lists = (('list entry', kept(st.st[sheets])), ('relationship', kept(E.proj(st.st[rels], ('f', rp.index('relationships'))))))
    stores = {}
    for e in E.effects:
        m = e[1][0]
        what = e[0].split('::')[-1]
        if m.op == 'f' and m.a[0] is st.st[doc] or m.op == 'f' and fmt(m.a[0]) == fmt(V('doc')):
            if what in ('remove', 'remove_entry'):
                stores.setdefault(m.a[1], []).append((e[1][1], e[2]))
            else:
                ctx.bad('delete: %s' % what, 'delete applies %s to the parts of the package' % what)
    n = 0
    for fl, base_, fclass in c10.FILES:
        for target, tclass in c10.TARGETS:
            if tclass == 'parent folder':
                continue
            own_path = c10.resolve(base_, target)
            for match in (1, 0):
                for idm in (1, 'rId70', 'rId', 'RID7', '7'):
                    idm, other = (1, None) if idm == 1 else (0, idm)
                    for nm in (1, 0):
                        env = {x: 'other%d' % i for i, x in enumerate(ent + rel)}
                        env[ent[er['name']]] = 'Sheet one'
                        env[name] = 'Sheet one' if nm else 'Old name'
                        env[rel[rel_roles['Id']]] = 'rId7'
                        env[ent[er['r:id']]] = 'rId7' if idm else other
                        env[rel[rel_roles['Target']]] = target
                        env[path] = own_path if match else own_path + 'x'
                        env[file] = fl
                        for j in ent:
                            env.setdefault(j, 0)
                        for what, g in lists:
                            want = not (match and (idm or what == 'relationship'))
                            label = '%s of %s (%s target, workbook in a %s%s)' % (what, 'the sheet of the handle' if not want else 'another sheet', tclass, fclass,
                                                                               '' if nm else ', renamed after the handle was made')
                            key = 'delete: %s %s' % (what, 'kept' if not want else 'of another sheet removed')
                            if g is None:
                                ctx.unknown('delete: %s undetermined' % what, 'what delete leaves in the list is not determined')
                                continue
                            try:
                                got = bool(Eval(E, env, holds)(mk('b', g)))
                            except Unknown as e:
                                ctx.unknown('delete: %s undetermined' % what, 'whether delete keeps the %s cannot be determined (%s)' % (label, e))
                                continue
                            n += 1
                            if got == want:
                                ctx.ok('delete', '%s: %s' % (label, 'kept' if got else 'removed'))
                            else:
                                ctx.bad(key + ('' if nm else ' (renamed)'), 'delete %s the %s' % ('keeps' if got else 'removes', label))
                        if match and idm:
                            for w, x in E.alts(res):
                                try:
                                    if not Eval(E, env, holds)(mk('b', w)):
                                        continue
                                except Unknown:
                                    continue
                                if x.op == 'agg' and x.a[1] == 1:
                                    ctx.bad('delete: fails', 'delete fails for %s target, workbook in a %s' % (tclass, fclass))
                                else:
                                    ctx.ok('delete succeeds', tclass)
                            for i, word in stores_of(P):
                                hit = [k for k, g in stores.get(i, ()) if k is path and truth(E, env, g)]
                                if hit:
                                    ctx.ok('part removed', word)
                                else:
                                    ctx.bad('delete: part kept (%s)' % word, 'delete does not remove the part of the sheet from the %s' % word)
    ctx.need('deletions compared', n, 50)


def truth(E, env, g):
    try:
        return bool(Eval(E, env, holds)(mk('b', g)))
    except Unknown:
        return False


def holds(d, ev):
    return 1 if d[0] in ('next', 'okcall', 'exit') else None


def stores_of(P):
    """The maps of the package keyed by part path."""
    out = []
    for t in P.types:
        if t['k'] == 'adt' and t.get('name', '').endswith('::OfficeDocument'):
            for i, (n, ty) in enumerate(t['v'][0]['f']):
                if 'HashMap' in P.types[ty].get('s', '') and 'String' in P.types[ty].get('s', ''):
                    out.append((i, n))
            break
    return out


def run(ctx):
    sc = base(ctx)
    if sc is None:
        return
    delete(ctx, sc)
    hide(ctx)
    rename(ctx)
    activate(ctx)
    listing(ctx)
    add(ctx, True)
    add(ctx, False)
