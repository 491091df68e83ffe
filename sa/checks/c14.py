from .. import pkg
from ..codec import check_spec, check_parent, dup_check, infra_assign, guards_of, resolve, accept, INFRA1
from ..engine import fmt, mk
from ..pkg import mentions
from ..wbook import workbook, VIEW, VIEW_ATTRS

EXPLAIN = ('The workbook reader, each public setter of Excel and the writer are interpreted as one composition (guarded value flow over MIR) on an arbitrary '
           'workbook view, present or absent; every written attribute is compared, for every token class, with the attribute read or with the value set.')
RULE = 'view attribute written == attribute read unless set; a setter decides its own attribute with the polarity of its name and no other'
ASSUME = ['sheet names are unique, as the format requires', 'of several views only the last is modelled']

# setter -> (attribute, written token for true, for false)
SETTERS = {
    'set_visibility_mut': ('visibility', 'visible', 'hidden'),
    'minimize_workbook_mut': ('minimized', '1', '0'),
    'hide_sheet_tabs_mut': ('showSheetTabs', '0', '1'),
    'hide_vertical_scroll_mut': ('showVerticalScroll', '0', '1'),
    'hide_horizontal_scroll_mut': ('showHorizontalScroll', '0', '1'),
}


def about_view(d):
    return any(mentions(x, lambda z: z.op in ('str', 'tagged') and fmt(z.a[0] if z.op == 'tagged' else z).strip("'") in ('bookViews', 'workbookView'))
               for x in d[1:] if hasattr(x, 'op')) or 'bookViews' in [getattr(x, 'a', [None])[0] if getattr(x, 'op', '') == 'str' else x for x in d[1:]]


def support(sc, o):
    sup = set()
    for g in [o.guard] + [g for k in o.attrs for g in guards_of(sc.E, o.attrs[k])]:
        sup |= set(sc.E.B.support(g))
    return sup


def absent_view(sc, o):
    """Assignment under which the file has no workbook view."""
    E = sc.E
    return {v: 0 for v in support(sc, o) if E.vars[v][0] in INFRA1 | {'has'} and about_view(E.vars[v])}


def others(sc, o, keep):
    """Remaining infrastructure atoms hold."""
    E = sc.E
    m = infra_assign(E, [o.guard] + [g for k in o.attrs for g in guards_of(E, o.attrs[k])])
    for v in support(sc, o):
        if E.vars[v][0] == 'parseok' or E.vars[v][0] == 'has' and E.vars[v][2] in ('name', 'r:id', 'sheetId'):
            m[v] = 1
    m.update(keep)
    return m


def is_infra_left(E, g):
    """A guard that only says that loading succeeded."""
    return all(E.vars[v][0] in ('okcall', 'parseok', 'partexists', 'has', 'exit', 'next', 'exists', 'existstag') for v in E.B.support(g)) if g > 1 else bool(g)


def check_set(ctx, sc, what, attr, token, present):
    E, B = sc.E, sc.E.B
    outs = sc.by_tag('workbookView')
    label = '%s with%s view' % (what, '' if present else 'out')
    if not outs:
        ctx.bad('%s: no view' % what, 'after %s no <workbookView> can be written' % what)
        return
    typ = VIEW[attr]
    for o in outs:
        m = others(sc, o, {} if present else absent_view(sc, o))
        eg = B.subst(o.guard, m)
        if eg == 0:
            ctx.bad('%s: view not written (%s)' % (what, 'present' if present else 'absent'),
                    'after %s on a workbook with%s view, no <workbookView> is written' % (what, '' if present else 'out'))
            continue
        n = 0
        for g, t in resolve(E, o.attrs.get(attr, mk('absent')), m):
            w = B.AND(g, eg)
            if w == 0:
                continue
            # tokens an earlier attribute could have had must not matter
            a = accept(typ, token, t, mk('none'))
            n += 1
            if a:
                ctx.ok('setter decides its attribute', '%s -> %s=%s' % (label, attr, fmt(t, 2)[:20]))
            elif a is None and t.op not in ('attr', 'b'):
                ctx.unknown(label, fmt(t, 2)[:80])
            else:
                ctx.bad('%s: %s %s' % (what, attr, 'kept' if t.op == 'attr' else fmt(t, 2)[:40]),
                        'after %s on a workbook with%s view, %s is written as %s%s' % (
                            what, '' if present else 'out', attr, fmt(t, 2)[:60], ' when ' + E.bfmt(w, 1)[:120] if w != 1 else ''))


def check_defaults(ctx, sc, what, skip):
    """Without a view before, the other attributes say the default."""
    E, B = sc.E, sc.E.B
    for o in sc.by_tag('workbookView'):
        m = others(sc, o, absent_view(sc, o))
        eg = B.subst(o.guard, m)
        for k, typ in VIEW.items():
            if k in skip:
                continue
            for g, t in resolve(E, o.attrs.get(k, mk('absent')), m):
                w = B.AND(g, eg)
                if w == 0:
                    continue
                a = accept(typ, None, t, mk('none'))
                if a:
                    ctx.ok('other settings default', '%s without view: %s' % (what, k))
                elif a is None and t.op != 'attr':
                    ctx.unknown('%s without view: %s' % (what, k), fmt(t, 2)[:80])
                else:
                    ctx.bad('%s: %s of a new view' % (what, k), 'after %s on a workbook without view, %s is written as %s' % (what, k, fmt(t, 2)[:60]))


def check_active(ctx, sc, what, name):
    """After activating `name`, activeTab is the position of that sheet."""
    E, B = sc.E, sc.E.B
    for o in sc.by_tag('workbookView'):
        for present in (1, 0):
            m = others(sc, o, {} if present else absent_view(sc, o))
            eg = B.subst(o.guard, m)
            if eg == 0:
                ctx.bad('%s: view not written (%s)' % (what, 'present' if present else 'absent'), 'after %s, no <workbookView> is written' % what)
                continue
            sup = set()
            v = E.bsubst(o.attrs.get('activeTab', mk('absent')), m)
            for g in guards_of(E, v):
                sup |= set(B.support(g))
            eqs = [x for x in sup if E.vars[x][0] == 'eq' and any(getattr(y, 'op', '') == 'attr' and y.a[1] == 'name' for y in E.vars[x][1:3])
                   and name in E.vars[x][1:3]]
            if not eqs:
                if not any(mentions(t, lambda z: z.op == 'S' and z.a[2] in ('pos', 'idx', 'item')) for _, t in E.alts(v)):
                    ctx.bad('%s: not saved' % what, 'after %s the active tab written does not depend on the sheet named' % what)
                else:
                    ctx.unknown(what, 'position of the named sheet: ' + fmt(v, 3)[:100])
                continue
            for hit in (1, 0):
                for g, t in resolve(E, v, {x: hit for x in eqs}):
                    w = B.AND(g, B.subst(eg, {x: hit for x in eqs}))
                    if w == 0:
                        continue
                    y = t
                    while y.op in ('tostr', 'cast', 'cat') and y.a:
                        y = [z for z in y.a if hasattr(z, 'op')][-1]
                    pos = y.op == 'S' and y.a[2] in ('pos', 'idx')
                    f = E.finds.get(y)
                    if hit and pos and f and (f[2] != 'position' or set(f[3]) & {'rev', 'skip', 'filter', 'step_by'}):
                        ctx.bad('%s: other position' % what, 'the active tab is counted with %s over %s' % (f[2], ','.join(f[3])))
                    elif hit and pos or not hit and not pos and y.op in ('attr', 'absent', 'str'):
                        ctx.ok('active tab', '%s, %s: %s' % (what, 'named sheet' if hit else 'other sheet', fmt(t, 2)[:40]))
                    elif y.op in ('attr', 'absent', 'str', 'plus', 'op') or pos and not hit:
                        ctx.bad('%s: %s' % (what, 'named sheet' if hit else 'another sheet'),
                                'after %s, the active tab for %s is %s' % (what, 'the named sheet' if hit else 'a sheet of another name', fmt(t, 3)[:80]))
                    else:
                        ctx.unknown(what, fmt(t, 3)[:80])
    # the flags of all other sheets are cleared: such a loop may not stop early
    for loops, root, path, val in E.entstores:
        for l in loops:
            if E.early.get(l) and not any(x.op == 'b' and x.a[0] == 1 for x in [val]) and l[0][:1] and str(l[0][0][0]).startswith('set'):
                if val.op == 'b' or val.op == 'int':
                    ctx.bad('%s: stops early' % what, 'clearing the active flag of the other sheets stops before the last sheet')


def run(ctx):
    sc = workbook(ctx)
    if sc is None:
        return
    n = check_spec(ctx, sc, 'workbookView', VIEW, VIEW_ATTRS)
    ctx.need('written <workbookView> elements', n, 1)
    check_parent(ctx, sc, 'workbookView', ['bookViews'])
    dup_check(ctx, sc, ['workbookView', 'bookViews'])
    t, f = mk('b', 1), mk('b', 0)
    fns = {}
    for name in list(SETTERS) + ['set_active_sheet_mut']:
        fn = ctx.fn('Excel::' + name)
        ctx.need('public setter ' + name, int(fn is not None), 1)
        if fn is not None:
            fns[name] = fn
    seqs = []
    for a in SETTERS:
        for va in (1, 0):
            seqs.append([(a, va)])
            if ctx.tier == 'thorough':
                for b in SETTERS:
                    for vb in (1, 0):
                        seqs.append([(a, va), (b, vb)])
    for seq in seqs:
        if any(a not in fns for a, _ in seq):
            continue
        s = workbook(ctx, [(fns[a], [t if v else f]) for a, v in seq])
        what = ' then '.join('%s(%s)' % (a, 'true' if v else 'false') for a, v in seq)
        want = {}
        for a, v in seq:
            attr, on, off = SETTERS[a]
            want[attr] = on if v else off
        for attr, tok in want.items():
            for present in (1, 0):
                check_set(ctx, s, what, attr, tok, present)
        check_defaults(ctx, s, what, set(want))
        check_spec(ctx, s, 'workbookView', {k: v for k, v in VIEW.items() if k not in want}, VIEW_ATTRS)
    if 'set_active_sheet_mut' in fns:
        n1, n2 = mk('V', 'name1'), mk('V', 'name2')
        s = workbook(ctx, [(fns['set_active_sheet_mut'], [n1])])
        check_active(ctx, s, 'set_active_sheet_mut', n1)
        check_spec(ctx, s, 'workbookView', {k: v for k, v in VIEW.items() if k != 'activeTab'}, VIEW_ATTRS)
        check_defaults(ctx, s, 'set_active_sheet_mut', {'activeTab'})
        s = workbook(ctx, [(fns['set_active_sheet_mut'], [n1]), (fns['set_active_sheet_mut'], [n2])])
        check_active(ctx, s, 'second set_active_sheet_mut', n2)
