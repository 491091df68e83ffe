from ..wsheet import sheet, ROW, ROW_ATTRS, CELL, CELL_ATTRS
from ..codec import check_spec, check_text, check_parent, source_of, dup_check, pure_leaves
from ..engine import fmt

EXPLAIN = ('The worksheet reader and writer are interpreted in one abstract state (guarded value flow over MIR); each '
           'attribute and text of every written <row>/<c> is compared, for every token class of what was read, with the meaning the schema gives it.')
RULE = 'row/cell attribute, text, position and nesting written == what was read of the same row/cell'


def run(ctx):
    sc = sheet(ctx)
    if sc is None:
        return
    E, B = sc.E, sc.E.B
    n = check_spec(ctx, sc, 'row', ROW, ROW_ATTRS, mandatory=('r',))
    ctx.need('written <row> elements', n, 1)
    n = check_spec(ctx, sc, 'c', CELL, CELL_ATTRS)
    ctx.need('written <c> elements', n, 1)
    cs = [c for c in sc.by_tag('c') if source_of(sc, c)]
    rows = [r for r in sc.by_tag('row') if source_of(sc, r)]
    if not cs or not rows:
        return
    S, R = source_of(sc, cs[0])[0], source_of(sc, rows[0])[0]
    # position: the column of the cell's own r, the number of the row's own r
    for c in cs:
        seen = 0
        for g, t in E.alts(c.attrs.get('r') or E.absent()):
            if t.op == 'absent':
                continue
            lv, ar = pure_leaves(t)
            seen += 1
            if lv == [(S, 'r'), (R, 'r')] and not ar:
                ctx.ok('cell reference', fmt(t, 3)[:100])
            elif [a for s, a in lv] == ['r'] and lv[0][0] is S and not ar:
                ctx.ok('cell reference', fmt(t, 3)[:100])
            else:
                ctx.bad('c@r: %s' % ('shifted' if ar else 'from ' + ','.join(a for s, a in lv)),
                        'the reference written for a cell is %s instead of the column of its own reference and the number of its row' % fmt(t, 4)[:160])
        if not seen:
            ctx.bad('c@r: not written', 'cells are written without their reference')
    # texts
    nt = 0
    for tok in (None, 'n', 'b', 'e', 's', 'str', 'd'):
        for f in (0, 1):
            for o in sc.by_tag('v'):
                nt += 1
                check_text(ctx, sc, o, 'v[t=%s]%s' % (tok, '+f' if f else ''), 'cell of type %s with a value%s' % (tok, ' and formula' if f else ''),
                           {'t': tok}, {'v': 1, 'f': f, 'is': 0}, lambda e: e.op == 'ct' and e.a[0] is S and e.a[1] == 'v', S)
            for o in sc.by_tag('f'):
                nt += 1
                check_text(ctx, sc, o, 'f[t=%s]%s' % (tok, '+f' if f else ''), 'cell of type %s %s formula' % (tok, 'with a' if f else 'without'),
                           {'t': tok}, {'v': 1, 'f': f, 'is': 0}, (lambda e: e.op == 'ct' and e.a[0] is S and e.a[1] == 'f') if f else None, S)
            for o in sc.by_tag('t'):
                check_text(ctx, sc, o, 't[t=%s]' % tok, 'cell of type %s' % tok, {'t': tok}, {'v': 1, 'f': f, 'is': 0}, None, S)

    def inl(e):
        while e.op == 'S':
            nx = [y for y in e.a[4:] if hasattr(y, 'op')]
            if not nx:
                return False
            e = nx[0]
        return e.op == 'ct' and (e.a[1] == 'is' and e.a[0] is S or e.a[0].op == 'ct' and e.a[0].a[1] == 'is' and e.a[0].a[0] is S)
    for o in sc.by_tag('t'):
        nt += 1
        check_text(ctx, sc, o, 't[t=inlineStr]', 'inline string cell', {'t': 'inlineStr'}, {'v': 0, 'f': 0, 'is': 1}, inl, S)
    ctx.need('written <v>, <f>, <t> text cases', nt, 29)
    for tag, path in (('row', ['sheetData']), ('c', ['sheetData', 'row']), ('v', ['sheetData', 'row', 'c']), ('f', ['sheetData', 'row', 'c']),
                      ('is', ['sheetData', 'row', 'c']), ('t', ['sheetData', 'row', 'c', 'is'])):
        check_parent(ctx, sc, tag, path)
    dup_check(ctx, sc, ['row', 'c', 'v', 'f', 'is', 't', 'sheetData'])
