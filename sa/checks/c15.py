"""C15: the style tables of an existing workbook come back as they were read."""
from .. import pkg
from ..codec import (Scenario, check_spec, check_parent, check_attr, attr_sources, guards_of, path_of, dup_check, infra_assign,
                     assign_token, child_assign, tokname, kind_of, resolve, accept, is_copy)
from ..engine import fmt, mk
from ..pkg import mentions

EXPLAIN = ('The style reader and writer are interpreted as one composition (guarded value flow over MIR) on an arbitrary record of each style table; every record '
           'must be written once and in place (formats are addressed by position), and every attribute and child of the record, for every token class of the schema, '
           'is compared with what was read.')
RULE = 'every style record is written once, in order, unconditionally; each attribute/child written == the one read; count == number of records'
ASSUME = ['styles.xml is well formed and uses the schema namespace', 'limits: gradient fills, colour tints and automatic colours, diagonal direction flags, cell '
          'protection and the alignment attributes other than wrapText/vertical/horizontal are not claimed']

PATTERNS = ('none solid mediumGray darkGray lightGray darkHorizontal darkVertical darkDown darkUp darkGrid darkTrellis lightHorizontal lightVertical '
            'lightDown lightUp lightGrid lightTrellis gray125 gray0625').split()
BORDERS = 'none thin medium dashed dotted thick double hair mediumDashed dashDot mediumDashDot dashDotDot mediumDashDotDot slantDashDot'.split()
SIDES = 'left right top bottom diagonal'.split()
COLORS = 'theme rgb indexed'.split()
B = ('bool', None)
XF = dict(numFmtId=('num', '0'), fontId=('num', '0'), fillId=('num', '0'), borderId=('num', '0'), applyNumberFormat=B, applyFont=B, applyFill=B,
          applyBorder=B, applyAlignment=B, applyProtection=B)
XF_ATTRS = list(XF) + ['xfId', 'quotePrefix', 'pivotButton']
ALIGN = dict(wrapText=('bool', False), vertical=('enum', 'top center bottom justify distributed'.split(), 'bottom'),
             horizontal=('enum', 'general left center right fill justify centerContinuous distributed'.split(), 'general'))
ALIGN_ATTRS = list(ALIGN) + 'textRotation indent relativeIndent justifyLastLine shrinkToFit readingOrder'.split()
TABLES = dict(numFmts='numFmt', fonts='font', fills='fill', borders='border', cellXfs='xf', cellStyleXfs='xf')
FONT_OTHER = 'strike outline shadow condense extend vertAlign charset'.split()


def container(sc, o):
    p = path_of(sc, o)
    return p[-1] if p else None


def under(t, name):
    return mentions(t, lambda z: z.op == 'tagged' and fmt(z.a[0]).strip("'") == name)


def child_source(sc, o, tag):
    for v in list(o.attrs.values()):
        for s, a in attr_sources(sc.E, v):
            if s.op == 'ct' and s.a[1] == tag:
                return s
    return None


def record_decide(d):
    """An arbitrary record: every element exists, numbers parse, sizes are ordinary."""
    if d[0] == 'next' and getattr(d[1], 'op', '') == 'ct':
        return None
    if d[0] == 'has':
        return None
    if d[0] == 'hasattrs':
        return None
    return pkg.infra(d)


def whole_record(d):
    return record_decide(d) if d[0] != 'hasattrs' else 1


def run(ctx):
    new, close = ctx.impl('XmlDocumentPart', 'StylePart', 'new'), ctx.impl('XmlDocumentPartCommon', 'StylePart', 'close_document')
    ctx.need('style part constructor and closing', int(new is not None) + int(close is not None), 2)
    if new is None or close is None:
        return
    sc = Scenario(ctx.P, new, close, watch=('::push',))
    E = sc.E
    ctx.count('functions analysed', len(E.fns_seen))
    ctx.count('calls resolved', E.calls_seen)
    for n in E.notes:
        ctx.notes.append(n)
    tables(ctx, sc)
    taken(ctx, sc)
    check_spec(ctx, sc, 'numFmt', dict(numFmtId=('num',), formatCode=('str',)), ['numFmtId', 'formatCode'], mandatory=('numFmtId', 'formatCode'))
    F = fonts(ctx, sc)
    fills(ctx, sc)
    borders(ctx, sc)
    formats(ctx, sc)


# ------------------------------------------------------------------ tables
def tables(ctx, sc):
    E = sc.E
    found = 0
    for cont, rec in TABLES.items():
        recs = [o for o in sc.by_tag(rec) if container(sc, o) == cont]
        cs = [o for o in sc.by_tag(cont)]
        ctx.need('written <%s> tables' % cont, len(cs), 1)
        ctx.need('written records of <%s>' % cont, len(recs), 1)
        found += len(recs)
        if len(recs) > 1:
            for i in range(len(recs)):
                for j in range(i):
                    if guard(E, E.B.AND(recs[i].guard, recs[j].guard)):
                        ctx.bad('%s: record written twice' % cont, 'a record of <%s> is written by two sites in one save' % cont)
        g = 0
        for o in recs:
            g = E.B.OR(g, o.guard)
        dec = whole_record if cont in ('numFmts',) else record_decide
        g = pkg.guard_case(E, g, dec)
        if cont == 'numFmts':
            g = E.B.subst(g, {v: 1 for v in E.B.support(g) if E.vars[v][0] == 'has'})
        if g == 1:
            ctx.ok('every record written', cont)
        elif g == 0 or {E.vars[v][0] for v in E.B.support(g)} & {'has', 'hasattrs', 'x', 'eq', 'lt', 'next', 'limited'}:
            ctx.bad('%s: record left out' % cont, 'a record of <%s> is written only when %s; the records after it change their position, which is the id cells refer to' % (
                cont, E.bfmt(g, 2)[:200]))
        else:
            ctx.unknown('%s: record written' % cont, E.bfmt(g, 2)[:120])
        # taken in the order they were read
        n, seen = 0, set()
        for kind, ents, fn, line in E.drains:
            back = kind.split('_')[-1] in ('back', 'rev', 'last')
            top = [e for e in ents if e[1] == 'many' and under(e[2], cont)]
            if not top:
                continue
            for e in top:
                if (kind, e[3], line) in seen:
                    continue
                seen.add((kind, e[3], line))
                n += 1
                if e[3] == 'sorted' or back != (e[3] == 'f'):
                    ctx.bad('%s: order' % cont, 'the records of <%s> are not written in the order of the file (%s, line %s)' % (cont, fn.short.split('::')[-1], line))
                else:
                    ctx.ok('record order', '%s: %s/%s' % (cont, e[3], kind))
            for e in ents:
                if e not in top and not under(e[2], cont) and cont != 'fonts':
                    g = guard(E, e[0])
                    if g:
                        ctx.bad('%s: extra record' % cont, 'a record that was not read is added to <%s> when %s' % (cont, E.bfmt(g, 1)[:160]))
        if not n:
            ctx.unknown('order of <%s>' % cont, 'no list of records taken in order was found')
        for o in cs:
            v = o.attrs.get('count')
            if v is None:
                continue
            for g, t in resolve(E, v, infra_assign(E, guards_of(E, v))):
                if t.op == 'tostr' and getattr(t.a[0], 'op', '') == 'len' and under(t.a[0], cont):
                    ctx.ok('count', cont)
                elif t.op == 'absent':
                    ctx.ok('count', cont + ' absent')
                elif t.op in ('tostr', 'str', 'attr', 'int', 'plus', 'op'):
                    ctx.bad('%s: count' % cont, 'count of <%s> is %s, not the number of records written' % (cont, fmt(t, 3)[:100]))
                else:
                    ctx.unknown('count of <%s>' % cont, fmt(t, 3)[:100])
            if pkg.guard_case(E, o.guard, whole_record) != 1:
                ctx.unknown('<%s> written' % cont, E.bfmt(o.guard, 1)[:100])


def taken(ctx, sc):
    """Every record read gets its own place in its list: the place is its id."""
    E = sc.E
    last = {}
    for path, args, pc, fr, line, ret in E.effects:
        if path.split('::')[-1] in ('push', 'push_back') and len(args) == 2:
            last[fr.ctx, line, path] = (args[1], pc, fr)
    for cont in TABLES:
        cover, n, where = 0, 0, None
        for (c, line, path), (v, pc, fr) in sorted(last.items(), key=lambda q: str(q[0][1])):
            for g, t in E.alts(v):
                if t.op == 'agg' and len(t.a[2]) == 2 and t.a[2][1].op in ('agg', 'g') and under(t.a[2][1], cont):
                    n += 1
                    where = '%s, line %s' % (fr.fn.short.split('::')[-1], line)
                    cover = E.B.OR(cover, E.B.AND(pc, g))
        if not n:
            ctx.unknown('records of <%s> kept' % cont, 'no list of records read was found')
            continue
        cover = pkg.guard_case(E, cover, whole_record if cont == 'numFmts' else record_decide)
        if cover not in (0, 1):
            cover = E.B.subst(cover, {v: 1 for v in E.B.support(cover) if E.vars[v][0] in ('next', 'existstag', 'exists', 'parseok')
                                      or cont == 'numFmts' and E.vars[v][0] == 'has'})
        if cover not in (0, 1):
            # what does not depend on the records decides whether the part is read at all
            cover = E.B.exists(cover, frozenset(v for v in E.B.support(cover) if not any(hasattr(t, 'op') and under(t, cont) for t in E.vars[v][1:])))
        if cover == 1:
            ctx.ok('every record read is kept', cont)
        elif cover == 0 or {E.vars[v][0] for v in E.B.support(cover)} & {'x', 'eq', 'lt', 'has', 'hasattrs', 'limited'}:
            ctx.bad('%s: record not kept' % cont, 'a record read from <%s> is kept (%s) only when %s; the records after it move, and ids refer to positions' % (
                cont, where, E.bfmt(cover, 2)[:200]))
        else:
            ctx.unknown('records of <%s> kept' % cont, E.bfmt(cover, 2)[:120])


def guard(E, g):
    return pkg.guard_case(E, g, whole_record)


def case(E, g, S, present, toks):
    """guard under: exactly the children `present` of S exist, and child attribute tokens toks {(el, key): token}."""
    sup = E.B.support(g) if g not in (0, 1) else ()
    m = infra_assign(E, [g])
    for v in sup:
        d = E.vars[v]
        if d[0] == 'parseok':
            m[v] = 1
        t = d[1] if len(d) > 1 else None
        if d[0] in ('next', 'existstag') and getattr(t, 'op', '') == 'ct' and t.a[0] is S:
            m[v] = 1 if t.a[1] in present else 0
        if d[0] == 'hasattrs' and getattr(t, 'op', '') == 'ct' and t.a[0] is S:
            m[v] = 1 if any(e is t and tok is not None for (e, k), tok in toks.items()) else 0
    for (e, k), tok in toks.items():
        m.update(assign_token(E, sup, e, k, tok))
    return m


# ------------------------------------------------------------------ fonts
def fonts(ctx, sc):
    E = sc.E
    kids = [o for o in sc.elements if path_of(sc, o)[:2] == ['fonts', 'font'] and len(path_of(sc, o)) == 2]
    ctx.need('written children of <font>', len(kids), 8)
    F = None
    for o in kids:
        if o.tag:
            s = child_source(sc, o, o.tag)
            if s is not None:
                F = s.a[0]
    if F is None:
        ctx.need('the font record read', 0, 1)
        return
    tag = {t: [o for o in kids if o.tag == t] for t in 'b i u sz color name family scheme'.split()}
    for t, spec in dict(sz=dict(val=('num',)), name=dict(val=('str',)), family=dict(val=('num',)),
                        scheme=dict(val=('enum', ['none', 'minor', 'major'], 'none'))).items():
        ctx.need('<%s> of fonts' % t, len(tag[t]), 1)
        S = mk('ct', F, t)
        for o in tag[t]:
            extra = case(E, 0 if o.guard in (0, 1) else o.guard, F, {t}, {})
            sup = set(E.B.support(o.guard) if o.guard not in (0, 1) else ())
            for v in o.attrs.values():
                for g in guards_of(E, v):
                    sup |= set(E.B.support(g))
            extra = {v: m for v, m in presence(E, sup, F, {t}).items()}
            check_spec(ctx, sc, t, spec, ['val'], S=S, outs=[o], extra=extra, mandatory=('val',))
            if t in ('family',):
                m = case(E, o.guard, F, set(), {})
                if E.B.subst(o.guard, m):
                    ctx.bad('%s: invented' % t, 'a font without <%s> is written with one' % t)
                else:
                    ctx.ok('absent child stays absent', t)
    color(ctx, sc, tag['color'], mk('ct', F, 'color'), 'font color', lambda sup: presence(E, sup, F, {'color'}), lambda sup: presence(E, sup, F, set()))
    # flags
    for t in ('b', 'i'):
        S = mk('ct', F, t)
        ctx.need('<%s> of fonts' % t, len(tag[t]), 1)
        for present, tok, want in ((0, None, 0), (1, None, 1), (1, '1', 1), (1, 'true', 1), (1, '0', 0), (1, 'false', 0)):
            flag_case(ctx, sc, tag[t], F, S, t, present, tok, want)
    S = mk('ct', F, 'u')
    single = [o for o in tag['u']]
    for present, tok, want in ((0, None, None), (1, None, 'single'), (1, 'single', 'single'), (1, 'double', 'double'), (1, 'none', None)):
        got = []
        for o in single:
            v = o.attrs.get('val', mk('absent'))
            gs = [o.guard] + guards_of(E, v)
            m = {}
            for g in gs:
                m.update(case(E, g, F, {'u'} if present else set(), {(S, 'val'): tok}))
            eg = E.B.subst(o.guard, m)
            if eg == 0:
                continue
            for g, x in resolve(E, v, m):
                if E.B.AND(g, eg):
                    got.append((E.B.AND(g, eg), x.a[0] if x.op == 'str' else 'single' if x.op == 'absent' else fmt(x, 2)[:40]))
        label = 'u %s' % (tokname(tok) if present else 'absent')
        names = sorted({n for g, n in got})
        cover = 0
        for g, n in got:
            cover = E.B.OR(cover, g)
        if want is None and not got or want is not None and names == [want] and cover == 1:
            ctx.ok('underline', label)
        else:
            ctx.bad('font %s: %s' % (label, ','.join(names) or 'not written'), 'a font with underline %s is written with underline %s' % (label[2:], ','.join(names) or 'none'))
    # everything else is copied
    other = [o for o in kids if o.tag is None or o.tag in FONT_OTHER]
    n = 0
    for name in FONT_OTHER:
        def dec(d, name=name):
            if d[0] == 'x' and getattr(d[1], 'op', '') == 'tag':
                return int(d[2] == name)
            if d[0] == 'next' and getattr(d[1], 'op', '') == 'ct' and d[1].a[0] is F:
                return int(d[1].a[1] == name)
            return pkg.infra(d)
        cover = 0
        for o in other:
            if o.tag not in (None, name):
                continue
            g = pkg.guard_case(E, o.guard, dec)
            if not g:
                continue
            tg = mk('str', o.tag) if o.tag else o.tagterm
            for w, x in pkg.case(E, tg, dec):
                w = E.B.AND(w, g)
                if not w:
                    continue
                if x.op == 'tag' and mentions(x, lambda z: z is F) or x.op == 'str' and x.a[0] == name:
                    cover = E.B.OR(cover, w)
                elif x.op == 'str':
                    ctx.bad('font %s: written as %s' % (name, x.a[0]), 'the <%s> of a font is written as <%s>' % (name, x.a[0]))
                else:
                    cover = E.B.OR(cover, w)
                    ctx.unknown('font child tag', fmt(x, 2)[:100])
            bad = None
            for w, x in pkg.case(E, o.attrmap, dec):
                if not E.B.AND(w, g):
                    continue
                if x.op == 'map' and x.a[0].op == 'empty' and not x.a[1] or x.op in ('absent', 'undef'):
                    bad = 'without its attributes'
                elif x.op == 'map' and x.a[1] and all(k.op == 'str' for k, mu, v in x.a[1]) and x.a[0].op == 'empty':
                    vals = [v for k, mu, v in x.a[1]]
                    if not all(mentions(v, lambda z: z.op == 'attr') for v in vals):
                        bad = 'with %s' % fmt(x, 3)[:80]
                elif not mentions(x, lambda z: z is F):
                    bad = 'with %s' % fmt(x, 3)[:80]
            if bad:
                ctx.bad('font %s: %s' % (name, bad[:40]), 'the <%s> of a font is written %s' % (name, bad))
        if cover == 1:
            ctx.ok('other font property kept', name)
            n += 1
        elif cover == 0 or not {E.vars[v][0] for v in E.B.support(cover)} - {'x', 'has', 'hasattrs', 'next'}:
            ctx.bad('font %s: lost' % name, 'the <%s> of a font is written only when %s' % (name, E.bfmt(cover, 1)[:140] if cover else 'never'))
        else:
            ctx.unknown('font %s' % name, E.bfmt(cover, 1)[:120])
    # nothing but the font's own properties
    dup_font(ctx, sc, kids)
    return F


def presence(E, sup, S, present):
    m = {}
    for v in sup:
        d = E.vars[v]
        t = d[1] if len(d) > 1 else None
        if d[0] in ('next', 'existstag') and getattr(t, 'op', '') == 'ct' and t.a[0] is S:
            m[v] = int(t.a[1] in present)
        elif d[0] == 'x' and getattr(t, 'op', '') == 'tag':
            m[v] = int(d[2] in present)
    return m


def dup_font(ctx, sc, kids):
    E = sc.E
    for i in range(len(kids)):
        for j in range(i):
            if kids[i].tag and kids[i].tag == kids[j].tag and kids[i].tag != 'u':
                if guard(E, E.B.AND(kids[i].guard, kids[j].guard)):
                    ctx.bad('font %s: written twice' % kids[i].tag, '<%s> of a font can be written by two sites' % kids[i].tag)


def flag_case(ctx, sc, outs, F, S, t, present, tok, want):
    E = sc.E
    g = 0
    for o in outs:
        v = o.attrs.get('val', mk('absent'))
        m = {}
        for q in [o.guard] + guards_of(E, v):
            m.update(case(E, q, F, {t} if present else set(), {(S, 'val'): tok}))
        eg = E.B.subst(o.guard, m)
        for w, x in resolve(E, v, m):
            on = x.op == 'absent' or x.op == 'str' and x.a[0] in ('1', 'true')
            if on:
                g = E.B.OR(g, E.B.AND(w, eg))
            elif x.op not in ('str',) and E.B.AND(w, eg):
                ctx.unknown('font %s' % t, fmt(x, 2)[:80])
                return
    label = '%s %s' % (t, tokname(tok) if present else 'no element')
    if g == want:
        ctx.ok('font flag', label)
    else:
        ctx.bad('font %s: %s' % (label, 'lost' if want else 'set'), 'a font with <%s> %s is %swritten with <%s>' % (
            t, ('value ' + tokname(tok)) if present else 'absent', 'not always ' if want else '', t))


def color(ctx, sc, outs, S, what, present, absent=None):
    E = sc.E
    ctx.need('colour elements: %s' % what, len(outs), 1)
    for o in outs:
        sup = set(E.B.support(o.guard) if o.guard not in (0, 1) else ())
        for v in o.attrs.values():
            for g in guards_of(E, v):
                sup |= set(E.B.support(g))
        for k in COLORS:
            gv = {c: None for c in COLORS if c != k}
            extra = present(sup)
            check_spec(ctx, sc, o.tag, {k: dict(type=('str',) if k == 'rgb' else ('num',), skip=(None,), given=gv)}, COLORS + ['tint', 'auto'], S=S, outs=[o], extra=extra)
            for k2 in COLORS:
                if k2 == k or k2 not in o.attrs:
                    continue
                m = infra_assign(E, guards_of(E, o.attrs[k2]) + [o.guard])
                m.update({v: 1 for v in sup if E.vars[v][0] == 'parseok'})
                m.update(extra)
                for c in COLORS:
                    m.update(assign_token(E, sup, S, c, '?' if c == k else None))
                for g, x in resolve(E, o.attrs[k2], m):
                    if x.op != 'absent' and E.B.AND(g, E.B.subst(o.guard, m)):
                        ctx.bad('%s: %s written as %s' % (what, k, k2), 'a %s given by %s is written with %s' % (what, k, k2))
        if absent is not None:
            m = infra_assign(E, [o.guard])
            m.update(absent(sup))
            if E.B.subst(o.guard, m):
                ctx.bad('%s: invented' % what, 'a record without %s is written with one' % what)
            else:
                ctx.ok('absent child stays absent', what)


def shown(ctx, sc, o, S, what, when, present):
    """A colour that was read is written whatever the pattern or line style is."""
    E = sc.E
    if o.guard in (0, 1):
        sup = set()
    else:
        sup = set(E.B.support(o.guard))
    m = infra_assign(E, [o.guard])
    m.update(present(sup))
    for v in sup:
        d = E.vars[v]
        if d[0] == 'parseok':
            m[v] = 1
    m.update(assign_token(E, sup, S, 'rgb', '?'))
    for c in COLORS:
        if c != 'rgb':
            m.update(assign_token(E, sup, S, c, None))
    g = E.B.subst(o.guard, m)
    if g == 1:
        ctx.ok('colour shown', '%s, %s' % (what, when))
    elif g == 0:
        ctx.bad('%s: lost with %s' % (what, when), 'the %s is not written when it comes with %s' % (what, when))
    else:
        ctx.unknown('%s with %s' % (what, when), E.bfmt(g, 1)[:120])


# ------------------------------------------------------------------ fills
def fills(ctx, sc):
    E = sc.E
    pf = [o for o in sc.by_tag('patternFill')]
    ctx.need('written <patternFill>', len(pf), 1)
    check_parent(ctx, sc, 'patternFill', ['fills', 'fill'])
    P = None
    for o in pf:
        for s, a in attr_sources(E, o.attrs.get('patternType', mk('absent'))):
            if a == 'patternType':
                P = s
        if P is None:
            ctx.need('the pattern read', 0, 1)
            return
        check_spec(ctx, sc, 'patternFill', dict(patternType=('enum', PATTERNS, 'none')), ['patternType'], S=P, outs=[o])
    for t in ('fgColor', 'bgColor'):
        outs = sc.by_tag(t)
        check_parent(ctx, sc, t, ['fills', 'fill', 'patternFill'])

        def pres(sup, t=t, here=1, pat='solid'):
            m = {}
            for v in sup:
                d = E.vars[v]
                x = d[1] if len(d) > 1 else None
                if d[0] in ('next', 'existstag') and getattr(x, 'op', '') == 'ct' and x.a[0] is P:
                    m[v] = int(x.a[1] == t and here)
                elif d[0] == 'x' and getattr(x, 'op', '') == 'tag':
                    m[v] = int(d[2] == t and here)
            m.update(assign_token(E, sup, P, 'patternType', pat))
            return m
        color(ctx, sc, outs, mk('ct', P, t), t, pres, lambda sup, pres=pres: pres(sup, here=0))
        for pat in PATTERNS:
            for o in outs:
                shown(ctx, sc, o, mk('ct', P, t), t, 'pattern ' + pat, lambda sup, pat=pat: pres(sup, pat=pat))
    dup_check(ctx, sc, ['patternFill', 'fgColor', 'bgColor'])


# ------------------------------------------------------------------ borders
def borders(ctx, sc):
    E = sc.E
    for side in SIDES:
        outs = [o for o in sc.by_tag(side) if path_of(sc, o) == ['borders', 'border']]
        ctx.need('written <%s> of borders' % side, len(outs), 1)
        for o in outs:
            S = None
            for s, a in attr_sources(E, o.attrs.get('style', mk('absent'))):
                if a == 'style' and s.op == 'ct' and s.a[1] == side:
                    S = s
            if S is None:
                ctx.bad('border %s: style not from %s' % (side, side), 'the style of the %s border is not the one read from <%s>' % (side, side))
                continue
            sup = set()
            for g in guards_of(E, o.attrs['style']) + [o.guard]:
                if g not in (0, 1):
                    sup |= set(E.B.support(g))
            check_spec(ctx, sc, side, dict(style=('enum', BORDERS, 'none')), ['style'], S=S, outs=[o], extra=presence(E, sup, S.a[0], {side}))
            if pkg.guard_case(E, o.guard, lambda d: record_decide(d)) != 1:
                ctx.unknown('border %s written' % side, E.bfmt(o.guard, 1)[:100])
            cols = [c for c in sc.by_tag('color') if path_of(sc, c) == ['borders', 'border', side]]
            ctx.need('colour of <%s>' % side, len(cols), 1)
            for c in cols:
                C = None
                for v in c.attrs.values():
                    for s, a in attr_sources(E, v):
                        if a in COLORS and mentions(s, lambda z: z is S) and s is not S:
                            C = s
                if C is None:
                    ctx.bad('border %s: colour not from %s' % (side, side), 'the colour of the %s border is not the one read from <%s>' % (side, side))
                    continue

                def pres(sup, here=1, style='thin'):
                    m = presence(E, sup, S.a[0], {side})
                    m.update(assign_token(E, sup, S, 'style', style))
                    for v in sup:
                        d = E.vars[v]
                        x = d[1] if len(d) > 1 else None
                        if d[0] == 'next' and x is C:
                            m[v] = here
                        elif d[0] == 'next' and getattr(x, 'op', '') == 'ct' and x.a[0] is S:
                            m[v] = int(x.a[1] == 'color' and here)
                    return m
                color(ctx, sc, [c], C, 'color of %s' % side, pres, lambda sup: pres(sup, 0))
                for style in BORDERS[1:]:
                    shown(ctx, sc, c, C, 'color of %s' % side, 'style ' + style, lambda sup: pres(sup, 1, style))


# ------------------------------------------------------------------ cell formats
def formats(ctx, sc):
    E = sc.E
    for cont in ('cellXfs', 'cellStyleXfs'):
        outs = [o for o in sc.by_tag('xf') if container(sc, o) == cont]
        spec = dict(XF, xfId=('num', '0')) if cont == 'cellXfs' else XF
        for o in outs:
            X = None
            cnt = {}
            for v in o.attrs.values():
                for s, a in attr_sources(E, v):
                    cnt[s] = cnt.get(s, 0) + 1
            for s in sorted(cnt, key=lambda s: -cnt[s])[:1]:
                X = s
            if X is None:
                ctx.need('the <xf> read in ' + cont, 0, 1)
                continue
            if not under(X, cont):
                ctx.bad('%s: read from elsewhere' % cont, 'the records written into <%s> are not the ones read from it' % cont)
            check_spec(ctx, sc, 'xf', spec, XF_ATTRS, S=X, outs=[o])
            if cont == 'cellStyleXfs' and 'xfId' in o.attrs:
                ctx.bad('cellStyleXfs: xfId', 'the formats of <cellStyleXfs> are written with xfId')
            al = [a for a in sc.by_tag('alignment') if path_of(sc, a) == [cont, 'xf']]
            ctx.need('alignment of <%s>' % cont, len(al), 1)
            for a in al:
                alignment(ctx, sc, cont, a, X)


def alignment(ctx, sc, cont, o, X):
    E = sc.E
    A = None
    for v in o.attrs.values():
        for s, a in attr_sources(E, v):
            if a in ALIGN and s is not X:
                A = s
    if A is None or not mentions(A, lambda z: z is X):
        ctx.bad('%s alignment: not from its format' % cont, 'the alignment of a format in <%s> is not the one read from it' % cont)
        return
    for k in o.attrs:
        if k not in ALIGN_ATTRS:
            ctx.bad('alignment@%s: unknown attribute' % k, '<alignment> is written with an attribute "%s" the schema does not define' % k)
    gs = [o.guard] + [g for v in o.attrs.values() for g in guards_of(E, v)]
    sup = set()
    for g in gs:
        if g not in (0, 1):
            sup |= set(E.B.support(g))
    # the format itself has attributes; which ones does not matter
    base = {v: 1 for v in sup if E.vars[v][0] == 'has' and E.vars[v][1] is X}
    for k, typ in ALIGN.items():
        for other in (None, 'set'):
            gv = {}
            if other:
                gv = {(A, q): v for q, v in dict(wrapText='1', vertical='top', horizontal='center').items() if q != k}
            else:
                gv = {(A, q): None for q in ALIGN if q != k}
            res = {}
            for verdict, tok, t, w in check_attr(sc, o, k, A, k, typ, gv, base):
                if verdict == 'dropped':
                    verdict = 'ok' if accept(typ, tok, mk('absent'), mk('attr', A, k)) else 'bad'
                res.setdefault(tok, []).append((verdict, t))
            for tok, rs in res.items():
                what = '%s alignment@%s=%s' % (cont, k, tokname(tok))
                bad = [r for r in rs if r[0] == 'bad']
                if bad:
                    kd = kind_of(bad[0][1], mk('attr', A, k), A)
                    ctx.bad('%s: %s' % (what, kd), 'reading alignment %s=%s in <%s>%s, it is %s on save' % (
                        k, tokname(tok), cont, '' if other else ' as the only alignment attribute', kd))
                elif [r for r in rs if r[0] == 'unknown']:
                    ctx.unknown(what, fmt(rs[0][1], 2)[:100])
                else:
                    ctx.ok('alignment', what)
