from .. import pkg
from ..engine import fmt, mk
from .c01 import strip, some

EXPLAIN = ('The archive loader, the archive writer, and the way a part passes through opening, creating and closing are interpreted for an arbitrary '
           'part (guarded value flow over MIR). The content type a part carries is followed from the listing that was read, or from the registry '
           'entry of its kind, to the listing that is written, component by component and under every combination of default and override.')
RULE = ('a part carries the type of its own override and of the default of its own extension; open and close keep them; a new part takes the registry '
        'entry of its kind; every override is written back for its own part and every default that a part carries is written once and non-empty')
ASSUME = ['part names in overrides are spelled as in the archive', 'collections behave as documented']


def run(ctx):
    L = pkg.Load(ctx)
    S = pkg.Save(ctx)
    if not (L.ok and S.ok):
        return
    roles = pkg.roles(L)
    for r in ('ext', 'exttype', 'override'):
        if r not in roles:
            ctx.bad('not kept: ' + r, {'ext': 'the extension of the matching default', 'exttype': 'the type of the matching default',
                                       'override': 'the overriding type'}[r] + ' of a loaded part is not stored')
    if any(r not in roles for r in ('ext', 'exttype', 'override')):
        return
    load(ctx, L, roles)
    save(ctx, S, roles)
    passing(ctx, roles)


def after_dot(t, name):
    """Text after the last dot of the name."""
    t = strip(t)
    if t.op == 'vf' or t.op == 'f':
        return after_dot(t.a[0], name) or (t.op == 'f' and t.a[0].op in ('S', 'vf') and t.a[1] == 1 and after_dot(t.a[0], name))
    if t.op == 'S':
        kind, args = t.a[2], [x for x in t.a[4:] if hasattr(x, 'op')]
        last = t.a[-1]
        if kind in ('item',):
            src = args[0]
            how = args[1].a[0] if len(args) > 1 and args[1].op == 'str' else (last if isinstance(last, str) else None)
            if src.op == 'S' and src.a[2] in ('rsplit', 'rsplitn', 'split'):
                sargs = [x for x in src.a[4:] if hasattr(x, 'op')]
                okdot = any(x.op in ('str', 'char', 'chr') and str(x.a[0]) in ('.', '46') for x in sargs[1:]) or any(x.op == 'int' and x.a[0] == 46 for x in sargs[1:])
                back = src.a[2] == 'split'
                good = how in ('next_back', 'last') if back else how == 'next'
                return okdot and good and strip(sargs[0]) is name
        if kind in ('extension', 'rsplit_once'):
            return pkg.mentions(t, lambda z: z is name)
    if t.op in ('extension', 'rsplit_once') or t.op == 'op' and t.a[0] in ('extension', 'rsplit_once'):
        return pkg.mentions(t, lambda z: z is name)
    return False


def load(ctx, L, roles):
    E = L.E
    n = 0
    for k, mu, v in L.entries:
        names = [t for g, t in E.alts(k)]
        for name in names:
            name = strip(name)
            for g, t in E.alts(v):
                if t.op != 'agg':
                    continue
                n += 1
                entry(ctx, E, name, t, roles)
    ctx.need('loaded parts', n, 1)


def entry(ctx, E, name, t, roles):
    comps = t.a[2]
    # the default
    ds, atoms = set(), set()
    for r, key in (('ext', 'Extension'), ('exttype', 'ContentType')):
        for g, x in E.alts(comps[roles[r]]):
            for a in E.B.support(g):
                d = E.vars[a]
                if d[0] in ('eq', 'eq_ignore_case', 'x') or d[0] not in pkg.INFRA and any(hasattr(z, 'op') and pkg.mentions(z, lambda y: y.op == 'attr') for z in d[1:]):
                    if pkg.infra(d) is None and not extraction(d, name):
                        atoms.add(a)
            x = strip(x)
            if x.op == 'attr':
                ds.add(x.a[0])
                if x.a[1] != key:
                    ctx.bad('default: exchanged', 'the %s of a loaded part is the %s of the default' % ('extension' if r == 'ext' else 'default type', x.a[1]))
            elif not (x.op == 'str' and x.a[0] == ''):
                ctx.bad('default: ' + x.op, 'the %s of a loaded part is %s' % ('extension' if r == 'ext' else 'default type', fmt(x, 4)[:120]))
    if len(ds) != 1:
        ctx.bad('default: mixed', 'the default of a loaded part is taken from %d different places' % len(ds))
        return
    D = next(iter(ds))
    if not pkg.mentions(D, lambda z: z.op == 'tagged' and z.a[0].op == 'str' and z.a[0].a[0] == 'Default'):
        ctx.bad('default: source', 'the default of a loaded part is taken from %s' % fmt(D, 4)[:120])
        return
    match = set()
    for a in atoms:
        d = E.vars[a]
        if d[0] == 'eq_ignore_case' or d[0] in ('eq', 'x'):
            xs = [strip(z) for z in d[1:] if hasattr(z, 'op')]
            if len(xs) == 2 and (side(xs[0], D) and after_dot(lowered(xs[1]), name) or side(xs[1], D) and after_dot(lowered(xs[0]), name)):
                match.add(a)
                continue
            if any(side(x, D) for x in xs):
                ctx.bad('default: matched otherwise', 'the extension of a default is compared with %s instead of the text after the last dot of the part name'
                        % ' / '.join(fmt(x, 4)[:100] for x in xs if not side(x, D)))
                continue
        ctx.bad('default: condition', 'whether a part gets its default depends on %s' % str([fmt(z, 4) if hasattr(z, 'op') else z for z in d])[:200])
    if not match:
        ctx.bad('default: not matched', 'a default is given to a part without comparing its extension')
        return
    keys = {atomkey(E.vars[m]) for m in match}
    for want, nm in ((1, 'matching'), (0, 'other')):
        def decide(d, want=want):
            return want if atomkey(d) in keys else pkg.infra(d) if not extraction(d, name) else 1
        for r, key in (('ext', 'Extension'), ('exttype', 'ContentType')):
            left = pkg.case(E, comps[roles[r]], decide)
            vals = [strip(x) for g, x in left]
            good = all(x is mk('attr', D, key) for x in vals) if want else all(x.op == 'str' and x.a[0] == '' for x in vals)
            if vals and good:
                ctx.ok('default on load', '%s of a part with a %s default: %s' % (key, nm, fmt(vals[0], 3)[:60]))
            else:
                ctx.bad('default: %s %s' % (nm, key), 'the %s a part gets from a %s default is %s' % (key, nm, ' / '.join(fmt(x, 3)[:80] for x in vals)))
    # the override
    want = mk('cat', (mk('str', '/'), name))
    n = 0
    for g, x in E.alts(comps[roles['override']]):
        if x.op == 'agg' and x.a[1] == 0:
            r = pkg.guard_case(E, g, lambda d: 1 if d[0] in ('existsattr',) else pkg.infra(d))
            if r:
                ctx.bad('override: lost', 'a part with an override gets none when %s' % E.bfmt(r)[:200])
            continue
        if x.op != 'agg' or not x.a[2]:
            ctx.unknown('override', fmt(x, 3)[:80])
            continue
        for g2, y in E.alts(x.a[2][0]):
            y = strip(y)
            if y.op != 'attr' or y.a[1] != 'ContentType':
                ctx.bad('override: value', 'the overriding type of a part is %s' % fmt(y, 4)[:120])
                continue
            el = y.a[0]
            hit = []
            pkg.mentions(el, lambda z: hit.append(z) or False if z.op == 'withattr' else False)
            good = [h for h in hit if (h.a[0] if isinstance(h.a[0], str) else h.a[0].a[0]) == 'PartName' and joined(h.a[1]) is joined(want)]
            if good:
                n += 1
                ctx.ok('override on load', 'ContentType of the element whose PartName is "/" + name')
            else:
                ctx.bad('override: other part', 'the override of a part is looked up as %s' % (fmt(hit[0], 5)[:140] if hit else fmt(el, 4)[:140]))
    ctx.need('override on load', n, 1)


def atomkey(d):
    """An atom, whether its loop item is seen inside the iteration or after it."""
    return tuple(fmt(z, -20).replace('*', '') if hasattr(z, 'op') else z for z in d)


def extraction(d, name):
    """Whether the name has an extension at all."""
    return d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and str(d[2]) == '1' and after_dot(d[1].a[0], name)


def joined(t):
    return t


def same(a, b):
    """The same loop item (inside the iteration or as seen after it)."""
    return a is not None and a.op == b.op and a.a[:3] == b.a[:3]


def lowered(t):
    while t.op == 'op' and len(t.a) > 1 and t.a[0] in ('lower', 'to_ascii_lowercase', 'to_lowercase', 'upper') and hasattr(t.a[1], 'op'):
        t = strip(t.a[1])
    return t


def side(x, D):
    x = lowered(x)
    return x.op == 'attr' and x.a[0] is D and x.a[1] == 'Extension'


def save(ctx, S, roles):
    E, B = S.E, S.E.B
    over = [o for o in S.elements if o.tag == 'Override']
    defs = [o for o in S.elements if o.tag == 'Default']
    ctx.need('override elements written', len(over), 1)
    ctx.need('default elements written', len(defs), 1)
    items = set()
    for n, pc in E.zstarts:
        for g, t in E.alts(n):
            it, path = S.item_of(t)
            if it is not None:
                items.add(it)
    items = {(x.a[0], x.a[1], x.a[2]): x for x in items}.values()
    if len(items) != 1:
        ctx.unknown('stored part', 'the parts are written by %d loops' % len(items))
        return
    it = next(iter(items))
    oi, ei, ti = roles['override'], roles['ext'], roles['exttype']
    fov, fex, fty = (mk('f', mk('f', it, 1), i) for i in (oi, ei, ti))
    others = set()

    def own(t):
        return S.item_of(t)

    def decide(someov, empty):
        def d_(d):
            if d[0] == 'next':
                return 1
            if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr':
                x = d[1].a[0]
                i2, p2 = S.item_of(x)
                if i2 is not None and p2 == (1, oi):
                    return int((str(d[2]) == '1') == someov)
            if d[0] == 'x' and d[2] == '' and S.item_of(d[1])[1] == (1, ei):
                return int(empty)
            if d[0] == 'eq':
                for a, b in ((d[1], d[2]), (d[2], d[1])):
                    if getattr(a, 'op', '') == 'str' and a.a[0] == '' and S.item_of(b)[1] == (1, ei):
                        return int(empty)
            if d[0] in ('lt', 'x') and hasattr(d[1], 'op'):
                for q in d[1:]:
                    if getattr(q, 'op', '') == 'len' and S.item_of(q.a[0])[1] == (1, ei):
                        return int(empty) if d[0] == 'x' else int(not empty)
            if d[0] == 'exists' or d[0] == 'existstag':
                return 1
            return None
        return d_

    merging(ctx, S, decide, ei, ti)

    def value(o, key, dec):
        return pkg.case(E, o.attrs.get(key, mk('absent')), dec)
    for someov in (True, False):
        for empty in (True, False):
            dec = decide(someov, empty)
            word = 'with%s an override and with%s a default' % ('' if someov else 'out', 'out' if empty else '')
            # overrides
            g = 0
            for o in over:
                r = pkg.guard_case(E, o.guard, dec)
                if r not in (0, 1):
                    ctx.bad('override: condition', 'the override of a part %s is written only when %s' % (word, E.bfmt(r)[:160]))
                g = B.OR(g, r)
                if r == 1:
                    for key, path in (('PartName', (0,)), ('ContentType', (1, oi, ('vf', 1, 0)))):
                        for g2, x in value(o, key, dec):
                            y = x
                            if key == 'PartName':
                                if x.op == 'cat' and len(x.a[0]) == 2 and x.a[0][0].op == 'str' and x.a[0][0].a[0] == '/':
                                    y = x.a[0][1]
                                else:
                                    ctx.bad('override name', 'the PartName written for a part is %s' % fmt(x, 4)[:120])
                                    continue
                            i2, p2 = S.item_of(y)
                            if same(i2, it) and p2 == path:
                                ctx.ok('override on save', '%s = %s' % (key, fmt(x, 4)[:80]))
                            else:
                                ctx.bad('override %s' % key, 'the %s written in the override of a part is %s' % (key, fmt(x, 4)[:120]))
            if g == 1 and someov or g == 0 and not someov:
                ctx.ok('override present', 'part %s: override %s' % (word, 'written' if g else 'not written'))
            elif g in (0, 1):
                ctx.bad('override presence', 'for a part %s an override is %swritten' % (word, '' if g else 'not '))
            # defaults
            g = 0
            for o in defs:
                r = pkg.guard_case(E, o.guard, dec)
                vals = {}
                for key in ('Extension', 'ContentType'):
                    vals[key] = [x for g2, x in value(o, key, dec) if x.op != 'absent']
                present = r != 0 and all(vals.values())
                partial = r != 0 and bool(vals['Extension']) != bool(vals['ContentType'])
                if partial:
                    ctx.bad('default incomplete', 'a default is written with only one of its attributes for a part %s' % word)
                if not present:
                    continue
                g = 1
                for key, i in (('Extension', ei), ('ContentType', ti)):
                    for x in vals[key]:
                        i2, p2 = S.item_of(x)
                        if same(i2, it) and p2 == (1, i):
                            ctx.ok('default on save', '%s = %s' % (key, fmt(x, 4)[:80]))
                        else:
                            ctx.bad('default %s' % key, 'the %s written in a default is %s' % (key, fmt(x, 4)[:120]))
            if empty and g:
                ctx.bad('empty default', 'an empty default is written for a part %s' % word)
            elif not empty and not g and not someov:
                ctx.bad('default left out', 'no default is written for a part %s, which leaves it without a type' % word)
            else:
                ctx.ok('default presence', 'part %s: default %s' % (word, 'written' if g else 'not written'))


def merging(ctx, S, decide, ei, ti):
    """Defaults of one extension from several parts: a part that only has the default decides over one that has an override."""
    E = S.E
    ops = []
    for how, k, v, pc, line in E.mapops.values():
        for g, t in E.alts(k):
            i2, p2 = S.item_of(t)
            if i2 is not None and p2 == (1, ei) and any(S.item_of(x)[1] == (1, ti) for _, x in E.alts(v)):
                ops.append((how, E.B.AND(pc, g), i2, line))
    plain = [o for o in ops if pkg.guard_case(E, o[1], decide(False, False))]
    over = [o for o in ops if pkg.guard_case(E, o[1], decide(True, False))]
    if not plain:
        return
    def weak(o, someov):
        """Gives way to a default already there."""
        return o[0] == 'keep' or any(E.vars[x][0] == 'haskey' for x in E.B.support(pkg.guard_case(E, o[1], decide(someov, False))))
    for n, o in enumerate(ops):
        # another site of the same loop (or this one, for another part) may have run before
        if o in plain and weak(o, False) and any(q is o or same(o[2], q[2]) or ops.index(q) < n for q in over):
            ctx.bad('default overruled', 'the default type of a part without an override is dropped when a part with an override came first (line %s)' % o[3])
        elif o in over and not weak(o, True) and any(q is o or same(o[2], q[2]) or ops.index(q) < n for q in plain):
            ctx.bad('default overruled', 'a part with an override replaces the default type that other parts rely on (line %s)' % o[3])
        else:
            ctx.ok('merging of defaults', 'line %s: %s' % (o[3], o[0]))


SML = 'application/vnd.openxmlformats-officedocument.spreadsheetml.'
KINDS = {'WorkbookPart': SML + 'sheet.main+xml', 'WorkSheet': SML + 'worksheet+xml', 'ShareStringPart': SML + 'sharedStrings+xml',
         'CalculationChainPart': SML + 'calcChain+xml', 'StylePart': SML + 'styles+xml',
         'CorePropertiesPart': 'application/vnd.openxmlformats-package.core-properties+xml',
         'ThemePart': 'application/vnd.openxmlformats-officedocument.theme+xml',
         'RelationsPart': 'application/vnd.openxmlformats-package.relationships+xml'}
DEFAULTS = {'xml': 'application/xml', 'rels': 'application/vnd.openxmlformats-package.relationships+xml'}


def passing(ctx, roles):
    """open -> handle -> close keeps what the part carries; a new part takes the entry of its kind."""
    from ..engine import State, Ref
    P = ctx.P
    kinds = [f for f in P.lib.values() if f.short.endswith('XmlDocumentPartCommon>::get_xml_document')]
    close = ctx.fn('OfficeDocument::close_xml_document')
    ctx.need('kinds of parts that are opened', len(kinds), 8)
    ai, xi = pkg.field(P, 'OfficeDocument', 'archive_collection'), pkg.field(P, 'OfficeDocument', 'xml_document_collection')
    if close is None or ai is None or xi is None:
        ctx.unknown('part passing', 'the collections of parts or the closing routine are not found')
        return
    D, NR, W = ('H', 'doc'), ('H', 'n'), ('H', 'w')

    def start():
        E = pkg.engine(P)
        pkg.real_documents(E)
        st = State(1, {})
        doc = st.st[D] = mk('S', (), 0, 'document', True)
        N = st.st[NR] = mk('S', (), 0, 'NAME', True)
        st.st[W] = Ref(D)
        return E, st, doc, N

    def stored(E, st, N):
        for g, v in E.alts(E.proj(E.getroot(st, D), ('f', ai))):
            if v.op != 'map':
                continue
            for k, mu, val in v.a[1]:
                if strip(k) is N:
                    return val
        return None
    for f in sorted(kinds, key=lambda f: f.short):
        kind = f.short.split(' as ')[0].split('::')[-1]
        E, st, doc, N = start()
        A, X = mk('f', doc, ai), mk('f', doc, xi)
        E.call_fn(st, f, [Ref(W), Ref(NR)], ('open', 0, f.key), ())
        E.call_fn(st, close, [Ref(D), Ref(NR)], ('close', 0, close.key), ())
        ctx.count('functions analysed', len(E.fns_seen))
        val = stored(E, st, N)
        if val is None:
            ctx.bad('%s: not stored' % kind, 'after opening and closing a %s nothing is stored under its name' % kind)
            continue
        for had in (True, False):
            def dec(d, had=had):
                if d[0] == 'haskey' and d[1] is X:
                    return 0
                if d[0] == 'haskey' and d[1] is A:
                    return int(had)
                if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and pkg.mentions(d[1], lambda z: z.op == 'mapval'):
                    return 1 if str(d[2]) == '1' else 0
                return pkg.infra(d)
            for g, t in pkg.case(E, val, dec):
                if t.op != 'agg':
                    ctx.bad('%s: closed' % kind, 'after opening and closing a %s the stored part is %s when %s' % (kind, fmt(t, 3)[:100], E.bfmt(g)[:120]))
                    continue
                for r, nm in (('override', 'overriding type'), ('ext', 'extension'), ('exttype', 'default type')):
                    vals = [x for g2, x in pkg.case(E, t.a[2][roles[r]], dec)]
                    if had:
                        want = mk('f', mk('mapval', A, N), roles[r])
                        bad = [x for x in vals if strip(x) is not want]
                        if bad or not vals:
                            ctx.bad('%s: %s changed' % (kind, nm), 'the %s of an existing %s becomes %s' % (nm, kind, fmt(bad[0], 4)[:120] if bad else 'nothing'))
                        else:
                            ctx.ok('kept by open and close', '%s: %s' % (kind, nm))
                if not had:
                    fresh(ctx, E, kind, t, roles, dec)
    # closing stores what the handle carries, whatever was stored under the name before
    E, st, doc, N = start()
    A, X = mk('f', doc, ai), mk('f', doc, xi)
    E.call_fn(st, close, [Ref(D), Ref(NR)], ('close', 0, close.key), ())
    val = stored(E, st, N)
    seen = {}
    for had in (0, 1):
        for g, t in pkg.case(E, val, lambda d: 1 if d[0] == 'haskey' and d[1] is X else had if d[0] == 'haskey' and d[1] is A else pkg.infra(d)) if val is not None else ():
            for r in ('override', 'ext', 'exttype'):
                if t.op == 'agg':
                    got = t.a[2][roles[r]]
                elif t.op == 'upd':
                    got = E.proj(t, ('f', roles[r]))
                else:
                    ctx.bad('close: value', 'closing a part stores %s' % fmt(t, 3)[:100])
                    continue
                vals = [strip(x) for g2, x in E.alts(got)]
                if all(pkg.mentions(x, lambda z: z.op == 'mapval' and z.a[0] is X) for x in vals):
                    seen.setdefault(r, set()).update(vals)
                    ctx.ok('stored on close', '%s (a part of that name %s stored)' % (r, 'is' if had else 'is not'))
                else:
                    ctx.bad('close: ' + r, 'closing a part stores %s as its %s' % (fmt(vals[0], 4)[:100], r))
    for r, vs in seen.items():
        if len(vs) != 1:
            ctx.bad('close: %s differs' % r, 'what closing stores as %s depends on whether a part of that name was stored' % r)


def fresh(ctx, E, kind, t, roles, dec):
    ov = [x for g, x in pkg.case(E, t.a[2][roles['override']], dec)]
    ex = [x for g, x in pkg.case(E, t.a[2][roles['ext']], dec)]
    ty = [x for g, x in pkg.case(E, t.a[2][roles['exttype']], dec)]
    if not (len(ov) == len(ex) == len(ty) == 1):
        ctx.bad('%s: new part' % kind, 'the content type of a new %s depends on something' % kind)
        return
    lit = lambda x: x.a[0] if strip(x).op == 'str' else None
    ex, ty = lit(strip(ex[0])), lit(strip(ty[0]))
    o = ov[0]
    oval = None
    if o.op == 'agg' and o.a[1] == 1:
        oval = lit(strip(o.a[2][0]))
        if oval is None:
            ctx.bad('%s: new part override' % kind, 'a new %s is given the type %s' % (kind, fmt(o.a[2][0], 4)[:100]))
            return
    eff = oval if oval is not None else ty
    if ex is None or ty is None or DEFAULTS.get(ex.lower()) != ty:
        ctx.bad('%s: new part default' % kind, 'a new %s is given the default %s = %s' % (kind, ex, ty))
    else:
        ctx.ok('default of a new part', '%s: %s = %s' % (kind, ex, ty))
    want = KINDS.get(kind)
    if want is None and eff in KINDS.values() or eff == want:
        ctx.ok('type of a new part', '%s: %s' % (kind, eff))
    else:
        ctx.bad('%s: new part type' % kind, 'a new %s is given the type %s' % (kind, eff))
