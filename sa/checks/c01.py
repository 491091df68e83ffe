from .. import pkg
from ..engine import fmt, mk

EXPLAIN = ('The archive loader is interpreted for an arbitrary archive entry and the archive writer for an arbitrary stored part (value flow over MIR, '
           'with models of the archive, compression and stream libraries); names and bytes are compared, and the guards under which an entry is '
           'stored or written must not depend on anything but the content-type listing.')
RULE = 'every entry but the listing is stored under its own name with exactly its bytes, and every stored part is written under its name with exactly these bytes'
ASSUME = ['gzip compression followed by decompression is the identity', 'the zip library returns and stores entries faithfully']


def run(ctx):
    L = pkg.Load(ctx)
    S = pkg.Save(ctx)
    if not (L.ok and S.ok):
        return
    E = L.E
    ctx.need('stored entries found in the loader', len(L.entries), 1)
    for b in L.base:
        if b.op != 'empty':
            ctx.unknown('loaded collection', 'starts as ' + fmt(b, 2)[:80])
    datai = pkg.roles(L).get('data')
    covered = 0
    for k, mu, v in L.entries:
        names = [t for g, t in E.alts(k)]
        for t in names:
            if not L.is_name(t):
                ctx.bad('stored name: ' + t.op, 'an archive entry is stored under %s instead of its own name' % fmt(t, 3)[:120])
        if not all(L.is_name(t) for t in names):
            continue
        name = names[0]

        def notct(d, name=name):
            if d[0] in ('x', 'eq') and any(getattr(x, 'op', '') in ('S', 'str', 'tostr') for x in d[1:]) and pkg.CT in [getattr(x, 'a', [x])[0] for x in d[1:]]:
                return 0
            return pkg.infra(d)
        for g, t in pkg.case(E, v, notct):
            if t.op == 'absent':
                ctx.bad('entry left out', 'an archive entry is not stored when %s' % E.bfmt(g)[:200])
                continue
            if t.op != 'agg':
                ctx.unknown('stored entry', fmt(t, 2)[:80])
                continue
            if datai is None or datai >= len(t.a[2]):
                ctx.bad('content not stored', 'no component of a stored part holds the bytes of the archive entry')
                continue
            for g2, d in pkg.case(E, t.a[2][datai], notct):
                if d.op == 'agg' and d.a[1] == 0:
                    ctx.bad('content missing', 'a stored part has no content when %s' % E.bfmt(g2)[:160])
                    continue
                x = d.a[2][0] if d.op == 'agg' and d.a[2] else d
                while x.op == 'vf':
                    x = x.a[0]
                if x.op == 'gz' and x.a[0].op == 'bytes' and x.a[0].a[0].op == 'zent':
                    n = x.a[0].a[0].a[0]
                    if strip(n) is strip(name):
                        covered += 1
                        ctx.ok('loaded entry', '%s := gz(bytes of entry %s)' % (fmt(name, 2)[:50], fmt(n, 2)[:50]))
                    else:
                        ctx.bad('content of another entry', 'the part %s is given the bytes of %s' % (fmt(name, 2)[:80], fmt(n, 3)[:80]))
                else:
                    ctx.bad('content altered on load: ' + x.op, 'the stored bytes of a loaded part are %s' % fmt(x, 4)[:160])
    ctx.need('loaded entries', covered, 1)
    # the listing of names is complete: nothing else than the content types is filtered out
    save(ctx, S, datai)
    closing(ctx, S)
    only_named(ctx)


def strip(t):
    while t.op == 'tostr':
        t = t.a[0]
    return t


def save(ctx, S, datai):
    E, B = S.E, S.E.B
    started = 0
    items = {}
    for n, pc in E.zstarts:
        for g, t in E.alts(n):
            it, path = S.item_of(t)
            if it is None:
                if t.op == 'str' and t.a[0] == pkg.CT:
                    continue
                ctx.bad('written name: ' + t.op, 'an archive entry is written under the name %s' % fmt(t, 3)[:120])
                continue
            if path != (0,):
                ctx.bad('written name: component', 'an archive entry is named after %s of the stored part instead of its name' % (path,))
                continue
            items[it] = B.OR(items.get(it, 0), B.AND(pc, g))
    for it, g in items.items():
        r = pkg.guard_case(E, g, only_next)
        if r == 1:
            started += 1
            ctx.ok('part written', 'every stored part is written under its own name')
        else:
            ctx.bad('stored part left out', 'a stored part is written only when %s' % E.bfmt(r)[:200])
    ctx.need('archive entry loop', started, 1)
    # content
    got = {}
    order = []
    for w, d, pc, l in E.zwrites:
        for g, t in E.alts(w):
            if t.op not in ('zw', 'zwd', 'zwdd'):
                continue
            it, path = S.item_of(t.a[0]) if hasattr(t.a[0], 'op') else (None, None)
            if it is None:
                continue
            cond = B.AND(pc, g)
            if t.op != 'zw':
                c2 = pkg.guard_case(E, cond, only_next)
                if c2:
                    order.append((it, d, cond))
                continue
            for g2, x in E.alts(d):
                cc = B.AND(cond, g2)
                if not cc:
                    continue
                want = mk('f', mk('f', it, 1), datai)
                if x.op == 'bytes' and x.a[0].op == 'gunz' and content_of(x.a[0].a[0], want):
                    got[it] = B.OR(got.get(it, 0), cc)
                else:
                    ctx.bad('content altered on save: ' + x.op, 'the bytes written for a stored part are %s instead of its stored content' % fmt(x, 5)[:160])
    for it, d, cond in order:
        ctx.bad('content written twice', 'more than one write goes into the archive entry of a part: %s' % fmt(d, 3)[:100])
    for it in items:
        g = got.get(it, 0)
        want = mk('f', mk('f', it, 1), datai)
        r = pkg.guard_case(E, g, lambda d: 1 if d[0] == 'next' else some(d, want))
        if r == 1:
            ctx.ok('content written', 'bytes(gunzip(stored content)) written for every part that has content')
        else:
            ctx.bad('content left out', 'the content of a stored part is written only when %s' % (E.bfmt(r)[:200] if r else 'never'))


def content_of(t, want):
    n = 0
    while t is not want and t.op in ('vf', 'f', 'tostr') and n < 6:
        n += 1
        t = t.a[0]
    return t is want


def some(d, want):
    if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and d[1].a[0] is want:
        return 1 if str(d[2]) == '1' else 0
    return None


def only_next(d):
    return 1 if d[0] == 'next' else None


def closing(ctx, S):
    """Nothing but deleting a part, taking it over as an open document, and closing one changes the stored parts."""
    from ..effects import writers_of_field
    P = ctx.P
    allow = {'OfficeDocument::delete_document_mut', 'OfficeDocument::get_xml_tree_mut', 'OfficeDocument::close_xml_document', 'OfficeDocument::new',
             'OfficeDocument::load_archive_into_database'}
    n = 0
    short = lambda fn: '::'.join(fn.short.split('::{')[0].split('::')[-2:])
    callers = {}
    for fn in P.lib.values():
        for _, c in fn.calls():
            k = c['f'].get('key') if isinstance(c.get('f'), dict) else None
            if k:
                callers.setdefault(k, set()).add(fn)

    def inside(fn, seen=()):
        """The function is one of those, or a helper of these only."""
        if short(fn) in allow:
            return True
        cs = callers.get(fn.key, ())
        return bool(cs) and not fn.exported and fn not in seen and all(inside(c, seen + (fn,)) for c in cs)
    for fn, line, how in writers_of_field(P, 'OfficeDocument', 'archive_collection'):
        n += 1
        b = '::'.join(fn.short.split('::{')[0].split('::')[-2:])
        if inside(fn):
            ctx.ok('writers of the stored parts', '%s (%s)' % (b, how))
        else:
            ctx.bad('stored parts changed by ' + b, '%s (line %s) changes the collection of stored parts (%s)' % (b, line, how))
    ctx.need('functions that change the stored parts', n, 3)


def only_named(ctx):
    """Opening, closing and deleting a part touch the stored part of that name and no other."""
    P = ctx.P
    from ..engine import Engine, State, Ref
    ai, xi = pkg.field(P, 'OfficeDocument', 'archive_collection'), pkg.field(P, 'OfficeDocument', 'xml_document_collection')
    for m in ('get_xml_tree_mut', 'close_xml_document', 'delete_document_mut', 'get_xml_document_ref', 'check_file_exist'):
        fn = ctx.fn('OfficeDocument::' + m)
        if fn is None:
            continue
        E = pkg.engine(P)
        pkg.real_documents(E)
        st = State(1, {})
        D = ('H', 'doc')
        doc = st.st[D] = mk('S', (), 0, 'document', True)
        N = st.st[('H', 'n')] = mk('S', (), 0, 'NAME', True)
        args = [Ref(D), Ref(('H', 'n'))] + [mk('S', (), 0, 'arg%d' % i, True) for i in range(fn.argc - 2)]
        if P.types[fn.locals[2][0]]['k'] != 'ref':
            args[1] = N
        E.call_fn(st, fn, args, ('m', 0, fn.key), ())
        for idx, nm in ((ai, 'stored parts'), (xi, 'open parts')):
            for g, v in E.alts(E.getroot(st, D)):
                v = E.proj(v, ('f', idx))
                for g2, c in E.alts(v):
                    base, keys = c, []
                    if c.op == 'map':
                        base, keys = c.a[0], [k for k, _, _ in c.a[1]]
                    if not (base.op == 'f' and base.a[0] is doc and base.a[1] == idx):
                        ctx.bad('%s: %s replaced' % (m, nm), '%s replaces the collection of %s by %s' % (m, nm, fmt(base, 3)[:100]))
                        continue
                    odd = [k for k in keys if strip(k) is not N]
                    if odd:
                        ctx.bad('%s: touches another part' % m, '%s changes the entry %s of the %s, not only the part it is given' % (m, fmt(odd[0], 3)[:80], nm))
                    else:
                        ctx.ok('only the named part', '%s: %s' % (m, nm))
