from .. import pkg
from ..codec import Scenario
from ..engine import Dead, Engine, Ref, State, fmt, mk
from ..effects import writers_of_field
from ..lifecycle import Must
from .c24 import archive_writes

EXPLAIN = ('Every part type is opened, closed and closed again (flush, then drop) in one abstract state, recording which paths are closed or deleted under which conditions. '
           'Drop implementations, the save sequence of every facade and the order in which relationship lists are closed are decided by must-pass-through analysis over the call graph.')
RULE = ('closing a part writes (or deletes together with its relationship) the path it was opened under; closing again deletes nothing; dropping closes; a save closes all parts and relationship '
        'lists of the facade, parts first, and every document still open, before the archive is written')
REL = 'RelationsPart'


def run(ctx):
    P = ctx.P
    parts = {}
    for fn in P.lib.values():
        if fn.short.endswith('XmlDocumentPartCommon>::close_document'):
            parts[fn.short.split(' as ')[0].lstrip('<').split('::')[-1]] = fn
    ctx.need('part types', len(parts), 8)
    for T, close in sorted(parts.items()):
        try:
            closing(ctx, T, close)
        except Dead:
            ctx.unknown('closing of ' + T, 'never returns')
        dropped(ctx, T, close)
    facades(ctx, parts)
    lists_last(ctx, parts)
    open_documents(ctx)
    live_handles(ctx, parts)


def closing(ctx, T, close):
    new = ctx.impl('XmlDocumentPart', T, 'new') or ctx.fn(T + '::new')
    if new is None:
        ctx.unknown('constructor of ' + T, 'not found')
        return
    watch = ['OfficeDocument::delete_document_mut', 'RelationsPart::delete_relationship']
    sc = Scenario(ctx.P, new, None, [(close, [])], watch=watch)
    E, B = sc.E, sc.E.B
    try:
        E.call_fn(sc.st, close, [Ref(sc.root)], ('again', 0, close.key), ())
    except Dead:
        pass                                        # the second closing reports an error
    ctx.count('functions analysed', len(E.fns_seen))
    part = sc.part

    def phase(c):
        return c[0][0] if c and isinstance(c[0], tuple) else None
    own = {}
    for c in E.docrefs:
        if phase(c[0]) == 'new' and len(c[0]) <= 3:
            own[c[2][1]] = 1
    # the path in the part itself
    at = pkg.field(ctx.P, T, 'file_path')
    mine = E.proj(part, ('f', at)) if at is not None else None

    def is_mine(p):
        return mine is not None and p == mine
    closes = {'set0': 0, 'again': 0}
    for c in E.closes:
        if phase(c[0]) not in closes:
            continue
        if is_mine(c[2]):
            closes[phase(c[0])] = B.OR(closes[phase(c[0])], c[3])
        elif c[2].op in ('S', 'f', 'g', 'str', 'cat', 'op') and phase(c[0]) == 'set0' and len(c[0]) == 1 and mine is not None:
            ctx.bad('%s closed elsewhere' % T, 'closing %s writes %s, it was opened as %s' % (T, fmt(c[2], -3)[-100:], fmt(mine, -3)[-100:]))
    dels = {(p, k): 0 for p in ('set0', 'again') for k in ('doc', 'rel')}
    for e in E.effects:
        p = phase(e[3].ctx)
        k = 'doc' if 'delete_document' in e[0] else 'rel'
        if (p, k) in dels and is_mine(e[1][-1]):
            dels[p, k] = B.OR(dels[p, k], e[2])

    def empty(v):
        # a list whose every entry is impossible here
        return v.op == 'vec' and v.a[0].op == 'empty' and all(pkg.guard_case(E, e[0], full) == 0 for e in v.a[1])

    def full(d):
        x = d[2] if d[0] == 'lt' else d[1] if d[0] == 'x' and d[2] in (0, '0') else None
        if getattr(x, 'op', '') == 'len' and empty(x.a[0]):
            return 0 if d[0] == 'lt' else 1
        return pkg.infra(d)

    def small(g):
        return pkg.guard_case(E, B.restrict(g, sc.pc_loaded), full)
    g = small(B.OR(closes['set0'], dels['set0', 'doc']))
    if g == 1:
        ctx.ok('closing writes the part', T)
    elif g == 0 or not B.support(g):
        ctx.bad('%s not written' % T, 'closing %s never writes it into the package' % T)
    else:
        sup = [E.vars[x][0] for x in B.support(g)]
        if set(sup) & {'x', 'has', 'eq', 'lt', 'hastext', 'haskey', 'hasattrs', 'inrange', 'starts_with', 'ends_with', 'contains', 'eq_ignore_case'} and T != REL and not dels['set0', 'rel']:
            ctx.bad('%s not always written' % T, 'closing %s writes it only when %s' % (T, B and E.bfmt(g, 3)[:160]))
        else:
            ctx.unknown('%s written' % T, E.bfmt(g, 3)[:160])
    # deletion
    d1 = B.restrict(B.OR(dels['set0', 'doc'], dels['set0', 'rel']), sc.pc_loaded)
    for k in ('doc', 'rel'):
        d2 = B.restrict(dels['again', k], sc.pc_loaded)
        g = B.AND(d2, B.NOT(d1))
        what = {'doc': 'document', 'rel': 'relationship'}[k]
        if g == 0:
            ctx.ok('closing again deletes nothing', T + ' ' + what)
            continue
        g = small(B.restrict(d2, B.NOT(d1)))
        if g == 0:
            ctx.ok('closing again deletes nothing', T + ' ' + what)
        elif g == 1 or k == 'rel' or not undecidable(E, g):
            ctx.bad('%s deleted by closing again' % T, 'closing %s a second time (it is flushed, then dropped) deletes its %s although the first closing wrote it' % (T, what))
        else:
            ctx.unknown('second closing of %s' % T, E.bfmt(g, 3)[:160])
    if dels['set0', 'doc'] and T != REL:
        both = B.AND(dels['set0', 'doc'], B.NOT(dels['set0', 'rel']))
        if both == 0:
            ctx.ok('deleted with its relationship', T)
        else:
            ctx.bad('%s deleted alone' % T, 'closing %s deletes the document and leaves the relationship to it when %s' % (T, E.bfmt(both, 3)[:160]))
    if dels['set0', 'rel']:
        left = small(B.AND(dels['set0', 'rel'], B.NOT(dels['set0', 'doc'])))
        alone = B.AND(dels['set0', 'rel'], closes['set0'])
        if alone != 0 and small(B.restrict(alone, dels['set0', 'rel'])) == 1:
            ctx.bad('%s relationship deleted alone' % T, 'closing %s deletes the relationship to it and still writes it' % T)
        elif dels['set0', 'doc'] == 0:
            ctx.bad('%s relationship deleted alone' % T, 'closing %s deletes the relationship to it but not the document' % T)
        else:
            ctx.ok('relationship deleted with its part', T)


def undecidable(E, g):
    return any(E.vars[x][0] not in ('lt', 'x', 'eq', 'has', 'inrange', 'next') for x in E.B.support(g))


def dropped(ctx, T, close):
    P = ctx.P
    M = Must(P, lambda k: k == close.key)
    for t in P.types:
        if t['k'] == 'adt' and t.get('local') and t['name'].split('::')[-1] == T:
            k = t.get('drop')
            if not k:
                ctx.bad('%s dropped silently' % T, 'dropping a %s does not write its state into the package' % T)
            elif k in P.lib and not M.must(P.lib[k]):
                ctx.bad('%s dropped silently' % T, '%s can return without closing the part' % P.lib[k].short)
            else:
                ctx.ok('dropping closes', T)
            return
    ctx.unknown('type ' + T, 'not found')


def held_parts(P, ty, parts, seen=None, out=None):
    """Part types a value owns (through Rc / RefCell / Option, not through Weak)."""
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if ty in seen:
        return out
    seen.add(ty)
    d = P.types[ty]
    if d['k'] != 'adt':
        for x in d.get('t', ()) if isinstance(d.get('t'), list) else ():
            held_parts(P, x, parts, seen, out)
        return out
    n = d['name']
    if n.endswith('::Weak'):
        return out
    if d.get('local') and n.split('::')[-1] in parts:
        out.add(n.split('::')[-1])
        return out
    if d.get('local'):
        for v in d.get('v', ()):
            for f in v['f']:
                held_parts(P, f[1], parts, seen, out)
    else:
        for a in d.get('args') or ():
            if isinstance(a, int):
                held_parts(P, a, parts, seen, out)
    return out


def facade_types(P):
    """Exported types with a method that reaches the archive writer."""
    res = {}
    for fn, b in archive_writes(P):
        todo, seen = [fn], set()
        while todo:
            f = todo.pop()
            if f.key in seen:
                continue
            seen.add(f.key)
            name = f.short.split('::{closure')[0]
            for t in range(len(P.types)):
                d = P.types[t]
                if d['k'] == 'adt' and d.get('local') and name.rsplit('::', 1)[0] == d['name'].split('::', 1)[-1]:
                    res.setdefault(t, set()).add(fn.key)
            for g in P.lib.values():
                for c, blk in g.calls():
                    k = blk['f'].get('key') if isinstance(blk.get('f'), dict) else None
                    if k == f.key:
                        todo.append(g)
    return res


def facades(ctx, parts):
    P = ctx.P
    writes = archive_writes(P)
    ctx.need('calls that write the archive', len(writes), 3)
    fac = facade_types(P)
    ctx.need('facades', len(fac), 3)
    musts = {T: Must(P, lambda k, c=close: k == c.key, [c.key for t, c in parts.items() if t != T] if T == REL else ())
             for T, close in parts.items()}
    for t, keys in fac.items():
        held = held_parts(P, t, parts)
        name = P.types[t]['name'].split('::')[-1]
        for T in sorted(held):
            for fn, b in writes:
                if fn.key not in keys:
                    continue
                late = musts[T].before(fn, b)
                if late:
                    g, c = late[0]
                    ctx.bad('%s saved without %s' % (name, T), '%s (%s line %s) writes the archive on a path that has not closed the %s' % (
                        g.short, g.file, g.blocks[c].get('l'), T))
                else:
                    ctx.ok('closed before the archive is written', '%s %s' % (name, T))


def lists_last(ctx, parts):
    """No call that may change a relationship list follows the closing of the list."""
    P = ctx.P
    rel = parts.get(REL)
    if rel is None:
        ctx.unknown('relationship lists', 'type not found')
        return
    # only functions that store into the list themselves or through each other
    direct = {f.key for f, l, h in writers_of_field(P, REL, 'relationships') if h != 'construction' and f.key != rel.key}
    reach = {}
    # parts that are not given the list of somebody else: their closing changes their own list only
    apart = set()
    for t in P.types:
        if t['k'] == 'adt' and t.get('local') and t['name'].split('::')[-1] in parts:
            if not any(P.types[f[1]].get('s', '').startswith('std::rc::Weak<') and REL in P.types[f[1]]['s'] for v in t['v'] for f in v['f']):
                apart.add(parts[t['name'].split('::')[-1]].key)

    def may(k, goal, seen):
        if k in goal:
            return True
        if k in reach:
            return reach[k]
        if k in seen or k not in P.lib or k in apart:
            return False
        seen.add(k)
        r = False
        for b, blk in P.lib[k].calls():
            f = blk.get('f')
            c = f.get('key') if isinstance(f, dict) else None
            if c and may(c, goal, seen):
                r = True
                break
        if not r:
            for blk in P.lib[k].blocks:
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'closure':
                        c = P.types[s[2][2]].get('key')
                        if c and may(c, goal, seen):
                            r = True
        reach[k] = r
        return r
    n = 0
    M = Must(P, lambda k: k == rel.key)
    for fn in P.lib.values():
        if '::RelationsPart' in fn.short:
            continue
        for b, blk in fn.calls():
            f = blk.get('f')
            k = f.get('key') if isinstance(f, dict) else None
            if k != rel.key and not (k in P.lib and helper(fn, P.lib[k]) and M.must(P.lib[k])):
                continue
            n += 1
            seen, todo, late = set(), list(fn.succs[b]), None
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                c = fn.blocks[x]
                ck = c['f'].get('key') if c['k'] == 'call' and isinstance(c.get('f'), dict) else None
                if ck and ck != rel.key and may(ck, direct, set()):
                    late = (x, ck)
                    break
                todo.extend(fn.succs[x])
            if late:
                ctx.bad('list closed early %s' % fn.short, '%s (%s line %s): %s can still change a relationship list after the list was written' % (
                    fn.short, fn.file, fn.blocks[late[0]].get('l'), P.lib[late[1]].short.split('::')[-1]))
            else:
                ctx.ok('relationship list written last', fn.short[-80:])
    ctx.need('closings of relationship lists', n, 4)


def helper(fn, g):
    return fn.short.split('::{closure')[0].rsplit('::', 1)[0] == g.short.split('::{closure')[0].rsplit('::', 1)[0]


def open_documents(ctx):
    """Saving the collection closes every document that is still open."""
    P = ctx.P
    fn = ctx.fn('OfficeDocument::save_as')
    ctx.need('archive writer', int(fn is not None), 1)
    if fn is None:
        return
    E = Engine(P)
    E.watch = ['OfficeDocument::close_xml_document', 'OfficeDocument::save_database_into_archive']
    st = State(1, {})
    st.st[('H', 'office')] = part = mk('S', (), 0, 'office', True)
    try:
        E.call_fn(st, fn, [Ref(('H', 'office'))] + [mk('S', (), 0, 'arg%d' % i, True) for i in range(1, fn.argc)], ('m', 0, fn.key), ())
    except Dead:
        ctx.unknown('archive writer', 'never returns')
        return
    at = pkg.field(P, 'OfficeDocument', 'xml_document_collection')
    docs = mk('f', part, at)
    g = 0
    for e in E.effects:
        if 'close_xml_document' in e[0]:
            p = e[1][-1]
            if pkg.mentions(p, lambda z: z == docs or z.op == 'S' and any(y == docs for y in z.a if hasattr(y, 'op'))):
                g = E.B.OR(g, e[2])
    if g == 0:
        ctx.bad('open documents', 'saving does not close the documents that are still open')
        return
    order = [i for i, e in enumerate(E.effects) if 'save_database' in e[0]]
    closed = [i for i, e in enumerate(E.effects) if 'close_xml_document' in e[0]]
    if order and min(order) < max(closed):
        ctx.bad('open documents', 'open documents are closed after the archive was built')
    left = [E.vars[x] for x in E.B.support(g) if E.vars[x][0] not in ('next', 'okcall', 'exit')]
    if not left:
        ctx.ok('open documents', 'every entry of the open collection is closed')
    else:
        ctx.bad('open documents', 'an open document is closed at saving only when %s' % E.bfmt(g, 3)[:160])


def live_handles(ctx, parts):
    """Handles that are given away by value are known to nobody who saves."""
    P = ctx.P
    fac = facade_types(P)
    for t in fac:
        d = P.types[t]
        held = held_parts(P, t, parts)
        for fn in P.lib.values():
            if not fn.exported or fn.closure or fn.short.rsplit('::', 1)[0] != d['name'].split('::', 1)[-1]:
                continue
            for T in sorted(held_parts(P, fn.locals[0][0], parts) - {REL}):
                if T in parts and T not in held and T != d['name'].split('::')[-1] and not P.types[fn.locals[0][0]]['s'].endswith(d['name'].split('::')[-1]):
                    ctx.bad('live handle %s' % T, '%s hands out a %s; saving while it is alive cannot write what was set through it' % (fn.short, T))
