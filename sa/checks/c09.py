from .. import engine as X, pkg, models as M
from ..codec import Scenario
from ..engine import fmt, mk, State, Ref, Engine
from ..pkg import guard_case, mentions
from ..streval import Eval, Unknown, plain
from ..effects import writers_of_field

EXPLAIN = ('The reader of the shared string table is interpreted on an arbitrary <si> element (text collected by loops is a sequence of guarded pieces) and '
           'its result compared with the text of every shape of item; the writer is interpreted on an arbitrary table; the lookup is interpreted on an '
           'arbitrary table in the two cases "an equal entry exists" and "none exists"; all functions with mutable access to the table are enumerated.')
RULE = ('each <si> pushes exactly its text at the end of the table; lookup = position of an equal entry, otherwise append and the new last position; '
        'saving writes one <si><t> per entry in table order with exactly its text; nobody else changes the table')
ASSUME = ['Vec::position/len/push have their documented meaning']


def run(ctx):
    new, close = ctx.impl('XmlDocumentPart', 'ShareStringPart', 'new'), ctx.impl('XmlDocumentPartCommon', 'ShareStringPart', 'close_document')
    ctx.need('shared string constructor and closing', int(new is not None) + int(close is not None), 2)
    if new is None or close is None:
        return
    sc = Scenario(ctx.P, new, close)
    ctx.count('functions analysed', len(sc.E.fns_seen))
    ctx.count('calls resolved', sc.E.calls_seen)
    fi = load(ctx, sc)
    if fi is None:
        return
    save(ctx, new, close, fi)
    ty = part_type(ctx.P)
    n = 0
    for short in ('ShareStringPart::get_string_id_mut', 'CommonServices::get_string_id_mut'):
        fn = ctx.fn(short)
        if fn is not None:
            n += lookup(ctx, fn, ty, fi)
    ctx.need('lookups interpreted', n, 1)
    access(ctx, ty, fi, close)


def part_type(P):
    return next(t for t in P.types if t['k'] == 'adt' and t['name'].endswith('::ShareStringPart'))


# ------------------------------------------------------------------ reading
SHAPES = [('an item without children', {}, []),
          ('a plain text item', {'t': 'text'}, ['t']),
          ('an item with an empty text element', {'t': None}, []),
          ('a rich text item', {'r/t': 'text'}, ['r/t']),
          ('a rich text item with an empty run', {'r/t': None}, []),
          ('a rich text item with formatted runs', {'r/rPr': None, 'r/t': 'text'}, ['r/t']),
          ('a text with phonetic hints', {'t': 'text', 'rPh/t': 'text', 'phoneticPr': None}, ['t'])]


def chain(t, shape=None):
    """(si symbol, path): 'r/t' for ct(ct(si,'r'),'t'); a child taken once is the first one of the shape."""
    if t.op == 'ct':
        r, p = chain(t.a[0], shape)
        n = t.a[1] if isinstance(t.a[1], str) else getattr(t.a[1], 'a', ('?',))[0]
        return r, p + '/' + n if p else n
    if t.op == 'S' and t.a[2].rstrip('~') == 'child' and len(t.a) > 4:
        r, p = chain(t.a[4], shape)
        q = [k[len(p) + 1 if p else 0:].split('/')[0] for k in shape or () if not p or k.startswith(p + '/')]
        return r, (p + '/' if p else '') + (q[0] if q else '-')
    return t, ''


def decide_shape(si, shape):
    paths = set()
    for k in shape:
        parts = k.split('/')
        for i in range(len(parts)):
            paths.add('/'.join(parts[:i + 1]))

    def dec(d):
        if d[0] in ('next', 'exists', 'hastext', 'existstag', 'hasattrs'):
            el = [x for x in d[1:] if getattr(x, 'op', '')]
            r, p = chain(el[-1], shape)
            if r is not si:
                return 1 if mentions(el[-1], lambda z: z is si) is False else None
            if p == '':
                return 1 if d[0] != 'hastext' else 0
            if d[0] == 'hastext':
                return int(shape.get(p) is not None)
            return int(p in paths)
        if d[0] == 'x' and getattr(d[1], 'op', '') == 'tag':
            r, p = chain(d[1].a[0], shape)
            if r is si and p:
                return int(p.split('/')[-1] == d[2])
        return pkg.infra(d) if d[0] in ('okcall',) else None
    return dec


def pieces(E, t, dec):
    """Text of a collected value under a decision: list of text terms, or None when not understood."""
    if t.op == 'str':
        return [t.a[0]] if t.a[0] else []
    if t.op == 'text':
        return [t]
    if t.op == 'g':
        alts = pkg.case(E, t, dec)
        return pieces(E, alts[0][1], dec) if len(alts) == 1 else None
    if t.op == 'cat':
        out = []
        for x in t.a[0]:
            p = pieces(E, x, dec)
            if p is None:
                return None
            out += p
        return out
    if t.op == 'acc':
        out = pieces(E, t.a[0], dec)
        for cg, mu, x, d in t.a[1]:
            w = guard_case(E, cg, dec)
            if w == 0:
                continue
            p = pieces(E, x, dec)
            if p is None or w != 1:
                return None
            out = out + p
        return out
    if t.op == 'agg' and t.a[2]:
        return pieces(E, t.a[2][0], dec)
    if t.op == 'agg':
        return []
    if t.op == 'op':
        inner = [x for x in t.a if getattr(x, 'op', '')]
        if t.a[0] in ('trim', 'lower', 'upper', 'slice', 'replace', 'trim_start', 'trim_end') and inner:
            p = pieces(E, inner[0], dec)
            return None if p is None else [mk('op', t.a[0], *[x for x in p if not isinstance(x, str)][:1])] if p else []
    return None


def load(ctx, sc):
    E = sc.E
    found = None
    n = 0
    for i, f in enumerate(sc.part.a[2]):
        for g, v in E.alts(f):
            if v.op != 'vec':
                continue
            for cg, mu, t, d in v.a[1]:
                sis = set()
                gather = lambda z: sis.add(z) or False if z.op == 'S' and mentions(z, lambda y: y.op == 'tagged' and fmt(y.a[0]) in ("si", "'si'")) else False
                mentions(t, gather)
                for x in E.B.support(cg):
                    for y in E.vars[x][1:]:
                        if hasattr(y, 'op'):
                            mentions(y, gather)
                if not sis:
                    continue
                found = i
                si = min(sis, key=lambda s: (len(fmt(s, -20)), s.id))
                n += 1
                entry(ctx, E, cg, mu, t, d, si)
                if len([e for e in v.a[1] if e is not (cg, mu, t, d)]) > 1:
                    es = [e for e in v.a[1] if e != (cg, mu, t, d)]
                    ctx.bad('items loaded twice', 'one <si> adds %d entries to the table: %s' % (len(v.a[1]), '; '.join(fmt(e[2], 5)[:60] for e in es)))
    ctx.need('tables filled from <si>', n, 1)
    return found


def entry(ctx, E, cg, mu, t, d, si):
    if d not in ('b',):
        ctx.bad('order', 'an item is not added at the end of the table (%s), so positions differ from the file' % (d,))
    if mentions(si, lambda z: z.op == 'op' and z.a[0] in ('reversed', 'sorted', 'limited')) or si.a[2].rstrip('~') == 'item' and any(
            getattr(x, 'op', '') == 'str' and x.a[0] in ('next_back', 'last') for x in si.a[4:]):
        ctx.bad('order', 'the items are not loaded in the order of the file: %s' % fmt(si, 4)[:120])
    for what, shape, want in SHAPES:
        dec = decide_shape(si, shape)
        w = guard_case(E, cg, dec)
        if w == 0:
            ctx.bad('skipped: ' + what, '%s gets no position of its own: all following items move' % what)
            continue
        if w != 1:
            lim = [E.vars[x] for x in E.B.support(w)]
            if any(x[0] in ('limited', 'x', 'eq', 'starts_with', 'lt', 'hastext', 'next') for x in lim):
                ctx.bad('skipped: ' + what, '%s is only added to the table when %s' % (what, E.bfmt(w)[:200]))
            else:
                ctx.unknown('adding of ' + what, E.bfmt(w)[:120])
            continue
        p = pieces(E, t, dec)
        if p is None:
            one = [x for g, x in pkg.case(E, t, dec)]
            ctx.unknown('text of ' + what, fmt(mk('many', *one) if one else t, 3)[:160])
            continue
        got = []
        for x in p:
            if isinstance(x, str):
                got.append(repr(x))
            elif x.op == 'text':
                r, q = chain(x.a[0], shape)
                got.append(q if r is si else fmt(x, 4))
            else:
                got.append(fmt(x, 4))
        if got == want and 'r/t' in want and not all_children(E, si):
            ctx.bad('text of several runs', 'only one child of an item is read: the text of the other runs of a rich text item is lost')
        elif got == want:
            ctx.ok('item text', '%s: %s' % (what, '+'.join(want) or 'empty'))
        else:
            ctx.bad('text of ' + what, '%s is loaded as %s instead of %s' % (what, ' + '.join(got) or 'an empty text', ' + '.join(want) or 'an empty text'))


def all_children(E, si):
    """Are the children of si taken one after the other, not only the first one?"""
    mine = [(k, fn) for k, (fn, el) in E.pops.items() if el is si or el.op == 'S' and el.a[:3] == si.a[:3]]
    if not mine:
        return True
    for (c, b), fn in mine:
        for h, body in fn.loops.items():
            if b % X.ROUND in body and not (si.a[0] == c and si.a[1] % X.ROUND in body):
                return True
    return False


def size_dec(d):
    """Comparisons of the size of a collection with one entry."""
    def size(t):
        return 1 if t.op == 'len' else t.a[0] if t.op == 'int' else None
    if d[0] == 'lt':
        a, b = size(d[1]), size(d[2])
        return int(a < b) if a is not None and b is not None else None
    if d[0] == 'x' and getattr(d[1], 'op', '') == 'len':
        return int(str(d[2]) == '1')
    return None


# ------------------------------------------------------------------ writing
def save(ctx, new, close, fi):
    P = ctx.P
    ty = part_type(P)
    E = Engine(P)
    st = State(1, {})
    sym = lambda n: mk('S', (), 0, n, True)
    ent = sym('entry')
    table = mk('vec', M.EMPTY, ((1, 'many', ent, 'b'),))
    st0 = Scenario(P, new, None)
    fields = list(st0.part.a[2])
    fields[fi] = table
    E = st0.E
    st = st0.st
    part = mk('agg', ty['name'], 0, tuple(fields))
    st.st[('H', 'table')] = part
    before = set(E.elinfo)
    E.drains[:] = []
    E.call_fn(st, close, [Ref(('H', 'table'))], ('close', 0, close.key), ())
    from ..codec import Out
    outs = []
    o = st.st.get(M.OUT)
    if o is not None and o.op == 'map':
        for e, m, v in o.a[1]:
            tag, par, how = E.elinfo[e]
            if e not in before:
                outs.append((Out(st0, e, tag, par, how, v), e, m))

    def dec(d):
        r = size_dec(d)
        return r if r is not None else pkg.infra(d)
    si = [x for x in outs if x[0].tag == 'si']
    ts = [x for x in outs if x[0].tag == 't']
    ctx.need('written <si> elements', len(si), 1)
    ctx.need('written <t> elements', len(ts), 1)
    for o, e, m in si:
        if m != 'many':
            star = mentions(e, lambda z: z is ent)
        judge(ctx, E, o, 'an entry', dec)
        p = fmt(o.par) if o.par is not None else 'root()'
        if o.how not in ('append', 'append_child', 'append_child_mut'):
            ctx.bad('order of items', '<si> elements are added with %s: they do not come out in table order' % o.how)
        else:
            ctx.ok('items appended', o.how)
        if 'root' not in p and p != 'None':
            ctx.bad('parent of items', '<si> is written below %s' % p)
    if len(si) > 1:
        both = 0
        gs = [guard_case(E, o.guard, dec) for o, e, m in si]
        if sum(1 for g in gs if g == 1) > 1:
            ctx.bad('entries written twice', 'an entry of the table is written by %d <si> elements' % len(si))
    for o, e, m in ts:
        judge(ctx, E, o, 'the text of an entry', dec)
        if o.par is None or not any(o.par is x[1] or x[1] in walk(o.par) for x in si):
            ctx.bad('parent of text', '<t> is written below %s' % (fmt(o.par) if o.par is not None else 'the root'))
        for what, text in (('without white space at its ends', 'a b'), ('with white space at its start', ' a'), ('with white space at its end', 'a '),
                           ('with a line break at its end', 'a\n')):
            ws = text != 'a b'

            def dw(d, text=text):
                if d[0] == 'eq' or d[0] == 'x' or d[0] == 'lt':
                    ev = Eval(E, {ent: text})
                    try:
                        a, b = plain(ev(d[1])), plain(ev(d[2])) if hasattr(d[2], 'op') else d[2]
                        return int(a < b) if d[0] == 'lt' else int(str(a) == str(b))
                    except (Unknown, TypeError, KeyError):
                        pass
                return dec(d)
            alts = pkg.case(E, o.text, dw) if o.text is not None else []
            for g, x in alts:
                y = x
                while y.op == 'agg' and y.a[2]:
                    y = y.a[2][0]
                if y is ent or y.op == 'S' and mentions(y, lambda z: z is ent):
                    ctx.ok('text of an entry', what)
                elif y.op in ('op', 'str', 'cat', 'agg', 'undef'):
                    ctx.bad('text changed', 'an entry %s is written as %s' % (what, fmt(y, 4)[:120]))
                else:
                    ctx.unknown('written text', fmt(y, 4)[:120])
            if ws:
                v = o.attrs.get('xml:space')
                vs = [x for g, x in pkg.case(E, v, dw)] if v is not None else []
                if not vs or any(x.op == 'absent' for x in vs):
                    if v is None or all(x.op == 'absent' for x in vs):
                        ctx.bad('white space not marked', 'a text %s is written without xml:space="preserve": readers drop the white space' % what)
                elif all(x.op == 'str' and x.a[0] == 'preserve' for x in vs):
                    ctx.ok('white space kept', 'xml:space="preserve"')
                else:
                    ctx.bad('white space not marked', 'xml:space is written as %s' % ', '.join(fmt(x) for x in vs))
    # direction
    for kind, ents, fn, line in E.drains:
        for e in ents:
            if e[2] is ent:
                back = kind.split('_')[-1] in ('back', 'rev', 'last')
                if e[3] == 'sorted':
                    ctx.bad('order of items', 'the table is rearranged before it is written (%s line %s)' % (fn.short.split('::')[-1], line))
                elif back != (e[3] == 'f'):
                    ctx.bad('order of items', 'the table is written from its end (%s line %s)' % (fn.short.split('::')[-1], line))
                else:
                    ctx.ok('order of items', kind)
    # counts
    root = None
    for e, r in E.setattrs.items() if isinstance(E.setattrs, dict) else ():
        pass
    counts(ctx, E, st, dec)
    closes = 0
    for c in E.closes:
        closes = E.B.OR(closes, c[3])
    g = guard_case(E, E.B.restrict(closes, st0.pc_loaded), dec)
    if g == 1:
        ctx.ok('part kept', 'a table with entries is closed, not deleted')
    else:
        ctx.bad('part dropped', 'a table with entries is written only when %s' % E.bfmt(g)[:160])


def counts(ctx, E, st, dec):
    am = E.getroot(st, ('EA', mk('root')))
    seen = {}
    for g, t in E.alts(am):
        if t.op == 'map':
            for k, m, v in t.a[1]:
                if k.op == 'str' and k.a[0] in ('count', 'uniqueCount'):
                    for g2, x in pkg.case(E, v, dec):
                        seen.setdefault(k.a[0], []).append(x)
    for k in ('count', 'uniqueCount'):
        for x in seen.get(k, []):
            y = x.a[0] if x.op == 'tostr' else x
            if y.op == 'len':
                ctx.ok('counts', '%s = %s' % (k, fmt(y, 5)[:60]))
            elif y.op == 'absent':
                ctx.ok('counts', k + ' left out')
            elif y.op in ('plus', 'int', 'str', 'op'):
                ctx.bad('wrong ' + k, '%s is written as %s' % (k, fmt(y, 5)[:120]))
            else:
                ctx.unknown(k, fmt(y, 5)[:120])


def walk(t, acc=None):
    acc = [] if acc is None else acc
    acc.append(t)
    for y in t.a:
        for z in (y if isinstance(y, tuple) else (y,)):
            if hasattr(z, 'op') and len(acc) < 50:
                walk(z, acc)
    return acc


def judge(ctx, E, o, what, dec):
    g = guard_case(E, o.guard, dec)
    if g == 1:
        ctx.ok('written', what)
    elif g == 0 or any(E.vars[x][0] in ('limited', 'x', 'eq', 'lt', 'haskey', 'hastext', 'starts_with', 'ends_with') for x in E.B.support(g)):
        ctx.bad('not written', '%s of the table is written only when %s' % (what, E.bfmt(g)[:200]))
    else:
        ctx.unknown('writing of ' + what, E.bfmt(g)[:160])


# ------------------------------------------------------------------ lookup
def lookup(ctx, fn, ty, fi):
    P = ctx.P
    E = Engine(P)
    st = State(1, {})
    root = ('H', 'self')
    whole = mk('S', (), 0, 'self', True)
    st.st[root] = whole
    self_t = P.types[P.types[fn.locals[1][0]]['t']]
    val = mk('S', (), 0, 'value', True)
    args = [Ref(root)]
    for i in range(2, fn.argc + 1):
        t = P.types[fn.locals[i][0]]
        if t['k'] == 'ref':
            r = ('H', 'a%d' % i)
            st.st[r] = val
            args.append(Ref(r))
        else:
            args.append(val)
    r = E.call_fn(st, fn, args, ('get', 0, fn.key), ())
    ctx.count('functions analysed', len(E.fns_seen))
    path = []
    t = self_t
    if t is not ty:
        for i, (n, x) in enumerate(t['v'][0]['f']):
            if P.types[x] is ty:
                path.append(('f', i))
    path.append(('f', fi))
    base, now = whole, E.deep(st, st.st[root])
    for p in path:
        base, now = E.proj(base, p), E.proj(now, p)
    who = fn.short.split('::')[-2] + '::' + fn.short.split('::')[-1]

    def item(z):
        return z.op == 'S' and z.a[2].rstrip('~') == 'item' and any(getattr(y, 'op', '') and mentions(y, lambda w: w is base) for y in z.a[4:])

    odd = []

    def dec(found, nonempty):
        def f(d):
            if d[0] in ('next', 'haskey', 'contains'):
                return int(nonempty)
            if d[0] == 'eq':
                a, b = d[1], d[2]
                if (a is val and item(b)) or (b is val and item(a)):
                    return int(found)
            if d[0] == 'x' and getattr(d[1], 'op', '') == 'S' and item(d[1]):
                return 0
            if d[0] == 'okcall':
                return 1
            if d[0] == 'exit':
                return pkg.exit_value(E, d, f, f if not nonempty else dec(found, 0))
            odd.append(d)
            return None
        return f
    for what, found, nonempty in (('a string of the table', 1, 1), ('a new string', 0, 1), ('the first string', 0, 0)):
        del odd[:]
        d = dec(found, nonempty)
        for g, x in pkg.case(E, r, d):
            if x.op == 'agg' and x.a[1] == 1 and x.a[0].endswith('Result'):
                if g == 1:
                    ctx.bad('lookup fails', '%s: asking for %s fails' % (who, what))
                continue
            y = x.a[2][0] if x.op == 'agg' and x.a[2] else x
            tabs = []
            for g2, t2 in E.alts(now):
                w = guard_case(E, E.B.AND(g2, g) if g != 1 else g2, d)
                if w:
                    tabs.append((w, t2))
            result(ctx, E, who, what, found, y, tabs, base, val, item, g, odd, d)
    return 1


def result(ctx, E, who, what, found, y, tabs, base, val, item, g, odd, d):
    if g != 1 and odd:
        ctx.bad('lookup by something else', '%s: whether %s is found also depends on %s' % (who, what, '; '.join(E.bfmt(g)[:150].split('|')[:2])))
        return
    added = 0
    for w, t in tabs:
        if t is base:
            n = 0
        elif t.op == 'vec' and t.a[0] is base:
            ent = [e for e in t.a[1] if guard_case(E, e[0], d) != 0]
            n = len(ent)
            for e in ent:
                if e[2] is not val:
                    ctx.bad('entry changed', '%s: %s is added to the table as %s' % (who, what, fmt(e[2], 4)[:100]))
                if e[3] != 'b':
                    ctx.bad('entries moved', '%s: %s is inserted (%s) instead of appended: existing ids change meaning' % (who, what, e[3]))
        else:
            ctx.bad('table replaced', '%s: after asking for %s the table is %s' % (who, what, fmt(t, 4)[:140]))
            return
        added = n
    if found and added:
        ctx.bad('duplicate entry', '%s: %s is appended again' % (who, what))
    elif not found and added != 1:
        ctx.bad('string lost', '%s: %s is %s' % (who, what, 'not added to the table' if not added else 'added %d times' % added))
    else:
        ctx.ok('table after lookup', '%s: %s' % (who, what))
    z = y.a[0] if y.op == 'tostr' else y
    if y.op == 'g':
        zs = [x for g2, x in pkg.case(E, y, d)]
        z = (zs[0].a[0] if zs[0].op == 'tostr' else zs[0]) if len(zs) == 1 else y
    if found:
        if z.op == 'S' and z.a[2].rstrip('~') in ('pos', 'index') or is_index(E, z, base):
            k = E.finds.get(z)
            if k and set(k[3]) & {'skip', 'rev', 'filter', 'filter_map', 'step_by', 'skip_while', 'chain', 'flat_map'}:
                ctx.bad('wrong id', '%s: the id of %s is its position among the items left by %s, not its position in the table' % (who, what, ', '.join(k[3])))
                return
            ctx.ok('id of a known string', '%s: %s' % (who, fmt(z, 4)[:80]))
        elif z.op in ('len', 'int', 'str') or z.op == 'plus' and z.a[0].op in ('len', 'S'):
            ctx.bad('wrong id', '%s: the id of %s is %s, not its position' % (who, what, fmt(z, 4)[:100]))
        else:
            ctx.unknown('id of ' + what, fmt(z, 4)[:100])
    else:
        k = last_index(z, base)
        if k == 0:
            ctx.ok('id of a new string', '%s: %s' % (who, fmt(z, 4)[:80]))
        elif k is not None:
            ctx.bad('wrong id', '%s: the id of %s is its position %+d' % (who, what, k))
        elif z.op in ('int', 'str') or z.op == 'S' and z.a[2].rstrip('~') == 'pos':
            ctx.bad('wrong id', '%s: the id of %s is %s' % (who, what, fmt(z, 4)[:100]))
        else:
            ctx.unknown('id of ' + what, fmt(z, 4)[:100])


def is_index(E, z, base):
    return z.op in ('index', 'enum', 'idxof') or z.op == 'f' and z.a[0].op == 'S' and z.a[1] == 0


def last_index(z, base):
    """Offset of z from the position of an appended entry."""
    k = 0
    while z.op == 'plus' or z.op == 'cast':
        if z.op == 'plus':
            if not isinstance(z.a[1], int):
                return None
            k += z.a[1]
        z = [x for x in z.a if hasattr(x, 'op')][-1]
    if z.op == 'op' and z.a[0] == 'Sub' and z.a[2].op == 'int':
        k -= z.a[2].a[0]
        z = z.a[1]
    if z.op != 'len':
        return None
    v = z.a[0]
    if v is base:
        return k
    if v.op == 'vec' and v.a[0] is base:
        return k + len(v.a[1])
    return None


# ------------------------------------------------------------------ access
def access(ctx, ty, fi, close):
    name = ty['v'][0]['f'][fi][0]
    own = [ctx.fn('ShareStringPart::get_string_id_mut'), close, ctx.impl('XmlDocumentPart', 'ShareStringPart', 'new')]
    ok = {f.key for f in own if f is not None}
    n = 0
    for fn, line, how in writers_of_field(ctx.P, 'ShareStringPart', name):
        n += 1
        base = fn.key
        if base in ok or any(fn.closure and fn.short.startswith(f.short) for f in own if f is not None) or called_only_by(ctx.P, fn, ok):
            ctx.ok('access to the table', '%s (%s)' % (fn.short[-60:], how))
        else:
            ctx.bad('table changed elsewhere', '%s changes the string table (%s, line %s)' % (fn.short, how, line))
    ctx.count('functions with mutable access', n)


def called_only_by(P, fn, ok):
    callers = [f for f in P.lib.values() for b, t in f.calls() if t['f'].get('key') == fn.key]
    return bool(callers) and all(f.key in ok or f.closure and any(f.short.startswith(P.lib[k].short) for k in ok if k in P.lib) for f in callers) and not fn.exported
