from .. import pkg, xmlcore, xmlout
from ..engine import fmt, mk
from . import c04, c05

EXPLAIN = ('Every dynamic piece of what the writer emits (value flow over MIR, all kinds of elements) is traced to the text, attribute value, namespace or name it stems from, '
           'with the escaping applied on the way; the same for what the reader records from an event. The sources handed to the parser by the library itself are sliced '
           'back to constants, and escaping functions may only be called by reader and writer.')
RULE = 'text, attribute values and namespace values: escaped exactly once on the way out, unescaped exactly once on the way in (CDATA: not at all); names: neither'
ASSUME = ['quick-xml escape/unescape invert each other as documented']
TEXT_OK = ('escape', 'partial_escape')


def run(ctx):
    done = set()
    written(ctx, done)
    read(ctx, done)
    sources(ctx, done)


def written(ctx, done):
    W = xmlout.Writer(ctx)
    if not W.run():
        return
    done |= {f if isinstance(f, str) else f.key for f in W.E.fns_seen}
    lim = c04.nolimit(W)
    places = []
    for e in ('root', 'child'):
        for text, kids in ((0, 0), (1, 0), (1, 1), (0, 1)):
            facts = c04.base('root', 1, 1, 1)
            facts.update(c04.base(e, text, kids, 1))
            facts.update(next=1, limit=lim)
            where = ['root' if e == 'root' else 'nested element', 'text' if text else 'no text']
            if e == 'root':
                vals = [W.E.entry.st[W.out]] if pkg.guard_case(W.E, W.E.entry.pc, W.decide(facts)) else [t for g, t in c04.oks(W, facts)[0]]
            else:
                vals = [W.back.st[W.out]]
            for v in vals:
                R = xmlout.Render(W, facts)
                alts = R.string(v)
                places.append((e, text, R, alts))
    facts = c04.base('root', 1, 1, 1)
    facts.update(next=0, atroot=0, limit=lim)
    R = xmlout.Render(W, facts)
    places.append(('end tag', 0, R, R.string(W.back.st[W.out])))
    n = 0
    for e, text, R, alts in places:
        for what, kinds, src in R.escapes:
            n += 1
            where = '%s of %s' % (what, {'root': 'the root', 'child': 'a nested element'}.get(e, e))
            good = not kinds if what == 'name' else len(kinds) == 1 and kinds[0] in (TEXT_OK if what == 'text' else ('escape',))
            if good:
                ctx.ok('written %s' % what, where)
            else:
                ctx.bad('written %s' % where, 'the %s is written %s' % (where, 'without escaping' if not kinds else 'escaped %d times' % len(kinds) if len(kinds) > 1 else
                                                                       'escaped' if what == 'name' else 'escaped by %s, which leaves special characters' % kinds[0]))
        for g, s in alts:
            for m in re_unknown(s):
                ctx.bad('written %s' % m[:40], 'the writer emits %s, whose escaping is not known' % m[:120])
        if text:
            marks = ''.join(s for g, s in alts)
            if '\x01TEXT' not in marks:
                ctx.bad('text of %s' % e, 'the text of %s is not written' % e)
    ctx.need('dynamic pieces written', n, 8)


def re_unknown(s):
    import re
    return re.findall('\x01\\?([^\x02]*)\x02', s)


def times(t, op):
    n = 0
    t = c05.strip(t)
    while True:
        if t.op == op:
            n += 1
            t = c05.strip(t.a[-1] if op == 'escaped' else t.a[0])
        elif t.op in ('tostr',):
            t = c05.strip(t)
        else:
            return n, t


def read(ctx, done):
    R = c05.Reader(ctx)
    for fn in R.all:
        if not R.run(fn):
            continue
        E, B = R.E, R.E.B
        done |= {f if isinstance(f, str) else f.key for f in E.fns_seen}
        st = R.back.st
        for p, ev in ((0, 'Start'), (1, 'Start'), (0, 'Empty'), (1, 'Empty')):
            src = mk('vf', E.event, R.vi[ev], 0)
            n = 0
            for root, v in st.items():
                if root[0] != 'EA':
                    continue
                for g, t in R.at(v, p, ev):
                    if t.op != 'map':
                        continue
                    for k, m, x in t.a[1]:
                        if not pkg.mentions(k, lambda q: q is mk('evattrs', src)):
                            continue
                        for g2, y in R.at(x, p, ev):
                            if y is xmlcore.M.ABSENT or not R.guard(B.AND(g2, R.back.pc), p, ev):
                                continue
                            n += 1
                            c, inner = times(y, 'unescaped')
                            if c == 1 and not pkg.mentions(inner, lambda q: q.op in ('unescaped', 'escaped')):
                                ctx.ok('attribute value read', '%s %s' % (ev, c05.PHASES[p]))
                            else:
                                ctx.bad('attribute values read', 'attribute values of a %s event are unescaped %d times' % (ev, c))
                            c, inner = times(k, 'unescaped')
                            if c:
                                ctx.bad('attribute names read', 'attribute names are unescaped')
            ctx.need('attribute values of %s %s' % (ev, c05.PHASES[p]), n, 1)
        for ev, want in (('Text', 1), ('CData', 0)):
            src = mk('vf', E.event, R.vi[ev], 0)
            n = 0
            for root, v in st.items():
                if root[0] != 'EV' or root[1].op == 'E':
                    continue
                for has in (0, 1):
                    ex = lambda d, has=has: has if d[0] == 'hastext' else None
                    for g, t in R.deep(v, 1, ev, extra=ex):
                        if not R.guard(B.AND(g, R.back.pc), 1, ev, extra=ex):
                            continue
                        for q in leaves(t):
                            c, inner = times(q, 'unescaped')
                            if not pkg.mentions(inner, lambda z: z is src):
                                continue
                            n += 1
                            if c != want or pkg.mentions(inner, lambda z: z.op in ('escaped', 'unescaped')):
                                ctx.bad('text read: %s' % ev, 'the content of a %s event is unescaped %d times instead of %s' % (ev, c, 'once' if want else 'never'))
                            else:
                                ctx.ok('text read', ev)
            ctx.need('texts of %s events' % ev, n, 1)


def leaves(t):
    t = c05.strip(t)
    if t.op == 'agg':
        for x in t.a[2]:
            yield from leaves(x)
    elif t.op == 'cat':
        for x in t.a[0]:
            yield from leaves(x)
    elif t.op == 'acc':
        yield from leaves(t.a[0])
        for e in t.a[1]:
            yield from leaves(e[2])
    else:
        yield t


ESCAPERS = ('quick_xml::escape::', 'unescape', 'html_escape', 'escape_debug', 'escape_default')
BUILDERS = ('fmt::format', '::push_str', '::replace', '::replacen', '::join', '::concat', '::insert_str', '::push', 'fmt::Write')
ENTITIES = ('&amp;', '&lt;', '&gt;', '&quot;', '&apos;', '&', '<', '>')


def sources(ctx, done):
    P = ctx.P
    parse = ctx.fn('XmlSerializer::vec_to_xml_doc_tree')
    n = 0
    for f in P.lib.values():
        for b, t in f.calls():
            path = t['f'].get('rpath') or t['f'].get('path') or ''
            if f.key not in done and (path.startswith('quick_xml::escape::') or path.startswith('quick_xml::') and 'unescape' in path.split('::')[-1] or path.split('::')[-1] in ('escape_debug', 'escape_default')):
                ctx.bad('escaping in %s' % f.short, '%s (line %s) calls %s although reader and writer already escape' % (f.short, t.get('l'), path))
            if path.endswith('::replace') and 'str' in path and any(s in ENTITIES for s in consts(P, f, t)):
                ctx.bad('escaping in %s' % f.short, '%s (line %s) replaces XML special characters or entities itself' % (f.short, t.get('l')))
            if t['f'].get('key') == parse.key:
                n += 1
                bad = [x for x in back(P, f, t['a'][0]) if any(y in x for y in BUILDERS)]
                if bad:
                    ctx.bad('source in %s' % f.short, '%s (line %s) parses XML text put together at run time (%s), nothing escapes what is put in' % (f.short, t.get('l'), bad[0]))
                else:
                    ctx.ok('parsed source', f.short)
    ctx.need('parse calls', n, 4)
    ctx.ok('escaping only in reader and writer', '%d functions' % len(P.lib))


def consts(P, f, t):
    out = set()
    for a in t['a']:
        if a[0] == 'k' and isinstance(a[2], (str, list, dict)):
            out.add(str(a[2]['str'] if isinstance(a[2], dict) and 'str' in a[2] else a[2]))
        elif a[0] in ('c', 'm'):
            for b, blk in enumerate(f.blocks):
                for s in blk['s']:
                    if s[0] == '=' and s[1][0] == a[1][0] and s[2][0] == 'use' and s[2][1][0] == 'k':
                        out.add(str(s[2][1][2]))
    return out


def back(P, f, op, seen=None):
    """Calls in the backward slice of an operand within its function."""
    seen = set() if seen is None else seen
    out = []
    if op[0] == 'k':
        return out
    todo = [op[1][0]]
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for blk in f.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[1][0] == l:
                    todo += locals_of(s[2])
            if blk['k'] == 'call' and blk['d'][0] == l:
                p = blk['f'].get('rpath') or blk['f'].get('path') or ''
                out.append(p)
                # values mutated through references: only what flows in
                for a in blk['a']:
                    if a[0] in ('c', 'm'):
                        todo.append(a[1][0])
    # mutating calls on anything of the slice
    refs = {l: s[2][2][0] for blk in f.blocks for s in blk['s'] if s[0] == '=' and s[2][0] == 'ref' for l in [s[1][0]]}
    for blk in f.blocks:
        if blk['k'] == 'call' and blk['a'] and blk['a'][0][0] in ('c', 'm'):
            l = blk['a'][0][1][0]
            if refs.get(l) in seen:
                out.append(blk['f'].get('rpath') or blk['f'].get('path') or '')
    return out


def locals_of(r):
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list):
                out.append(x[1][0])
                return
            for y in x:
                walk(y)
    if r[0] == 'ref':
        return [r[2][0]]
    if r[0] in ('discr', 'len', 'addr'):
        return [r[-1][0]] if isinstance(r[-1], list) else []
    walk(r[1:])
    return out
