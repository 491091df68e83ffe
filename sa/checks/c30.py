from .. import pkg
from ..codec import Scenario
from ..engine import fmt, mk
from ..pkg import mentions
from ..effects import writers_of_field
from .c09 import size_dec

EXPLAIN = ('The calculation chain reader and writer are interpreted as one composition on an arbitrary <c> entry; for every attribute of the schema, present and '
           'absent, the written value is compared with the one read; functions that change the list of entries are enumerated.')
RULE = 'every <c> entry with attributes comes back once, in order, with each attribute exactly as read; nothing else changes the list'
ATTRS = 'r i s l t a'.split()


def run(ctx):
    new, close = ctx.impl('XmlDocumentPart', 'CalculationChainPart', 'new'), ctx.impl('XmlDocumentPartCommon', 'CalculationChainPart', 'close_document')
    ctx.need('calculation chain constructor and closing', int(new is not None) + int(close is not None), 2)
    if new is None or close is None:
        return
    sc = Scenario(ctx.P, new, close)
    E = sc.E
    ctx.count('functions analysed', len(E.fns_seen))
    ctx.count('calls resolved', E.calls_seen)
    outs = sc.by_tag('c')
    ctx.need('written <c> elements', len(outs), 1)
    for o in outs:
        for k in ATTRS:
            v = E.lift(o.attrmap, lambda t: E.map_get(t, mk('str', k)) if t.op == 'map' else mk('absent') if t.op == 'undef' else mk('odd', t))
            for present in (1, 0):
                if k == 'r' and not present:
                    continue

                def dec(d, k=k, present=present):
                    if d[0] == 'has':
                        return present if d[2] == k else 1 if d[2] == 'r' else None
                    r = size_dec(d)
                    return r if r is not None else pkg.infra(d) if d[0] != 'has' else None
                g = pkg.guard_case(E, o.guard, dec)
                if g != 1:
                    lim = [E.vars[x][0] for x in E.B.support(g)] if g else ['never']
                    if g == 0 or set(lim) & {'has', 'limited', 'x', 'eq', 'lt'}:
                        ctx.bad('entry left out', 'an entry %s %s is written only when %s' % ('with' if present else 'without', k, E.bfmt(g)[:160]))
                        continue
                    ctx.unknown('entry written', E.bfmt(g)[:120])
                for w, x in pkg.case(E, v, dec):
                    while x.op == 'agg' and x.a[2]:
                        x = x.a[2][0]
                    if present and x.op == 'attr' and x.a[1] == k:
                        ctx.ok('attribute kept', k)
                    elif not present and x.op == 'absent':
                        ctx.ok('absent attribute stays absent', k)
                    elif x.op in ('absent', 'str', 'attr', 'op', 'cat', 'tostr', 'plus', 'undef'):
                        ctx.bad('%s %s' % (k, 'changed' if present else 'invented'), 'an entry %s %s is written with %s' % ('with' if present else 'without', k, fmt(x, 4)[:100]))
                    else:
                        ctx.unknown(k, fmt(x, 4)[:100])
    n = 0
    for kind, ents, fn, line in E.drains:
        back = kind.split('_')[-1] in ('back', 'rev', 'last')
        for e in ents:
            if mentions(e[2], lambda z: z.op == 'tagged' and fmt(z.a[0]).strip("'") == 'c'):
                n += 1
                if e[3] == 'sorted' or back != (e[3] == 'f'):
                    ctx.bad('order', 'the entries are not written in the order of the file (%s line %s); entries without a sheet id inherit it from the one before' % (
                        fn.short.split('::')[-1], line))
                else:
                    ctx.ok('order', kind)
    if not n:
        ctx.unknown('order of entries', 'no list of entries taken in order was found')
    closes = 0
    for c in E.closes:
        closes = E.B.OR(closes, c[3])
    g = pkg.guard_case(E, E.B.restrict(closes, sc.pc_loaded), lambda d: size_dec(d) if size_dec(d) is not None else pkg.infra(d))
    if g == 1:
        ctx.ok('part kept', 'a chain with entries is closed, not deleted')
    else:
        ctx.bad('part dropped', 'a chain with entries is written only when %s' % E.bfmt(g)[:160])
