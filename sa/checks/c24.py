from .. import pkg
from ..codec import Scenario
from ..engine import fmt, mk
from ..lifecycle import Must

EXPLAIN = ('The core-properties part is opened and closed in one abstract state: for every element whose text or attributes closing can change, the text left behind is compared '
           'with the rule for modified and created, for created with and without text. A must-pass-through analysis over the call graph shows that no save writes the archive '
           'before the part of that document was closed.')
RULE = 'modified := UTC now (RFC 3339) at every close; created := the same only when empty; no other core property changes; every save closes the part before writing the archive'
ROOT, MOD, CRE = 'cp:coreProperties', 'dcterms:modified', 'dcterms:created'


def tags(el):
    return [fmt(x).strip("'") for x in el.a[1:]] if el.op == 'path' and fmt(el.a[0]) == 'root()' else None


def utc_now(x):
    if x.op == 'op' and x.a[0] == 'rfc3339' and x.a[1].op == 'now':
        opts = x.a[2:]
        return not opts or (len(opts) == 2 and fmt(opts[0]).split(':')[0] == 'SecondsFormat')
    return False


def values(E, v, dec):
    out = []
    for w, x in pkg.case(E, v, dec):
        if x.op == 'agg' and x.a[0].endswith('Option') and x.a[1] == 1:
            out += [(E.B.AND(w, w2), y) for w2, y in values(E, x.a[2][0], dec)]
        else:
            out.append((w, x))
    return out


def run(ctx):
    P = ctx.P
    new, close = ctx.impl('XmlDocumentPart', 'CorePropertiesPart', 'new'), ctx.impl('XmlDocumentPartCommon', 'CorePropertiesPart', 'close_document')
    ctx.need('core properties constructor and closing', int(new is not None) + int(close is not None), 2)
    if new is None or close is None:
        return
    sc = Scenario(P, new, close)
    E = sc.E
    ctx.count('functions analysed', len(E.fns_seen))
    ctx.count('calls resolved', E.calls_seen)
    seen = {}
    for root, v in sc.st.st.items():
        if root[0] == 'EA':
            ctx.bad('attributes', 'closing changes the attributes of %s' % fmt(root[1], -3)[:120])
        if root[0] != 'EV':
            continue
        t = tags(root[1])
        if t is None:
            ctx.unknown('element changed', fmt(root[1], -3)[:160])
        else:
            seen.setdefault(t[-1] if len(t) == 2 and t[0] == ROOT else '/'.join(t), []).append((root[1], v))
    for t, lst in seen.items():
        if t not in (MOD, CRE):
            ctx.bad('other property', 'closing changes the text of %s' % t)
    for t in (MOD, CRE):
        if t not in seen:
            ctx.bad('%s not stamped' % t, 'closing the part never sets the text of %s/%s' % (ROOT, t))
        for el, v in seen.get(t, ()):
            for full in (1, 0):
                def dec(d, el=el, full=full):
                    if d[0] in ('exists', 'existstag') and d[1] == el:
                        return 1
                    if d[0] == 'hastext' and d[1] == el:
                        return full
                    return pkg.infra(d)
                case = '%s %s text' % (t, 'with' if full else 'without')
                for w, x in values(E, v, dec):
                    keep = x.op == 'elval' or (x.op == 'text' and x.a[0] == el)
                    if t == CRE and full:
                        if keep:
                            ctx.ok('creation time kept', case)
                        elif x.op == 'unknown':
                            ctx.unknown(case, fmt(x, -3)[:120])
                        else:
                            ctx.bad('creation time replaced', 'closing a part %s leaves %s' % (case, fmt(x, -3)[:120]))
                    elif utc_now(x):
                        ctx.ok('stamped', case)
                    elif keep or x.op in ('str', 'agg', 'text', 'int'):
                        ctx.bad('%s not stamped' % t, 'closing a part %s leaves %s when %s' % (case, fmt(x, -3)[:120], E.bfmt(w)[:120]))
                    elif x.op == 'op' and x.a[0] in ('rfc3339', 'strftime'):
                        ctx.bad('%s stamped otherwise' % t, 'closing a part %s leaves %s' % (case, fmt(x, -4)[:120]))
                    else:
                        ctx.unknown(case, fmt(x, -3)[:120])
    made = 0
    for o in sc.elements:
        if o.tag == MOD:
            made = E.B.OR(made, o.guard)
    for el, v in seen.get(MOD, ()):
        g = pkg.guard_case(E, made, lambda d: 0 if d[0] in ('exists', 'existstag') and d[1] == el else pkg.infra(d))
        if g == 0:
            ctx.bad('no modified element', 'a part without %s is saved without a modification time' % MOD)
        elif g == 1:
            ctx.ok('stamped', 'part without %s' % MOD)
        else:
            ctx.unknown('part without %s' % MOD, E.bfmt(g)[:120])
    for e in (E.popped or ()):
        ctx.bad('property removed', 'closing removes %s' % (fmt(e, -3) if hasattr(e, 'op') else e))
    for o in sc.elements:
        if o.tag not in (MOD, CRE):
            ctx.bad('property added', 'closing adds <%s>' % o.tag)
    closes = 0
    for c in E.closes:
        closes = E.B.OR(closes, c[3])
    g = pkg.guard_case(E, E.B.restrict(closes, sc.pc_loaded), pkg.infra)
    if g == 1:
        ctx.ok('written', 'closing hands the part to the archive')
    elif g == 0:
        ctx.bad('never written', 'closing the part does not write it into the archive')
    else:
        ctx.unknown('written', E.bfmt(g)[:160])
    saved(ctx, close)


def saved(ctx, close):
    P = ctx.P
    M = Must(P, lambda k: k == close.key)
    n = 0
    for fn, b in archive_writes(P):
        # only documents that hold the part
        n += 1
        for g, c in M.before(fn, b):
            ctx.bad('saved before stamping %s' % g.short, '%s (%s line %s) writes the archive on a path that has not closed the core properties' % (
                g.short, g.file, g.blocks[c].get('l')))
        if not M.before(fn, b):
            ctx.ok('closed before the archive is written', fn.short)
    ctx.need('calls that write the archive', n, 3)


def archive_writes(P):
    """Calls that turn the document collection into a file, seen from outside of OfficeDocument."""
    out = []
    for fn in P.lib.values():
        if '::OfficeDocument::' in fn.short:
            continue
        for b, t in fn.calls():
            f = t.get('f')
            k = f.get('key') if isinstance(f, dict) else None
            if k in P.lib and P.lib[k].short.endswith('::OfficeDocument::save_as'):
                out.append((fn, b))
    return out
