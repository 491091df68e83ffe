import itertools
import xml.etree.ElementTree as ET

from .. import engine as X, pkg
from ..codec import Scenario, infra_assign
from ..engine import Dead, Engine, Ref, State, fmt, mk

EXPLAIN = ('For each part kind the constructor and the closing routine are interpreted for an arbitrary source document; the sequence of tree operations they '
           'perform (take out, append, insert before/after/at, reorder) is extracted with the condition of each, and applied to every selection of the schema\'s '
           'children that such a source can still hold (none, each, each pair, all). Reordering itself is decided from the key function handed to the sort.')
RULE = ('after the last operation the children of the root follow the sequence of the schema type; children of every record written follow theirs; the sort '
        'key of a child is its place in the given list, unlisted children last; templates are in order')
ASSUME = ['source parts are themselves in schema order', 'Vec insertion and stable sorting behave as documented', 'alternate-content wrappers and foreign-namespace children carry no order of their own']

SEQ = {
    'workbook': 'fileVersion fileSharing workbookPr workbookProtection bookViews sheets functionGroups externalReferences definedNames calcPr oleSize '
                'customWorkbookViews pivotCaches smartTagPr smartTagTypes webPublishing fileRecoveryPr webPublishObjects extLst',
    'worksheet': 'sheetPr dimension sheetViews sheetFormatPr cols sheetData sheetCalcPr sheetProtection protectedRanges scenarios autoFilter sortState '
                 'dataConsolidate customSheetViews mergeCells phoneticPr conditionalFormatting dataValidations hyperlinks printOptions pageMargins pageSetup '
                 'headerFooter rowBreaks colBreaks customProperties cellWatches ignoredErrors smartTags drawing legacyDrawing legacyDrawingHF drawingHF picture '
                 'oleObjects mc:AlternateContent controls webPublishItems tableParts extLst',
    'styleSheet': 'numFmts fonts fills borders cellStyleXfs cellXfs cellStyles dxfs tableStyles colors extLst',
    'sst': 'si extLst',
    'calcChain': 'c extLst',
    'bookViews': 'workbookView', 'sheets': 'sheet', 'sheetViews': 'sheetView extLst', 'sheetView': 'pane selection pivotSelection extLst',
    'cols': 'col', 'sheetData': 'row', 'row': 'c extLst', 'c': 'f v is extLst', 'is': 't r rPh phoneticPr', 'si': 't r rPh phoneticPr',
    'numFmts': 'numFmt', 'fonts': 'font', 'fills': 'fill', 'fill': 'patternFill gradientFill', 'patternFill': 'fgColor bgColor', 'borders': 'border',
    'border': 'start end left right top bottom diagonal vertical horizontal', 'left': 'color', 'right': 'color', 'top': 'color', 'bottom': 'color', 'diagonal': 'color',
    'cellStyleXfs': 'xf', 'cellXfs': 'xf', 'xf': 'alignment protection extLst', 'cellStyles': 'cellStyle', 'dxfs': 'dxf',
}
SEQ = {k: v.split() for k, v in SEQ.items()}
# (an alternate-content wrapper in a worksheet stands for the embedded objects or controls it wraps)
# children in any order
SETS = {'font': set('b i strike condense extend outline shadow u vertAlign sz color name family charset scheme'.split())}
PARTS = [('WorkbookPart', 'workbook'), ('WorkSheet', 'worksheet'), ('StylePart', 'styleSheet'), ('ShareStringPart', 'sst'), ('CalculationChainPart', 'calcChain')]


def run(ctx):
    sorting(ctx)
    templates(ctx)
    n = 0
    for ty, kind in PARTS:
        new = ctx.impl('XmlDocumentPart', ty, 'new') or ctx.fn('%s::new' % ty)
        close = ctx.impl('XmlDocumentPartCommon', ty, 'close_document')
        if new is None or close is None:
            ctx.bad('part %s' % ty, 'the constructor or the closing routine of %s was not found' % ty)
            continue
        n += 1
        sc = Scenario(ctx.P, new, close)
        ctx.count('functions analysed', len(sc.E.fns_seen))
        ctx.count('calls resolved', sc.E.calls_seen)
        part(ctx, sc, kind)
    ctx.need('parts analysed', n, len(PARTS))


def name(t):
    return t.a[0] if getattr(t, 'op', '') == 'str' else None


def part(ctx, sc, kind):
    E = sc.E
    others = {t for k, r in PARTS if r != kind for t in SEQ[r]} | {'Relationship'}
    ops = {}
    for k, v in E.treeops.items():
        if k[0] == 'new':
            par = v[1]
            if getattr(par, 'op', '') == 'root' and name(v[0]) in others - set(SEQ[kind]):
                continue
            ops.setdefault(par, []).append((k[1], v))
        elif getattr(v[0], 'op', '') == 'root':
            ops.setdefault(v[0], []).append((None, v))
        else:
            for g, el in E.alts(v[0]):
                ops.setdefault(el, []).append((None, v))
    guards = {o.e: o.guard for o in sc.elements}
    seen = 0
    for par, lst in ops.items():
        if getattr(par, 'op', '') == 'root':
            seen += 1
            simulate(ctx, sc, kind, kind, lst, guards, sorted_left(sc, kind))
        elif par in E.elinfo:
            tag = name(E.elinfo[par][0])
            if tag is None:
                ctx.unknown('children of an element', fmt(E.elinfo[par][0], 2))
                continue
            seen += 1
            children(ctx, sc, kind, tag, lst, guards)
            mixed(ctx, sc, par, tag, lst)
        else:
            ctx.unknown('children of a source element', fmt(par, 2)[:80])
    ctx.need('element kinds with children written in ' + kind, seen, {'workbook': 3, 'worksheet': 6, 'styleSheet': 10, 'sst': 2, 'calcChain': 1}[kind])


def sorted_left(sc, kind):
    popped = {name(t) for t, par in sc.E.popped if getattr(par, 'op', '') == 'root'}
    return [t for t in SEQ[kind] if t not in popped]


def children(ctx, sc, kind, tag, lst, guards):
    tags = {name(v[0]) for e, v in lst if e is not None}
    if tag in SETS:
        for t in tags:
            if t is None:
                # the tag is a value: whose, is the matter of the round trip of the parent (C15)
                ctx.unknown('tag of a child of ' + tag, 'not a constant')
            elif t in SETS[tag]:
                ctx.ok('child allowed', '%s/%s' % (tag, t))
            else:
                ctx.bad('%s in %s' % (t, tag), '<%s> is written inside <%s>, which the schema does not allow' % (t, tag))
        return
    if tag not in SEQ:
        ctx.bad('%s with children' % tag, '<%s> is written with the children %s, the schema gives it none' % (tag, ', '.join(sorted(map(str, tags)))))
        return
    simulate(ctx, sc, kind, tag, lst, guards, [])


def done(E, om, k):
    """Condition under which a reordering has taken place."""
    r = 0
    for g, t in E.alts(om) if om is not None else ():
        for x, mult, v in t.a[1] if t.op == 'map' else ():
            if x is k:
                for g2, y in E.alts(v):
                    if y.op != 'absent':
                        r = E.B.OR(r, E.B.AND(g, g2))
    return r


def simulate(ctx, sc, kind, tag, lst, guards, left):
    E, B = sc.E, sc.E.B
    seq = SEQ[tag]
    rank = {t: i for i, t in enumerate(seq)}
    om = sc.st.st.get(('G', 'ORD'))
    every = [guards.get(e, 0) if e is not None else done(E, om, v[2]) for e, v in lst]
    # (an empty collection is an input like any other)
    m = {v: x for v, x in infra_assign(E, every).items() if E.vars[v][0] not in ('lt', 'x')}
    gs = [B.subst(g, m) for g in every]
    steps = []
    for (e, v), g in zip(lst, gs):
        if e is None:
            table = order_list(E, v[1])
            if table is None:
                ctx.unknown('order list', fmt(v[1], 2)[:80])
                return
            steps.append(('sort', table, g))
            continue
        t = name(v[0])
        if t is None:
            ctx.unknown('tag of a child of ' + tag, fmt(v[0], 2)[:80])
            return
        if t not in rank:
            ctx.bad('%s in %s' % (t, tag), '<%s> is written inside <%s>, which the schema does not allow' % (t, tag))
            return
        anchor = None
        if v[2] != 'append':
            if v[3] is None or v[3].op not in ('str', 'int'):
                ctx.unknown('place of a child of ' + tag, fmt(v[3], 2)[:80])
                return
            anchor = v[3].a[0]
        steps.append((v[2], t, g, anchor))
    opt = [i for i, s in enumerate(steps) if s[2] != 1]
    combos = [()]
    # which of the conditional operations take part: every consistent selection
    sels = []
    if len(opt) <= 8:
        for bits in itertools.product((0, 1), repeat=len(opt)):
            g = 1
            for i, b in zip(opt, bits):
                g = B.AND(g, steps[i][2] if b else B.NOT(steps[i][2]))
            if g:
                sels.append({i for i, b in zip(opt, bits) if b} | {i for i in range(len(steps)) if i not in opt})
    else:
        sels = [set(range(len(steps)))] + [set(range(len(steps))) - {i} for i in opt] + [{i for i in range(len(steps)) if i not in opt}]
    lefts = [tuple(left), ()] + [(t,) for t in left] + list(itertools.combinations(left, 2))
    bad = set()
    n = 0
    for sel in sels:
        for lf in dict.fromkeys(lefts):
            n += 1
            cur = [(t, 'source') for t in lf]
            for i, s in enumerate(steps):
                if i not in sel:
                    continue
                apply(cur, s)
            rs = [(rank[t], t, w) for t, w in cur]
            for a, b in zip(rs, rs[1:]):
                if a[0] > b[0]:
                    bad.add((b[1], a[1], b[2], a[2]))
    ctx.count('child arrangements', n)
    who = {'source': 'kept from the source', 'new': 'written'}
    for t in sorted({b[0] for b in bad}):
        mine = sorted(b for b in bad if b[0] == t)
        ctx.bad('%s: %s out of place' % (tag, t), '<%s> (%s) ends up after %s among the children of <%s>; the schema puts it before' % (
            t, who[mine[0][2]], ', '.join('<%s>' % b for b in dict.fromkeys(x[1] for x in mine)), tag))
    if not bad:
        ctx.ok('child order', '%s: %s (%d arrangements)' % (tag, ' '.join(dict.fromkeys(s[1] for s in steps if s[0] != 'sort'))[:80], n))


def apply(cur, s):
    how = s[0]
    if how == 'sort':
        idx = {t: i for i, t in enumerate(s[1])}
        cur.sort(key=lambda x: idx.get(x[0], 1 << 60))
        return
    x, anchor = (s[1], 'new'), s[3]
    at = [i for i, c in enumerate(cur) if c[0] == anchor]
    if 'after' in how:
        cur.insert(at[-1] + 1 if at else len(cur), x)
    elif 'before' in how:
        cur.insert(at[0] if at else 0, x)
    elif 'at' in how.split('_'):
        cur.insert(min(int(anchor), len(cur)), x)
    else:
        cur.append(x)


def order_list(E, t):
    t = t if t.op != 'g' else None
    if t is not None and t.op == 'karr':
        r = [name(x) for x in t.a[0]]
        return r if None not in r else None
    if t is not None and t.op == 'agg' and all(name(x) for x in t.a[2]):
        return [name(x) for x in t.a[2]]
    if t is not None and t.op == 'vec':
        r = [name(x[2]) for x in t.a[1]]
        return r if None not in r and all(x[1] == 'one' and x[0] == 1 for x in t.a[1]) else None
    return None


def site(e):
    """Call path of a creation: [(function, block), ...] from the outside in."""
    r = [(e.a[0], e.a[1])]
    c = e.a[0]
    return r


def mixed(ctx, sc, par, tag, lst):
    """Different children written from one loop, under a parent made outside it."""
    sites = {}
    for e, v in lst:
        if e is not None:
            sites.setdefault(e.a[0], []).append((e.a[1], name(v[0])))
    for cx, ss in sites.items():
        tags = {t for b, t in ss}
        key = cx[-1] if isinstance(cx, tuple) else None
        fn = sc.P.fns.get(key) if isinstance(key, str) else None
        if len(tags) < 2 or fn is None:
            continue
        loops = fn.loops
        for h, body in loops.items():
            inside = {t for b, t in ss if b % X.ROUND in body}
            if (cx, h) in E.unrolled:
                continue
            if len(inside) > 1 and not (par.a[0] == cx and par.a[1] % X.ROUND in body):
                ctx.bad('%s: children mixed' % tag, 'one loop of %s writes %s inside the same <%s>' % (fn.short, ', '.join(sorted(map(str, inside))), tag))


def templates(ctx):
    n = 0
    for f in sorted(ctx.P.lib.values(), key=lambda f: f.key):
        if not (f.trait and f.short.endswith('::initialize_content_xml')):
            continue
        E, st = Engine(ctx.P), State(1, {})
        E.watch = ['vec_to_xml_doc_tree']
        try:
            E.call_fn(st, f, [], ('m', 0, f.key), ())
        except Dead:
            continue
        for e in E.effects:
            for x in e[1]:
                t = E.deep(st, x)
                if t.op == 'str' and t.a[0].lstrip().startswith('<'):
                    try:
                        root = ET.fromstring(t.a[0].encode())
                    except ET.ParseError:
                        continue
                    n += 1
                    tree(ctx, root)
    ctx.need('templates', n, 3)


def tree(ctx, el):
    tag = el.tag.split('}')[-1]
    kids = [c.tag.split('}')[-1] for c in el]
    if 'spreadsheetml' in el.tag and tag in SEQ and kids:
        r = [SEQ[tag].index(k) if k in SEQ[tag] else -1 for k in kids]
        if -1 in r or r != sorted(r):
            ctx.bad('template: ' + tag, 'the built-in template writes the children of <%s> as %s' % (tag, ', '.join(kids)))
        else:
            ctx.ok('template order', tag)
    if 'spreadsheetml' in el.tag:
        for c in el:
            tree(ctx, c)


SORTS = ('sort_by_key', 'sort_by_cached_key', 'sort_unstable_by_key', 'sort_by', 'sort_unstable_by', 'sort', 'sort_unstable')
LIST = ('aa', 'bb', 'cc')


def sorting(ctx):
    """The reordering puts listed children in list order and the others last, each group in its old order."""
    P = ctx.P
    fn = ctx.fn('XmlElement::order_child_mut')
    ctx.need('reordering function', int(fn is not None), 1)
    if fn is None:
        return
    E, st = Engine(P), State(1, {})
    E.models = dict(E.models)
    E.models.pop('files::xml::xml_tree::XmlElement::order_child_mut', None)
    got = []

    def hook(n, old):
        k = n.split('::')[-1]

        def f(c):
            t = None
            if k.endswith('by_key') or k.endswith('cached_key'):
                r = ('H', 'sortitem')
                c.st.st[r] = mk('S', (), 0, 'ITEM', True)
                t = E.deep(c.st, E.call_value(c, c.args[1], [Ref(r)]))
            got.append((k, t, c.st.pc))
            return old(c)
        return f
    for n in list(E.models):
        if 'slice::<impl [T]>::' in n and n.split('::')[-1] in SORTS:
            E.models[n] = hook(n, E.models[n])
    el, sk = ('H', 'el'), ('H', 'list')
    E0 = st.st[el] = mk('S', (), 0, 'EL', True)
    K = st.st[sk] = mk('karr', tuple(mk('str', x) for x in LIST))
    try:
        E.call_fn(st, fn, [Ref(el), Ref(sk)], ('m', 0, fn.key), ())
    except Dead:
        ctx.bad('reordering fails', 'reordering children never succeeds')
        return
    ctx.count('functions analysed', len(E.fns_seen))
    if not got:
        ctx.bad('no reordering', 'the children are not sorted by the function that is called to reorder them')
        return
    for k, t, pc in got:
        if 'unstable' in k:
            ctx.bad('unstable order', 'children are reordered with %s, which may exchange children with equal keys' % k)
        g = pkg.guard_case(E, pc, lambda d: many(d))
        if g == 1:
            ctx.ok('reordering', 'always takes place when there are children and a list')
        elif all(E.vars[v][0] in ('lt', 'x', 'eq') for v in E.B.support(g)):
            ctx.bad('reordering left out', 'children are only reordered when %s' % E.bfmt(g, 2)[:160])
        else:
            ctx.unknown('condition of the reordering', E.bfmt(g, 1)[:100])
        if t is None:
            ctx.unknown('sort key', k)
            continue
        vals = [key(E, t, T) for T in LIST + ('zz',)]
        if None in vals:
            ctx.unknown('sort key', fmt(t, 4)[:160])
        elif not all(a < b for a, b in zip(vals, vals[1:])):
            ctx.bad('sort key', 'for the list %s the children %s get the keys %s' % (', '.join(LIST), ', '.join(LIST + ('an unlisted one',)), ', '.join(map(str, vals))))
        else:
            ctx.ok('sort key', 'listed children by place, others last')
    fi = pkg.field(P, 'XmlElement', 'children')
    if fi is not None:
        kids = mk('f', E0, fi)
        after = {x for r, v in st.st.items() if r[0] in ('V', 'H') for g, x in E.alts(v) if pkg.mentions(x, lambda z: z is kids) and r[:2] != ('H', 'sortitem')}
        calls = sequence_calls(ctx, fn)
        if calls:
            ctx.bad('order after sorting', 'after the reordering the children are rearranged again by %s' % ', '.join(sorted(calls)))
        odd = [x for x in after if x is not kids and not (x.op == 'op' and x.a[0] == 'sorted' and x.a[1] is kids) and not (x.op == 'vec' and x.a[0] is kids)]
        if odd:
            ctx.bad('order after sorting', 'after the reordering the children are %s' % fmt(odd[0], 4)[:160])
        else:
            ctx.ok('order after sorting', 'kept')


REARRANGE = ('reverse', 'swap', 'swap_remove', 'rotate_left', 'rotate_right', 'swap_with_slice', 'select_nth_unstable', 'partition_in_place', 'split_off')


def sequence_calls(ctx, fn, seen=None):
    """Calls below `fn` that rearrange a sequence of child entries."""
    P = ctx.P
    seen = set() if seen is None else seen
    if fn.key in seen:
        return set()
    seen.add(fn.key)
    r = set()
    for b, t in fn.calls():
        f = t['f']
        n = (f.get('rpath') or f.get('path') or '').split('::')[-1]
        if n in REARRANGE and any(isinstance(a, int) and 'XmlElementChild' in P.types[a].get('s', '') for a in f.get('args') or ()):
            r.add('%s (%s:%s)' % (n, fn.short, t.get('l')))
        g = P.lib.get(f.get('key'))
        if g is not None:
            r |= sequence_calls(ctx, g, seen)
    return r


def many(d):
    if d[0] == 'lt' and d[1].op == 'int' and d[2].op == 'len':
        return int(d[1].a[0] < (3 if d[2].a[0].op == 'karr' else 2)) if d[1].a[0] < 2 else None
    if d[0] == 'x' and getattr(d[1], 'op', '') == 'len' and str(d[2]) == '0':
        return 0
    return pkg.infra(d) if d[0] not in ('lt', 'x', 'eq') else None


def key(E, t, T):
    """Sort key of a child named T, for the list LIST."""
    at = LIST.index(T) if T in LIST else None

    def dec(d):
        if d[0] in ('x', 'eq'):
            k = [x for x in d[1:3] if hasattr(x, 'op') and x.op == 'str'] or [x for x in d[1:3] if isinstance(x, str)]
            if k:
                return int((k[0] if isinstance(k[0], str) else k[0].a[0]) == T)
        if d[0] in ('haskey', 'eq', 'contains'):
            return int(at is not None)
        if d[0] in ('next', 'okcall'):
            return 1
        return None
    alts = [x for g, x in pkg.case(E, t, dec)]
    if len(alts) != 1:
        return None
    return number(E, alts[0], at, dec)


def number(E, t, at, dec):
    if t.op == 'int':
        return t.a[0]
    if t.op == 'plus':
        x = number(E, t.a[0], at, dec)
        return None if x is None or not isinstance(t.a[1], int) else x + t.a[1]
    if t.op == 'mapval' and t.a[0].op == 'collected':
        alts = [x for g, x in pkg.case(E, t.a[0].a[1], lambda d: 1 if d[0] == 'next' else None) if x.op != 'absent']
        return number(E, alts[0], at, dec) if len(alts) == 1 else None
    if t.op == 'S' and str(t.a[2]).rstrip('~') in ('index', 'pos'):
        return at
    if t.op == 'op' and t.a[0] == 'Sub' and len(t.a) == 3:
        a, b = number(E, t.a[1], at, dec), number(E, t.a[2], at, dec)
        return None if a is None or b is None else a - b
    if t.op == 'len' and t.a[0].op == 'karr':
        return len(t.a[0].a[0])
    if t.op == 'len':
        return len(LIST)
    if t.op == 'cast':
        return number(E, [x for x in t.a if hasattr(x, 'op')][-1], at, dec)
    return None
