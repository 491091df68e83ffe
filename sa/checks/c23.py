import re
import xml.etree.ElementTree as ET

from .. import pkg
from ..engine import Dead, Engine, State, fmt, mk

EXPLAIN = ('The initial content, content type, extension, relationship and location of every part kind are computed by interpreting the constructors and the '
           'template function of each kind (value flow over MIR, registry constants folded); the kind is recognised by the root element of its template, '
           'and everything computed is compared with the names ISO/IEC 29500 assigns to that kind.')
RULE = ('per kind: root element and namespace, declared prefixes, content type, extension, relationship type looked up and registered, and default location are '
        'the standard ones; every registry entry that the code asks for exists')
ASSUME = ['the release-only "dvmo" comment and namespace are not part of the analysed configuration']

SS = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
OD = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
PK = 'http://schemas.openxmlformats.org/package/2006/'
SM = 'application/vnd.openxmlformats-officedocument.spreadsheetml.'
# root element -> namespace, content type, relationship type, default location
KINDS = {
    'workbook': (SS, SM + 'sheet.main+xml', OD + '/officeDocument', r'xl/workbook\.xml'),
    'worksheet': (SS, SM + 'worksheet+xml', OD + '/worksheet', r'\*?worksheets/sheet\*\.xml'),
    'sst': (SS, SM + 'sharedStrings+xml', OD + '/sharedStrings', r'xl/sharedStrings\.xml'),
    'calcChain': (SS, SM + 'calcChain+xml', OD + '/calcChain', r'xl/calcChain\.xml'),
    'styleSheet': (SS, SM + 'styles+xml', OD + '/styles', r'xl/styles\.xml'),
    'theme': ('http://schemas.openxmlformats.org/drawingml/2006/main', 'application/vnd.openxmlformats-officedocument.theme+xml',
              OD + '/theme', r'xl/theme/theme\d+\.xml'),
    'coreProperties': (PK + 'metadata/core-properties', 'application/vnd.openxmlformats-package.core-properties+xml',
                       PK + 'relationships/metadata/core-properties', r'docProps/core\.xml'),
    'Relationships': (PK + 'relationships', None, None, None),
}
RELTYPE = 'application/vnd.openxmlformats-package.relationships+xml'
XMLTYPES = ('application/xml', 'text/xml')
PREFIX = {'r': OD, 'cp': PK + 'metadata/core-properties', 'dc': 'http://purl.org/dc/elements/1.1/', 'dcterms': 'http://purl.org/dc/terms/',
          'dcmitype': 'http://purl.org/dc/dcmitype/', 'xsi': 'http://www.w3.org/2001/XMLSchema-instance',
          'a': 'http://schemas.openxmlformats.org/drawingml/2006/main', 'x': SS,
          'thm15': 'http://schemas.microsoft.com/office/thememl/2012/main',
          'mc': 'http://schemas.openxmlformats.org/markup-compatibility/2006'}
TYPES_NS = PK + 'content-types'


def run(ctx):
    P = ctx.P
    kinds = {}
    for f in sorted(P.lib.values(), key=lambda f: f.key):
        if f.trait and f.short.endswith('::initialize_content_xml'):
            k = template(ctx, f)
            if k:
                kinds.setdefault(k, []).append(f)
    ctx.need('part kinds with initial content', len(kinds), len(KINDS))
    for k in KINDS:
        if k not in kinds:
            ctx.bad('kind missing: ' + k, 'no part kind starts with the root element ' + k)
    for k, fs in kinds.items():
        for f in fs:
            owner(ctx, k, f)
    listing(ctx)
    registry(ctx)


def consts(E, st, v):
    r = set()
    for g, x in E.alts(E.deep(st, v)):
        if x.op == 'agg' and x.a[0].endswith('Option') and x.a[1] == 1:
            for g2, y in E.alts(x.a[2][0]):
                r.add(y.a[0] if y.op == 'str' else y)
        elif x.op == 'agg' and x.a[0].endswith('Option'):
            r.add(None)
        elif x.op == 'str':
            r.add(x.a[0])
        else:
            r.add(x)
    return r


def template(ctx, f):
    """Root element of the initial content; checks namespace, content type and extension."""
    who = f.short.split(' as ')[0].split('::')[-1]
    E, st = Engine(ctx.P), State(1, {})
    try:
        ret = E.call_fn(st, f, [], ('m', 0, f.key), ())
    except Dead:
        ctx.bad('initial content of ' + who, 'creating the initial content of %s never succeeds' % who)
        return None
    ctx.count('functions analysed', len(E.fns_seen))
    tuples = [y for g, x in E.alts(E.deep(st, ret)) if x.op == 'agg' and x.a[0].endswith('Result') and x.a[1] == 0
              for g2, y in E.alts(x.a[2][0]) if y.op == 'agg' and len(y.a[2]) == 4]
    if not tuples:
        ctx.unknown('initial content of ' + who, fmt(ret, 3)[:100])
        return None
    kind = None
    for t in tuples:
        doc, ctype, ext, exttype = t.a[2]
        for g, d in E.alts(doc):
            if d.op == 'tpldoc' and d.a[0].op == 'str':
                kind = literal(ctx, who, d.a[0].a[0]) or kind
            elif d.op == 'agg' and len(E.roottags) == 1 and E.roottags[0].op == 'str':
                kind = E.roottags[0].a[0].split(':')[-1]
                ns = None
                v = st.st.get(('EA', mk('root')))
                ns = consts(E, st, E.map_get(v, mk('str', 'xmlns'))) if v is not None else set()
                same(ctx, who, kind, 'namespace', ns, {KINDS[kind][0]} if kind in KINDS else ns)
            else:
                ctx.unknown('initial content of ' + who, fmt(d, 3)[:100])
        if kind not in KINDS:
            continue
        want = KINDS[kind]
        same(ctx, who, kind, 'content type', consts(E, st, ctype), {want[1]})
        same(ctx, who, kind, 'extension', consts(E, st, ext), {'rels' if kind == 'Relationships' else 'xml'})
        got = consts(E, st, exttype)
        same(ctx, who, kind, 'type of the extension', got, {RELTYPE} if kind == 'Relationships' else (got if got <= set(XMLTYPES) else {XMLTYPES[0]}))
    if kind is not None and kind not in KINDS:
        ctx.bad('unknown kind ' + kind, '%s starts with the root element %s, which is no known part kind' % (who, kind))
        return None
    return kind


def same(ctx, who, kind, what, got, want):
    got = {x if x is None or isinstance(x, str) else fmt(x, 4)[:120] for x in got}
    if got == want:
        ctx.ok('%s of a kind' % what, '%s: %s' % (kind, sorted(map(str, got))[0] if got else ''))
    else:
        ctx.bad('%s of %s' % (what, kind), '%s (root element %s) has the %s %s instead of %s' % (
            who, kind, what, ', '.join(sorted(map(str, got))) or 'none', ', '.join(map(str, sorted(map(str, want))))))


def literal(ctx, who, s):
    try:
        root = ET.fromstring(s.encode())
    except ET.ParseError as e:
        ctx.bad('template of ' + who, 'the initial content of %s is not well-formed: %s' % (who, e))
        return None
    ns, tag = root.tag[1:].split('}') if root.tag.startswith('{') else ('', root.tag)
    if tag in KINDS:
        same(ctx, who, tag, 'namespace', {ns}, {KINDS[tag][0]})
    for p, uri in re.findall(r'xmlns:([\w.-]+)\s*=\s*["\']([^"\']*)["\']', s):
        if p in PREFIX:
            same(ctx, who, tag, 'prefix ' + p, {uri}, {PREFIX[p]})
        else:
            ctx.unknown('prefix', p)
    known = set(PREFIX.values()) | {KINDS[tag][0] if tag in KINDS else ns}
    for el in root.iter():
        u = el.tag[1:].split('}')[0] if el.tag.startswith('{') else ''
        if u not in known:
            ctx.bad('element of %s' % tag, 'the initial content of %s holds %s in the namespace "%s"' % (who, el.tag.split('}')[-1], u))
    ctx.count('templates parsed')
    return tag


def pattern(E, v):
    """The constant shape of a path."""
    r = set()
    for g, x in E.alts(v):
        if x.op == 'str':
            r.add(x.a[0])
        elif x.op in ('cat', 'tostr'):
            parts = ['']
            for y in (x.a[0] if x.op == 'cat' else x.a):
                alts = pattern(E, y) if y.op in ('str', 'cat') else {'*'}
                parts = [p + q for p in parts for q in alts][:64]
            r |= set(parts)
        else:
            r.add('*')
    return {re.sub(r'\*+', '*', p) for p in r}


def owner(ctx, kind, f):
    """Relationship type and location used by the constructor of the kind."""
    if kind == 'Relationships':
        return
    P = ctx.P
    ty = f.short.split(' as ')[0].lstrip('<')
    who = ty.split('::')[-1]
    news = [g for g in P.lib.values() if not g.closure and (g.short == ty + '::new' or g.short.startswith('<%s as ' % ty) and g.short.endswith('::new'))]
    if not news:
        ctx.bad('constructor of ' + who, '%s has no constructor' % who)
        return
    want = KINDS[kind]
    for fn in news:
        E, st = Engine(P), State(1, {})
        try:
            E.call_fn(st, fn, [mk('S', (), 0, 'ARG%d' % i, True) for i in range(fn.argc)], ('m', 0, fn.key), ())
        except Dead:
            ctx.bad('constructor of ' + who, 'the constructor of %s never succeeds' % who)
            continue
        ctx.count('functions analysed', len(E.fns_seen))
        ctx.count('calls resolved', E.calls_seen)
        locs, n = set(), 0
        for c in E.docrefs:
            vals = [consts(E, st, x) for x in c[2]]
            if any(want[1] in v for v in vals):
                n += 1
                for v in vals:
                    new = {x for x in v if isinstance(x, str) and x.startswith('application/') and 'openxml' in x}
                    if new and not new <= {want[1]}:
                        same(ctx, who, kind, 'registered content type', new, {want[1]})
                locs |= {p for x in c[2] for p in pattern(E, E.deep(st, x)) if p.endswith('.xml')}
        if not n:
            ctx.bad('registration of ' + kind, 'no document is registered with the content type of %s by its constructor' % kind)
        bad = {p for p in locs if not re.fullmatch(want[3], p)}
        if not locs or bad:
            ctx.bad('location of ' + kind, 'a new %s is put at %s' % (kind, ', '.join(sorted(bad)) or 'an unknown place'))
        else:
            ctx.ok('default location', '%s: %s' % (kind, sorted(locs)[0]))
        # relationship records added to the owner handed in
        types, targets = set(), set()
        for root, v in st.st.items():
            if root[0] == 'V':
                for t in records(v):
                    for x in t.a[2]:
                        for g, y in E.alts(x):
                            if y.op == 'str' and is_reltype(y.a[0]):
                                types.add(y.a[0])
        same(ctx, who, kind, 'registered relationship type', types, {want[2]})
        looked = set()
        for d in E.vars:
            if d and d[0] in ('eq', 'x') and not pkg.mentions(d[1], lambda z: z.op == 'attr' and False):
                for y in d[1:]:
                    y = y.a[0] if getattr(y, 'op', '') == 'str' else y
                    if isinstance(y, str) and y.startswith(('http://', 'https://')) and any('ARG' in fmt(z, -30) for z in d[1:] if hasattr(z, 'op')):
                        looked.add(y)
        own = looked - {k[2] for k in KINDS.values()}
        if own:
            same(ctx, who, kind, 'relationship type looked up', own, {want[2]})
        elif looked and want[2] not in looked:
            same(ctx, who, kind, 'relationship type looked up', looked, {want[2]})
        elif looked:
            ctx.ok('relationship type looked up', '%s: %s' % (kind, want[2]))


def is_reltype(s):
    return s.startswith('http://') and '/relationships/' in s


def records(v):
    r, seen = [], set()

    def pr(z):
        if z.op == 'agg' and any(x.op == 'str' and is_reltype(x.a[0]) or x.op == 'g' and any(y.op == 'str' and is_reltype(str(y.a[0])) for g, y in x.a[0]) for x in z.a[2]):
            if z not in seen:
                seen.add(z)
                r.append(z)
        return False
    pkg.mentions(v, pr)
    return r


def listing(ctx):
    """The content type listing declares its own namespace."""
    f = ctx.fn('ContentTypesPart::create_xml_file')
    ctx.need('content type listing writer', int(f is not None), 1)
    if f is None:
        return
    E, st = Engine(ctx.P), State(1, {})
    try:
        E.call_fn(st, f, [mk('S', (), 0, 'ARG%d' % i, True) for i in range(f.argc)], ('m', 0, f.key), ())
    except Dead:
        ctx.bad('content type listing', 'the listing is never produced')
        return
    tags = {t.a[0] for t in E.roottags if t.op == 'str'}
    same(ctx, 'the listing', '[Content_Types].xml', 'root element', tags, {'Types'})
    v = st.st.get(('EA', mk('root')))
    ns = consts(E, st, E.map_get(v, mk('str', 'xmlns'))) if v is not None else set()
    same(ctx, 'the listing', '[Content_Types].xml', 'namespace', ns, {TYPES_NS})


def registry(ctx):
    """Every constant key that is asked for is defined."""
    from .. import models
    P = ctx.P
    n = 0
    for f in sorted(P.lib.values(), key=lambda f: f.key):
        defs = None
        for b, t in f.calls():
            if not (t['f'].get('path') or '').startswith('phf::Map'):
                continue
            if defs is None:
                defs = definitions(f)
            n += 1
            m, k = [source(P, f, defs, a) for a in t['a'][:2]]
            if m is None or k is None:
                ctx.unknown('registry lookup', '%s line %s' % (f.short, t['l']))
                continue
            E = Engine(P)
            ents = models.phf_entries(E, E.const(*m))
            if ents is None:
                ctx.unknown('registry lookup', '%s line %s' % (f.short, t['l']))
                continue
            key = E.const(*k)
            key = key.a[0] if key.op == 'str' else None
            if key is None:
                ctx.unknown('registry lookup', '%s line %s' % (f.short, t['l']))
            elif key in ents:
                ctx.ok('registry entry exists', '%s in %s' % (key, f.short.split('::')[-1]))
            else:
                ctx.bad('undefined kind ' + key, '%s (line %s) asks the registry for "%s", which is not defined' % (f.short, t['l'], key))
    ctx.need('registry lookups', n, 12)


def definitions(f):
    d = {}
    for bl in f.blocks:
        for s in bl['s']:
            if s[0] == '=' and not s[1][1]:
                d.setdefault(s[1][0], []).append(s[2])
    return d


def source(P, f, defs, op, depth=0):
    """The constant an operand holds, through copies, references and reborrows."""
    if depth > 12:
        return None
    if op[0] == 'k':
        return op[1], op[2]
    if op[0] not in ('c', 'm'):
        return None
    return place(P, f, defs, op[1], depth)


def place(P, f, defs, pl, depth):
    if any(p != '*' for p in pl[1]):
        return None
    ds = defs.get(pl[0], [])
    if len(ds) != 1:
        return None
    rv = ds[0]
    if rv[0] == 'use':
        return source(P, f, defs, rv[1], depth + 1)
    if rv[0] == 'ref':
        return place(P, f, defs, rv[2], depth + 1)
    if rv[0] == 'cast':
        return source(P, f, defs, rv[2], depth + 1)
    return None
