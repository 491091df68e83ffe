"""Models of the archive, compression and stream libraries, and scenarios of the package layer on top of them."""
from .engine import Engine, State, mk, fmt, Ref, Str
from .models import Ok, Agg, UNIT, EMPTY, asvec

OD = 'files::office_document::OfficeDocument::'


def norm(t):
    """bytes(gunz(gz(x))) = x"""
    if t.op == 'bytes' and t.a[0].op == 'gunz' and t.a[0].a[0].op == 'gz':
        return t.a[0].a[0].a[0]
    return t


def lift(E, t, f):
    return E.lift(t, f)


def content(E, st, v):
    v = E.deep(st, v)
    if v.op == 'agg' and v.a[0] == 'zipres':
        return v
    return v


def p_zipnew(c):
    return Ok(mk('zip', c.E.deep(c.st, c.args[0])))


def p_byname(c):
    return Ok(mk('zent', c.E.deep(c.st, c.args[1])))


def p_names(c):
    return mk('znames', mk('str', 'archive'))


def p_read_all(c):
    E, st = c.E, c.st
    src = E.deep(st, c.args[0])
    r = E.lastref(st, c.args[1])

    def put(t):
        v = E.lift(src, lambda s: norm(mk('bytes', s)))
        if t.op == 'vec' and t.a[0] is EMPTY and not t.a[1] or t.op == 'str' and t.a[0] == '':
            return v
        return mk('appended', t, v)
    E.update(st, r, put)
    return Ok(mk('len', src))


def p_gunz(c):
    return c.E.lift(c.E.deep(c.st, c.args[0]), lambda x: mk('gunz', x))


def p_gzenc(c):
    return mk('gzenc', mk('str', ''))


def p_write_all(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    data = E.deep(st, c.args[1])

    def put(t):
        if t.op == 'gzenc':
            return mk('gzenc', data) if t.a[0].op == 'str' else mk('gzenc', mk('appended', t.a[0], data))
        if t.op == 'zw':
            return mk('zwd', t.a[0])
        if t.op == 'zwd':
            return mk('zwdd', t.a[0])
        return t
    E.zwrites.append((E.deep(st, c.args[0]), data, st.pc, c.blk.get('l') if hasattr(c, 'blk') else None))
    E.update(st, r, put)
    return Ok(UNIT)


def p_gzfinish(c):
    def f(t):
        if t.op == 'gzenc':
            return mk('gz', t.a[0])
        return mk('finished', t)
    return Ok(c.E.lift(c.E.deep(c.st, c.args[0]), f))


def p_zwnew(c):
    return mk('zw', mk('str', ''))


def p_start(c):
    E, st = c.E, c.st
    r = E.lastref(st, c.args[0])
    name = E.deep(st, c.args[1])
    E.zstarts.append((name, st.pc))
    E.update(st, r, lambda t: mk('zw', name))
    return Ok(UNIT)


MODELS = {
    'zip::read::<impl zip::ZipArchive<R>>::new': p_zipnew,
    'zip::read::<impl zip::ZipArchive<R>>::by_name': p_byname,
    'zip::read::<impl zip::ZipArchive<R>>::file_names': p_names,
    'std::io::Read::read_to_end': p_read_all,
    'flate2::bufread::GzDecoder::<R>::new': p_gunz,
    'flate2::read::GzDecoder::<R>::new': p_gunz,
    'flate2::write::GzEncoder::<W>::new': p_gzenc,
    'std::io::Write::write_all': p_write_all,
    'flate2::write::GzEncoder::<W>::finish': p_gzfinish,
    'zip::write::<impl zip::ZipWriter<W>>::new': p_zwnew,
    'zip::write::<impl zip::ZipWriter<W>>::start_file': p_start,
    'files::xml::xml_deserialize::XmlDeSerializer::xml_tree_to_vec': lambda c: Ok(c.E.lift(c.E.deep(c.st, c.args[0]), lambda x: mk('written', x))),
}


def engine(P, real_parser=True):
    E = Engine(P)
    E.models.update(MODELS)
    E.zstarts, E.zwrites = [], []
    return E


def real_documents(E):
    for k in ('get_xml_tree_mut', 'get_xml_document_ref', 'close_xml_document'):
        E.models.pop(OD + k)
    E.models['files::xml::xml_serialize::XmlSerializer::vec_to_xml_doc_tree'] = \
        lambda c: Ok(c.E.lift(c.E.deep(c.st, c.args[0]), lambda x: mk('parsed', x)))


def case(E, v, decide, known=None):
    """Alternatives of v left when every atom is decided by decide(atom) -> 0/1/None (None: stays open)."""
    out = []
    for g, t in E.alts(v):
        r = guard_case(E, g, decide)
        if r:
            out.append((r, t))
    return out


def guard_case(E, g, decide):
    if g in (0, 1, None):
        return g
    m = {}
    for x in E.B.support(g):
        d = decide(E.vars[x])
        if d is None and E.vars[x][0] == 'exit':
            # how a loop was left is decided by the condition of the iteration that left it
            S = E.vars[x][1]
            r = guard_case(E, E.exitcond.get((S.a[0], S.a[1], S.a[2].rstrip('~')), None), decide)
            d = r if r in (0, 1) else None
        if d is not None:
            m[x] = d
    return E.B.subst(g, m) if m else g


def exit_value(E, d, decide, exhausted):
    """Which way a loop over representative items is left: by the exit whose condition holds for an item
    (decide), else by the exit taken when there is no further item (exhausted: decide with no next item)."""
    S = d[1]
    name = S.a[2].rstrip('~')
    own = E.exitcond.get((S.a[0], S.a[1], name))
    pcs = E.leave.get((S.a[0], S.a[1]), [])
    now = [guard_case(E, p, decide) for p in pcs]
    mine = guard_case(E, own, decide)
    if mine in (0, 1, None) and any(x == 1 for x in now):
        return mine
    if guard_case(E, own, exhausted) == 1 and all(x == 0 for p, x in zip(pcs, now) if p != own):
        return 1
    return mine if mine in (0, 1) else None


INFRA = {'fits', 'next', 'existstag', 'hasattrs', 'has', 'okcall', 'hastext', 'exists', 'parseok'}


def infra(d):
    if d[0] in INFRA:
        return 1
    if d[0] == 'lt' and getattr(d[2], 'op', '') == 'len':
        return 1
    if d[0] == 'x' and getattr(d[1], 'op', '') == 'len' and d[2] in (0, '0'):
        return 0
    return None


def mentions(t, pred, seen=None):
    seen = set() if seen is None else seen
    if t.id in seen:
        return False
    seen.add(t.id)
    if pred(t):
        return True
    for y in t.a:
        for z in (y if isinstance(y, tuple) else (y,)):
            if hasattr(z, 'op'):
                if mentions(z, pred, seen):
                    return True
            elif isinstance(z, tuple):
                for w in z:
                    if hasattr(w, 'op') and mentions(w, pred, seen):
                        return True
    return False


CT = '[Content_Types].xml'


class Load:
    """The archive loader, interpreted for one symbolic archive entry."""

    def __init__(self, ctx):
        fn = ctx.fn('OfficeDocument::load_archive_into_database')
        ctx.need('archive loader', int(fn is not None), 1)
        self.ok = fn is not None
        if not self.ok:
            return
        E = self.E = engine(ctx.P)
        st = self.st = State(1, {})
        self.path = mk('S', (), 0, 'PATH', True)
        r = E.call_fn(st, fn, [self.path], ('load', 0, fn.key), ())
        self.entries = []
        self.base = []
        for g, x in E.alts(r):
            if x.op == 'agg' and x.a[1] == 0:
                for g2, m in E.alts(x.a[2][0]):
                    if m.op == 'map':
                        self.base.append(m.a[0])
                        self.entries += list(m.a[1])
                    else:
                        self.base.append(m)
        ctx.count('functions analysed', len(E.fns_seen))
        ctx.count('calls resolved', E.calls_seen)

    def is_name(self, t):
        """A name of the archive listing."""
        return t.op == 'S' and any(getattr(x, 'op', '') == 'znames' for x in t.a[4:]) or t.op == 'tostr' and self.is_name(t.a[0])


class Save:
    """The archive writer, interpreted for a symbolic collection of stored parts."""

    def __init__(self, ctx):
        from .codec import Out
        from . import models as M
        fn = ctx.fn('OfficeDocument::save_database_into_archive')
        ctx.need('archive writer', int(fn is not None), 1)
        self.ok = fn is not None
        if not self.ok:
            return
        P = ctx.P
        E = self.E = engine(P)
        st = self.st = State(1, {})
        D = ('H', 'doc')
        self.doc = mk('S', (), 0, 'document', True)
        st.st[D] = self.doc
        self.ret = E.call_fn(st, fn, [Ref(D)], ('save', 0, fn.key), ())
        self.elements = []
        o = st.st.get(M.OUT)
        if o is not None and o.op == 'map':
            for e, m, v in o.a[1]:
                tag, par, how = E.elinfo[e]
                self.elements.append(Out(self, e, tag, par, how, v))
        ctx.count('functions analysed', len(E.fns_seen))
        ctx.count('calls resolved', E.calls_seen)
        self.field = field(P, 'OfficeDocument', 'archive_collection')
        self.opened = field(P, 'OfficeDocument', 'xml_document_collection')

    def item_of(self, t):
        """The stored part (map entry) a term was taken from: (item, path)."""
        path = []
        while True:
            if t.op == 'f':
                path.append(t.a[1])
                t = t.a[0]
            elif t.op == 'vf':
                path.append(('vf', t.a[1], t.a[2]))
                t = t.a[0]
            elif t.op == 'tostr':
                t = t.a[0]
            else:
                break
        if t.op == 'S':
            for x in t.a[4:]:
                if getattr(x, 'op', '') == 'f' and x.a[0] is self.doc and x.a[1] == self.field:
                    return t, tuple(path[::-1])
        return None, None


def field(P, ty, name):
    for t in P.types:
        if t['k'] == 'adt' and t.get('name', '').endswith('::' + ty) and t.get('local', True):
            for v in t['v']:
                for i, (n, _) in enumerate(v['f']):
                    if n == name:
                        return i
    return None


def roles(L):
    """Which component of a stored part holds what, by what the loader puts there."""
    r = {}
    for k, mu, v in L.entries:
        for g, t in L.E.alts(v):
            if t.op != 'agg':
                continue
            for i, c in enumerate(t.a[2]):
                for g2, x in L.E.alts(c):
                    y = x.a[2][0] if x.op == 'agg' and x.a[1] == 1 and x.a[2] else x
                    if mentions(y, lambda z: z.op == 'gz') and y.op != 'len' and not mentions(y, lambda z: z.op == 'len'):
                        r['data'] = i
                    elif y.op == 'attr' and mentions(y, lambda z: z.op == 'withattr'):
                        r['override'] = i
                    elif y.op == 'attr' and y.a[1] == 'Extension':
                        r['ext'] = i
                    elif y.op == 'attr' and y.a[1] == 'ContentType':
                        r['exttype'] = i
    return r
