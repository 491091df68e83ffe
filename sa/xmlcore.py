"""Interpretation of the XML reader and writer loops: one generic iteration as a transition function."""
from . import models as M
from . import pkg
from .engine import Dead, Engine, Ref, State, T, fmt, mk
from .models import Err, NONE, Ok, Some, UNIT, bval

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


class StepEngine(Engine):
    """The loop that contains a call chosen by `is_step` is analysed for one arbitrary iteration: what the loop changes
    is unknown at its head, and the states that go round again are kept apart from those that leave."""

    def __init__(self, P, is_step):
        Engine.__init__(self, P)
        self.is_step = is_step
        self.head = None
        self.settings = []
        self.collecting = {}       # result of collecting results -> guard of an item that is an error
        self.models = dict(self.models)
        self.models.update(MODELS)

    def stepping(self, fr, body):
        return any(t['k'] == 'call' and self.is_step((t['f'].get('rpath') or t['f'].get('path') or '')) for b in body for t in [fr.fn.blocks[b]])

    def loop(self, fr, h, body, s0, rets):
        if self.head is not None or not self.stepping(fr, body):
            return Engine.loop(self, fr, h, body, s0, rets)
        self.head = (fr.fn, h)
        cur, changed = s0, {}
        live = fr.fn.live_in[h]
        n0 = len(rets)
        for it in range(6):
            del rets[n0:]
            self.entry = s0.copy()
            st = State(s0.pc, {k: v for k, v in s0.st.items() if k[0] not in ('EA', 'EV', 'G')})
            for k in changed:
                st.st[k] = changed[k]
            self.treeops.clear()
            self.ins = st.copy()
            exits = self.region(fr, h, {h: [st.copy()]}, rets, body)
            back = exits.pop(h, [])
            new = False
            for b in back:
                for k, v in b.st.items():
                    if k[0] not in ('L', 'H') or k in changed:
                        continue
                    if k[0] == 'L' and (len(k[1]) > len(fr.ctx) or k[1] == fr.ctx and k[2] not in live):
                        continue
                    if v is not s0.st.get(k) and s0.st.get(k) is not None:
                        changed[k] = mk('S', fr.ctx, h, 'HEAD%s' % '.'.join(map(str, [x for x in k[1:] if not isinstance(x, tuple)])), True)
                        new = True
            if not new:
                break
        self.changed, self.back, self.frame = changed, back, fr
        self.left = [(t, x.pc) for t in sorted(exits) for x in exits[t]]
        return exits

    # fields of elements reached directly
    ELS = ('E', 'byid', 'root', 'ct', 'S')

    def place_loc(self, st, fr, place):
        out = []
        for gd, (root, path) in Engine.place_loc(self, st, fr, place):
            if root[0] == 'V' and path and path[0][0] == 'f' and self.is_el(root[1]):
                k = self.elfields().get(path[0][1])
                if k == 'value':
                    root, path = ('EV', root[1]), path[1:]
                elif k == 'attributes':
                    root, path = ('EAO', root[1]), path[1:]
                elif k in ('id', 'parent_id', 'tag', 'children'):
                    t = root[1]
                    v = {'id': mk('id', t), 'parent_id': mk('get_parent_id', t), 'tag': self.elinfo[t][0] if t in self.elinfo else mk('tag', t), 'children': mk('children', t)}[k]
                    root, path = ('V', v), path[1:]
            out.append((gd, (root, path)))
        return out

    def is_el(self, t):
        return t.op in ('E', 'byid', 'root', 'ct')

    def elfields(self):
        if not hasattr(self, '_elf'):
            names = ('id', 'parent_id', 'tag', 'attributes', 'value', 'children')
            self._elf = {pkg.field(self.P, 'XmlElement', n): n for n in names}
        return self._elf

    def root_default(self, root):
        B = self.B
        if root[0] == 'EV' and root[1].op != 'E':
            b = self.atom('hastext', root[1])
            return self.g([(b, Some(mk('text', root[1]))), (B.NOT(b), NONE)])
        if root[0] == 'EAO':
            t = root[1]
            b = self.atom('hasattrs', t)
            return self.g([(b, Some(mk('map', mk('attrs', t), ()))), (B.NOT(b), NONE)])
        return Engine.root_default(self, root)


# ------------------------------------------------------------------ quick-xml, as documented
@model('quick_xml::NsReader::<R>::read_event_into', 'quick_xml::Reader::<R>::read_event_into')
def q_event(c):
    E = c.E
    ev = c.fresh('EVENT')
    E.event = ev
    b = E.atom('okcall', ev)
    return E.g([(b, Ok(ev)), (E.B.NOT(b), Err(mk('err')))])


Q = 'quick_xml::events::'


@model(Q + "BytesStart::<'a>::name", Q + "BytesEnd::<'a>::name", "quick_xml::name::QName::<'a>::into_inner", Q + "BytesStart::<'a>::to_end",
       Q + "BytesStart::<'a>::to_owned", Q + "BytesStart::<'a>::borrow")
def q_name(c):
    return c.E.lift(c.ld(0), lambda t: t if t.op == 'evname' or c.f['path'].endswith('into_inner') else mk('evname', t))


@model(Q + "BytesStart::<'a>::attributes", Q + "BytesStart::<'a>::html_attributes")
def q_attrs(c):
    if c.f['path'].split('::')[-1] == 'html_attributes':
        return mk('op', 'html_attributes', c.ld(0))
    return mk('evattrs', c.ld(0))


@model(Q + "BytesText::<'a>::unescape", Q + "attributes::Attribute::<'a>::unescape_value", Q + "attributes::Attribute::<'a>::decode_and_unescape_value",
       'quick_xml::escape::unescape')
def q_unescape(c):
    E = c.E

    def f(t):
        b = E.atom('okcall', mk('op', 'unescape', t))
        v = mk('f', t, 1) if 'Attribute' in c.f['path'] else t
        return E.g([(b, Ok(mk('unescaped', v))), (E.B.NOT(b), Err(mk('err')))])
    return E.lift(c.ld(0), f)


@model('std::str::from_utf8', 'std::string::String::from_utf8')
def q_utf8(c):
    E = c.E

    def f(t):
        if t.op == 'str':
            return Ok(t)
        b = E.atom('okcall', mk('op', 'utf8', t))
        return E.g([(b, Ok(t)), (E.B.NOT(b), Err(mk('err')))])
    return E.lift(c.ld(0), f)


@model('std::string::String::from_utf8_lossy', "std::borrow::Cow::<'a, B>::into_owned", "std::borrow::Cow::<'_, B>::into_owned", Q + "BytesText::<'a>::into_inner", Q + "BytesCData::<'a>::into_inner")
def q_same(c):
    return c.ld(0)


@model('quick_xml::NsReader::<R>::from_reader', 'quick_xml::Reader::<R>::from_reader')
def q_reader(c):
    return mk('reader', c.ld(0))


@model('quick_xml::escape::escape', 'quick_xml::escape::partial_escape', 'quick_xml::escape::minimal_escape')
def q_escape(c):
    return c.E.lift(c.ld(0), lambda t: mk('escaped', c.f['path'].split('::')[-1], t))


@model('std::iter::Iterator::collect')
def q_collect(c):
    """Result<collection>: the items that are Ok, unless one is an error."""
    E, st = c.E, c.st
    ty = E.P.types[c.dty] if c.dty is not None else None
    it = c.ld(0)
    if not ty or ty['k'] != 'adt' or ty['name'].split('::')[-1] != 'Result' or it.op != 'iter':
        return M.MODELS['std::iter::Iterator::collect'](c)
    inner = E.P.types[[f for v in ty['v'] for f in v['f']][0][1]] if False else None
    es, bad = [], 0
    maplike = 'Map<' in ty['s'].split(',')[0] or 'Map<' in ty['s']
    for gd, t in E.alts(M.iter_next(c, it)):
        if t.op != 'agg' or t.a[1] != 1:
            continue
        for g2, r in E.alts(M.E_sym_enum(E, t.a[2][0], 'Result') if t.a[2][0].op != 'g' else t.a[2][0]):
            g = E.B.AND(gd, g2)
            if not g or r.op != 'agg':
                continue
            if r.a[1] == 1:
                bad = E.B.OR(bad, g)
                continue
            x = r.a[2][0]
            if maplike:
                es.append((E.deep(st, E.proj(x, ('f', 0))), 'many', E.ite(g, E.deep(st, E.proj(x, ('f', 1))), M.ABSENT)))
            else:
                es.append((g, 'many', x, 'b'))
    v = mk('map' if maplike else 'vec', M.EMPTY, tuple(es))
    if bad == 0:
        return Ok(v)
    S = c.fresh('collected', it.a[0] if isinstance(it.a[0], T) else mk('err'))
    E.collecting[S] = bad
    b = E.atom('okcall', S)
    return E.g([(b, Ok(v)), (E.B.NOT(b), Err(mk('err')))])


@model('files::xml::xml_tree::XmlDocument::create_root_mut')
def q_root(c):
    c.E.roottags.append(c.ld(1))
    c.st.st[('G', 'ROOT')] = c.E.map_set(c.st.st.get(('G', 'ROOT'), mk('map', M.EMPTY, ())), mk('root'), c.ld(1))
    return Ok(mk('root'))


@model('quick_xml::NsReader::<R>::config_mut', 'quick_xml::Reader::<R>::config_mut', 'quick_xml::reader::Reader::<R>::config_mut')
def q_config(c):
    r = ('H', 'config')
    if r not in c.st.st:
        c.st.st[r] = mk('S', (), 0, 'CONFIG', True)
    return Ref(r)


@model('quick_xml::reader::Config::trim_text', 'quick_xml::reader::Config::enable_all_checks', 'quick_xml::Config::trim_text', 'quick_xml::Config::enable_all_checks')
def q_trim(c):
    c.E.settings.append((c.f['path'].split('::')[-1], c.ld(1), c.st.pc, c.line))
    return UNIT


def is_read(p):
    return p.startswith('quick_xml::') and p.split('::')[-1] in ('read_event_into', 'read_event', 'read_resolved_event_into', 'read_resolved_event')


def reads(t):
    return is_read(t['f'].get('rpath') or t['f'].get('path') or '')
