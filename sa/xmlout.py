"""The XML writer as a transition function: what it emits for the root, for the next child, and on the way up."""
from . import models as M
from . import pkg, xmlcore
from .engine import Dead, Ref, State, fmt, mk
from .xmlcore import StepEngine

XMLDOC = 'files::xml::xml_tree::XmlDocument'


def strip(t):
    while t.op in ('tostr',) or t.op == 'op' and t.a[0] in ('clone', 'borrowed', 'as_bytes', 'to_vec', 'into_bytes') or t.op == 'cat' and len(t.a[0]) == 1:
        t = t.a[0][0] if t.op == 'cat' else t.a[-1]
    return t


def steps(t):
    p = t if isinstance(t, str) else t['f'].get('rpath') or t['f'].get('path') or ''
    return p.endswith('XmlElement::pop_child_mut')


def collect(c):
    ty = c.E.P.types[c.dty] if c.dty is not None else None
    if ty and ty['k'] == 'adt' and ty['name'].split('::')[-1] == 'String' and c.ld(0).op == 'iter':
        return mk('joined', mk('str', ''), M.m_collect(c, 'Vec'))
    return M.m_collect(c)


def join(c):
    E = c.E
    return mk('joined', c.ld(1), E.deep(c.st, c.ld(0)))


class Writer:
    """Runs the function that turns a document into bytes."""

    def __init__(self, ctx):
        P = self.P = ctx.P
        self.ctx = ctx
        loops = [f for f in P.lib.values() if f.loops and any(steps(t) for b, t in f.calls()) and self.bytes_of(self.top(f))]
        ctx.need('writer loops', len(loops), 1)
        if len(loops) > 1:
            ctx.bad('writer loops', 'several functions walk a document and take its children away: %s' % ', '.join(f.short for f in loops))
        self.loops = loops
        self.fn = self.top(loops[0]) if loops else None

    def top(self, f):
        """The outermost function that only this traversal serves: takes a document, returns its bytes."""
        P = self.P
        seen = set()
        while f.key not in seen:
            seen.add(f.key)
            if self.bytes_of(f):
                return f
            up = [g for g in P.lib.values() if any(t['f'].get('key') == f.key for b, t in g.calls()) or f.closure and g.short == f.short.split('::{closure')[0]]
            if not up:
                return f
            f = up[0]
        return f

    def bytes_of(self, f):
        return not f.closure and 'Vec<u8' in self.P.types[f.locals[0][0]].get('s', '')

    def run(self):
        P, ctx, fn = self.P, self.ctx, self.fn
        if fn is None:
            return False
        E, st = StepEngine(P, steps), State(1, {})
        E.keep_exits = E.strict = True
        E.models['std::slice::<impl [T]>::join'] = join
        E.models['std::slice::<impl [T]>::concat'] = lambda c: mk('joined', mk('str', ''), c.E.deep(c.st, c.ld(0)))
        E.models['std::iter::Iterator::collect'] = collect
        E.is_step = steps
        args = []
        for i in range(fn.argc):
            r = ('H', 'arg%d' % i)
            st.st[r] = mk('S', (), 0, 'ARG%d' % i, True)
            args.append(Ref(r))
        self.E, self.st = E, st
        try:
            self.ret = E.call_fn(st, fn, args, ('write', 0, fn.key), ())
        except Dead:
            self.ret = None
        ctx.count('functions analysed', len(E.fns_seen))
        ctx.count('calls resolved', E.calls_seen)
        if E.head is None or self.ret is None:
            ctx.bad('writer', 'the writer never comes back from its loop')
            return False
        b = None
        for s in E.back:
            b = E.join(b, s)
        self.back = b
        self.cursor = self.out = None
        self.counters = {}
        self.cursors = []
        for k, S in E.changed.items():
            v = b.st[k]
            if self.is_cursor(S, b):
                self.cursors.append(k)
            elif any(x.op in ('cat', 'acc') for g, x in E.alts(v)):
                self.out = k
            elif any(x.op == 'plus' and x.a[0] is S for g, x in E.alts(v)):
                self.counters[k] = S
        if len(self.cursors) != 1 or self.out is None:
            ctx.bad('writer', 'the writer keeps no single position in the tree' if len(self.cursors) != 1 else 'the writer collects no output')
            return False
        self.cursor = self.cursors[0]
        self.H = E.changed[self.cursor]
        self.O = E.changed[self.out]
        self.here = mk('byid', self.H)
        self.child = self.find_child()
        return self.child is not None

    def is_cursor(self, S, b):
        E = self.E
        want = mk('byid', S)
        for i in E.B.support(b.pc) if b.pc > 1 else ():
            if any(hasattr(x, 'op') and pkg.mentions(x, lambda z: z is want) for x in E.vars[i][1:]):
                return True
        return any(pkg.mentions(v, lambda z: z is want) for v in b.st.values())

    def find_child(self):
        E = self.E
        for d in E.vars:
            if d[0] == 'next' and hasattr(d[1], 'op') and d[1].op == 'S' and any(x is self.here for x in d[1].a[4:]):
                return d[1]
        self.ctx.bad('writer', 'the writer does not take the next child of its position')

    def el(self, t):
        """root / child / here, by term."""
        if t.op == 'root' or t.op == 'byid' and t.a[0].op == 'int' and t.a[0].a[0] == 0:
            return 'root'
        if t is self.child or t.op == 'byid' and t.a[0].op in ('id', 'f') and t.a[0].a[0] is self.child:
            return 'child'
        if t is self.here:
            return 'here'
        return None

    def decide(self, facts):
        E = self.E

        def f(d):
            k = d[0]
            if k in ('emptytag', 'hastext', 'haskids', 'hasattrs'):
                e = self.el(d[1])
                r = facts.get((k, e))
                if r is not None:
                    return r
                if k == 'emptytag' and ('hastext', e) in facts and ('haskids', e) in facts:
                    return int(not facts['hastext', e] and not facts['haskids', e])
                return None
            if k == 'next':
                if d[1] is self.child:
                    return facts.get('next')
                return facts.get('items', 1)
            if k == 'exit':
                g = lambda n: (lambda x: n if x[0] == 'next' and x[1] is not self.child else f(x))
                return pkg.exit_value(E, d, g(1), g(0))
            if k in ('okcall', 'exists', 'haskey', 'parseok'):
                return 1
            if k == 'x':
                t = d[1]
                if t.op == 'discr' and t.a[0].op == 'get_namespace':
                    return int(d[2] == facts.get('ns', 1))
                if t is self.H and 'atroot' in facts:
                    return facts['atroot'] if d[2] in (0, '0') else (0 if facts['atroot'] else None)
                if t.op in ('childcount', 'len') and d[2] in (0, '0') and pkg.mentions(t, lambda z: z.op == 'children'):
                    e = next((self.el(z.a[0]) for z in subterms(t) if z.op == 'children'), None)
                    r = facts.get(('haskids', e))
                    return None if r is None else int(not r)
                if t.op in ('childcount', 'len') and d[2] in (0, '0') and pkg.mentions(t, lambda z: z.op in ('vec', 'map', 'get_namespace', 'attrs', 'keys')):
                    return 0
            if k == 'lt' and facts.get('limit') is not None:
                return facts['limit'](d)
            return None
        return f


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t.id in seen:
        return
    seen.add(t.id)
    yield t
    for y in t.a:
        for z in (y if isinstance(y, tuple) else (y,)):
            if hasattr(z, 'op'):
                yield from subterms(z, seen)
            elif isinstance(z, tuple):
                for w in z:
                    if hasattr(w, 'op'):
                        yield from subterms(w, seen)


def items_of(E, e):
    """The iterations an entry of a repeated text belongs to."""
    return frozenset(E.vars[i][1] for i in (E.B.support(e[0]) if e[0] > 1 else ()) if E.vars[i][0] == 'next')


def pieces(E, t, dec):
    """Alternatives (guard, list of pieces) of a string term; joined and repeated parts stay one piece."""
    t0 = t
    if t.op == 'g':
        out = []
        for g, x in pkg.case(E, t, dec):
            out += [(E.B.AND(g, g2), ps) for g2, ps in pieces(E, x, dec)]
        return [(g, ps) for g, ps in out if g]
    if t.op == 'tostr' or t.op == 'op' and t.a[0] in ('clone', 'as_bytes', 'to_vec', 'into_bytes'):
        return pieces(E, t.a[-1], dec)
    if t.op == 'cat':
        combos = [(1, [])]
        for part in t.a[0]:
            combos = [(E.B.AND(g, g2), ps + qs) for g, ps in combos for g2, qs in pieces(E, part, dec)]
            combos = [(g, ps) for g, ps in combos if g]
        return combos
    if t.op == 'acc':
        combos = pieces(E, t.a[0], dec)
        groups = []
        for e in t.a[1]:
            if e[1] != 'one' and groups and groups[-1][0][1] != 'one' and items_of(E, groups[-1][0]) == items_of(E, e):
                groups[-1].append(e)
            else:
                groups.append([e])
        for es in groups:
            e = es[0]
            if e[1] != 'one':
                combos = [(g, ps + [mk('acc', mk('str', ''), tuple(es))]) for g, ps in combos]
                continue
            w = pkg.guard_case(E, e[0], dec)
            more = [(E.B.AND(w, g2), qs) for g2, qs in pieces(E, e[2], dec)] + [(E.B.NOT(w), [])]
            combos = [(E.B.AND(g, g2), ps + qs) for g, ps in combos for g2, qs in more if g2]
            combos = [(g, ps) for g, ps in combos if g]
        return combos
    return [(1, [t])]


ESC = ('escaped',)


def unesc(t):
    """(number of escapings, kinds, term inside)."""
    kinds = []
    t = strip(t)
    while t.op == 'escaped':
        kinds.append(t.a[0])
        t = strip(t.a[1])
    return kinds, t


def keyof(t):
    """Map an item key comes from."""
    t = strip(t)
    if t.op == 'key' and t.a[0].op == 'S':
        return t.a[0], t
    if t.op == 'f' and t.a[1] == 0 and t.a[0].op == 'S':
        return t.a[0], t
    return None


class Render:
    """A string the writer emits, as text with <marks> for its dynamic pieces."""

    def __init__(self, W, facts):
        self.W, self.E, self.facts = W, W.E, facts
        self.dec = W.decide(facts)
        self.escapes = []       # (what, kinds, place)

    def source(self, t):
        """What map an item symbol runs over."""
        if pkg.mentions(t, lambda z: z.op == 'get_namespace'):
            return 'NS'
        for z in subterms(t):
            if z.op == 'attrs':
                return 'ATTRS:%s' % self.W.el(z.a[0])
        return None

    def string(self, t):
        alts = [(g, ps) for g, ps in pieces(self.E, t, self.dec) if g]
        return [(g, ''.join(self.piece(p) for p in ps)) for g, ps in alts]

    def piece(self, p):
        E, W = self.E, self.W
        if p.op == 'str':
            return p.a[0]
        if p.op in ('chr', 'int'):
            return str(p.a[0])
        kinds, t = unesc(p)
        if t.op == 'str':
            return t.a[0] if not kinds else t.a[0].replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
        if t.op == 'tag' and not kinds:
            return '\x01TAG:%s\x02' % W.el(t.a[0])
        if t.op == 'text':
            self.escapes.append(('text', kinds, W.el(t.a[0])))
            return '\x01TEXT:%s\x02' % W.el(t.a[0])
        if p is W.O:
            return '\x01OUT\x02'
        if p.op in ('joined', 'acc'):
            return self.items(p)
        return '\x01?%s\x02' % fmt(p, -5)[:60]

    def items(self, p):
        E, W = self.E, self.W
        if p.op == 'joined':
            sep, v = p.a
            if sep.op != 'str' or v.op != 'vec' or v.a[0] is not M.EMPTY:
                return '\x01?list %s\x02' % fmt(p, 2)[:60]
            seps = sep.a[0]
            entries = v.a[1]
        else:
            seps, entries = None, p.a[1]
        out = None
        for default in (0, 1):
            def dec(d, default=default):
                if d[0] == 'x' and d[2] == '<Default>':
                    return default
                if d[0] in ('eq',) and any(getattr(x, 'op', '') == 'str' and x.a[0] == '<Default>' for x in d[1:]):
                    return default
                return self.dec(d)
            live = []
            if p.op == 'acc':
                # the pushes of one iteration, one after the other
                live = [(1, 1, 'many', [])]
                for e in entries:
                    g = pkg.guard_case(E, e[0], dec)
                    more = [(E.B.AND(g, g2), ps) for g2, ps in pieces(E, e[2], dec)] + [(E.B.NOT(g), [])]
                    live = [(E.B.AND(w, g2), 1, m, ps + qs) for w, _, m, ps in live for g2, qs in more]
                    live = [x for x in live if x[0]]
                if len(live) == 1 and not live[0][3]:
                    out = ''
                    continue
            else:
                for e in entries:
                    g = pkg.guard_case(E, e[0], dec)
                    if g == 0:
                        continue
                    for g2, ps in pieces(E, e[2], dec):
                        live.append((g, g2, e[1], ps))
            if len(live) != 1 or live[0][0] != 1 or live[0][1] != 1:
                why = 'none' if not live else 'only when %s' % E.bfmt(E.B.AND(live[0][0], live[0][1]), 1)[:80] if len(live) == 1 else 'several'
                return '\x01?list with %s of its items\x02' % why
            r, src = self.item(live[0][3])
            if src is None:
                return '\x01?%s\x02' % r[:80]
            if src == 'NS':
                want = 'xmlns="VAL"' if default else 'xmlns:KEY="VAL"'
            else:
                want = 'KEY="VAL"'
            body = r.strip(' \n\t')
            if body != want:
                return '\x01?%s written as %s\x02' % (src, r[:60])
            if seps is None:
                if r == body:
                    return '\x01?%s not separated\x02' % src
            else:
                if seps.strip() or not seps and r == body:
                    return '\x01?%s separated by %r\x02' % (src, seps)
            res = (' ' if r[0] in ' \n\t' else '') + '\x01%s\x02' % src + (' ' if r[-1] in ' \n\t' else '')
            if out is not None and out != res:
                return '\x01?%s / %s\x02' % (out, res)
            out = res
        return out

    def item(self, ps):
        E, W = self.E, self.W
        key = None
        out = []
        src = None
        for p in ps:
            kinds, t = unesc(p)
            if t.op == 'str' and not kinds:
                out.append(t.a[0])
                continue
            k = keyof(t)
            if k is not None and (key is None or t is key[1]):
                if kinds:
                    self.escapes.append(('name', kinds, 'name'))
                key = k
                src = self.source(k[0])
                out.append('KEY')
                continue
            val = False
            if t.op == 'mapval' and keyof(t.a[1]) is not None:
                k2 = keyof(t.a[1])
                val = key is None or k2[1] is key[1]
                key = key or k2
                s2 = self.source(t.a[0]) or self.source(k2[0])
            elif t.op == 'valof' or t.op == 'f' and t.a[1] == 1 and t.a[0].op == 'S':
                val = key is None or key[0] is t.a[0]
                s2 = self.source(t.a[0])
            if val:
                src = src or s2
                self.escapes.append(('namespace' if src == 'NS' else 'attribute value', kinds, src))
                out.append('VAL')
                continue
            out.append('<%s>' % fmt(p, -4)[:50])
        return ''.join(out), src


def canonical(s):
    """White space inside tags does not count."""
    import re
    out = []
    for part in re.split(r'(<[^<>]*>)', s):
        if part.startswith('<'):
            part = re.sub(r'[ \n\t]+', ' ', part)
            part = re.sub(r' ?(/?>)$', r'\1', part)
        out.append(part)
    return ''.join(out)
