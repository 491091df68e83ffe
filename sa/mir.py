"""Loading of the MIR dump and generic control-flow utilities."""
import json, re

def short(name):
    """Readable function name without the crate prefix."""
    n = name.replace('draviavemal_openxml_office::', '')
    return n


class Fn:
    __slots__ = ('key', 'name', 'short', 'path', 'exported', 'reachable', 'cabi', 'closure', 'trait', 'traitdecl',
                 'self_ty', 'args', 'file', 'line', 'argc', 'spread', 'upv', 'locals', 'blocks',
                 '_succ', '_pred', '_rpo', '_loops', '_live', '_dom', '_errx', 'is_test')

    def __init__(self, key, d):
        self.key = key
        self.name = d['name']
        self.short = short(d['name'])
        self.path = d.get('path')
        for a in ('exported', 'reachable', 'cabi', 'closure', 'trait', 'traitdecl', 'args', 'file', 'line', 'argc',
                  'spread', 'upv', 'locals', 'blocks'):
            setattr(self, a, d.get(a))
        self.self_ty = d.get('self')
        self._succ = self._pred = self._rpo = self._loops = self._live = self._dom = None
        self._errx = {}
        self.is_test = '::tests::' in self.name or (self.file or '').find('/tests/') >= 0

    def __repr__(self):
        return 'Fn(%s)' % self.short

    # ---- CFG -------------------------------------------------------------
    def succ(self, b, unwind=False):
        t = self.blocks[b]
        k = t['k']
        r = []
        if k == 'goto':
            r = [t['t']]
        elif k == 'switch':
            r = [x[1] for x in t['b']]
            if t.get('o') is not None:
                r.append(t['o'])
        elif k in ('drop', 'assert', 'call'):
            if t.get('t') is not None:
                r = [t['t']]
        elif k == 'asm':
            r = [t['t']] if t.get('t') is not None else []
        if unwind and k in ('drop', 'call', 'assert') and isinstance(t.get('u'), int):
            r = r + [t['u']]
        return r

    @property
    def succs(self):
        if self._succ is None:
            s = []
            for b in range(len(self.blocks)):
                seen = []
                for x in self.succ(b):
                    if x not in seen:
                        seen.append(x)
                s.append(seen)
            self._succ = s
        return self._succ

    @property
    def preds(self):
        if self._pred is None:
            p = [[] for _ in self.blocks]
            for b in self.rpo:
                for s in self.succs[b]:
                    p[s].append(b)
            self._pred = p
        return self._pred

    @property
    def rpo(self):
        """Reachable (non-unwind) blocks in reverse post order."""
        if self._rpo is None:
            seen = {0}
            order = []
            stack = [(0, iter(self.succs[0]))]
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs[s])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            self._rpo = order[::-1]
        return self._rpo

    @property
    def dom(self):
        """Immediate dominators {block: idom}."""
        if self._dom is None:
            rpo = self.rpo
            num = {b: i for i, b in enumerate(rpo)}
            idom = {rpo[0]: rpo[0]}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    n = None
                    for p in self.preds[b]:
                        if p in idom:
                            if n is None:
                                n = p
                            else:
                                x, y = p, n
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                n = x
                    if idom.get(b) != n:
                        idom[b] = n
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.dom
        if b not in d:
            return False
        while True:
            if a == b:
                return True
            n = d[b]
            if n == b:
                return False
            b = n

    @property
    def loops(self):
        """{header: set(blocks)} of natural loops (merged per header)."""
        if self._loops is None:
            res = {}
            for b in self.rpo:
                for s in self.succs[b]:
                    if self.dominates(s, b):
                        body = res.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(self.preds[x])
            self._loops = res
        return self._loops

    @property
    def live_in(self):
        """Per block: locals whose value may still be needed at its start.  A local
        that is borrowed anywhere stays needed until its storage ends."""
        if self._live is None:
            borrowed = set()
            for blk in self.blocks:
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] in ('ref', 'addr'):
                        p = s[2][-1]
                        if '*' not in p[1]:
                            borrowed.add(p[0])
            evs = []
            for blk in self.blocks:
                ev = []

                def pl(p):
                    ev.append((1, p[0]))
                    for x in p[1]:
                        if x[0] == 'i' and isinstance(x, list):
                            ev.append((1, x[1]))

                def op(o):
                    if o[0] in 'cm':
                        pl(o[1])

                def any_(x):
                    if isinstance(x, list):
                        if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list) and len(x[1]) == 2 \
                                and isinstance(x[1][0], int) and isinstance(x[1][1], list):
                            pl(x[1])
                            return
                        for y in x:
                            any_(y)

                def dst(p):
                    if p[1]:
                        pl(p)
                    else:
                        ev.append((0, p[0]))
                for s in blk['s']:
                    if s[0] == '=':
                        rv = s[2]
                        if rv[0] in ('ref', 'addr', 'discr', 'len'):
                            q = rv[-1] if rv[0] in ('ref', 'addr') else rv[1]
                            if isinstance(q, list) and len(q) == 2 and isinstance(q[0], int):
                                pl(q)
                            else:
                                any_(rv)
                        any_(rv)
                        dst(s[1])
                    elif s[0] == 'sd':
                        pl(s[1])
                    elif s[0] == 'dead':
                        if s[1] in borrowed:
                            ev.append((1, s[1]))
                        ev.append((0, s[1]))
                k = blk['k']
                if k == 'switch':
                    op(blk['d'])
                elif k == 'call':
                    any_(blk.get('a'))
                    f = blk.get('f')
                    any_(f if isinstance(f, list) else list(f.values()) if isinstance(f, dict) else None)
                    if blk.get('d'):
                        dst(blk['d'])
                elif k == 'drop':
                    pl(blk['p'])
                elif k == 'assert':
                    for v in blk.values():
                        any_(v if isinstance(v, list) else None)
                elif k == 'return':
                    ev.append((1, 0))
                evs.append(ev)
            gen, kill = [], []
            for ev in evs:
                g, kl = set(), set()
                for u, l in ev:
                    if u:
                        if l not in kl:
                            g.add(l)
                    else:
                        kl.add(l)
                gen.append(g)
                kill.append(kl)
            live = [set(g) for g in gen]
            ch = True
            while ch:
                ch = False
                for b in reversed(self.rpo):
                    o = set()
                    for x in self.succs[b]:
                        o |= live[x]
                    n = gen[b] | (o - kill[b])
                    if n != live[b]:
                        live[b] = n
                        ch = True
            self._live = live
        return self._live

    def calls(self):
        for b in self.rpo:
            t = self.blocks[b]
            if t['k'] == 'call':
                yield b, t


EACH = ('std::iter::Iterator::for_each', 'std::iter::Iterator::try_for_each')


def desugar(d, fn):
    """it.for_each(f) and it.try_for_each(f) become the loop over `it` that calls f on every item."""
    types, blocks = d['types'], fn['blocks']

    def new_type(t):
        types.append(t)
        return len(types) - 1

    def local(tid):
        fn['locals'].append([tid, None])
        return len(fn['locals']) - 1
    for blk in list(blocks):
        if blk['k'] != 'call' or blk['f'].get('path') not in EACH or len(blk['a']) != 2 or blk.get('t') is None:
            continue
        it, fo = blk['a']
        if it[0] not in ('c', 'm') or it[1][1]:
            continue
        itt = fn['locals'][it[1][0]][0]
        fot = fn['locals'][fo[1][0]][0] if fo[0] in ('c', 'm') and not fo[1][1] else fo[1] if fo[0] == 'k' else None
        if fot is None:
            continue
        ft = types[fot]
        body = ft.get('key') if ft['k'] == 'closure' else (ft.get('fn') or {}).get('key') if ft['k'] == 'fndef' else None
        if body not in d['fns']:
            continue
        g = d['fns'][body]
        first = 2 if ft['k'] == 'closure' else 1
        if g['argc'] != first:
            continue
        item, out = g['locals'][first][0], g['locals'][0][0]
        attempt = blk['f']['path'].endswith('try_for_each')
        dest, l = blk['d'], blk.get('l')
        if attempt and not (types[out]['k'] == 'adt' and types[out]['name'] == 'std::result::Result'):
            continue
        opt = local(new_type({'k': 'adt', 'name': 'std::option::Option', 'enum': True, 'union': False, 'local': False, 'args': [item],
                              'v': [{'n': 'None', 'd': 0, 'f': []}, {'n': 'Some', 'd': 1, 'f': [['0', item]]}], 'drop': None,
                              's': 'std::option::Option<%s>' % types[item]['s']}))
        itr = local(new_type({'k': 'ref', 't': itt, 'mut': True, 's': '&mut ' + types[itt]['s']}))
        unit = new_type({'k': 'tuple', 't': [], 's': '()'})
        num = new_type({'k': 'int', 'n': 'i64', 's': 'isize'})
        I, x, dsc = local(itt), local(item), local(num)
        n = len(blocks)
        H, S, B, E, X, U = n, n + 1, n + 2, n + 3, n + 4, n + 5
        seq = lambda s_, **k: dict(s=s_, l=l, **k)
        u = blk.get('u')
        blocks.append(seq([['=', [itr, []], ['ref', True, [I, []]], l]], k='call', a=[['m', [itr, []]]], d=[opt, []], t=S, u=u,
                          f={'path': 'std::iter::Iterator::next', 'rpath': 'std::iter::Iterator::next', 'trait': 'std::iter::Iterator', 'args': [itt], 'key': None, 'kind': 'item'}))
        blocks.append(seq([['=', [dsc, []], ['discr', [opt, []]], l]], k='switch', d=['m', [dsc, []]], b=[[0, X], [1, B]], o=U))
        take = ['=', [x, []], ['use', ['m', [opt, [['d', 1], ['f', 0, item]]]]], l]
        r = dest if attempt and not dest[1] else [local(out), []]
        pre = [['=', [I, []], ['use', it], l]]
        if ft['k'] == 'closure':
            fl = local(fot)
            pre.append(['=', [fl, []], ['use', fo], l])
            fr = local(new_type({'k': 'ref', 't': fot, 'mut': True, 's': '&mut ' + ft['s']}))
            tt = new_type({'k': 'tuple', 't': [item], 's': '(%s,)' % types[item]['s']})
            tup = local(tt)
            blocks.append(seq([take, ['=', [tup, []], ['agg', 'tuple', None, 0, [['m', [x, []]]]], l], ['=', [fr, []], ['ref', True, [fl, []]], l]],
                              k='call', a=[['m', [fr, []]], ['m', [tup, []]]], d=r, t=E, u=u,
                              f={'path': 'std::ops::FnMut::call_mut', 'rpath': g['name'], 'trait': 'std::ops::FnMut', 'args': [fot, tt], 'key': body, 'kind': 'item'}))
        else:
            blocks.append(seq([take], k='call', a=[['m', [x, []]]], d=r, t=E, u=u, f=dict(ft['fn'])))
        if attempt:
            d2 = local(num)
            done = [] if r is dest else [['=', dest, ['use', ['m', r]], l]]
            blocks.append(seq([['=', [d2, []], ['discr', r], l]], k='switch', d=['m', [d2, []]], b=[[0, H], [1, n + 6]], o=U))
            ul = local(unit)
            blocks.append(seq([['=', [ul, []], ['agg', 'tuple', None, 0, []], l], ['=', dest, ['agg', 'adt', out, 0, [['m', [ul, []]]]], l]], k='goto', t=blk['t']))
            blocks.append(seq([], k='unreachable'))
            blocks.append(seq(done, k='goto', t=blk['t']))
        else:
            blocks.append(seq([], k='goto', t=H))
            blocks.append(seq([['=', dest, ['agg', 'tuple', None, 0, []], l]], k='goto', t=blk['t']))
            blocks.append(seq([], k='unreachable'))
        blk['s'] = blk['s'] + pre
        for k_ in ('f', 'a', 'd', 'u'):
            blk.pop(k_, None)
        blk['k'], blk['t'] = 'goto', H


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        for v in d['fns'].values():
            desugar(d, v)
        self.fns = {k: Fn(k, v) for k, v in d['fns'].items()}
        self.statics = d['statics']
        self.generic_fns = d.get('generic_fns', [])
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.short, []).append(f)
        self.lib = {k: f for k, f in self.fns.items() if not f.is_test}

    def find(self, suffix, all=False):
        r = [f for f in self.lib.values() if f.short.endswith(suffix)]
        if all:
            return r
        if not r:
            return None
        r.sort(key=lambda f: len(f.short))
        return r[0]

    def ty(self, t):
        return self.types[t]

    def tname(self, t):
        return short(self.types[t]['s'])

    def is_result(self, t):
        x = self.types[t]
        return x['k'] == 'adt' and x['name'].endswith('result::Result')

    def is_option(self, t):
        x = self.types[t]
        return x['k'] == 'adt' and x['name'].endswith('option::Option')
