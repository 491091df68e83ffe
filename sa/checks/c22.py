"""C22: no operation trips over its own handle."""

EXPLAIN = '''Every shared object of the library lives in a RefCell behind reference-counted handles.  For each function a forward dataflow over
the compiler's MIR tracks which borrow guards (Ref / RefMut) are alive at each point: born at borrow/try_borrow*, moved with assignments, adaptors and
returned values, ended by drops, StorageDead and moves into calls.  Each function gets a summary of the borrows anything reachable from it performs
(callees, closures it hands to library functions, Drop implementations of what it drops), with the access path of the cell relative to its parameters
and the set of allocation sites the handle can stem from (inclusion-based points-to, field-sensitive for the library's own structs).  At every call,
borrow and drop, the guards alive there are compared with the borrows performed below.'''
RULE = '''A conflict is a borrow of a RefCell while a guard on the same cell is alive, unless both are shared.  Two handles are the same cell when
their access paths in the function are equal and not reassigned, or when both stem from the one allocation of a cell that exists once per package.'''
ASSUME = ['cells that exist several times (element trees, sheet relationships) are compared by access path only',
          'the content of a reference-counted object is not taken to be dropped when one of its handles is']

SHARED, UNIQUE = 'read', 'write'
THROUGH = {'upgrade', 'ok_or', 'ok_or_else', 'context', 'with_context', 'map_err', 'branch', 'unwrap', 'expect', 'deref', 'deref_mut', 'clone', 'as_ref', 'as_mut',
           'downgrade', 'as_deref', 'as_deref_mut', 'from', 'into', 'unwrap_or', 'cloned', 'by_ref', 'new', 'get_ref', 'into_inner', 'borrow', 'borrow_mut', 'inspect_err'}


def cell_type(P, tid):
    t = P.types[tid]
    while t['k'] in ('ref', 'ptr'):
        t = P.types[t['t']]
    return t


class Analysis:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.fns = {k: f for k, f in P.lib.items() if not f.is_test}
        self.guards = {}
        self.sums = {}
        self.rets = {}
        self.aps = {}
        self.captured = {}
        for f in self.fns.values():
            for b in f.rpo:
                for x in f.blocks[b]['s']:
                    if x[0] == '=' and x[2][0] == 'agg' and x[2][1] == 'closure':
                        t = P.types[f.locals[x[1][0]][0]] if not x[1][1] else {}
                        if t.get('key'):
                            self.captured[t['key']] = [self.place_type(f, o[1]) if o[0] in ('c', 'm') else None for o in x[2][4]]
        self.edges()

    # ---------------------------------------------------------- types
    def guard_types(self, tid, depth=0):
        """{(T, mode)} the guards a value of this type may hold itself"""
        if (tid,) in self.guards:
            return self.guards[(tid,)]
        self.guards[(tid,)] = frozenset()
        if tid is None:
            return frozenset()
        t = self.P.types[tid]
        out = set()
        if t['k'] == 'adt':
            n = t['name']
            if n in ('std::cell::Ref', 'std::cell::RefMut', 'core::cell::Ref', 'core::cell::RefMut'):
                a = [x for x in t.get('args', []) if isinstance(x, int)]
                T = self.P.types[a[-1]]['s'] if a else t['s']
                out.add((T, UNIQUE if n.endswith('RefMut') else SHARED))
            elif n.split('::')[-1] not in ('Rc', 'Weak', 'Arc'):
                for v in t.get('v') or []:
                    for _, ft in v['f']:
                        out |= self.guard_types(ft)
                if not t.get('local'):
                    for x in (x for x in t.get('args', []) if isinstance(x, int)):
                        out |= self.guard_types(x)
        elif t['k'] in ('tuple',):
            for x in t['t']:
                out |= self.guard_types(x)
        elif t['k'] in ('array', 'slice'):
            out |= self.guard_types(t['t'])
        elif t['k'] == 'closure':
            f = self.P.fns.get(t.get('key'))
            for x in self.upvar_types(f):
                out |= self.guard_types(x)
        self.guards[(tid,)] = frozenset(out)
        return self.guards[(tid,)]

    def upvar_types(self, f):
        return self.captured.get(f.key, []) if f else []

    def closures_in(self, tid, seen=None):
        """Closures a value of this type may call when it is used."""
        seen = set() if seen is None else seen
        if not isinstance(tid, int) or tid in seen:
            return set()
        seen.add(tid)
        t = self.P.types[tid]
        out = set()
        if t['k'] == 'closure':
            if t.get('key') in self.fns:
                out.add(t['key'])
        elif t['k'] in ('ref', 'ptr', 'slice', 'array'):
            out |= self.closures_in(t['t'], seen)
        elif t['k'] == 'tuple':
            for x in t['t']:
                out |= self.closures_in(x, seen)
        elif t['k'] == 'adt' and not t.get('local'):
            for x in (x for x in t.get('args', []) if isinstance(x, int)):
                out |= self.closures_in(x, seen)
        elif t['k'] == 'fndef':
            k = t.get('fn')
            k = k.get('key') if isinstance(k, dict) else k
            if k in self.fns:
                out.add(k)
        return out

    # ---------------------------------------------------------- points-to
    def node(self, f, place):
        """The node a place denotes: the deepest field of one of the library's own structs, else the local."""
        P = self.P
        l, proj = place
        t = f.locals[l][0]
        n = ('l', f.key, l)
        vi = 0
        for p in proj:
            ty = P.types[t]
            if p == '*':
                t = ty['t'] if ty['k'] in ('ref', 'ptr') else (ty.get('args') or [t])[0] if ty['k'] == 'adt' else t
            elif p[0] == 'd':
                vi = p[1]
            elif p[0] == 'f':
                if ty['k'] == 'adt' and ty.get('local'):
                    n = ('f', ty['name'], vi, p[1])
                elif ty['k'] == 'closure' and ty.get('key'):
                    n = ('u', ty['key'], p[1])
                t = p[2]
                vi = 0
            elif p[0] in ('i', 'ci') and ty['k'] in ('slice', 'array'):
                t = ty['t']
        return n

    def edges(self):
        P = self.P
        flow = {}
        pts = {}

        def edge(a, b):
            if a is not None and b is not None and a != b:
                flow.setdefault(a, set()).add(b)

        def src(f, o):
            return self.node(f, o[1]) if o[0] in ('c', 'm') else None
        self.sites = {}
        self.callers = {}
        for k, f in self.fns.items():
            for b in f.rpo:
                t = f.blocks[b]
                for s in t['s']:
                    if s[0] != '=':
                        continue
                    d, r = self.node(f, s[1]), s[2]
                    if r[0] in ('use', 'cast', 'repeat'):
                        o = r[1] if r[0] != 'cast' else r[2]
                        if isinstance(o, list) and o and o[0] in ('c', 'm'):
                            edge(src(f, o), d)
                    elif r[0] in ('ref', 'addr'):
                        pl = r[-1]
                        edge(self.node(f, pl), d)
                        edge(d, self.node(f, pl))
                    elif r[0] == 'agg':
                        ty = P.types[r[2]] if isinstance(r[2], int) and r[2] < len(P.types) else None
                        for i, o in enumerate(r[4]):
                            x = src(f, o)
                            if ty and ty['k'] == 'adt' and ty.get('local'):
                                edge(x, ('f', ty['name'], r[3] or 0, i))
                            elif ty and ty['k'] == 'closure':
                                edge(x, ('u', ty.get('key'), i))
                            edge(x, d)
                if t['k'] == 'call':
                    d = self.node(f, t['d'])
                    path = t['f'].get('path') or ''
                    key = t['f'].get('key')
                    if path.startswith('std::cell::RefCell') and path.endswith('::new'):
                        T = [P.types[x]['s'] for x in t['f'].get('args', []) if isinstance(x, int)]
                        T = T[0] if T else '?'
                        site = (T, f.key, b)
                        self.sites[site] = (f, b, t.get('l'))
                        pts.setdefault(d, set()).add(site)
                        continue
                    g = self.fns.get(key)
                    if g is not None:
                        self.callers.setdefault(g.key, []).append((f, b))
                        ops = t['a']
                        if g.closure and len(ops) == 2 and ops[1][0] in ('c', 'm') and P.types[f.locals[ops[1][1][0]][0]]['k'] == 'tuple' and g.argc != 2:
                            x = src(f, ops[1])
                            for i in range(1, g.argc):
                                edge(x, ('l', g.key, 1 + i))
                        else:
                            for i, o in enumerate(ops[:g.argc]):
                                edge(src(f, o), ('l', g.key, 1 + i))
                        edge(('l', g.key, 0), d)
                    else:
                        for o in t['a']:
                            x = src(f, o)
                            edge(x, d)
                            if o[0] in ('c', 'm'):
                                for c in self.closures_in(f.locals[o[1][0]][0]):
                                    self.callers.setdefault(c, []).append((f, b))
                                    edge(('l', c, 0), d)
                                    for o2 in t['a']:
                                        y = src(f, o2)
                                        if o2 is not o:
                                            for i in range(1, self.fns[c].argc):
                                                edge(y, ('l', c, 1 + i))
        work = list(pts)
        while work:
            n = work.pop()
            for m in flow.get(n, ()):
                new = pts[n] - pts.get(m, set())
                if new:
                    pts.setdefault(m, set()).update(new)
                    work.append(m)
        self.pts = pts
        self.single = {s: self.once(s) for s in self.sites if self.once(s)}
        self.ctor = {self.canon(s): c for s, c in self.single.items()}

    def once(self, site):
        """The constructor of a package that makes the cell, once: itself or through functions called from one place only."""
        f, b = self.sites[site][0], self.sites[site][1]
        for _ in range(8):
            if any(b in body for body in f.loops.values()):
                return False
            if f.exported:
                return f.short.split('::{closure')[0]
            c = {(x.key, y): (x, y) for x, y in self.callers.get(f.key, [])}
            # the same closure may be laid down twice by the timing macro
            ps = {}
            for x, y in c.values():
                ps.setdefault(x.short.split('::{closure')[0], (x, y))
            if len(ps) != 1:
                return False
            f, b = list(ps.values())[0]
        return False

    def canon(self, site):
        """Sites of the same line of the same function (the timing macro doubles closures) are one."""
        f, b, l = self.sites[site]
        return (site[0], f.short.split('::{closure')[0], l)

    # ---------------------------------------------------------- access paths
    def defs(self, f):
        d = {}
        for b in f.rpo:
            t = f.blocks[b]
            for s in t['s']:
                if s[0] == '=':
                    d.setdefault(s[1][0], []).append(('s', s) if not s[1][1] else ('part', s))
            if t['k'] == 'call':
                d.setdefault(t['d'][0], []).append(('c', t) if not t['d'][1] else ('part', t))
        return d

    def path(self, f, place, depth=0):
        """(root, field, field, ...) of the object a place reaches, None when it has no single origin."""
        if depth > 60:
            return None
        if f.key not in self.aps:
            self.aps[f.key] = self.defs(f)
        P = self.P
        l, proj = place
        tail = ()
        t = f.locals[l][0]
        for p in proj:
            ty = P.types[t]
            if p == '*':
                t = ty['t'] if ty['k'] in ('ref', 'ptr') else (ty.get('args') or [t])[0] if ty['k'] == 'adt' else t
            elif p[0] == 'f':
                if ty['k'] == 'adt' and ty.get('local'):
                    tail += (p[1],)
                elif ty['k'] == 'closure':
                    tail += (('up', p[1]),)
                elif ty['k'] == 'tuple':
                    tail += (('t', p[1]),)
                t = p[2]
            elif p[0] in ('i', 'ci', 'sub'):
                return None
        if 1 <= l <= f.argc:
            if any(x[0] != 'part' for x in self.aps[f.key].get(l, [])):
                return None
            return ('arg', l - 1) + tail
        ds = self.aps[f.key].get(l, [])
        if len(ds) != 1 or ds[0][0] == 'part':
            return None
        kind, x = ds[0]
        if kind == 's':
            r = x[2]
            if r[0] == 'use' and r[1][0] in ('c', 'm'):
                b = self.path(f, r[1][1], depth + 1)
            elif r[0] in ('ref', 'addr'):
                b = self.path(f, r[-1], depth + 1)
            elif r[0] == 'cast' and isinstance(r[2], list) and r[2][0] in ('c', 'm'):
                b = self.path(f, r[2][1], depth + 1)
            elif r[0] == 'agg' and tail and tail[0][0:1] == ('up',) if tail and isinstance(tail[0], tuple) else False:
                o = r[4][tail[0][1]]
                b = self.path(f, o[1], depth + 1) if o[0] in ('c', 'm') else None
                tail = tail[1:]
            elif r[0] == 'agg' and len(r[4]) == 1 and not tail and r[4][0][0] in ('c', 'm'):
                b = self.path(f, r[4][0][1], depth + 1)
            else:
                b = ('var', f.key, l)
        else:
            name = (x['f'].get('path') or '').split('::')[-1]
            if x['f'].get('key') not in self.fns and name in THROUGH and x['a'] and x['a'][0][0] in ('c', 'm'):
                b = self.path(f, x['a'][0][1], depth + 1)
            else:
                b = ('var', f.key, l)
        return b and b + tail

    # ---------------------------------------------------------- dataflow
    def borrow_of(self, f, t):
        p = t['f'].get('path') or ''
        if not (p.startswith('std::cell::RefCell') or p.startswith('core::cell::RefCell')):
            return None
        n = p.split('::')[-1]
        mode = {'borrow': SHARED, 'try_borrow': SHARED, 'borrow_mut': UNIQUE, 'try_borrow_mut': UNIQUE, 'replace': UNIQUE, 'take': UNIQUE, 'swap': UNIQUE,
                'replace_with': UNIQUE}.get(n)
        if mode is None:
            return None
        T = [self.P.types[x]['s'] for x in t['f'].get('args', []) if isinstance(x, int)]
        o = t['a'][0]
        pl = o[1]
        return (T[0] if T else '?', mode, self.path(f, pl), frozenset(self.canon(s) for s in self.pts.get(self.node(f, pl), ()) if T and s[0] == T[0]))

    def drop_keys(self, tid, seen=None):
        """Drop implementations of the library run when a value of this type goes away."""
        seen = set() if seen is None else seen
        if tid is None or tid in seen:
            return set()
        seen.add(tid)
        t = self.P.types[tid]
        out = set()
        if t['k'] == 'adt':
            if t.get('drop') in self.fns:
                out.add(t['drop'])
            last = t['name'].split('::')[-1]
            if last in ('Rc', 'Weak', 'Arc', 'Ref', 'RefMut', 'PhantomData'):
                return out
            for v in t.get('v') or []:
                for _, ft in v['f']:
                    out |= self.drop_keys(ft, seen)
            if not t.get('local'):
                for x in (x for x in t.get('args', []) if isinstance(x, int)):
                    out |= self.drop_keys(x, seen)
        elif t['k'] == 'tuple':
            for x in t['t']:
                out |= self.drop_keys(x, seen)
        elif t['k'] in ('array',):
            out |= self.drop_keys(t['t'], seen)
        elif t['k'] == 'closure':
            for x in self.upvar_types(self.P.fns.get(t.get('key'))):
                out |= self.drop_keys(x, seen)
        return out

    def place_type(self, f, place):
        t = f.locals[place[0]][0]
        for p in place[1]:
            ty = self.P.types[t]
            if p == '*':
                t = ty['t'] if ty['k'] in ('ref', 'ptr') else t
            elif p[0] == 'f':
                t = p[2]
            elif p[0] in ('i', 'ci') and ty['k'] in ('slice', 'array'):
                t = ty['t']
        return t

    def events(self, f, t):
        """Borrows performed by terminator t: [(T, mode, path, sites, trail)]"""
        out = []
        if t['k'] == 'call':
            b = self.borrow_of(f, t)
            if b:
                out.append(b + ((f.short, t.get('l')),))
                return out
            key = t['f'].get('key')
            if key in self.fns:
                out += self.mapped(f, t, self.fns[key], self.sums.get(key, ()))
            else:
                for i, o in enumerate(t['a']):
                    if o[0] in ('c', 'm'):
                        for c in self.closures_in(f.locals[o[1][0]][0]):
                            out += self.mapped(f, t, self.fns[c], self.sums.get(c, ()), only=o)
                        if o[0] == 'm':
                            pass
                # values handed over to be dropped
                p = t['f'].get('path') or ''
                if p in ('std::mem::drop', 'core::mem::drop') and t['a'] and t['a'][0][0] in ('c', 'm'):
                    out += self.dropped(f, t['a'][0][1])
        elif t['k'] == 'drop':
            out += self.dropped(f, t['p'])
        return out

    def dropped(self, f, place):
        out = []
        for k in self.drop_keys(self.place_type(f, place)):
            base = self.path(f, place)
            t = self.P.types[self.place_type(f, place)]
            for (T, m, p, s, tr) in self.sums.get(k, ()):
                q = None
                if base and p and p[:2] == ('arg', 0) and t.get('drop') == k:
                    q = base + p[2:]
                out.append((T, m, q, s, tr))
        return out

    def mapped(self, f, t, g, summary, only=None):
        out = []
        for (T, m, p, s, tr) in summary:
            q = None
            if p and p[0] == 'arg':
                i = p[1]
                ops = t['a']
                o = None
                if only is not None:
                    o = only if i == 0 else None
                elif i < len(ops) and not (g.closure and i > 0 and g.argc != len(ops)):
                    o = ops[i]
                if o is not None and o[0] in ('c', 'm'):
                    q = self.compose(f, o[1], p[2:])
            out.append((T, m, q, s, tr))
        return out

    def compose(self, f, place, tail):
        """Path of place.tail, looking into a closure laid down here."""
        if tail and isinstance(tail[0], tuple) and tail[0][0] == 'up':
            l = place[0]
            for _ in range(6):
                if f.key not in self.aps:
                    self.aps[f.key] = self.defs(f)
                ds = self.aps[f.key].get(l, [])
                if len(ds) != 1 or ds[0][0] != 's':
                    break
                r = ds[0][1][2]
                if r[0] == 'agg' and len(r[4]) > tail[0][1]:
                    o = r[4][tail[0][1]]
                    b = self.path(f, o[1]) if o[0] in ('c', 'm') else None
                    return b and b + tuple(tail[1:])
                if r[0] == 'use' and r[1][0] in ('c', 'm') and not r[1][1][1]:
                    l = r[1][1][0]
                elif r[0] == 'ref' and not r[-1][1]:
                    l = r[-1][0]
                else:
                    break
        b = self.path(f, place)
        return b and b + tuple(tail)

    def run_fn(self, f, report=None):
        """Forward may-analysis of live guards; returns (summary, guards returned)."""
        P = self.P
        holds = [bool(self.guard_types(l[0])) for l in f.locals]
        start = {f.rpo[0]: frozenset()}
        work = [f.rpo[0]]
        summary = {}
        ret = set()
        ins = dict(start)
        n = 0
        while work and n < 4000:
            n += 1
            b = work.pop(0)
            live = dict()
            for l, g in ins[b]:
                live.setdefault(l, set()).add(g)
            t = f.blocks[b]

            def move(o, d):
                """operand o goes into local d"""
                if o[0] == 'm' and o[1][0] in live and '*' not in [x for x in o[1][1] if isinstance(x, str)]:
                    g = live[o[1][0]]
                    types = self.guard_types(self.place_type(f, o[1]))
                    if not types:
                        return
                    live.pop(o[1][0], None)
                    if d is not None and holds[d]:
                        live.setdefault(d, set()).update(g)
            for s in t['s']:
                if s[0] == '=':
                    d, r = s[1], s[2]
                    ops = [r[1]] if r[0] == 'use' else r[4] if r[0] == 'agg' else [r[2]] if r[0] == 'cast' else []
                    ops = [o for o in ops if isinstance(o, list) and o and o[0] in ('c', 'm')]
                    moved = [o for o in ops if o[0] == 'm' and o[1][0] in live]
                    if not d[1] and not moved:
                        live.pop(d[0], None)
                    for o in moved:
                        move(o, d[0])
                elif s[0] == 'dead':
                    live.pop(s[1], None)
            if t['k'] in ('call', 'drop'):
                ev = self.events(f, t)
                skip = t['p'][0] if t['k'] == 'drop' else None
                for e in ev:
                    T, m, p, sites, tr = e
                    summary[(T, m, p if p and p[0] == 'arg' and len(p) < 8 else None, sites)] = tr
                    if report is not None:
                        for l, gs in live.items():
                            # a guard handed over to the call is still alive inside it, but not once it is what the drop ends
                            if l == skip:
                                continue
                            for g in gs:
                                if g[0] == T and (g[1] == UNIQUE or m == UNIQUE):
                                    report(f, t, g, e)
                            if False:
                                break
            if t['k'] == 'call':
                d = t['d']
                carried = set()
                for o in t['a']:
                    if o[0] == 'm' and o[1][0] in live and self.guard_types(self.place_type(f, o[1])):
                        carried |= live.pop(o[1][0])
                b_ = self.borrow_of(f, t)
                if not d[1]:
                    live.pop(d[0], None)
                if b_ and holds[d[0]]:
                    live.setdefault(d[0], set()).add(b_ + (t.get('l'),))
                elif carried and holds[d[0]]:
                    want = self.guard_types(f.locals[d[0]][0])
                    live.setdefault(d[0], set()).update(g for g in carried if any(g[0] == w[0] for w in want))
                elif holds[d[0]] and t['f'].get('key') in self.rets:
                    for g in self.rets[t['f']['key']]:
                        q = None
                        if g[2] and g[2][0] == 'arg' and g[2][1] < len(t['a']) and t['a'][g[2][1]][0] in ('c', 'm'):
                            q = self.compose(f, t['a'][g[2][1]][1], g[2][2:])
                        live.setdefault(d[0], set()).add((g[0], g[1], q, g[3], t.get('l')))
            elif t['k'] == 'drop' and not t['p'][1]:
                live.pop(t['p'][0], None)
            elif t['k'] == 'return':
                for g in live.get(0, ()):
                    ret.add(g)
            out = frozenset((l, g) for l, gs in live.items() for g in gs)
            gone = self.without_guard(f, t) if live else {}
            for s in f.succs[b]:
                old = ins.get(s)
                new = frozenset(x for x in out if x[0] not in gone.get(s, ()))
                new = new if old is None else old | new
                if new != old:
                    ins[s] = new
                    if s not in work:
                        work.append(s)
        return summary, ret

    def without_guard(self, f, t):
        """Successors on which a tested local turns out to hold no guard (the error of a failed attempt, say)."""
        if t['k'] != 'switch' or t['d'][0] not in ('c', 'm') or t['d'][1][1]:
            return {}
        pl = None
        for s in t['s']:
            if s[0] == '=' and s[1] == t['d'][1] and s[2][0] == 'discr':
                pl = s[2][1]
        if pl is None or pl[1]:
            return {}
        ty = self.P.types[f.locals[pl[0]][0]]
        out = {}
        if ty['k'] != 'adt' or not ty.get('enum'):
            return {}
        free = {v['d'] for v in ty['v'] if not any(self.guard_types(x[1]) for x in v['f'])}
        taken = {str(v) for v, b in t['b']}
        for v, b in t['b']:
            if v in free or str(v) in {str(x) for x in free}:
                out.setdefault(b, set()).add(pl[0])
            else:
                out.setdefault(b, set())
        rest = [v for v in ty['v'] if str(v['d']) not in taken]
        if rest and all(v['d'] in free for v in rest):
            out.setdefault(t['o'], set()).add(pl[0])
        # a block reached for both outcomes keeps the guard
        for v, b in t['b']:
            if str(v) not in {str(x) for x in free}:
                out[b] = set()
        return out

    def solve(self):
        changed = True
        rounds = 0
        callees = {}
        todo = set(self.fns)
        while todo and rounds < 40:
            rounds += 1
            dirty = set()
            for k in todo:
                f = self.fns[k]
                s, r = self.run_fn(f)
                new = tuple(sorted(((T, m, p, si, tr) for (T, m, p, si), tr in s.items()), key=str))
                if {x[:4] for x in new} != {x[:4] for x in self.sums.get(k, ())} or r != self.rets.get(k, set()):
                    self.sums[k] = new
                    if r:
                        self.rets[k] = r
                    dirty.add(k)
            todo = set()
            for k in dirty:
                for f, b in self.callers.get(k, []):
                    todo.add(f.key)
                if self.is_drop(k):
                    todo |= set(self.fns)
        return rounds

    def is_drop(self, k):
        return self.fns[k].short.endswith('::drop')

    def same(self, g, e):
        """'same' | 'other' | 'open'"""
        if g[2] and e[2] and g[2] == e[2]:
            return 'same'
        a, b = g[3], e[3]
        if a and b and not (a & b):
            return 'other'
        # cells made once per package: the same when whatever package is at hand leaves only one
        if a and b and all(x in self.ctor for x in a | b):
            both = [{x for x in a | b if self.ctor[x] == c} for c in {self.ctor[x] for x in a} & {self.ctor[x] for x in b}]
            if both and all(len(x) == 1 for x in both):
                return 'same'
        return 'open'


def run(ctx):
    P = ctx.P
    A = Analysis(P, ctx)
    rounds = A.solve()
    ctx.count('functions analysed', len(A.fns))
    ctx.count('allocations of shared cells', len({A.canon(s) for s in A.sites}))
    ctx.count('of them once per package', len({A.canon(s) for s in A.single}))
    n = 0
    seen = {}
    for k, f in sorted(A.fns.items(), key=lambda x: x[1].short):
        pairs = []
        A.run_fn(f, lambda fn, t, g, e: pairs.append((t, g, e)))
        for b, t in f.calls():
            if A.borrow_of(f, t):
                n += 1
        done = set()
        for t, g, e in pairs:
            x = A.same(g, e)
            key = (t.get('l'), g[4], g[0], x)
            if key in done:
                continue
            done.add(key)
            short = g[0].split('::')[-1].rstrip('>')
            if x == 'same':
                where = '' if e[4][0] == f.short else ' (in %s, line %s)' % e[4]
                ctx.bad('%s:%s' % (f.short, short), '%s: the %s guard on %s taken at line %s is alive when line %s borrows the same object for %s%s' % (
                    f.short, g[1], short, g[4], t.get('l'), {'read': 'reading', 'write': 'writing'}[e[1]], where))
            elif x == 'other':
                ctx.ok('nested borrows of different objects', '%s line %s' % (f.short, t.get('l')))
            else:
                ctx.unknown('nested borrows of %s in %s' % (short, f.short), 'lines %s and %s, not known to be different objects' % (g[4], t.get('l')))
        seen[f.key] = pairs
    ctx.count('borrow sites', n)
    ctx.need('borrow sites', n, 60)
    ctx.need('shared cells', len(A.sites), 5)
    for k, f in A.fns.items():
        if f.exported or A.is_drop(k):
            ctx.ok('operation analysed with everything it reaches', f.short)
