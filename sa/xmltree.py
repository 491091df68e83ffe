"""The operations on the element tree, interpreted from their real bodies on an arbitrary document."""
from . import pkg, xmlcore
from .engine import Dead, Engine, Ref, Some, State, fmt, mk

T = 'files::xml::xml_tree::'
PUSH = ('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::insert')


def types(P, suffix):
    ty = next((t for t in P.types if t.get('k') == 'adt' and t['name'].endswith(suffix)), None)
    return (ty['name'], [f[0] for f in ty['v'][0]['f']]) if ty else (None, [])


class Op:
    """One call of a tree operation: inputs are symbols, the outcome is kept."""

    def __init__(self, P, name, args, doc=True, E=None):
        self.P, self.name, self.lits = P, name, 1
        E = self.E = E or Engine(P)
        E.keep_exits = E.strict = True
        E.models = {k: v for k, v in E.models.items() if not k.startswith(T)}
        E.watch = PUSH
        st = self.st = State(1, {})
        self.fn = next((f for f in P.lib.values() if f.short.endswith(name)), None)
        if self.fn is None:
            return
        self.dty, self.dfs = types(P, 'xml_tree::XmlDocument')
        self.ety, self.efs = types(P, 'xml_tree::XmlElement')
        self.cty, self.cfs = types(P, 'xml_tree::XmlElementChild')
        self.sym = {}

        def S(n):
            return self.sym.setdefault(n, mk('S', (), 0, n, True))
        if doc:
            n, fs = self.dty, self.dfs
            self.root = ('H', 'doc')
        else:
            n, fs = self.ety, self.efs
            self.root = ('H', 'el')
        st.st[self.root] = self.before = mk('agg', n, 0, tuple(S(f) for f in fs))
        a = [Ref(self.root)]
        for x in args:
            if x is None:
                a.append(mk('agg', 'std::option::Option', 0, ()))
            elif x[0] == '?':
                st.st[('H', x)] = S(x[1:])
                a.append(Some(Ref(('H', x))))
            elif x[0] == '&':
                st.st[('H', x)] = S(x[1:])
                a.append(Ref(('H', x)))
            else:
                a.append(S(x))
        self.S = S
        try:
            self.ret = E.call_fn(st, self.fn, a, ('t', 0, self.fn.key), ())
        except Dead:
            self.ret = None
        if self.ret is not None:
            self.ret = E.deep(st, self.ret) if False else self.ret
            self.after = st.st[self.root]

    def field(self, v, name):
        fs = self.dfs if self.root == ('H', 'doc') else self.efs
        return self.E.proj(v, ('f', fs.index(name)))

    def sub(self, t, suffix, name):
        n, fs = types(self.P, suffix)
        return self.E.proj(t, ('f', fs.index(name)))

    def under(self, v, g):
        g = self.E.B.AND(g, self.lits)
        return [t for h, t in self.E.alts(v) if self.E.B.AND(h, g)]

    def outcomes(self, decide=lambda d: None):
        """(guard, kind, payload) with kind ok/err/some/none/val."""
        E, out = self.E, []
        self.lits = 1
        for i, d in enumerate(E.vars):
            r = decide(d) if d else None
            if r is not None:
                v = varb(E, i)
                self.lits = E.B.AND(self.lits, v if r else E.B.NOT(v))
        for g, t in pkg.case(E, self.ret, decide):
            g = pkg.guard_case(E, E.B.AND(g, self.st.pc), decide)
            if g == 0:
                continue
            if t.op == 'agg' and t.a[0].endswith('Result'):
                out.append((g, 'err' if t.a[1] else 'ok', t.a[2][0] if t.a[2] else None))
            elif t.op == 'agg' and t.a[0].endswith('Option'):
                out.append((g, 'some' if t.a[1] else 'none', t.a[2][0] if t.a[2] else None))
            else:
                out.append((g, 'val', t))
        return out

    def unchanged(self, g):
        """What of the document differs under guard g (None: nothing)."""
        E = self.E
        fs = self.dfs if self.root == ('H', 'doc') else self.efs
        for f in fs:
            if f == 'running_id':
                continue        # ids may be skipped
            a, b = self.field(self.before, f), self.field(self.after, f)
            for t in self.under(b, g):
                if t is not a:
                    return f
        for r in self.st.st:
            if r[0] == 'V' and any(t is not r[1] for t in self.under(self.st.st[r], g)):
                return 'the list of children'
        return None


def atom(E, pred, value, default=None):
    return lambda d: value if pred(d) else default


def run(ctx):
    P = ctx.P
    for name in ('append_child_mut', 'insert_children_before_tag_mut', 'insert_children_after_tag_mut', 'insert_child_at_mut'):
        for parent in ('?PID', None):
            insertion(ctx, P, name, parent)
    create(ctx, P)
    fresh(ctx, P)
    lookups(ctx, P)
    by_list(ctx, P)
    first_by_attribute(ctx, P)
    pops(ctx, P)
    path(ctx, P)
    element(ctx, P)


def has(d, els, key):
    return d[0] == 'haskey' and d[1] is els and (d[2] is key or key is None)


def insertion(ctx, P, name, parent):
    args = {'append_child_mut': ['TAG', parent], 'insert_child_at_mut': ['TAG', '&POS', parent]}.get(name, ['TAG', 'FIND', parent])
    o = Op(P, 'XmlDocument::' + name, args)
    if o.fn is None or o.ret is None:
        ctx.unknown(name, 'not interpreted')
        return
    E = o.E
    els, rid = o.S('xml_element_collection'), o.S('running_id')
    pid = o.S('PID') if parent else mk('int', 0)
    what = '%s%s' % (name, '' if parent else ' (root as parent)')

    def facts(v):
        return lambda d: v if d[0] == 'haskey' and d[1] is els and same(d[2], pid) else None
    # no such parent
    for g, kind, t in o.outcomes(facts(0)):
        if kind != 'err':
            ctx.bad(what, '%s reports success when the parent does not exist' % name)
            break
        w = o.unchanged(g)
        if w:
            ctx.bad(what, '%s changes %s although the parent does not exist' % (name, w))
            break
    else:
        ctx.ok('no parent', what)
    done = 0
    for g, kind, t in o.outcomes(facts(1)):
        if kind == 'err':
            vs = [E.vars[i] for i in E.B.support(g)]
            odd = [d for d in vs if not any(hasattr(x, 'op') and pkg.mentions(x, lambda z: z is o.S('TAG')) for x in d[1:])]
            if odd or g == 1:
                if all(d[0] in ('okcall', 'x', 'parseok', 'exit', 'next', 'eq') for d in odd) and odd:
                    ctx.unknown(what, 'failure under %s' % E.bfmt(g, 1)[:100])
                else:
                    ctx.bad(what, '%s fails for an existing parent%s' % (name, ' when %s' % E.bfmt(g, 1)[:100] if odd else ''))
            else:
                w = o.unchanged(g)
                if w:
                    ctx.bad(what, '%s fails after changing %s' % (name, w))
            continue
        done = 1
        inserted(ctx, o, what, name, pid, E.B.AND(g, o.lits), t)
    if not done:
        ctx.bad(what, '%s never succeeds for an existing parent' % name)


def same(a, b):
    return a is b or a.op == b.op == 'int' and a.a == b.a


def inserted(ctx, o, what, name, pid, g, t):
    E = o.E
    els, rid = o.S('xml_element_collection'), o.S('running_id')
    maps = o.under(o.field(o.after, 'xml_element_collection'), g)
    if len(maps) != 1 or maps[0].op != 'map' or maps[0].a[0] is not els or len(maps[0].a[1]) != 1:
        if any(m is els for m in maps):
            ctx.bad(what, '%s: the new element is not put into the element table' % name)
        elif all(m.op == 'map' and len(m.a[1]) > 1 for m in maps):
            ctx.bad(what, '%s changes several entries of the element table: %s' % (name, ', '.join(fmt(e[0], 3) for e in maps[0].a[1])[:100]))
        else:
            ctx.unknown(what, 'element table %s' % fmt(maps[0], 3)[:80] if maps else 'no table')
        return
    key, mult, el = maps[0].a[1][0]
    if not (key.op == 'plus' and key.a[0] is rid and key.a[1] >= 1):
        ctx.bad(what, '%s: the new element is registered under %s, which is not a fresh id' % (name, fmt(key, 3)[:60]))
        return
    for r in o.under(o.field(o.after, 'running_id'), g):
        if not (r.op == 'plus' and r.a[0] is rid and r.a[1] >= key.a[1]):
            ctx.bad(what, '%s: id %s can be given again: the counter stays at %s' % (name, fmt(key, 3), fmt(r, 3)[:40]))
            return
    for e in [x for h, x in E.alts(el) if E.B.AND(h, g)]:
        if e.op != 'agg' or e.a[0] != o.ety:
            ctx.unknown(what, 'element %s' % fmt(e, 2)[:60])
            return
        v = dict(zip(o.efs, e.a[2]))
        for f, want, ok in (('id', key, lambda x: x is key), ('parent_id', pid, lambda x: same(x, pid)), ('tag', o.S('TAG'), lambda x: x is o.S('TAG')),
                            ('attributes', None, lambda x: x.op == 'agg' and x.a[1] == 0), ('value', None, lambda x: x.op == 'agg' and x.a[1] == 0)):
            bad = [x for h, x in E.alts(v[f]) if E.B.AND(h, g) and not ok(x)]
            if bad:
                ctx.bad(what, '%s: the %s of the new element is %s%s' % (name, f, fmt(bad[0], 3)[:60], ' instead of %s' % fmt(want, 3)[:40] if want is not None else ''))
                return
        k = E.deep(o.st, v['children'])
        if k.op == 'vec' and k.a[1]:
            ctx.bad(what, '%s: the new element starts with children' % name)
            return
    # result
    if not (t is not None and t.op == 'ref' and t.a[0] == o.root and t.a[1][-1][0] == 'val' and t.a[1][-1][1] is key):
        ctx.bad(what, '%s gives back %s instead of the new element' % (name, fmt(t, 3)[:60] if t is not None else 'nothing'))
        return
    # child list
    kids = mk('f', mk('mapval', els, pid), o.efs.index('children'))
    eff = []
    for p, a, pc, fr, ln, ret in E.effects:
        w = E.B.AND(pc, g)
        if not w:
            continue
        base = a[0]
        if not touches(base, kids):
            if pkg.mentions(base, lambda z: z.op == 'mapval' and z.a[0] is els):
                ctx.bad(what, '%s adds to the children of %s instead of the asked parent' % (name, fmt(base, 4)[:60]))
                return
            continue
        eff.append((p.split('::')[-1], a, w))
    if not eff:
        r = o.st.st.get(('V', kids))
        if r is None or all(x is kids for x in o.under(r, g)):
            ctx.bad(what, '%s does not put the new element into the list of the parent' % name)
        else:
            ctx.unknown(what, 'list of children %s' % fmt(r, 3)[:80])
        return
    cover = 0
    for p, a, w in eff:
        if E.B.AND(cover, w):
            ctx.bad(what, '%s can put the element into the list of the parent twice' % name)
            return
        cover = E.B.OR(cover, w)
        child = a[-1]
        if child.op == 'agg' and child.a[0] == o.cty:
            v = dict(zip(o.cfs, child.a[2]))
            if v['id'] is not key or v['tag'] is not o.S('TAG'):
                ctx.bad(what, '%s registers the child as (%s, %s)' % (name, fmt(v['id'], 3)[:40], fmt(v['tag'], 3)[:40]))
                return
        else:
            ctx.unknown(what, 'child entry %s' % fmt(child, 3)[:60])
            return
        if not place(ctx, o, what, name, p, a, w, kids):
            return
    if E.B.AND(g, E.B.NOT(cover)):
        ctx.bad(what, '%s does not put the new element into the list of the parent when %s' % (name, E.bfmt(E.B.AND(g, E.B.NOT(cover)), 1)[:120]))
        return
    ctx.ok('insertion', what)


def touches(base, kids):
    return base is kids or base.op == 'g' and all(touches(x, kids) for _, x in base.a[0]) or base.op == 'vec' and base.a[0] is kids


def place(ctx, o, what, name, p, a, w, kids):
    """Is the position the asked one?"""
    E = o.E
    if p == 'push':
        poss = [(w, 'end')]
    else:
        poss = [(E.B.AND(h, w), t) for h, t in E.alts(a[1]) if E.B.AND(h, w)]
    for h, t in poss:
        if t != 'end' and t.op == 'len':
            t = 'end'
        if name == 'append_child_mut':
            good = t == 'end'
        elif name == 'insert_child_at_mut':
            good = t != 'end' and t is o.S('POS')
        else:
            before = 'before' in name
            S, k = (t, 0) if t != 'end' and t.op == 'S' else (t.a[0], t.a[1]) if t != 'end' and t.op == 'plus' else (None, 0)
            if S is not None:
                fd = E.finds.get(S)
                if fd is None:
                    ctx.unknown(what, 'position %s' % fmt(t, 3)[:60])
                    return False
                hit, x, how, ad = fd
                if ad:
                    ctx.unknown(what, 'position over %s' % (ad,))
                    return False
                want = 'position' if before else 'rposition'
                if how != want:
                    ctx.bad(what, '%s: the element is put %s the %s element with the tag' % (name, 'before' if before else 'after', 'last' if how == 'rposition' else 'first'))
                    return False
                if k != (0 if before else 1):
                    ctx.bad(what, '%s: the element is put at offset %d of the found one' % (name, k))
                    return False
                f = o.S('FIND')
                eqs = [i for i in E.B.support(hit) if E.vars[i][0] == 'eq']
                ok = len(eqs) == 1 and any(x is f for x in E.vars[eqs[0]][1:]) and E.B.AND(hit, E.B.NOT(E.B.OR(0, varb(E, eqs[0])))) == 0
                if ok:
                    oth = [x for x in E.vars[eqs[0]][1:] if x is not f][0]
                    ok = oth.op == 'f' and oth.a[1] == o.cfs.index('tag')
                if not ok:
                    ctx.bad(what, '%s: the position is not searched by the given tag: %s' % (name, E.bfmt(hit, 1)[:120]))
                    return False
                continue
            # none found
            found = [i for i in E.B.support(h) if E.vars[i][0] == 'eq' and any(x is o.S('FIND') for x in E.vars[i][1:])]
            if any(E.B.AND(h, E.B.NOT(varb(E, i))) == 0 for i in found):
                ctx.bad(what, '%s: an element with the tag is there, but the new one is put at %s' % (name, 'the end' if t == 'end' else fmt(t, 3)[:40]))
                return False
            good = t == 'end' if not before else t != 'end' and t.op == 'int' and t.a[0] == 0
            if not good and before and t == 'end':
                good = False
        if not good:
            ctx.bad(what, '%s puts the element at %s' % (name, 'the end' if t == 'end' else fmt(t, 3)[:60]))
            return False
    return True


def touched(base, kids):
    return base is kids or base.op == 'op' and any(hasattr(x, 'op') and touched(x, kids) for x in base.a[1:])


def varb(E, i):
    return E.B.v(i)


def create(ctx, P):
    o = Op(P, 'XmlDocument::create_root_mut', ['TAG'])
    if o.fn is None or o.ret is None:
        ctx.unknown('create_root_mut', 'not interpreted')
        return
    E, els = o.E, o.S('xml_element_collection')
    good = 0
    for g, kind, t in o.outcomes():
        if kind == 'err':
            if g == 1:
                ctx.bad('create_root', 'creating the root always fails')
            continue
        maps = o.under(o.field(o.after, 'xml_element_collection'), g)
        for m in maps:
            ok = m.op == 'map' and m.a[0] is els and len(m.a[1]) == 1 and m.a[1][0][0].op == 'int' and m.a[1][0][0].a[0] == 0
            if ok:
                for h, e in E.alts(m.a[1][0][2]):
                    if E.B.AND(h, g) and e.op == 'agg':
                        v = dict(zip(o.efs, e.a[2]))
                        ok = ok and v['id'].op == 'int' and v['id'].a[0] == 0 and v['tag'] is o.S('TAG')
            if not ok:
                ctx.bad('create_root', 'the root is not registered as element 0 with its tag: %s' % fmt(m, 3)[:80])
                return
        good = 1
    if good:
        ctx.ok('root', 'create_root_mut')
    else:
        ctx.bad('create_root', 'creating the root never succeeds')


def fresh(ctx, P):
    """A new document holds no element and its first id differs from the root's."""
    fn = next((f for f in P.lib.values() if f.short.endswith('XmlDocument::new')), None)
    if fn is None:
        ctx.unknown('XmlDocument::new', 'gone')
        return
    E, st = Engine(P), State(1, {})
    E.models = {k: v for k, v in E.models.items() if not k.startswith(T)}
    v = E.call_fn(st, fn, [], ('t', 0, fn.key), ())
    n, fs = types(P, 'xml_tree::XmlDocument')
    if v.op != 'agg':
        ctx.unknown('XmlDocument::new', fmt(v, 2)[:60])
        return
    d = dict(zip(fs, v.a[2]))
    if d['running_id'].op == 'int' and d['running_id'].a[0] >= 0:
        ctx.ok('root', 'first id')
    else:
        ctx.bad('first id', 'a new document starts counting at %s' % fmt(d['running_id'], 2)[:40])


def elref(t, els_i, key):
    return t is not None and t.op == 'ref' and t.a[0] == ('H', 'doc') and len(t.a[1]) == 2 and t.a[1][0] == ('f', els_i) and t.a[1][1][0] == 'val' and same(t.a[1][1][1], key)


def lookups(ctx, P):
    for name, args, key in (('get_element', ['&ID'], 'ID'), ('get_element_mut', ['&ID'], 'ID'), ('get_root', [], 0), ('get_root_mut', [], 0)):
        o = Op(P, 'XmlDocument::' + name, args)
        if o.fn is None:
            continue
        E, els = o.E, o.S('xml_element_collection')
        k = o.S('ID') if key else mk('int', 0)
        bad = None
        for v in (0, 1):
            for g, kind, t in o.outcomes(lambda d: v if d[0] == 'haskey' and d[1] is els and same(d[2], k) else None):
                if v and not (kind == 'some' and elref(t, o.dfs.index('xml_element_collection'), k)) or not v and kind != 'none':
                    bad = 'gives %s for an element that is %sthere' % (fmt(t, 3)[:50] if t is not None else 'nothing', '' if v else 'not ')
                elif o.unchanged(g):
                    bad = 'changes %s' % o.unchanged(g)
        if bad:
            ctx.bad(name, '%s %s' % (name, bad))
        else:
            ctx.ok('lookup', name)


def by_list(ctx, P):
    for name, args, field in (('get_element_ids_by_tag', ['FT'], 'tag'), ('get_element_ids_by_attribute', ['K', 'V'], None)):
        for parent in ('?PID', None):
            o = Op(P, 'XmlDocument::' + name, args + [parent])
            if o.fn is None:
                continue
            what = '%s%s' % (name, '' if parent else ' (root)')
            E, els = o.E, o.S('xml_element_collection')
            pid = o.S('PID') if parent else mk('int', 0)
            kids = mk('f', mk('mapval', els, pid), o.efs.index('children'))
            bad = None
            seen = 0
            for g, kind, t in o.outcomes(lambda d: 1 if has(d, els, None) and same(d[2], pid) else None):
                if kind == 'none':
                    continue
                if kind != 'some' or t is None or t.op != 'vec':
                    bad = '?' + kind
                    break
                for eg, mult, v, how in t.a[1]:
                    seen = 1
                    item = v.a[0] if v.op == 'f' else None
                    if not (item is not None and item.op == 'S' and item.a[4:] and item.a[4] is kids and v.a[1] == o.cfs.index('id')):
                        bad = 'lists %s instead of the ids of the children' % fmt(v, 4)[:60]
                        break
                    if how != 'b':
                        bad = 'lists the children in another order'
                        break
                    bad = selected(o, eg, item, field, els)
                    if bad:
                        break
            w = o.unchanged(1)
            if w:
                bad = 'changes %s' % w
            if bad and bad[0] == '?':
                ctx.unknown(what, bad)
            elif bad:
                ctx.bad(name, '%s %s' % (name, bad))
            elif not seen and E.unknown:
                ctx.unknown(what, ', '.join(list(E.unknown)[:3]))
            elif not seen:
                ctx.bad(name, '%s never finds anything' % name)
            else:
                ctx.ok('lookup', what)


def selected(o, eg, item, field, els):
    """Is a child taken exactly when it has the tag (or the attribute value)?"""
    E = o.E

    def facts(**kw):
        def f(d):
            if d[0] == 'next':
                return 1
            if d[0] == 'haskey' and d[1] is els:
                return 1
            if d[0] == 'eq' and any(x is o.S('FT') for x in d[1:]):
                x = [x for x in d[1:] if x is not o.S('FT')]
                return kw['hit'] if x and x[0].op == 'f' and x[0].a[0] is item and x[0].a[1] == o.cfs.index('tag') else None
            if field is None:
                if d[0] == 'x' and d[1].op == 'discr' and pkg.mentions(d[1], lambda z: z is item):
                    return int(d[2] == 1)
                if d[0] == 'haskey' and d[2] is o.S('K') and pkg.mentions(d[1], lambda z: z is item):
                    return kw.get('key', 1)
                if d[0] == 'eq' and any(x is o.S('V') for x in d[1:]):
                    return kw['hit']
            return None
        return f
    hit = pkg.guard_case(E, eg, facts(hit=1))
    miss = pkg.guard_case(E, eg, facts(hit=0))
    if hit == 0:
        return 'leaves out a child that matches'
    if miss == 1:
        return 'lists a child that does not match'
    if hit != 1 or miss != 0:
        other = [E.vars[i] for h in (hit, miss) if h > 1 for i in E.B.support(h)]
        if other and all(d[0] in ('eq_ignore_case', 'starts_with', 'ends_with', 'contains', 'lt', 'limited') for d in other):
            return 'chooses the children by %s' % E.bfmt(eg, 1)[:100]
        return '?selection %s' % E.bfmt(eg, 1)[:100]
    if field is None and pkg.guard_case(E, eg, facts(hit=0, key=0)) != 0:
        return 'lists a child without the attribute'
    return None


def first_by_attribute(ctx, P):
    name = 'get_first_element_by_attribute_mut'
    o = Op(P, 'XmlDocument::' + name, ['K', 'V', '?PID'])
    if o.fn is None or o.ret is None:
        return
    E, els = o.E, o.S('xml_element_collection')
    kids = mk('f', mk('mapval', els, o.S('PID')), o.efs.index('children'))
    bad = unk = None
    n = 0
    for g, kind, t in o.outcomes(lambda d: 1 if d[0] == 'haskey' and d[1] is els else None):
        if kind != 'some':
            continue
        n += 1
        k = t.a[1][-1][1] if t.op == 'ref' and t.a[1] and t.a[1][-1][0] == 'val' else None
        if k is not None and k.op == 'idx' and k.a[0].op == 'vec':
            if not same(k.a[1], mk('int', 0)):
                bad = 'takes the child at %s of the matching ones' % fmt(k.a[1], 3)[:40]
        elif k is not None and k.op == 'f' and k.a[0].op == 'S' and k.a[0].a[4:] and touched(k.a[0].a[4], kids):
            if k.a[0].a[4] is not kids or k.a[0].a[5].a[0] != 'next':
                bad = 'does not take the first matching child'
        else:
            unk = fmt(t, 4)[:80]
    if bad:
        ctx.bad(name, '%s %s' % (name, bad))
    elif unk or not n:
        ctx.unknown(name, unk or 'no result')
    else:
        ctx.ok('lookup', name)


def pops(ctx, P):
    o = Op(P, 'XmlDocument::pop_element_mut', ['&ID'])
    if o.fn is not None and o.ret is not None:
        E, els = o.E, o.S('xml_element_collection')
        bad = None
        for g, kind, t in o.outcomes(lambda d: 1 if has(d, els, o.S('ID')) else None):
            for m in o.under(o.field(o.after, 'xml_element_collection'), g):
                if m is els:
                    bad = 'leaves the element in the table'
                elif not (m.op == 'map' and m.a[0] is els and all(k is o.S('ID') for k, _, _ in m.a[1])):
                    bad = 'changes other elements: %s' % fmt(m, 3)[:60]
            if not (kind == 'some' and t.op == 'mapval' and t.a[1] is o.S('ID')):
                bad = 'gives back %s' % (fmt(t, 3)[:50] if t is not None else 'nothing')
        if bad:
            ctx.bad('pop_element_mut', 'pop_element_mut %s' % bad)
        else:
            ctx.ok('removal', 'pop_element_mut')
    for parent in ('?PID', None):
        o = Op(P, 'XmlDocument::pop_elements_by_tag_mut', ['FT', parent])
        if o.fn is None or o.ret is None:
            ctx.unknown('pop_elements_by_tag_mut', 'not interpreted')
            continue
        what = 'pop_elements_by_tag_mut%s' % ('' if parent else ' (root)')
        E, els = o.E, o.S('xml_element_collection')
        pid = o.S('PID') if parent else mk('int', 0)
        kids = mk('f', mk('mapval', els, pid), o.efs.index('children'))
        bad = unk = None
        # the list of children
        tag = o.cfs.index('tag')
        n = 0
        for S, x, v, pc in E.retains.values():
            if not touches(v, kids):
                bad = 'removes from %s' % fmt(v, 4)[:50]
                continue
            n += 1
            keep = E.truth(x)
            for hitv, want in ((1, 0), (0, 1)):
                r = pkg.guard_case(E, keep, lambda d: hitv if d[0] == 'eq' and any(y is o.S('FT') for y in d[1:]) and any(y.op == 'f' and y.a[0] is S and y.a[1] == tag for y in d[1:]) else None)
                if r != want:
                    bad = 'keeps a child with the tag in the list' if want == 0 else 'takes children with other tags from the list'
        if not n and not bad:
            r = o.st.st.get(('V', kids))
            if (r is None or r is kids) and E.unknown:
                unk = ', '.join(list(E.unknown)[:3])
            elif r is None or r is kids:
                bad = 'leaves the removed elements in the list of the parent'
            else:
                unk = 'list of children %s' % fmt(r, 3)[:60]
        # the table
        for m in o.under(o.field(o.after, 'xml_element_collection'), 1):
            if m is els:
                continue
            if m.op != 'map' or m.a[0] is not els:
                unk = 'table %s' % fmt(m, 3)[:60]
                continue
            for k, mult, v in m.a[1]:
                if not (k.op == 'f' and k.a[0].op == 'S' and k.a[1] == o.cfs.index('id') and k.a[0].a[4:] and k.a[0].a[4] is kids):
                    bad = 'removes %s from the table' % fmt(k, 4)[:50]
        for g, kind, t in o.outcomes(lambda d: 1 if has(d, els, None) else None):
            if kind != 'some':
                continue
            if t.op != 'vec':
                unk = 'result %s' % fmt(t, 3)[:50]
                continue
            for eg, mult, v, how in t.a[1]:
                if how != 'b' or any(z.op == 'S' and z.a[4:] and z.a[4] is kids and z.a[5].a[0] != 'next' for z in [v.a[1].a[0]] if v.op == 'mapval' and v.a[1].op == 'f'):
                    bad = 'gives the elements back in another order'
                if not (v.op == 'mapval' and v.a[0] is els or v.op == 'mapval'):
                    unk = 'entry %s' % fmt(v, 3)[:50]
        if bad:
            ctx.bad('pop_elements_by_tag_mut', 'pop_elements_by_tag_mut %s' % bad)
        elif unk:
            ctx.unknown(what, unk)
        else:
            ctx.ok('removal', what)


def path(ctx, P):
    """Following a path of tags: one arbitrary step."""
    for start in ('START', None):
        name = 'get_first_element_id'
        what = name + ('' if start else ' (from the root)')
        E = xmlcore.StepEngine(P, lambda p: p.endswith('::pop') or p.endswith('::pop_front') or p.endswith('Iterator::next'))
        o = Op(P, 'XmlDocument::' + name, ['TREE', '?' + start if start else None], E=E)
        if o.fn is None or o.ret is None or E.head is None:
            ctx.unknown(what, 'not interpreted')
            continue
        els, tree = o.S('xml_element_collection'), o.S('TREE')
        cur = [k for k in E.changed if E.entry.st[k] is (o.S('START') if start else None) or not start and same(E.entry.st[k], mk('int', 0))]
        if len(cur) != 1:
            ctx.unknown(what, 'no cursor')
            continue
        cur = cur[0]
        H = E.changed[cur]
        kids = mk('f', mk('mapval', els, H), o.efs.index('children'))
        rtag = mk('f', mk('mapval', els, H), o.efs.index('tag'))
        ctag = o.cfs.index('tag')
        cid = o.cfs.index('id')

        def facts(found=None, root=0, more=None, tag=0):
            def f(d):
                if d[0] == 'next':
                    if d[1].a[4:] and pkg.mentions(d[1].a[4], lambda z: z is tree):
                        return 1
                    if d[1].a[4:] and touched(d[1].a[4], kids):
                        return found
                if d[0] == 'haskey' and d[1] is els:
                    return 1
                if d[0] == 'eq':
                    if any(x is rtag for x in d[1:]):
                        return tag
                    if any(x.op == 'f' and x.a[1] == ctag and x.a[0].op == 'S' and x.a[0].a[4:] and touched(x.a[0].a[4], kids) for x in d[1:]):
                        return found
                if d[0] == 'x' and d[1] is H:
                    return int(root and d[2] == 0)
                if d[0] == 'x' and d[1].op == 'len' and pkg.mentions(d[1], lambda z: z is tree):
                    return int(not more and d[2] == 0)
                if d[0] == 'lt' and d[1].op == 'int' and d[1].a[0] == 0 and d[2].op == 'len' and pkg.mentions(d[2], lambda z: z is tree):
                    return more
                return None
            return f

        def is_child(t):
            if t.op == 'f' and t.a[1] == cid and t.a[0].op == 'S' and t.a[0].a[4:] and (t.a[0].a[4] is not kids and touched(t.a[0].a[4], kids) or t.a[0].a[5].a[0] != 'next'):
                late.append(t)
            return t.op == 'f' and t.a[1] == cid and t.a[0].op == 'S' and t.a[0].a[4:] and t.a[0].a[4] is kids and t.a[0].a[5].a[0] == 'next'

        def order(S):
            """Tags are taken first to last."""
            src, how = S.a[4], S.a[5].a[0]
            n = 0
            while src.op == 'op' and src.a[0] == 'reversed':
                n, src = n + 1, src.a[1]
            return src is tree and (n % 2 == 0) == (how in ('next', 'pop_front'))
        bad = None
        late = []
        for d in E.vars:
            if d and d[0] == 'next' and d[1].a[4:] and pkg.mentions(d[1].a[4], lambda z: z is tree) and not order(d[1]):
                bad = 'takes the tags of the path in the wrong order'
        cases = [(root, tag, found, more) for root, tag in ((0, 0), (0, 1), (1, 0), (1, 1)) for found in (0, 1) for more in (0, 1)]
        for root, tag, found, more in cases:
            if bad:
                break
            f = facts(found=found, root=root, more=more, tag=tag)
            skip = root and tag
            say = 'with a path that starts at the root' if skip else 'when %s child has the tag' % ('a' if found else 'no')
            back = E.B.OR(0, 0)
            cur1 = set()
            unk = None
            for b in E.back:
                g = pkg.guard_case(E, b.pc, f)
                if g not in (0, 1):
                    unk = E.bfmt(g, 1)[:100]
                if g:
                    for h, t in pkg.case(E, b.st[cur], f):
                        cur1.add('same' if t is H else 'child' if is_child(t) else fmt(t, 4)[:50])
            res = set()
            if not back and not cur1:
                for g, kind, t in o.outcomes(f):
                    if kind == 'ok' and t.op == 'g':
                        ts = [x for h, x in pkg.case(E, t, f)]
                    else:
                        ts = [t] if kind == 'ok' else []
                    if kind == 'err':
                        continue
                    for x in ts:
                        if x.op == 'agg' and x.a[1] == 1:
                            for h, y in pkg.case(E, x.a[2][0], f):
                                res.add('same' if y is H else 'child' if is_child(y) else fmt(y, 4)[:50])
                        else:
                            res.add('nothing')
            if unk:
                ctx.unknown(what, unk)
                break
            want = 'same' if skip else 'child' if found else 'nothing'
            got = cur1 if cur1 else res
            if more and not cur1 and want != 'nothing':
                bad = '%s ends although the path goes on' % say
            elif not more and cur1:
                bad = '%s goes on although the path is at its end' % say
            elif got != {want}:
                if late:
                    bad = 'it does not take the first child with the tag'
                elif all(x in ('same', 'child', 'nothing') for x in got):
                    bad = '%s the search gives %s instead of %s' % (say, ' or '.join(sorted(got)) or 'an error', want)
                else:
                    ctx.unknown(what, str(got)[:100])
                    break
            else:
                ctx.ok('path step', what)
        if bad:
            ctx.bad(name, '%s: %s' % (name, bad))


def element(ctx, P):
    o = Op(P, 'XmlElement::pop_child_mut', [], doc=False)
    if o.fn is not None and o.ret is not None:
        E, kids = o.E, o.S('children')
        bad = None

        def some(v):
            def f(d):
                if d[0] == 'lt' and d[1].op == 'int' and d[1].a[0] == 0 and d[2].op == 'len':
                    return v
                if d[0] == 'x' and d[1].op == 'len':
                    return (0 if d[2] == 0 else None) if v else int(d[2] == 0)
                if d[0] == 'inrange':
                    return v
                if d[0] == 'emptyvec' or d[0] == 'empty':
                    return 1 - v
                return None
            return f
        for g, kind, t in o.outcomes(some(1)):
            r = o.st.st.get(('V', kids))
            lists = o.under(r, g) if r is not None else [kids]
            if kind != 'some':
                bad = 'gives nothing although there is a child'
            elif t.op == 'agg' and pkg.mentions(t, lambda z: z.op == 'S' and len(z.a) > 2 and z.a[2] in ('swap_remove', 'pop')):
                bad = 'changes the order of the other children' if pkg.mentions(t, lambda z: z.op == 'S' and z.a[2] == 'swap_remove') else 'gives the last child'
            elif not (t.op == 'agg' and len(t.a[2]) == 2 and all(x.op == 'f' and x.a[0].op == 'idx' and x.a[0].a[0] is kids for x in t.a[2])):
                ctx.unknown('pop_child_mut', fmt(t, 4)[:60])
            else:
                i = t.a[2][0].a[0].a[1]
                if [x.a[1] for x in t.a[2]] != [o.cfs.index('id'), o.cfs.index('tag')] or t.a[2][1].a[0].a[1] is not i:
                    bad = 'gives %s' % fmt(t, 4)[:60]
                elif i.op != 'int' or i.a[0] != 0:
                    bad = 'gives the child at %s instead of the first' % fmt(i, 2)[:30]
                elif not all(x.op == 'op' and x.a[0] == 'removed' and x.a[1] is kids and same(x.a[2], i) for x in lists):
                    bad = 'leaves the child in the list' if any(x is kids for x in lists) else 'removes another child than it gives back'
        for g, kind, t in o.outcomes(some(0)):
            if kind != 'none':
                bad = 'gives a child of an element without children'
        if bad:
            ctx.bad('pop_child_mut', 'pop_child_mut %s' % bad)
        else:
            ctx.ok('removal', 'pop_child_mut')
    # plain accessors
    for name, f in (('get_tag', 'tag'), ('get_id', 'id'), ('get_parent_id', 'parent_id')):
        o = Op(P, 'XmlElement::' + name, [], doc=False)
        if o.fn is None or o.ret is None:
            continue
        if o.ret is o.S(f) or o.ret.op == 'ref' and o.E.deep(o.st, o.ret) is o.S(f):
            ctx.ok('accessor', name)
        else:
            ctx.bad(name, '%s gives %s' % (name, fmt(o.ret, 3)[:50]))
    for name, f in (('get_attribute', 'attributes'), ('get_attribute_mut', 'attributes'), ('get_value', 'value')):
        o = Op(P, 'XmlElement::' + name, [], doc=False)
        if o.fn is None or o.ret is None:
            continue
        i = ('f', o.efs.index(f))
        if all(t.op == 'ref' and t.a[0] == o.root and t.a[1][0] == i or t is o.S(f) or t.op == 'agg' and (t.a[1] == 0 or t.a[2][0].op == 'ref' and t.a[2][0].a[0] == o.root and t.a[2][0].a[1][0] == i)
               for g, t in o.E.alts(o.ret)):
            ctx.ok('accessor', name)
        else:
            ctx.bad(name, '%s gives %s' % (name, fmt(o.ret, 3)[:50]))
    for name, want in (('has_value', lambda v, k: v), ('is_empty_tag', lambda v, k: int(not v and not k))):
        o = Op(P, 'XmlElement::' + name, [], doc=False)
        if o.fn is None or o.ret is None:
            continue
        E = o.E
        bad = None
        for v in (0, 1):
            for k in (0, 1):
                def f(d):
                    if d[0] == 'x' and d[1].op == 'discr' and d[1].a[0] is o.S('value'):
                        return int(d[2] == v)
                    if d[0] == 'x' and d[1].op == 'len':
                        return (0 if d[2] == 0 else None) if k else int(d[2] == 0)
                    if d[0] == 'lt' and d[1].op == 'int' and d[1].a[0] == 0 and d[2].op == 'len':
                        return k
                    return None
                r = pkg.guard_case(E, E.truth(o.ret), f)
                if r not in (0, 1):
                    ctx.unknown(name, E.bfmt(r, 1)[:80])
                elif r != want(v, k):
                    bad = 'says %s for an element with%s value and with%s children' % ('yes' if r else 'no', '' if v else 'out', '' if k else 'out')
        if bad:
            ctx.bad(name, '%s %s' % (name, bad))
        else:
            ctx.ok('accessor', name)
    o = Op(P, 'XmlElement::set_value_mut', ['TEXT'], doc=False)
    if o.fn is not None and o.ret is not None:
        v = o.field(o.after, 'value')
        if v.op == 'agg' and v.a[1] == 1 and v.a[2][0] is o.S('TEXT') and all(o.field(o.after, f) is o.field(o.before, f) for f in o.efs if f != 'value'):
            ctx.ok('accessor', 'set_value_mut')
        else:
            ctx.bad('set_value_mut', 'set_value_mut stores %s' % fmt(v, 3)[:60])
    o = Op(P, 'XmlElement::set_attribute_mut', ['ATTRS'], doc=False)
    if o.fn is not None and o.ret is not None:
        bad = None
        for g, kind, t in o.outcomes():
            if kind != 'ok':
                continue
            for v in o.under(o.field(o.after, 'attributes'), g):
                src = v.a[2][0] if v.op == 'agg' and v.a[1] == 1 else None
                if src is None or not pkg.mentions(src, lambda z: z is o.S('ATTRS')):
                    bad = 'stores %s instead of the given attributes' % fmt(v, 3)[:50]
        for f in o.efs:
            if f not in ('attributes', 'namespace_collection_ref') and o.field(o.after, f) is not o.field(o.before, f):
                bad = 'changes the %s' % f
        if bad:
            ctx.bad('set_attribute_mut', 'set_attribute_mut %s' % bad)
        else:
            ctx.ok('accessor', 'set_attribute_mut')
