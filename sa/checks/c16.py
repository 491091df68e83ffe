"""C16: a style request resolves to a cell format that means exactly the request."""
from .. import pkg, models as M
from ..codec import Scenario, Out, path_of, guards_of, attr_sources
from ..engine import Engine, State, mk, fmt, Ref, Dead
from ..pkg import mentions

EXPLAIN = ('The style resolution function is interpreted on arbitrary style tables and an arbitrary request (guarded value flow over MIR); the record added to each '
           'table, the comparison that finds an existing one, and the ids stored in the cell format are compared with the request. Which record field feeds which '
           'attribute of styles.xml is read off the writer, which is interpreted on the same abstract tables.')
RULE = ('the record looked up/added for fonts, fills, borders, number formats and cell formats carries every requested setting; lookup compares the whole record; '
        'each id is the position found or the position of the added record in the table it refers to; the returned id is that of the cell format')
ASSUME = ['hash values of different records differ (the lookup compares 64 bit hashes)', 'table sizes stay below 65536 (ids are stored as 16 bit numbers)',
          'the request cache is judged only through the value it stores']

BUILTIN = dict(General=0, Integer=1, DecimalTwoPlaces=2, ThousandsSeparator=3, ThousandsSeparatorTwoDecimals=4, CurrencyNoDecimals=5, CurrencyNoDecimalsRed=6,
               CurrencyTwoDecimals=7, CurrencyTwoDecimalsRed=8, Percentage=9, PercentageTwoDecimals=10, Scientific=11, FractionOneDigit=12, FractionTwoDigits=13,
               DateMMDDYY=14, DateDMmmYY=15, DateDMmm=16, DateMmmYY=17, Time12Hour=18, Time12HourWithSeconds=19, Time24Hour=20, Time24HourWithSeconds=21,
               DateTimeMMDDYY=22, AccountingNoDecimals=37, AccountingNoDecimalsRed=38, AccountingTwoDecimals=39, AccountingTwoDecimalsRed=40,
               AccountingNegativeInParentheses=41, AccountingTwoDecimalsNegativeInParentheses=42, AccountingAlignedSymbols=43,
               AccountingAlignedSymbolsTwoDecimals=44, TimeMinutesSeconds=45, TimeHoursMinutesSeconds=46, ElapsedTimeWithFractions=47, ScientificOneDecimal=48,
               TextFormat=49)
# iterator steps after which a position is no longer the position in the table
SHIFT = {'skip', 'rev', 'filter', 'filter_map', 'step_by', 'skip_while', 'chain', 'flat_map'}
SIDES = 'left right top bottom diagonal'.split()


def adt(P, name):
    for t in P.types:
        if t.get('k') == 'adt' and t.get('local') and t['name'].split('::')[-1] == name:
            return t
    return None


def variants(P, name):
    t = adt(P, name)
    return [v['n'].split('::')[-1] for v in t['v']] if t else []


def fields(P, name):
    t = adt(P, name)
    return [f[0] for f in t['v'][0]['f']] if t else []


class Tables:
    """What the writer makes of the style tables: (table element, attribute) -> (part field, path in the record)."""

    def __init__(self, ctx, part, close):
        E = self.E = Engine(ctx.P, budget=400000)
        st = State(1, {})
        root = ('H', 'part')
        st.st[root] = part
        E.call_fn(st, close, [Ref(root)], ('close', 0, close.key), ())
        self.st, self.part = st, part
        self.outs = []
        o = st.st.get(M.OUT)
        if o is not None and o.op == 'map':
            for e, m, v in o.a[1]:
                tag, par, how = E.elinfo[e]
                self.outs.append(Out(self, e, tag, par, how, v))
        ctx.count('functions analysed', len(E.fns_seen))

    def leaves(self, *ts):
        """Record paths (field of the part, path inside the record) the terms depend on."""
        E, r, seen, gs = self.E, set(), set(), set()

        def path(t):
            p = []
            while t.op in ('f', 'vf'):
                p.append(('f', t.a[1]) if t.op == 'f' else ('vf', t.a[1], t.a[2]))
                t = t.a[0]
            if t.op == 'S' and len(t.a) > 4 and getattr(t.a[4], 'op', '') == 'f' and t.a[4].a[0] is self.part:
                return t.a[4].a[1], tuple(p[::-1])
            return None

        def go(t):
            if not hasattr(t, 'op'):
                if isinstance(t, tuple):
                    for x in t:
                        go(x)
                return
            if t in seen:
                return
            seen.add(t)
            if t.op in ('f', 'vf'):
                p = path(t)
                if p:
                    r.add(p)
                    return
            if t.op == 'g':
                for g, x in t.a[0]:
                    gb(g)
                    go(x)
                return
            if t.op == 'b':
                gb(t.a[0])
                return
            for x in t.a:
                go(x)

        def gb(g):
            if g in (0, 1) or g in gs:
                return
            gs.add(g)
            for v in E.B.support(g):
                for x in E.vars[v][1:]:
                    go(x)
        for t in ts:
            if isinstance(t, int):
                gb(t)
            else:
                go(t)
        return r

    def attr(self, path, tag, key, only=None):
        """Record paths feeding attribute `key` of <tag> under `path`."""
        r = set()
        for o in self.outs:
            if o.tag == tag and path_of(self, o) == path:
                if key is None:
                    r |= self.leaves(o.guard)
                elif key in o.attrs:
                    r |= self.leaves(o.attrs[key])
        return r


def run(ctx):
    P = ctx.P
    fn, close = ctx.fn('StylePart::get_style_id_mut'), ctx.impl('XmlDocumentPartCommon', 'StylePart', 'close_document')
    new = ctx.impl('XmlDocumentPart', 'StylePart', 'new')
    S = adt(P, 'StyleSetting')
    ctx.need('style resolution, constructor and closing of the style part', sum(x is not None for x in (fn, close, new, S)), 4)
    if None in (fn, close, new, S):
        return
    names = fields(P, 'StyleSetting')
    part, setting = mk('S', (), 0, 'part', True), mk('S', (), 0, 'setting', True)
    W = Tables(ctx, part, close)
    E = Engine(P, budget=400000)
    E.keep_exits = True
    st = State(1, {})
    root = ('H', 'part')
    st.st[root] = part
    r = E.call_fn(st, fn, [Ref(root), setting], ('set', 0, fn.key), ())
    ctx.count('functions analysed', len(E.fns_seen))
    ctx.count('calls resolved', E.calls_seen)
    Q = Req(ctx, E, st, st.st[root], part, setting, names, r, W, fn)
    Q.check()
    loaded(ctx, P, new, Q)


class Req:
    def __init__(self, ctx, E, st, after, part, setting, names, result, W, fn):
        self.ctx, self.E, self.st, self.after, self.part, self.setting, self.names, self.result, self.W, self.fn = \
            ctx, E, st, after, part, setting, names, result, W, fn
        self.path_records = {}

    def set(self, name):
        return mk('f', self.setting, self.names.index(name)) if name in self.names else None

    def cachehit(self, d):
        """Is the atom about the request cache? -> it is taken as empty."""
        for x in d[1:]:
            if hasattr(x, 'op') and mentions(x, lambda z: z.op == 'f' and z.a[0] is self.part and z.a[1] in self.cachefields):
                if d[0] == 'x' and x.op == 'discr':
                    return int(d[2] == 0)
                return 0
        return None

    def base(self, d):
        c = self.cachehit(d)
        if c is not None:
            return c
        if d[0] in ('okcall', 'parseok', 'fits'):
            return 1
        return None

    # -------------------------------------------------- records added to a table
    def added(self, c):
        """[(guard, record term)] pushed to the table in field c, and the alternatives of the table."""
        E = self.E
        v = E.proj(self.after, ('f', c))
        out = []
        for g, t in E.alts(v):
            if t.op == 'vec':
                for eg, mult, x, d in t.a[1]:
                    out.append((E.B.AND(g, eg), x, d, t))
        return out

    def check(self):
        ctx, E, W = self.ctx, self.E, self.W
        P = ctx.P
        pf = fields(P, 'StylePart')
        tabs = {}
        for cont, rec in dict(numFmts='numFmt', fonts='font', fills='fill', borders='border', cellXfs='xf', cellStyleXfs='xf').items():
            L = set()
            for o in W.outs:
                if path_of(W, o)[:1] == [cont]:
                    for v in o.attrs.values():
                        L |= W.leaves(v)
            cs = {c for c, p in L}
            if len(cs) != 1:
                ctx.unknown('table of <%s>' % cont, 'fields %s' % sorted(cs))
                ctx.need('table written as <%s>' % cont, 0, 1)
                return
            tabs[cont] = cs.pop()
        self.tabs = tabs
        self.cachefields = {i for i, n in enumerate(pf) if i not in tabs.values() and i > 2}
        for c in tabs.values():
            self.cachefields.discard(c)
        self.fonts()
        self.fills()
        self.borders()
        self.formats()
        self.cache()

    def one(self, cont):
        """The record pushed to a table: (guard under the base assumptions, record, table term)."""
        E, ctx = self.E, self.ctx
        ps = self.added(self.tabs[cont])
        recs = {}
        for g, x, d, t in ps:
            for g2, y in E.alts(x):
                recs.setdefault(y, []).append((E.B.AND(g, g2), d, t))
        if not recs:
            ctx.bad('%s: nothing added' % cont, 'a request that matches no record of <%s> adds none' % cont)
            return None
        return [(y, g, d, t) for y, l in recs.items() for g, d, t in l]

    def record(self, cont):
        """Record struct of the pushed pair, with its lookup: (record, hash term, pos S, found bdd)."""
        E, ctx = self.E, self.ctx
        got = self.one(cont)
        if not got:
            return None
        y, g, d, t = got[0]
        for yy, gg, dd, tt in got:
            if dd != 'b':
                ctx.bad('%s: added at the front' % cont, 'the requested record is not added at the end of <%s>, which shifts the ids of the others' % cont)
                return None
        if y.op != 'agg' or len(y.a[2]) != 2:
            ctx.unknown('record of <%s>' % cont, fmt(y, 2)[:80])
            return None
        h, rec = y.a[2]
        return rec, h, t, got

    def lookup(self, cont):
        """(position symbol, hit condition) of the search of the table."""
        E, c = self.E, self.tabs[cont]
        r = []
        for S, f in E.finds.items():
            hit, item, what = f[0], f[1], f[2]
            if self.table_of(item) == c:
                r.append((S, hit, item, what))
        return r

    def table_of(self, t):
        """Part field whose list the item comes from."""
        for i in range(12):
            if t.op == 'ref':
                p = [q for q in t.a[1] if q[0] == 'f']
                if t.a[0] == ('H', 'part'):
                    return p[0][1] if p else None
                r = t.a[0]
                if r[0] == 'V':
                    t = r[1]
                    continue
                return None
            if t.op == 'f' and t.a[0] is self.part:
                return t.a[1]
            if t.op in ('f', 'vf'):
                t = t.a[0]
            elif t.op == 'S' and len(t.a) > 4 and hasattr(t.a[4], 'op'):
                t = t.a[4]
            elif t.op == 'vec':
                t = t.a[0]
            else:
                return None
        return None

    def val(self, rec, path):
        v = rec
        for p in path:
            v = self.E.proj(v, p)
        return v

    # -------------------------------------------------- comparing settings
    def same(self, v, want, label):
        """Is v (a record field) the setting term `want` (possibly rebuilt field by field)?"""
        E = self.E
        if v is want:
            return True
        if v.op == 'agg':
            fs = v.a[2]
            if all(self.same(x, E.proj(want, ('f', i)), label) for i, x in enumerate(fs)) and fs:
                return True
            return False
        if v.op in ('tostr', 'fmt1', 'cast') and v.a and not cut(v):
            x = [y for y in v.a if hasattr(y, 'op')]
            return bool(x) and self.same(x[-1], want, label)
        if v.op == 'cat' and len(v.a) == 1:
            x = v.a[0]
            return hasattr(x, 'op') and self.same(x, want, label) or isinstance(x, tuple) and len(x) == 1 and self.same(x[0], want, label)
        if v.op == 'g':
            return all(self.same(x, want, label) for g, x in v.a[0])
        return False

    def field(self, cont, rec, paths, want, label, opt=False):
        """The record fields `paths` hold the setting `want` (inside Some if opt)."""
        ctx, E = self.ctx, self.E
        tops = {p[:2] for c, p in paths if c == self.tabs[cont]}
        # p[0] selects the record in the pair
        tops = {p for p in tops if p and p[0] == ('f', 1)}
        if not tops:
            ctx.unknown('%s of <%s>' % (label, cont), 'no record field feeds it')
            return
        if len(tops) > 1:
            ctx.unknown('%s of <%s>' % (label, cont), 'several record fields: %s' % sorted(tops))
            return
        p = next(iter(tops))
        v = self.val(rec, p[1:])
        ok = False
        for g, x in E.alts(v):
            if not pkg.guard_case(E, g, self.base):
                continue
            y = x
            if opt and x.op == 'agg' and x.a[1] == 1 and len(x.a[2]) == 1:
                y = x.a[2][0]
            if self.same(y, want, label):
                ok = True
            else:
                ctx.bad('%s: not as requested' % label, 'the %s of the record for a request is %s, not the requested one' % (label, fmt(x, 4)[:100]))
                return
        if ok:
            ctx.ok('requested settings', label)

    # -------------------------------------------------- tables
    def fonts(self):
        ctx, E, W = self.ctx, self.E, self.W
        r = self.record('fonts')
        if r is None:
            return
        rec, h, t, got = r
        base = ['fonts', 'font']
        for tag, key, name, opt in (('sz', 'val', 'font_size', 0), ('name', 'val', 'font_family', 0)):
            for rec, *_ in self.recs('fonts'):
                self.field('fonts', rec, W.attr(base, tag, key), self.set(name), 'font ' + tag, opt)
        for rec, *_ in self.recs('fonts'):
            cl = set()
            for k in ('theme', 'rgb', 'indexed'):
                cl |= W.attr(base, 'color', k)
            self.field('fonts', rec, cl, self.set('text_color'), 'font color', True)
            for tag, name in (('b', 'is_bold'), ('i', 'is_italic')):
                self.field('fonts', rec, self.guard_leaves('fonts', base, tag), self.set(name), 'font ' + tag)
            single, double = set(), set()
            for o in W.outs:
                if o.tag == 'u' and path_of(W, o) == base:
                    (double if 'val' in o.attrs else single).update(p for p in W.leaves(o.guard) if len(p[1]) == 2)
            both = single & double
            if single and double and not both:
                self.field('fonts', rec, single, self.set('is_underline'), 'font underline')
                self.field('fonts', rec, double, self.set('is_double_underline'), 'font double underline')
            else:
                ctx.unknown('font underline', 'fields %s / %s' % (sorted(single), sorted(double)))
        self.search('fonts')

    def guard_leaves(self, cont, base, tag):
        W = self.W
        return {p for p in W.attr(base, tag, None) if p[0] == self.tabs[cont] and len(p[1]) == 2}

    def recs(self, cont):
        E = self.E
        for y, g, d, t in self.one(cont) or ():
            if d != 'b':
                self.ctx.bad('%s: added at the front' % cont, 'the requested record is not added at the end of <%s>, which shifts the ids of the others' % cont)
            if y.op == 'agg' and len(y.a[2]) == 2 and pkg.guard_case(E, g, self.base):
                yield y.a[2][1], y.a[2][0], g, t

    def fills(self):
        ctx, E, W = self.ctx, self.E, self.W
        base = ['fills', 'fill']
        PT = variants(ctx.P, 'PatternTypeValues')
        for rec, h, g, t in self.recs('fills'):
            colours = {}
            for tag, name in (('fgColor', 'foreground_color'), ('bgColor', 'background_color')):
                L = set()
                for k in ('theme', 'rgb', 'indexed'):
                    L |= W.attr(base + ['patternFill'], tag, k)
                tops = {p[1][:2] for p in L if p[0] == self.tabs['fills']}
                if len(tops) != 1:
                    ctx.unknown('fill ' + tag, 'fields %s' % sorted(tops))
                    continue
                v = self.val(rec, next(iter(tops))[1:])
                src = self.set(name)
                rgb = variants(ctx.P, 'ColorSettingTypeValues').index('Rgb') if 'Rgb' in variants(ctx.P, 'ColorSettingTypeValues') else None
                for present in (0, 1):
                    def dec(d, present=present, src=src):
                        if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and d[1].a[0] is src:
                            return int(d[2] == present)
                        return self.base(d)
                    for w, x in pkg.case(E, v, dec):
                        okv = False
                        if x is src:
                            okv = False
                        elif x.op == 'agg' and x.a[1] == 0 and not x.a[2]:
                            okv = not present
                        elif x.op == 'agg' and x.a[1] == 1 and present:
                            c = x.a[2][0]
                            if c.op == 'agg' and len(c.a[2]) == 2:
                                kind, value = c.a[2]
                                okv = kind.op == 'agg' and kind.a[1] == rgb and self.same(value, mk('vf', src, 1, 0), tag)
                        if okv:
                            ctx.ok('requested settings', 'fill %s %s' % (tag, 'given' if present else 'none'))
                        else:
                            ctx.bad('fill %s: not as requested' % tag, 'a request %s %s gets the fill %s %s' % ('with' if present else 'without', name, tag, fmt(x, 5)[:100]))
            L = W.attr(base, 'patternFill', 'patternType')
            tops = {p[1][:2] for p in L if p[0] == self.tabs['fills']}
            if len(tops) != 1:
                ctx.unknown('fill pattern', 'fields %s' % sorted(tops))
                continue
            v = self.val(rec, next(iter(tops))[1:])
            src = self.set('pattern_type')
            for i, n in enumerate(PT):
                for fg in (0, 1):
                    for bg in (0, 1):
                        def dec(d, i=i, fg=fg, bg=bg):
                            if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr':
                                if d[1].a[0] is src:
                                    return int(d[2] == i)
                                if d[1].a[0] is self.set('foreground_color'):
                                    return int(d[2] == fg)
                                if d[1].a[0] is self.set('background_color'):
                                    return int(d[2] == bg)
                            return self.base(d)
                        for w, x in pkg.case(E, v, dec):
                            k = i if x is src else x.a[1] if x.op == 'agg' and 'PatternTypeValues' in str(x.a[0]) else None
                            if k is None:
                                ctx.unknown('fill pattern', fmt(x, 3)[:100])
                            elif n == 'None' and (fg or bg):
                                if PT[k] == 'Solid':
                                    ctx.ok('requested settings', 'a requested fill colour shows')
                                else:
                                    ctx.bad('fill colour without pattern', 'a request with a fill colour gets pattern %s, so the colour does not show' % PT[k])
                            elif k == i:
                                ctx.ok('requested settings', 'fill pattern ' + n)
                            else:
                                ctx.bad('fill pattern %s: %s' % (n, PT[k]), 'a request for pattern %s gets %s' % (n, PT[k]))
        self.search('fills')

    def borders(self):
        ctx, E, W = self.ctx, self.E, self.W
        for rec, h, g, t in self.recs('borders'):
            for side in SIDES:
                L = W.attr(['borders', 'border'], side, 'style')
                for k in ('theme', 'rgb', 'indexed'):
                    L |= W.attr(['borders', 'border', side], 'color', k)
                self.field('borders', rec, L, self.set('border_' + side), 'border ' + side)
        self.search('borders')

    # -------------------------------------------------- searching
    def search(self, cont):
        """The table is searched for a record equal in every requested setting; the new record is added exactly when none is."""
        ctx, E = self.ctx, self.E
        ls = self.lookup(cont)
        if not ls:
            ctx.unknown('search of <%s>' % cont, 'no search of the table recognised')
            return
        for S, hit, item, what in ls:
            part = set(E.finds[S][3]) & {'skip', 'take', 'step_by', 'skip_while', 'take_while'}
            if part:
                ctx.bad('%s: partial search' % cont, 'the search of <%s> looks at a part of the table only (%s), so a record that exists is added again' % (cont, ', '.join(sorted(part))))
            for rec, h, g, t in self.recs(cont):
                want = self.setting_leaves(rec)
                have = self.setting_leaves_b(hit)
                miss = {x for x in want if not any(x is y or prefix(y, x) or prefix(x, y) for y in have)}
                if cont == 'numFmts':
                    miss = set()
                if miss:
                    ctx.bad('%s: compared without %s' % (cont, self.names[min(x.a[1] for x in map(self.top, miss))]),
                            'the search of <%s> does not compare %s, so a request can get a record that differs in it' % (
                                cont, ', '.join(sorted({self.names[self.top(x).a[1]] for x in miss}))))
                else:
                    ctx.ok('whole record compared', cont)
                canon = self.canonical(rec)
                if canon is not None and h.op == 'hashfin':
                    if h is canon:
                        ctx.ok('hash of the whole record', cont)
                    elif len(h.a[0]) != len(canon.a[0]):
                        ctx.bad('%s: hash differs' % cont, 'the hash stored with a requested record of <%s> covers %d values, the hash of the record itself %d' % (
                            cont, len(h.a[0]), len(canon.a[0])))
                    else:
                        ctx.unknown('hash of <%s>' % cont, 'differs from the hash of the record')
                # equality of everything is a hit, difference in the compared value is not
                if hit in (0, 1):
                    ctx.bad('%s: search ignores the record' % cont, 'the search of <%s> does not depend on the record' % cont)
                    continue
                eqs = [v for v in E.B.support(hit) if E.vars[v][0] == 'eq' and any(x is h or x.op == 'hashfin' for x in E.vars[v][1:])]
                if not eqs:
                    self.by_fields(cont, S, hit, item, rec)
                    continue
                yes = pkg.guard_case(E, E.B.subst(hit, {v: 1 for v in eqs}), lambda d: 1 if d[0] == 'next' else self.base(d))
                no = E.B.subst(hit, {v: 0 for v in eqs})
                if no == 0 and yes == 1:
                    ctx.ok('search hit', cont)
                elif no != 0:
                    ctx.bad('%s: search hit' % cont, 'the search of <%s> finds records that differ' % cont)
                else:
                    ctx.unknown('search of <%s>' % cont, E.bfmt(yes, 1)[:100])

    def by_fields(self, cont, S, hit, item, rec):
        """A search that compares the record field by field: a difference in any field must rule the record out."""
        ctx, E = self.ctx, self.E
        sup = [(v, E.vars[v]) for v in E.B.support(hit)]
        if rec.op != 'agg':
            ctx.unknown('search of <%s>' % cont, 'record not known field by field')
            return
        names = fields(ctx.P, str(rec.a[0]).split('::')[-1].strip("'")) or []

        def field_of(t):
            """k if t is (inside) field k of the record searched."""
            p = []
            while t.op in ('f', 'vf', 'discr', 'tostr', 'cast'):
                p.append(t)
                n = [x for x in t.a if hasattr(x, 'op')]
                if not n:
                    return None
                t = n[-1] if t.op == 'cast' else n[0]
            p = p[::-1]
            q = [x.a[1] for x in p if x.op == 'f']
            if self.table_of(t) == self.tabs[cont] or t is item:
                return q[1] if len(q) > 1 and q[0] == 1 else None
            return None
        for k, val in enumerate(rec.a[2]):
            want = self.setting_leaves(val)
            if not want:
                continue
            mine = [(v, d) for v, d in sup if any(hasattr(x, 'op') and field_of(x) == k for x in d[1:])]
            name = names[k] if k < len(names) else k
            if not mine:
                ctx.bad('%s: compared without %s' % (cont, name), 'the search of <%s> does not compare %s, so a request can get a record that differs in it' % (cont, name))
                continue
            if all(d[0] == 't' for v, d in mine) and len(mine) == 1:
                req = [v for v, d in sup if d[0] == 't' and d[1] in want]
                bad = [x for x in (0, 1) if len(req) == 1 and E.B.subst(hit, {mine[0][0]: x, req[0]: 1 - x})]
                if len(req) != 1:
                    ctx.unknown('search of <%s>: %s' % (cont, name), E.bfmt(hit, 1)[:100])
                elif bad:
                    ctx.bad('%s: compared without %s' % (cont, name), 'the search of <%s> accepts a record whose %s differs from the request' % (cont, name))
                else:
                    ctx.ok('whole record compared', '%s %s' % (cont, name))
                continue
            eqs = {v: 0 for v, d in mine if d[0] == 'eq'}
            if eqs and E.B.subst(hit, eqs) == 0:
                ctx.ok('whole record compared', '%s %s' % (cont, name))
            else:
                ctx.unknown('search of <%s>: %s' % (cont, name), E.bfmt(hit, 1)[:100])

    def top(self, t):
        while t.op in ('f', 'vf', 'discr') and t.a[0] is not self.setting:
            t = t.a[0]
        return t

    def setting_leaves(self, t):
        E, r, seen = self.E, set(), set()

        def go(t):
            if isinstance(t, tuple):
                for x in t:
                    go(x)
                return
            if not hasattr(t, 'op') or t in seen:
                return
            seen.add(t)
            if t.op in ('f', 'vf', 'discr'):
                b = t
                while b.op in ('f', 'vf', 'discr'):
                    b = b.a[0]
                if b is self.setting:
                    r.add(t)
                    return
            if t.op == 'g':
                for g, x in t.a[0]:
                    gb(g)
                    go(x)
                return
            if t.op == 'b':
                gb(t.a[0])
                return
            for x in t.a:
                go(x)
        gs = set()

        def gb(g):
            if g in (0, 1) or g in gs:
                return
            gs.add(g)
            for v in E.B.support(g):
                for x in E.vars[v][1:]:
                    go(x)
        if isinstance(t, int):
            gb(t)
        else:
            go(t)
        return r

    def setting_leaves_b(self, g):
        return self.setting_leaves(g)

    def canonical(self, rec):
        if rec.op != 'agg':
            return None
        name = str(rec.a[0]).split('::')[-1].strip("'")
        return hash_of(self.ctx, self.E, self.st, name, rec)

    # -------------------------------------------------- cell formats
    def formats(self):
        ctx, E, W = self.ctx, self.E, self.W
        for cont in ('cellXfs', 'cellStyleXfs'):
            for rec, h, g, t in self.recs(cont):
                for key, ref in (('fontId', 'fonts'), ('fillId', 'fills'), ('borderId', 'borders')):
                    self.id_field(cont, rec, key, ref)
                if cont == 'cellXfs':
                    self.id_field(cont, rec, 'xfId', 'cellStyleXfs')
                self.number_format(cont, rec)
                for key, ref in (('applyFont', 'fonts'), ('applyFill', 'fills'), ('applyBorder', 'borders')):
                    self.apply(cont, rec, key, ref)
                self.apply_numfmt(cont, rec)
                self.align(cont, rec)
            self.search(cont)
        self.returned()

    def attr_value(self, cont, rec, tag, key):
        base = [cont] if tag == 'xf' else [cont, 'xf']
        L = {p[1][:2] for p in self.W.attr(base, tag, key) if p[0] == self.tabs[cont]}
        if tag == 'alignment' and len(L) > 1:
            direct = set()
            for o in self.W.outs:
                if o.tag == tag and path_of(self.W, o) == base and key in o.attrs:
                    for g, x in self.W.E.alts(o.attrs[key]):
                        if x.op not in ('str', 'absent'):
                            direct |= {p[1][:2] for p in self.W.leaves(x) if p[0] == self.tabs[cont]}
            if len(direct) == 1:
                return self.val(rec, next(iter(direct))[1:])
            # the field whose values are told apart by the tokens written
            n = {}
            for o in self.W.outs:
                if o.tag == tag and path_of(self.W, o) == base and key in o.attrs:
                    for g, x in self.W.E.alts(o.attrs[key]):
                        for v in self.W.E.B.support(g) if x.op == 'str' and g not in (0, 1) else ():
                            d = self.W.E.vars[v]
                            for p in self.W.leaves(*d[1:2]):
                                if p[0] == self.tabs[cont]:
                                    n.setdefault(p[1][:2], set()).add(d)
            if n:
                L = {max(n, key=lambda p: len(n[p]))}
        if len(L) != 1:
            return None
        return self.val(rec, next(iter(L))[1:])

    def found_case(self, ref, found):
        c = self.tabs[ref]
        E = self.E

        def dec(d):
            b = self.base(d)
            if b is not None:
                return b
            if d[0] in ('next', 'eq', 'exists', 'existsattr') and any(
                    hasattr(x, 'op') and mentions(x, lambda z: z.op == 'f' and z.a[0] is self.part and z.a[1] == c) for x in d[1:]):
                return found
            return None
        return dec

    def is_end(self, t, ref):
        """Position of the record just added to table ref: old length, or new length - 1."""
        E, c = self.E, self.tabs[ref]
        while t.op in ('cast', 'tostr') and t.a and not cut(t):
            t = [x for x in t.a if hasattr(x, 'op')][-1]
        base = mk('f', self.part, c)
        if t.op == 'len' and t.a[0] is base:
            return True
        if t.op == 'plus' and t.a[1] == -1 and t.a[0].op == 'len':
            v = t.a[0].a[0]
            return v.op == 'vec' and v.a[0] is base and len(v.a[1]) == 1
        if t.op == 'op' and t.a[0] == 'Sub' and t.a[2].op == 'int' and t.a[2].a[0] == 1 and t.a[1].op == 'len':
            v = t.a[1].a[0]
            return v.op == 'vec' and v.a[0] is base and len(v.a[1]) == 1
        return False

    def is_pos(self, t, ref):
        while t.op in ('cast', 'tostr') and t.a and not cut(t):
            t = [x for x in t.a if hasattr(x, 'op')][-1]
        return any(t is S and not set(self.E.finds[S][3]) & SHIFT for S, hit, item, what in self.lookup(ref) if what in ('position', 'rposition')) \
            or t.op == 'S' and str(t.a[2]).rstrip('~') == 'index' and bool(self.E.posof.get(t.a[:3])) \
            and all(self.table_of(y) == self.tabs[ref] for y in self.E.posof[t.a[:3]])

    def id_value(self, v, ref, label, when=1):
        ctx, E = self.ctx, self.E
        for found in (1, 0):
            fc = self.found_case(ref, found)
            hits = [h for S, h, item, what in self.lookup(ref)]
            # without a position there is nothing but the comparison itself to tell the cases apart
            if hits:
                fc = self.base
                h = 0
                for x in hits:
                    h = E.B.OR(h, x)
                when1 = E.B.AND(when, h if found else E.B.NOT(h))
            else:
                when1 = when
            here = pkg.guard_case(E, when1, fc)
            for w, x in pkg.case(E, v, fc):
                if not E.B.AND(w, here):
                    continue
                if found and self.is_pos(x, ref) or not found and self.is_end(x, ref):
                    ctx.ok('ids', '%s %s' % (label, 'found' if found else 'added'))
                elif x.op in ('int', 'f', 'len', 'plus', 'op', 'S') or cut(x) or self.is_pos(x, ref) or self.is_end(x, ref):
                    ctx.bad('%s: %s id' % (label, 'existing' if found else 'new'), '%s is %s when the record %s' % (
                        label, fmt(x, 3)[:100], 'is already in <%s>' % ref if found else 'is added to <%s>' % ref))
                else:
                    ctx.unknown(label, fmt(x, 3)[:100])

    def id_field(self, cont, rec, key, ref):
        v = self.attr_value(cont, rec, 'xf', key)
        if v is None:
            self.ctx.unknown('%s@%s' % (cont, key), 'no single record field feeds it')
            return
        self.id_value(v, ref, '%s %s' % (cont, key))

    def apply(self, cont, rec, key, ref):
        """A format that names a record other than the first one says so."""
        ctx, E = self.ctx, self.E
        v = self.attr_value(cont, rec, 'xf', key)
        if v is None:
            return
        for found in (1, 0):
            fc = self.found_case(ref, found)

            def dec(d, fc=fc):
                if d[0] == 'lt' and d[1].op == 'int' and d[1].a[0] == 0:
                    return 1
                if d[0] == 'x' and hasattr(d[1], 'op') and d[2] in (0, '0') and (self.is_pos(d[1], ref) or self.is_end(d[1], ref)):
                    return 0
                return fc(d)
            for w, x in pkg.case(E, v, dec):
                on = x.op == 'agg' and x.a[1] == 1 and x.a[2] and x.a[2][0].op == 'int' and x.a[2][0].a[0] == 1
                if on:
                    ctx.ok('apply flags', '%s %s' % (cont, key))
                elif x.op == 'agg':
                    ctx.bad('%s %s: not set' % (cont, key), 'a format with a %s that is not the first is not marked %s (%s)' % (ref[:-1], key, fmt(x, 3)[:60]))
                else:
                    ctx.unknown('%s %s' % (cont, key), fmt(x, 3)[:80])

    def apply_numfmt(self, cont, rec):
        ctx, E = self.ctx, self.E
        v = self.attr_value(cont, rec, 'xf', 'applyNumberFormat')
        if v is None:
            return
        VS = variants(ctx.P, 'NumberFormatValues')
        src = self.set('number_format')
        for i, n in enumerate(VS):
            if n == 'General':
                continue
            for w, x in pkg.case(E, v, self.with_setting(src, i)):
                if x.op == 'agg' and x.a[1] == 1 and x.a[2] and x.a[2][0].op == 'int' and x.a[2][0].a[0] == 1:
                    ctx.ok('apply flags', '%s applyNumberFormat %s' % (cont, n))
                elif x.op == 'agg':
                    ctx.bad('%s applyNumberFormat %s: not set' % (cont, n), 'a format with number format %s is not marked applyNumberFormat' % n)
                else:
                    ctx.unknown('%s applyNumberFormat' % cont, fmt(x, 3)[:80])

    def with_setting(self, src, i, more=None):
        def dec(d):
            if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and d[1].a[0] is src:
                return int(d[2] == i)
            if d[0] == 'eq' and any(x is src for x in d[1:]):
                o = [x for x in d[1:] if x is not src]
                if o and getattr(o[0], 'op', '') == 'agg':
                    return int(o[0].a[1] == i)
            if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and d[1].a[0] is self.set('custom_number_format'):
                return int(d[2] == 1)
            b = self.base(d)
            return b if b is not None else more(d) if more else None
        return dec

    def number_format(self, cont, rec):
        ctx, E = self.ctx, self.E
        v = self.attr_value(cont, rec, 'xf', 'numFmtId')
        if v is None:
            ctx.unknown('%s numFmtId' % cont, 'no single record field feeds it')
            return
        VS = variants(ctx.P, 'NumberFormatValues')
        src = self.set('number_format')
        for i, n in enumerate(VS):
            if n == 'Custom':
                continue
            want = BUILTIN.get(n)
            got = {num(x) for w, x in pkg.case(E, v, self.with_setting(src, i))}
            if got == {want}:
                ctx.ok('built-in number formats', n)
            elif None in got:
                ctx.unknown('%s numFmtId %s' % (cont, n), '')
            else:
                ctx.bad('%s numFmtId %s' % (cont, n), 'a request for number format %s gets id %s, the built-in id is %s' % (n, sorted(got), want))
        if 'Custom' not in VS:
            return
        i = VS.index('Custom')
        c = self.tabs['numFmts']
        code = mk('vf', self.set('custom_number_format'), 1, 0)
        idp = {p[1][1:] for p in self.W.attr(['numFmts'], 'numFmt', 'numFmtId')}
        cdp = {p[1][1:] for p in self.W.attr(['numFmts'], 'numFmt', 'formatCode')}
        if len(idp) != 1 or len(cdp) != 1:
            ctx.unknown('number format records', '%s %s' % (idp, cdp))
            return
        idp, cdp = idp.pop(), cdp.pop()
        mine = mk('f', self.part, c)

        def about(d):
            return any(hasattr(x, 'op') and mentions(x, lambda z: z is mine) for x in d[1:])
        # the search compares the code of the record
        hits = self.lookup('numFmts')
        for S, hit, item, what in hits:
            sup = [E.vars[q] for q in E.B.support(hit)] if hit not in (0, 1) else []
            eqs = [d for d in sup if d[0] == 'eq' and any(x is code for x in d[1:])]
            if eqs:
                o = [x for x in eqs[0][1:] if x is not code][0]
                p = []
                while o.op == 'f':
                    p.append(('f', o.a[1]))
                    o = o.a[0]
                if tuple(p[::-1])[1:] == cdp and p[-1] == ('f', 1):
                    ctx.ok('custom format search', 'by its code')
                else:
                    ctx.bad('custom format search', 'a custom number format is searched by comparing its code with field %s of the records' % (p[::-1],))
            else:
                ctx.bad('custom format search', 'a custom number format is found without comparing its code (%s)' % E.bfmt(hit, 1)[:100])
        if not hits:
            seen = set()
            for w, x in pkg.case(E, v, self.with_setting(src, i)):
                seen |= {E.vars[q] for q in E.B.support(w)} if w not in (0, 1) else set()
            eqs = [d for d in seen if d[0] in ('eq', 'x') and about(d)]
            for d in eqs:
                if any(x is code for x in d[1:]):
                    ctx.ok('custom format search', 'by its code')
                else:
                    ctx.bad('custom format search', 'a custom number format is looked for by comparing %s' % ' with '.join(fmt(x, 2)[:60] for x in d[1:] if hasattr(x, 'op')))
            if not eqs:
                ctx.bad('custom format search', 'the id of a custom number format does not depend on the formats already in the table')
        for found in (1, 0):
            def more(d, found=found):
                if d[0] == 'next' and about(d):
                    return 1
                if d[0] == 'eq' and about(d):
                    return found
                return None
            for w, x in pkg.case(E, v, self.with_setting(src, i, more)):
                y = strip(x)
                if found:
                    p, z = [], y
                    while z.op == 'f':
                        p.append(('f', z.a[1]))
                        z = z.a[0]
                    if tuple(p[::-1])[1:] == idp and z.op == 'S' and mentions(z, lambda q: q is mine):
                        ctx.ok('custom format id', 'existing')
                    elif y.op in ('int', 'f', 'plus', 'op', 'S', 'len'):
                        ctx.bad('%s numFmtId Custom: existing' % cont, 'a custom number format already in the table gets id %s' % fmt(y, 3)[:100])
                    else:
                        ctx.unknown('%s numFmtId Custom' % cont, fmt(y, 3)[:100])
                else:
                    if fresh(E, y, mine, idp):
                        ctx.ok('custom format id', 'new: %s' % fmt(y, 2)[:60])
                    elif y.op in ('int', 'f', 'op', 'S', 'len', 'plus'):
                        ctx.bad('%s numFmtId Custom: new' % cont, 'a new custom number format gets id %s, which may be a built-in id or one already used' % fmt(y, 3)[:100])
                    else:
                        ctx.unknown('%s numFmtId Custom' % cont, fmt(y, 3)[:100])
        nofmt = 0
        for rec2, h, g, t in self.recs('numFmts'):
            nofmt += 1
            a, b = self.val(rec2, idp), self.val(rec2, cdp)

            def more(d):
                if d[0] == 'next' and about(d):
                    return 1
                if d[0] == 'eq' and about(d):
                    return 0
                return None
            dec = self.with_setting(src, i, more)
            if b is code or all(x is code for w, x in pkg.case(E, b, dec)):
                ctx.ok('requested settings', 'custom format code')
            else:
                ctx.bad('custom format code', 'the record of a custom number format holds %s, not the requested code' % fmt(b, 3)[:80])
            x1 = {strip(x) for w, x in pkg.case(E, a, dec)}
            x2 = {strip(x) for w, x in pkg.case(E, v, dec)}
            if x1 == x2:
                ctx.ok('custom format id', 'record and format agree')
            else:
                ctx.bad('custom format id differs', 'a new custom number format is recorded with id %s, the cell format names %s' % (
                    [fmt(x, 2)[:60] for x in x1], [fmt(x, 2)[:60] for x in x2]))
            gg = pkg.guard_case(E, g, dec)
            if gg != 1:
                ctx.bad('custom format not added', 'a custom number format that is not in the table is added only when %s' % (E.bfmt(gg, 1)[:100] if gg else 'never'))
        ctx.need('number format records added', nofmt, 1)

    def align(self, cont, rec):
        ctx, E = self.ctx, self.E
        for key, name in (('wrapText', 'is_wrap_text'), ('vertical', 'vertical_alignment'), ('horizontal', 'horizontal_alignment')):
            v = self.attr_value(cont, rec, 'alignment', key)
            src = self.set(name)
            if v is None:
                ctx.unknown('%s %s' % (cont, key), 'no single record field feeds it')
                continue
            if key == 'wrapText':
                for on in (0, 1):
                    def dec(d, on=on):
                        if d[0] == 't' and d[1] is src:
                            return on
                        return self.base(d)
                    for w, x in pkg.case(E, v, dec):
                        x = strip(x)
                        if x.op == 'int' and x.a[0] == on or x is src:
                            ctx.ok('requested settings', '%s wrap %d' % (cont, on))
                        elif x.op in ('int', 'f', 'b'):
                            ctx.bad('%s wrapText' % cont, 'a request %s wrap text gets %s' % ('with' if on else 'without', fmt(x, 3)[:60]))
                        else:
                            ctx.unknown('%s wrapText' % cont, fmt(x, 3)[:60])
            elif self.same(v, src, key):
                ctx.ok('requested settings', '%s %s' % (cont, key))
            else:
                ctx.bad('%s %s: not as requested' % (cont, key), 'the %s alignment of the format is %s, not the requested one' % (key, fmt(v, 4)[:100]))
        a = self.attr_value(cont, rec, 'xf', 'applyAlignment')
        if a is None:
            return
        NV, NH = variants(ctx.P, 'VerticalAlignmentValues').index('None'), variants(ctx.P, 'HorizontalAlignmentValues').index('None')
        vs, hs, ws = self.set('vertical_alignment'), self.set('horizontal_alignment'), self.set('is_wrap_text')
        for vi, n in enumerate(variants(ctx.P, 'VerticalAlignmentValues')):
            for hi, m in enumerate(variants(ctx.P, 'HorizontalAlignmentValues')):
                for wr in (0, 1):
                    if (vi == NV) + (hi == NH) + (wr == 0) != 2:
                        continue

                    def dec(d, vi=vi, hi=hi, wr=wr):
                        if d[0] == 't' and d[1] is ws:
                            return wr
                        if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and d[1].a[0] is vs:
                            return int(d[2] == vi)
                        if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and d[1].a[0] is hs:
                            return int(d[2] == hi)
                        return self.base(d)
                    for w, x in pkg.case(E, a, dec):
                        if x.op == 'agg' and x.a[1] == 1 and x.a[2] and x.a[2][0].op == 'int' and x.a[2][0].a[0] == 1:
                            ctx.ok('apply flags', '%s applyAlignment' % cont)
                        elif x.op == 'agg':
                            ctx.bad('%s applyAlignment: not set' % cont, 'a format with alignment %s/%s/%d is not marked applyAlignment' % (n, m, wr))
                        else:
                            ctx.unknown('%s applyAlignment' % cont, fmt(x, 3)[:80])

    def returned(self):
        ctx, E = self.ctx, self.E
        n = 0
        for g, x in E.alts(self.result):
            if not pkg.guard_case(E, g, self.base):
                continue
            if x.op == 'agg' and x.a[1] == 0 and x.a[2]:
                v = x.a[2][0]
                while v.op == 'agg' and v.a[2]:
                    v = v.a[2][0]
                n += 1
                self.id_value(mk('g', ((g, v),)) if v.op != 'g' else v, 'cellXfs', 'the returned id', g)
            elif x.op == 'agg' and x.a[1] == 1:
                # refused requests: only a custom format without a code
                cust = self.set('custom_number_format')

                def dec(d):
                    if d[0] == 'x' and getattr(d[1], 'op', '') == 'discr' and d[1].a[0] is cust:
                        return int(d[2] == 1)
                    return self.base(d)
                w = pkg.guard_case(E, g, dec)
                if w:
                    ctx.bad('request refused', 'a valid request is refused when %s' % E.bfmt(w, 1)[:120])
                else:
                    ctx.ok('refused requests', 'only a custom format without a code')
        ctx.need('returned style ids', n, 1)

    def cache(self):
        """Whatever is remembered about a request must be its own id under its own key."""
        ctx, E = self.ctx, self.E
        for c in self.cachefields:
            v = E.proj(self.after, ('f', c))
            for g, t in E.alts(v):
                if not pkg.guard_case(E, g, self.base) or t.op != 'map':
                    continue
                for k, m, val in t.a[1]:
                    have = self.setting_leaves(k)
                    for i, n in enumerate(self.names):
                        if n == 'protect':
                            continue
                        if not any(self.top(x).a[1] == i for x in have):
                            ctx.bad('cache: key without %s' % n, 'a resolved request is remembered under a key that does not include %s' % n)
                    vals = val if val.op == 'g' else mk('g', ((1, val),))
                    self.id_value(E.lift(vals, lambda x: x), 'cellXfs', 'the remembered id', g)
        ctx.ok('request cache', 'fields %s' % sorted(self.cachefields))


def prefix(a, b):
    """Is term a an ancestor (container) of b?"""
    while b.op in ('f', 'vf', 'discr'):
        if b is a:
            return True
        b = b.a[0]
    return b is a


def cut(t):
    """A number cut to eight bits."""
    return t.op == 'cast' and t.a[0] in ('u8', 'i8')


def strip(x):
    while x.op in ('cast', 'tostr') and x.a and not cut(x):
        y = [z for z in x.a if hasattr(z, 'op')]
        if not y:
            return x
        x = y[-1]
    return x


def num(x):
    x = strip(x)
    if x.op == 'int':
        return x.a[0]
    if x.op == 'parse':
        y = x.a[1]
        if y.op == 'str' and y.a[0].isdigit():
            return int(y.a[0])
    if x.op == 'str' and x.a[0].isdigit():
        return int(x.a[0])
    return None


def mentions_field(E, g, part, c):
    if g in (0, 1):
        return False
    for v in E.B.support(g):
        for x in E.vars[v][1:]:
            if hasattr(x, 'op') and mentions(x, lambda z: z.op == 'f' and z.a[0] is part and z.a[1] == c):
                return True
    return False


def fresh(E, y, table, idp):
    """Larger than every id in the table and than the built-in ids."""
    k = 0
    while y.op in ('plus', 'op', 'cast') and not (y.op == 'op' and y.a[0] == 'max'):
        if y.op == 'plus':
            k += y.a[1]
            y = y.a[0]
        elif y.op == 'op' and y.a[0] == 'Add' and y.a[2].op == 'int':
            k += y.a[2].a[0]
            y = y.a[1]
        elif y.op == 'cast':
            y = [z for z in y.a if hasattr(z, 'op')][-1]
        else:
            return False
    if k < 1:
        return False
    if y.op == 'g':
        return all(fresh(E, mk('plus', x, k), table, idp) for g, x in y.a[0])
    floor = [z.a[0] for z in y.a if getattr(z, 'op', '') == 'int'] + [z for z in y.a if isinstance(z, int)]
    if y.op == 'int':
        return y.a[0] >= 163
    if y.op == 'maxof' or y.op == 'op' and y.a[0] == 'max':
        return max(floor + [0]) >= 163 and mentions(y, lambda z: z is table)
    return False


def hash_of(ctx, E, st, name, rec):
    fn = None
    for f in ctx.P.lib.values():
        if f.trait and f.trait.split('::')[-1] == 'Hash' and '::hash' in f.short and ('::%s as ' % name) in f.short:
            fn = f
    if fn is None:
        return None
    s2 = State(st.pc, dict(st.st))
    s2.st[('H', 'rec')] = rec
    s2.st[('H', 'hasher')] = mk('hash', ())
    try:
        E.call_fn(s2, fn, [Ref(('H', 'rec')), Ref(('H', 'hasher'))], ('hash', 0, fn.key), ())
    except Dead:
        return None
    h = s2.st[('H', 'hasher')]
    return mk('hashfin', h.a[0]) if h.op == 'hash' else None


def loaded(ctx, P, new, Q):
    """Records read from the file carry the hash of the whole record, computed as for a request."""
    E = Engine(P, budget=400000)
    st = State(1, {})
    args = [mk('S', (), 0, 'arg%d' % i, True) for i in range(new.argc)]
    r = E.call_fn(st, new, args, ('new', 0, new.key), ())
    part = None
    for g, x in E.alts(r):
        if x.op == 'agg' and x.a[1] == 0 and x.a[2]:
            part = x.a[2][0]
    if part is None:
        ctx.need('loaded style tables', 0, 1)
        return
    n = 0
    for cont, c in Q.tabs.items():
        v = E.proj(part, ('f', c))
        for g, t in E.alts(v):
            if t.op != 'vec':
                continue
            for eg, mult, x, d in t.a[1]:
                for g2, y in E.alts(x):
                    if y.op != 'agg' or len(y.a[2]) != 2:
                        continue
                    h, rec = y.a[2]
                    n += 1
                    req = [hh for rr, hh, gg, tt in Q.recs(cont)]
                    if cont == 'numFmts':
                        continue
                    if h.op != 'hashfin':
                        if req and req[0].op == 'hashfin':
                            ctx.bad('%s: no hash' % cont, 'records read from <%s> are not stored with their hash, so no request ever finds them' % cont)
                        continue
                    canon = hash_of(ctx, E, st, str(rec.a[0]).split('::')[-1].strip("'"), rec) if rec.op == 'agg' else None
                    if canon is None:
                        ctx.unknown('hash of records read from <%s>' % cont, fmt(rec, 1)[:60])
                    elif canon is h:
                        ctx.ok('hash of records read', cont)
                    elif len(canon.a[0]) != len(h.a[0]):
                        ctx.bad('%s: hash of a part' % cont, 'records read from <%s> are stored with a hash of %d of their %d values' % (cont, len(h.a[0]), len(canon.a[0])))
                    else:
                        m = [i for i, (a, b) in enumerate(zip(h.a[0], canon.a[0])) if a is not b]
                        ctx.bad('%s: hash of another value' % cont, 'records read from <%s> are stored with a hash computed before they were complete (values %s differ)' % (cont, m[:5]))
    ctx.need('loaded style records', n, 5)
