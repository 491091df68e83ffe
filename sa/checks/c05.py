from .. import pkg, streval, xmlcore
from ..engine import Dead, Ref, State, fmt, mk
from ..xmlcore import StepEngine

EXPLAIN = ('The event loop of the XML reader is interpreted for one arbitrary event from an arbitrary point of the document (value flow over MIR, loop-carried variables '
           'unknown). From the resulting transition function the roles of the loop-carried variables (innermost open element, number of open elements, root seen) are '
           'established inductively, and the tree operations, the next state and the outcome are compared with the rule for every kind of event before, inside and behind '
           'the root element. Attribute collection and the placing of namespace declarations are decided in the same way.')
RULE = ('start: new element under the innermost open one with its name and all its attributes, becomes innermost; empty: the same without becoming innermost; '
        'text and CDATA: appended to the text of the innermost open element; end: parent becomes innermost; end of input: accepted only behind a complete root; '
        'anything else leaves the tree alone; second roots, text outside the root, reader errors: rejected; declarations of nested elements stay on them')
ASSUME = ['quick-xml reports events, names, attributes and entity errors as documented and checks matching end tags', 'tree operations behave as C04 shows']
PHASES = ('before the root', 'inside the root', 'behind the root')
EVENTS = ('Start', 'End', 'Empty', 'Text', 'CData', 'Comment', 'Decl', 'PI', 'DocType', 'Eof')


def strip(t):
    while t.op in ('tostr',) or t.op == 'op' and t.a[0] in ('clone', 'borrowed') or t.op == 'cat' and len(t.a[0]) == 1:
        t = t.a[0][0] if t.op == 'cat' else t.a[-1]
    return t


class Reader:
    def __init__(self, ctx):
        P = ctx.P
        self.ctx = ctx
        loops = [f for f in P.lib.values() if any(xmlcore.reads(t) for b, t in f.calls()) and f.loops]
        ctx.need('event loops', len(loops), 1)
        self.fn = loops[0] if loops else None
        self.all = loops

    def run(self, fn):
        P = self.ctx.P
        E, st = StepEngine(P, xmlcore.is_read), State(1, {})
        E.keep_exits = E.strict = True
        args = []
        for i in range(fn.argc):
            r = ('H', 'arg%d' % i)
            st.st[r] = mk('S', (), 0, 'ARG%d' % i, True)
            args.append(Ref(r))
        self.E, self.st = E, st
        try:
            self.ret = E.call_fn(st, fn, args, ('parse', 0, fn.key), ())
        except Dead:
            self.ret = None
        self.ctx.count('functions analysed', len(E.fns_seen))
        self.ctx.count('calls resolved', E.calls_seen)
        if E.head is None or self.ret is None:
            self.ctx.bad('event loop', 'the reader never comes back from its loop')
            return False
        ty = next((t for t in P.types if t.get('k') == 'adt' and t['name'].endswith('events::Event')), None)
        self.vi = {v['n']: i for i, v in enumerate(ty['v'])}
        b = None
        for s in E.back:
            b = E.join(b, s)
        self.back = b
        self.entry = {k: E.entry.st[k] for k in E.changed}
        self.values()
        return True

    # -------------------------------------------------------------- loop-carried variables
    def edges(self):
        return [(0, 'Start', 1), (0, 'Empty', 2), (1, 'Start', 1), (1, 'Empty', 1), (1, 'Text', 1), (1, 'CData', 1), (1, 'End', 1), (1, 'End', 2)] + \
               [(p, e, p) for p in (0, 1, 2) for e in ('Comment', 'Decl', 'PI', 'DocType')] + [(0, 'Text', 0), (2, 'Text', 2)]

    def values(self):
        """Per variable and phase: a set of constants, 'pos' (a positive count) or None (anything)."""
        E = self.E
        self.count = {}
        self.val = {k: [None, None, None] for k in E.changed}
        for k, S in E.changed.items():
            e = self.entry[k]
            if e.op == 'int' and e.a[0] == 0 and any(x.op == 'plus' and x.a[0] is S for g, x in E.alts(self.back.st[k])):
                # how the variable changes with each event
                self.count[k] = True
                self.val[k] = [{0}, 'pos', {0}]
        for k, S in E.changed.items():
            if k in self.count:
                continue
            e = self.entry[k]
            c = self.konst(e)
            self.val[k] = [set() if c is None else {c}, set(), set()] if c is not None else [None] * 3
        for it in range(8):
            new = {k: [None if v is None else v if v == 'pos' else set(v) for v in vs] for k, vs in self.val.items()}
            for p, ev, q in self.edges():
                for k, S in E.changed.items():
                    if k in self.count or new[k][q] is None:
                        continue
                    for g, t in self.at(self.back.st[k], p, ev):
                        c = self.konst(t)
                        if t is S:
                            new[k][q] = None if self.val[k][p] is None else new[k][q] | self.val[k][p]
                        elif c is not None:
                            new[k][q].add(c)
                        else:
                            new[k][q] = None
                        if new[k][q] is None:
                            break
            if new == self.val:
                break
            self.val = new

    @staticmethod
    def konst(t):
        if t.op == 'int':
            return t.a[0]
        if t.op == 'b' and t.a[0] in (0, 1):
            return bool(t.a[0])
        if t.op == 'agg' and not t.a[2]:
            return t.a[1]
        return None

    def var(self, t):
        for k, S in self.E.changed.items():
            if t is S:
                return k

    def decide(self, phase, ev, blank=None, extra=None):
        E = self.E

        def vals(k):
            return self.val[k][phase]

        def is_discr(t):
            return t.op == 'discr' and t.a[0] is E.event

        def f(d):
            if extra is not None:
                r = extra(d)
                if r is not None:
                    return r
            if d[0] == 'exit':
                return pkg.exit_value(E, d, lambda x: 1 if x[0] == 'next' else f(x), lambda x: 0 if x[0] == 'next' else f(x))
            if d[0] == 'okcall' and d[1] in E.collecting:
                r = pkg.guard_case(E, E.collecting[d[1]], lambda x: 1 if x[0] == 'next' else f(x))
                return 1 if r == 0 else 0 if r == 1 else None
            if d[0] == 'okcall':
                return 1
            if d[0] == 'x' and d[1].op == 'discr' and d[1].a[0].op == 'S' and pkg.mentions(d[1], lambda z: z.op == 'evattrs'):
                return int(d[2] == 0)
            if d[0] == 'x' and is_discr(d[1]):
                return int(self.vi[ev] == d[2])
            k = self.var(d[1]) if len(d) > 1 and hasattr(d[1], 'op') else None
            if d[0] == 't' and k is not None and isinstance(vals(k), set) and len(vals(k)) == 1:
                return int(bool(next(iter(vals(k)))))
            if d[0] == 'x' and k is not None:
                v = vals(k)
                if v == 'pos':
                    return 0 if d[2] in (0, '0') else None
                if isinstance(v, set) and v:
                    return 1 if v == {d[2]} else 0 if d[2] not in v else None
            if d[0] == 'x' and d[1].op == 'discr' and self.var(d[1].a[0]) is not None:
                v = vals(self.var(d[1].a[0]))
                if isinstance(v, set) and v:
                    return 1 if v == {d[2]} else 0 if d[2] not in v else None
            if d[0] == 'x' and d[1].op == 'plus' and self.var(d[1].a[0]) in self.count and vals(self.var(d[1].a[0])) == 'pos' and d[1].a[1] == -1:
                return None
            if d[0] == 'lt':
                a, b = d[1], d[2]
                ka, kb = self.var(a), self.var(b)
                if ka is not None and b.op == 'int':
                    v = vals(ka)
                    if v == 'pos':
                        return 0 if b.a[0] <= 1 else None
                    if isinstance(v, set) and len({x < b.a[0] for x in v}) == 1:
                        return int(next(iter(v)) < b.a[0])
                if kb is not None and a.op == 'int':
                    v = vals(kb)
                    if v == 'pos':
                        return 1 if a.a[0] <= 0 else None
                    if isinstance(v, set) and len({a.a[0] < x for x in v}) == 1:
                        return int(a.a[0] < next(iter(v)))
            if d[0] in ('eq', 'eq_ignore_case') and {'tag', 'evname'} <= {strip(x).op for x in d[1:] if hasattr(x, 'op')}:
                return 1
            if blank is not None and self.blank(d):
                return int(blank)
            return None
        return f

    def blank(self, d):
        """Is the atom `the text of this event is blank`?"""
        E = self.E
        if d[0] == 'x' and d[2] in ('', 0) and d[1].op in ('op', 'len') and pkg.mentions(d[1], lambda z: z is E.event) and pkg.mentions(d[1], lambda z: z.op == 'op' and z.a[0] in ('trim', 'trim_ascii')):
            return True
        return False

    def at(self, v, phase, ev, **kw):
        return pkg.case(self.E, v, self.decide(phase, ev, **kw))

    def deep(self, v, phase, ev, **kw):
        """at(), looking inside Option values and strings too."""
        out = []
        for g, t in self.at(v, phase, ev, **kw):
            if t.op == 'agg' and len(t.a[2]) == 1:
                out += [(self.E.B.AND(g, g2), mk('agg', t.a[0], t.a[1], (x,))) for g2, x in self.deep(t.a[2][0], phase, ev, **kw)]
            elif t.op == 'tostr':
                out += [(self.E.B.AND(g, g2), x) for g2, x in self.deep(t.a[0], phase, ev, **kw)]
            elif t.op == 'cat':
                combos = [(g, ())]
                for part in t.a[0]:
                    combos = [(self.E.B.AND(h, g2), ps + (x,)) for h, ps in combos for g2, x in self.deep(part, phase, ev, **kw)]
                out += [(h, mk('cat', ps)) for h, ps in combos if h]
            else:
                out.append((g, t))
        return out

    def guard(self, g, phase, ev, **kw):
        return pkg.guard_case(self.E, g, self.decide(phase, ev, **kw))


def run(ctx):
    R = Reader(ctx)
    setup(ctx, R)
    namespaces(ctx)
    for fn in R.all:
        if R.run(fn):
            transitions(ctx, R)


def show(E, g):
    return E.bfmt(g, 1)[:140]


def outcome(R, phase, ev, **kw):
    """(goes on, accepted, rejected) as guards."""
    E = R.E
    kw0 = kw
    go = R.guard(R.back.pc, phase, ev, **kw) if R.back is not None else 0
    ok = err = 0
    for g, t in E.alts(R.ret):
        w = R.guard(E.B.AND(g, R.st.pc), phase, ev, **kw)
        if t.op == 'agg' and t.a[1] == 1:
            err = E.B.OR(err, w)
        else:
            ok = E.B.OR(ok, w)
    return go, ok, err


def free(E, g):
    """Guard with the number of attributes left open."""
    vs = frozenset(v for v in E.B.support(g) if E.vars[v][0] == 'next') if g > 1 else frozenset()
    return E.B.exists(g, vs) if vs else g


def transitions(ctx, R):
    E, B = R.E, R.E.B
    # ---- the number of open elements
    for k in R.count:
        S = E.changed[k]
        for p, ev, d in [(0, 'Start', 1), (1, 'Start', 1), (1, 'End', -1), (0, 'Empty', 0), (1, 'Empty', 0), (1, 'Text', 0), (1, 'CData', 0)] + [(q, e, 0) for q in (0, 1, 2) for e in ('Comment', 'Decl', 'PI', 'DocType')]:
            got = {fmt(t) for g, t in R.at(R.back.st[k], p, ev) if R.guard(B.AND(g, R.back.pc), p, ev)}
            want = fmt(S) if d == 0 else fmt(mk('plus', S, d))
            if got - {want}:
                ctx.bad('open elements: %s' % ev, 'with a %s event %s the count of open elements becomes %s' % (ev, PHASES[p], ', '.join(sorted(got))[:120]))
            else:
                ctx.ok('count of open elements', '%s %s: %+d' % (ev, PHASES[p], d))
    # ---- what becomes of each event
    for p in (0, 1, 2):
        for ev in EVENTS:
            for blank in ((True, False) if ev == 'Text' and p != 1 else (None,)):
                event(ctx, R, p, ev, blank)
    # reader errors
    bad = 0
    err = 0
    for g, t in E.alts(R.ret):
        w = pkg.guard_case(E, B.AND(g, R.st.pc), lambda d: 0 if d[0] == 'okcall' and d[1] is E.event else None)
        if t.op == 'agg' and t.a[1] == 1:
            err = B.OR(err, w)
        else:
            bad = B.OR(bad, w)
    go = pkg.guard_case(E, R.back.pc, lambda d: 0 if d[0] == 'okcall' and d[1] is E.event else None)
    if go or bad or err != 1:
        ctx.bad('reader error', 'after an error of the XML reader the document is %s' % ('read on' if go else 'accepted'))
    else:
        ctx.ok('outcome', 'reader error: rejected')


def event(ctx, R, p, ev, blank):
    E, B = R.E, R.E.B
    what = '%s%s %s' % ('blank ' if blank else '', ev, PHASES[p])
    if ev == 'End' and p != 1:
        return      # reported by the reader itself
    go, ok, err = (free(E, x) for x in outcome(R, p, ev, blank=blank))
    reject = (p == 2 and ev in ('Start', 'Empty', 'CData')) or (p != 1 and (ev == 'CData' or ev == 'Text' and not blank)) or (ev == 'Eof' and p != 2)
    accept = ev == 'Eof' and p == 2
    if reject:
        if go or ok:
            ctx.bad('accepts %s' % what, 'a document with %s is not rejected%s' % (what, '' if B.OR(go, ok) == 1 else ' when %s' % show(E, B.OR(go, ok))))
        else:
            ctx.ok('outcome', what + ': rejected')
        return
    if accept:
        if ok != 1:
            ctx.bad('rejects %s' % what, 'a complete document is not accepted%s' % ('' if ok == 0 else ' unless %s' % show(E, ok)))
        elif go or err:
            ctx.bad('rejects %s' % what, 'a complete document is read on or rejected')
        else:
            ctx.ok('outcome', what + ': accepted')
        return
    if go != 1 or ok or err:
        bad = B.OR(ok, err)
        ctx.bad('stops at %s' % what, 'reading does not go on after %s%s' % (what, '' if go == 0 else ' when %s' % show(E, bad or B.NOT(go))))
        return
    ctx.ok('outcome', what + ': read on')
    if p == 1:
        failures(ctx, R, p, ev, what)
    effects(ctx, R, p, ev, blank, what)


def failures(ctx, R, p, ev, what):
    """Content of the event that cannot be read rejects the document."""
    E, B = R.E, R.E.B
    src = mk('vf', E.event, R.vi[ev], 0)

    def about(d):
        if d[0] == 'okcall' and d[1] is not E.event and pkg.mentions(d[1], lambda z: z is src):
            return 0
        if d[0] == 'x' and d[2] in (0, 1) and d[1].op == 'discr' and d[1].a[0].op == 'S' and pkg.mentions(d[1], lambda z: z is mk('evattrs', src)):
            return d[2]
        return None
    used = set(i for i in (E.collecting.values()) if i > 1 for i in B.support(i)) | set(B.support(R.back.pc)) | set(B.support(R.st.pc))
    for g, t in E.alts(R.ret):
        used |= set(B.support(g)) if g > 1 else set()
    for v in list(R.back.st.values()):
        guards_in(B, v, used, set())
    for i in sorted(used):
        d = E.vars[i]
        if about(d) is None:
            continue

        def extra(x):
            if x == d:
                return about(d)
            if d[0] == 'x' and x[0] == 'x' and x[1] is d[1]:
                return int(x[2] == 1)
            return 1 if x[0] == 'next' else None
        go, ok, err = (free(E, x) for x in outcome(R, p, ev, extra=extra))
        if d[0] == 'okcall' and d[1] in E.collecting:
            continue
        if go or ok:
            ctx.bad('unreadable %s' % what, '%s that cannot be read (%s) is taken for something else' % (ev, fmt(d[1], -3)[:100]))
        else:
            ctx.ok('unreadable content rejected', what)


def guards_in(B, v, out, seen):
    if not hasattr(v, 'op') or v in seen:
        return
    seen.add(v)
    if v.op == 'g':
        for g, x in v.a[0]:
            out |= set(B.support(g)) if g > 1 else set()
            guards_in(B, x, out, seen)
    elif v.op == 'b':
        out |= set(B.support(v.a[0])) if v.a[0] > 1 else set()
    else:
        walk(B, v.a, out, seen)


def walk(B, a, out, seen):
    for x in a:
        if isinstance(x, tuple):
            walk(B, x, out, seen)
        else:
            guards_in(B, x, out, seen)


def effects(ctx, R, p, ev, blank, what):
    E, B = R.E, R.E.B
    st = R.back.st
    new = None
    # ---- elements
    made = []
    om, rm = st.get(('G', 'OUT')), st.get(('G', 'ROOT'))
    for how, m in (('child', om), ('root', rm)):
        for g, t in E.alts(m) if m is not None else ():
            for x, mult, v in t.a[1]:
                for g2, y in R.at(v, p, ev, blank=blank):
                    if y is not xmlcore.M.ABSENT:
                        w = free(E, R.guard(B.AND(g, g2), p, ev, blank=blank))
                        if w:
                            made.append((how, x, y, w))
    want = 'root' if p == 0 else 'child'
    vi = R.vi[ev]
    src = mk('vf', E.event, vi, 0)
    if ev in ('Start', 'Empty'):
        mine = [m for m in made if m[0] == want]
        if len(mine) != 1 or mine[0][3] != 1:
            ctx.bad('element of %s' % what, 'an element (%s) is %s for %s' % (want, 'not always made' if mine else 'not made', what) if len(mine) < 2 else 'several elements are made for ' + what)
            return
        if len(made) > 1:
            ctx.bad('element of %s' % what, 'further elements are made for ' + what)
        how, el, y, w = mine[0]
        tag = strip(y if how == 'root' else y.a[2][0])
        if tag is not mk('evname', src):
            ctx.bad('name of %s' % what, 'the element made for %s is called %s' % (what, fmt(tag, 4)[:80]))
        else:
            ctx.ok('element name', what)
        if how == 'child':
            par = y.a[2][1]
            act = par.a[0] if par.op == 'byid' else None
            k = R.var(act) if act is not None else None
            if k is None:
                ctx.bad('parent of %s' % what, 'the element made for %s is put under %s' % (what, fmt(par, 4)[:80]))
            else:
                ops = [v[2] for kk, v in E.treeops.items() if kk == ('new', el)]
                if ops and ops[0] != 'append':
                    ctx.bad('place of %s' % what, 'the element made for %s is inserted with %s instead of behind its older siblings' % (what, ops[0]))
                active(ctx, R, k)
                ctx.ok('parent', what)
        new = el
        attributes(ctx, R, p, ev, what, el, src)
    elif made:
        ctx.bad('element of %s' % what, 'an element is made for ' + what)
    # ---- text
    for root, v in st.items():
        if root[0] != 'EV' or root[1] is new:
            continue
        texts(ctx, R, p, ev, blank, what, root[1], v)
    if ev in ('Text', 'CData') and p == 1:
        els = [r[1] for r in st if r[0] == 'EV']
        k = [r for r in els if r.op == 'byid' and R.var(r.a[0]) is not None]
        if not k:
            ctx.bad('text of %s' % what, '%s does not reach the element that contains it' % ev)
        else:
            active(ctx, R, R.var(k[0].a[0]))


def active(ctx, R, k):
    """The variable k always holds the innermost open element."""
    E, B = R.E, R.E.B
    if getattr(R, 'act', None) is None:
        R.act = {}
    if k in R.act:
        return
    R.act[k] = True
    S = E.changed[k]
    for p, ev in [(0, 'Start'), (1, 'Start'), (1, 'End'), (1, 'Empty'), (1, 'Text'), (1, 'CData')] + [(1, e) for e in ('Comment', 'Decl', 'PI', 'DocType')]:
        inner = (lambda d: several(R, d)) if ev == 'End' else None
        for g, t in R.at(R.back.st[k], p, ev, extra=inner):
            if not R.guard(B.AND(g, R.back.pc), p, ev, extra=inner):
                continue
            if ev == 'Start':
                good = t.op == 'id' and t.a[0].op == ('root' if p == 0 else 'E') or p == 0 and t.op == 'int' and t.a[0] == 0
                if good and p == 1:
                    good = E.treeops.get(('new', t.a[0]), (0, 0))[1] is mk('byid', S)
            elif ev == 'End':
                good = t is mk('get_parent_id', mk('byid', S))
            else:
                good = t is S
            if good:
                ctx.ok('innermost open element', '%s %s' % (ev, PHASES[p]))
            else:
                ctx.bad('innermost element after %s' % ev, 'after %s %s the element that further content goes to is %s' % (ev, PHASES[p], fmt(t, 4)[:80]))


def several(R, d):
    """At least two elements are open."""
    k = None
    for j, x in enumerate(d[1:3]):
        if hasattr(x, 'op'):
            y = x.a[0] if x.op == 'plus' else x
            if R.var(y) in R.count and R.var(y) is not None:
                k = j, (x.a[1] if x.op == 'plus' else 0)
    if k is None:
        return None
    low = 2 + k[1]
    if d[0] == 'x' and k[0] == 0 and str(d[2]).lstrip('-').isdigit():
        return 0 if int(d[2]) < low else None
    if d[0] == 'lt':
        o = d[2 - k[0]]
        if o.op == 'int':
            if k[0] == 0:
                return 0 if o.a[0] <= low else None
            return 1 if o.a[0] < low else None
    return None


def attributes(ctx, R, p, ev, what, el, src):
    E, B = R.E, R.E.B
    v = R.back.st.get(('EA', el))
    if v is None:
        ctx.bad('attributes of %s' % what, 'the attributes of %s are dropped' % what)
        return
    for g, t in R.at(v, p, ev):
        if not free(E, R.guard(B.AND(g, R.back.pc), p, ev)):
            continue
        if t.op != 'map' or t.a[0] is not xmlcore.M.EMPTY or not t.a[1]:
            ctx.bad('attributes of %s' % what, 'the attributes recorded for %s are %s' % (what, fmt(t, 3)[:100]))
            continue
        n = 0
        for k, m, x in t.a[1]:
            if not [1 for g2, y in R.at(x, p, ev) if y is not xmlcore.M.ABSENT and R.guard(B.AND(g2, R.back.pc), p, ev)]:
                continue
            key = strip(k)
            item = None
            for z in (key,):
                while z.op in ('f', 'vf'):
                    z = z.a[0]
                if z.op == 'S' and pkg.mentions(z, lambda q: q is mk('evattrs', src)):
                    item = z
            if item is None:
                ctx.bad('attribute names of %s' % what, 'an attribute %s is recorded for %s' % (fmt(k, 4)[:80], what))
                continue
            if pkg.mentions(key, lambda q: q.op in ('unescaped', 'escaped')) or key.op != 'f':
                ctx.bad('attribute names of %s' % what, 'attribute names are recorded as %s' % fmt(k, 4)[:80])
            n += 1
            seen = 0
            for g2, y in R.at(x, p, ev):
                w = R.guard(B.AND(g2, R.back.pc), p, ev)
                if y is xmlcore.M.ABSENT:
                    # left out although there is such an attribute
                    m2 = pkg.guard_case(E, w, lambda d: 1 if d[0] == 'next' else None)
                    if m2:
                        ctx.bad('attributes of %s' % what, 'attributes of %s are left out%s' % (what, '' if m2 == 1 else ' when %s' % show(E, m2)))
                    continue
                y = strip(y)
                z, un = y, 0
                while z.op == 'unescaped':
                    z, un = strip(z.a[0]), un + 1
                if z.op == 'f' and pkg.mentions(z, lambda q: q is item) and z is not key and not pkg.mentions(z, lambda q: q.op in ('escaped', 'unescaped', 'op')):
                    seen = 1
                    ctx.ok('attribute recorded', what)
                else:
                    ctx.bad('attribute values of %s' % what, 'the value recorded for an attribute of %s is %s' % (what, fmt(y, 4)[:80]))
        if n == 0:
            ctx.bad('attributes of %s' % what, 'no attribute is recorded for %s' % what)


def texts(ctx, R, p, ev, blank, what, el, v):
    """What happens to the text of element el."""
    E, B = R.E, R.E.B
    inner = el.op == 'byid' and R.var(el.a[0]) is not None
    vi = R.vi[ev]
    src = mk('vf', E.event, vi, 0)
    for has in (0, 1):
        for lay in ((None,) if ev != 'End' else ('text', 'preserved', 'layout')):
            def extra(d, has=has, lay=lay):
                if d[0] == 'hastext':
                    return has
                if d[0] in ('has', 'hasattrs', 'x', 'lt', 'eq') and lay is not None:
                    return layout(d, el, lay)
                return None
            for g, t in R.deep(v, p, ev, blank=blank, extra=extra):
                if not free(E, R.guard(B.AND(g, R.back.pc), p, ev, blank=blank, extra=extra)):
                    continue
                old = mk('text', el)
                if el.op == 'E':
                    if t is not xmlcore.NONE:
                        ctx.bad('text of %s' % what, 'an element gets the text %s with %s' % (fmt(t, 3)[:80], what))
                    continue
                same = t.op == 'agg' and (t.a[1] == has) and (not has or strip(t.a[2][0]) is old)
                if ev in ('Text', 'CData') and p == 1 and inner:
                    good = t.op == 'agg' and t.a[1] == 1 and pieces(t.a[2][0], old if has else None, src, ev)
                    if good:
                        ctx.ok('text', '%s%s' % (what, ', further piece' if has else ''))
                    else:
                        ctx.bad('text of %s' % what, 'the text becomes %s when the element %s' % (fmt(t, 5)[:120], 'already has text' if has else 'has no text yet'))
                elif ev == 'End' and inner and has and lay == 'layout':
                    ctx.ok('layout white space', 'may go')
                elif not same:
                    ctx.bad('text changed by %s' % what, '%s turns the text of %s into %s%s' % (what, 'the element' if inner else fmt(el, 3)[:60], fmt(t, 4)[:100], ' (%s)' % {
                        'text': 'not blank', 'preserved': 'blank, xml:space="preserve"'}.get(lay) if lay else ''))


def pieces(t, old, src, ev):
    t = strip(t)
    parts = list(t.a[0]) if t.op == 'cat' else [t]
    if t.op == 'acc':
        parts = [t.a[0]] + [e[2] for e in t.a[1]]
    parts = [strip(x) for x in parts if not (x.op == 'str' and x.a[0] == '')]
    if old is not None:
        if not parts or parts[0] is not old:
            return False
        parts = parts[1:]
    if len(parts) != 1:
        return False
    x, n = parts[0], 0
    while x.op == 'unescaped':
        x, n = strip(x.a[0]), n + 1
    return x is src


def layout(d, el, lay):
    """Facts about the element whose end tag is read: text that is not blank; blank text to preserve; other blank text."""
    old = mk('text', el)
    if d[0] == 'x' and hasattr(d[1], 'op') and pkg.mentions(d[1], lambda z: z is old):
        if d[2] in ('', 0):
            return int(lay != 'text')
    if lay == 'preserved':
        if d[0] == 'x' and d[1].op == 'attr' and d[1].a[-1] in ('xml:space',):
            return int(d[2] == 'preserve')
        if d[0] == 'eq' and any(getattr(x, 'op', '') == 'attr' for x in d[1:]):
            return 1
        if d[0] == 'hasattrs':
            return 1
        if d[0] == 'has' and d[2] in ('xml:space',) or d[0] == 'has' and getattr(d[2], 'op', '') == 'str' and d[2].a[0] == 'xml:space':
            return 1
        if d[0] == 'x' and d[1].op in ('len', 'childcount') and d[2] in (0, '0'):
            return 1
        if d[0] == 'lt' and getattr(d[2], 'op', '') in ('len', 'childcount'):
            return 0
    return None


def setup(ctx, R):
    """The event loop gets the whole part, keeps the checks of the XML reader, and its document and errors are passed on."""
    P = ctx.P
    n = 0
    for loop in R.all:
        tops = {}
        for f in P.lib.values():
            if any((t['f'].get('rpath') or t['f'].get('path')) == loop.short or t['f'].get('key') == loop.key for b, t in f.calls()):
                top = f
                while top.closure and top.short.split('::{closure')[0] != top.short:
                    base = top.short.split('::{closure')[0]
                    top = next((x for x in P.lib.values() if x.short == base), top)
                    if top.short == base:
                        break
                tops[top.key] = top
        for top in tops.values():
            n += 1
            E, st = StepEngine(P, lambda t: False), State(1, {})
            E.keep_exits = True
            E.models = dict(E.models)
            E.models[loop.short] = handled
            E.models['std::io::Cursor::<T>::new'] = lambda c: c.arg(0) if hasattr(c, 'arg') else c.ld(0)
            E.parsed = []
            args = [mk('S', (), 0, 'ARG%d' % i, True) for i in range(top.argc)]
            try:
                ret = E.call_fn(st, top, args, ('open', 0, top.key), ())
            except Dead:
                ctx.bad('opening', '%s never returns' % top.short)
                continue
            if len(E.parsed) != 1:
                ctx.bad('opening', '%s reads %d documents' % (top.short, len(E.parsed)))
                continue
            src, pc = E.parsed[0]
            x = src
            while x.op == 'reader' or x.op == 'op' and x.a[0] in ('clone', 'as_slice', 'borrowed', 'deref'):
                x = x.a[-1]
            if x not in args:
                ctx.bad('source', '%s reads %s instead of the whole part' % (top.short, fmt(src, 4)[:100]))
            else:
                ctx.ok('whole part read', top.short)
            for name, v, g, line in E.settings:
                on = not (v.op == 'b' and v.a[0] == 0)
                if name == 'trim_text' and on or name == 'enable_all_checks' and not (v.op == 'b' and v.a[0] == 1):
                    ctx.bad('reader setting %s' % name, '%s (line %d) makes the XML reader %s' % (top.short, line, 'drop white space of texts' if name == 'trim_text' else 'accept broken documents'))
            cfg = st.st.get(('H', 'config'))
            ty = next((t for t in P.types if t.get('k') == 'adt' and t['name'].endswith('reader::Config') and t['v']), None)
            if cfg is not None and cfg.op != 'S' and ty is not None:
                for i, (nm, tid) in enumerate(ty['v'][0]['f']):
                    if nm not in CONFIG:
                        continue
                    v = E.proj(cfg, ('f', i))
                    if v is E.proj(CFG, ('f', i)):
                        continue
                    if not (v.op == 'b' and v.a[0] == CONFIG[nm]):
                        ctx.bad('reader setting %s' % nm, '%s sets %s of the XML reader to %s' % (top.short, nm, fmt(v, 2)[:40]))
            ok = E.atom('okcall', mk('op', 'parsed'))
            for g, t in E.alts(ret):
                w = E.B.AND(g, st.pc)
                if t.op == 'agg' and t.a[1] == 0:
                    if E.B.AND(w, E.B.NOT(ok)):
                        ctx.bad('errors', '%s returns a document although reading it failed' % top.short)
                    elif t.a[2][0] is not mk('parsed'):
                        ctx.bad('document', '%s returns %s instead of the document read' % (top.short, fmt(t.a[2][0], 3)[:80]))
                    else:
                        ctx.ok('document handed on', top.short)
                elif E.B.AND(w, ok):
                    ctx.bad('errors', '%s fails although the document was read' % top.short)
                else:
                    ctx.ok('error handed on', top.short)
    ctx.need('functions that open a document', n, 1)


CONFIG = {'trim_text_start': 0, 'trim_text_end': 0, 'check_end_names': 1, 'allow_unmatched_ends': 0}
CFG = mk('S', (), 0, 'CONFIG', True)


def handled(c):
    E = c.E
    E.parsed.append((c.ld(0), c.st.pc))
    E.update(c.st, c.args[1], lambda v: mk('parsed'))
    b = E.atom('okcall', mk('op', 'parsed'))
    return E.g([(b, xmlcore.Ok(xmlcore.UNIT)), (E.B.NOT(b), xmlcore.Err(mk('err')))])


# attribute name -> alias under which the root's namespace collection records it, None: an ordinary attribute
NAMES = {'xmlns': '<Default>', 'xmlns:p': 'p', 'xmlnsfoo': None, 'k': None, 'p:k': None, 'p:xmlns': None, 'xml:space': None}
INSERTS = tuple('std::collections::%s::%s' % (m, n) for m in ('HashMap::<K, V, S, A>', 'HashMap::<K, V, S>', 'BTreeMap::<K, V, A>') for n in ('insert',)) + ("Entry::<'a, K, V, A>::or_insert", "Entry::<'a, K, V, A>::or_insert_with")


def namespaces(ctx):
    """Declarations of the root go to the namespace collection of the document, everything else stays an attribute."""
    P = ctx.P
    fn = ctx.fn('XmlElement::set_attribute_mut')
    ty = next(t for t in P.types if t.get('k') == 'adt' and t['name'].endswith('xml_tree::XmlElement'))
    names = [f[0] for f in ty['v'][0]['f']]
    attrs = mk('S', (), 0, 'ATTRS', True)
    for root in (True, False):
        E, st = StepEngine(P, lambda t: False), State(1, {})
        E.keep_exits = True
        E.models = {k: v for k, v in E.models.items() if k != fn.short}
        E.models['core::slice::<impl [T]>::contains'] = member
        E.watch = INSERTS
        st.st[('H', 'ns')] = mk('map', xmlcore.M.EMPTY, ())
        vals = {'id': mk('int', 0) if root else mk('int', 7), 'attributes': xmlcore.NONE, 'value': xmlcore.NONE, 'namespace_collection_ref': mk('weak', Ref(('H', 'ns')))}
        r = ('H', 'self')
        st.st[r] = mk('agg', ty['name'], 0, tuple(vals.get(n, mk('S', (), 0, n, True)) for n in names))
        try:
            ret = E.call_fn(st, fn, [Ref(r), attrs], ('attrs', 0, fn.key), ())
        except Dead:
            ctx.bad('attributes', '%s never returns' % fn.short)
            continue
        ctx.count('functions analysed', len(E.fns_seen))
        final = E.proj(st.st[r], ('f', names.index('attributes')))
        last = {}
        for path, args, pc, fr, line, rv in E.effects:
            if len(args) == 2:
                if args[0].op != 'entry':
                    continue
                args = [args[0].a[0], args[0].a[1], args[1]]
            last[(fr.ctx, line)] = (args, pc, line)
        for name, alias in NAMES.items():
            what = '%s of %s' % (name, 'the root' if root else 'a nested element')
            try:
                placing(ctx, E, st, attrs, root, name, alias if root else None, final, list(last.values()), what)
            except streval.Unknown as e:
                ctx.unknown(what, str(e))


def is_attr_key(attrs):
    def item(z):
        return z.op == 'S' and len(z.a) > 4 and any(x is attrs for x in z.a[4:])

    def f(t):
        t = strip(t)
        return t.op == 'f' and t.a[1] == 0 and item(t.a[0]) or t.op == 'key' and item(t.a[0])
    return f, item


def member(c):
    E, v, x = c.E, c.ld(0), c.ld(1)
    attrs = mk('S', (), 0, 'ATTRS', True)
    isk, item = is_attr_key(attrs)
    if not isk(x):
        return None
    b = 0
    for g, t in E.alts(v):
        if t.op != 'vec' or t.a[0] is not xmlcore.M.EMPTY:
            return None
        for e in t.a[1]:
            if not isk(e[2]):
                return None
            b = E.B.OR(b, E.B.AND(g, e[0]))
    return mk('b', b)


class Named(streval.Eval):
    """Value of a term when the attribute looked at has the given name."""

    def __init__(self, E, attrs, name):
        streval.Eval.__init__(self, E, {}, self.facts)
        self.isk, self.item = is_attr_key(attrs)
        self.attrs, self.name = attrs, name

    def ev(self, t):
        if self.isk(t) and t.op in ('f', 'key'):
            return self.name
        if self.isval(t):
            return 'VALUE'
        return streval.Eval.ev(self, t)

    def isval(self, t):
        t = strip(t)
        return t.op == 'valof' and self.item(t.a[0]) or t.op == 'f' and t.a[1] == 1 and self.item(t.a[0]) or t.op == 'mapval' and t.a[0] is self.attrs and self.isk(t.a[1])

    def facts(self, d, ev):
        if d[0] in ('next', 'okcall'):
            return True
        if d[0] == 'haskey':
            return d[1] is self.attrs
        if d[0] == 't' and d[1].op == 'S' and d[1].a[2] in ('all',):
            return True
        if d[0] == 't' and d[1].op == 'S' and d[1].a[2] in ('any',):
            return False
        if d[0] == 'x' and d[1].op in ('len', 'childcount') and d[2] in (0, '0') and pkg.mentions(d[1], lambda z: z.op == 'vec'):
            return False
        return None


def placing(ctx, E, st, attrs, root, name, alias, final, inserts, what):
    ev = Named(E, attrs, name)
    # into the namespace collection
    got = []
    for args, pc, line in inserts:
        if not pkg.mentions(args[0], lambda z: z.op == 'ref' and z.a[0] == ('H', 'ns')) and not (args[0].op == 'ref' and args[0].a[0] == ('H', 'ns')):
            if not ns_target(args[0]):
                continue
        if ev.guard(pc):
            k, v = ev(args[1]), ev(args[2])
            got.append((k, v, line))
    want = [] if alias is None else [(alias, 'VALUE')]
    if [g[:2] for g in got] != want:
        ctx.bad('declaration %s' % what, '%s: %s instead of %s' % (what, '; '.join('recorded as namespace %r with %r' % g[:2] for g in got) or 'not recorded as namespace',
                                                                 'recorded as namespace %r' % alias if alias else 'kept as attribute only'))
    else:
        ctx.ok('namespace placing', what)
    # kept as attribute
    kept = []
    for g, t in E.alts(final):
        if not ev.guard(g):
            continue
        if t.op != 'agg' or t.a[1] != 1:
            kept.append(None)
            continue
        kept.append(keeps(E, ev, attrs, t.a[2][0]))
    want = alias is None
    if kept != [want]:
        ctx.bad('attribute %s' % what, '%s is %s' % (what, 'dropped' if want else 'kept as attribute besides its namespace'))
    else:
        ctx.ok('attribute kept' if want else 'declaration moved', what)


def ns_target(t):
    return pkg.mentions(t, lambda z: z.op == 'weak')


def keeps(E, ev, attrs, t):
    t = strip(t)
    if t is attrs:
        return True
    if t.op == 'op' and t.a[0] == 'retain' and len(t.a) == 3:
        return keeps(E, ev, attrs, t.a[1]) and bool(ev(t.a[2]))
    if t.op == 'g':
        for g, x in t.a[0]:
            if ev.guard(g):
                return keeps(E, ev, attrs, x)
    if t.op == 'map':
        for k, m, v in t.a[1]:
            if ev.isk(k):
                for g, x in E.alts(v):
                    if ev.guard(g):
                        if x is not xmlcore.M.ABSENT and ev(x) == 'VALUE':
                            return True
        return False
    raise streval.Unknown(fmt(t, 2)[:60])
