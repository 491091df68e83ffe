import itertools
import re

from .. import pkg, streval, xmlcore, xmlout, xmltree
from ..engine import Dead, Ref, State, fmt, mk

EXPLAIN = ('Writer: the traversal loop is interpreted for one arbitrary step (value flow over MIR); what it emits and where it goes next is compared with the '
           'depth-first serialisation for every kind of child. Tree operations: the real bodies are interpreted on an arbitrary document and compared with their specification.')
RULE = ('every step takes the next child and emits its complete start (tag, namespaces of the root, attributes, text) once, goes into it, and comes back with its end tag; '
        'the loop guard never ends a traversal early; insertions use a fresh id, the asked parent and the asked place')
ASSUME = ['ids in child lists refer to elements of the same document (shown for every operation)', 'debug build configuration (the extra comment and namespace of release builds are not analysed)']


def run(ctx):
    W = xmlout.Writer(ctx)
    if W.run():
        root(ctx, W)
        steps(ctx, W)
        limit(ctx, W)
    xmltree.run(ctx)


def base(e, text, kids, attrs, ns=1):
    return {('hastext', e): text, ('haskids', e): kids, ('hasattrs', e): attrs, ('emptytag', e): int(not text and not kids), 'ns': ns}


def start(e, text, kids, attrs, ns, form):
    tag = '<\x01TAG:%s\x02' % e + (' \x01NS\x02' if ns else '') + (' \x01ATTRS:%s\x02' % e if attrs else '')
    t = '\x01TEXT:%s\x02' % e if text else ''
    if form == 'empty':
        return tag + '/>'
    return tag + '>' + t + ('</\x01TAG:%s\x02>' % e if form == 'closed' else '')


def show(s):
    return s.replace('\x01', '{').replace('\x02', '}')


def one(ctx, W, what, term, facts):
    R = xmlout.Render(W, facts)
    alts = R.string(term)
    vals = {xmlout.canonical(s) for g, s in alts}
    if len(vals) != 1:
        ctx.bad('%s' % what, 'what is written for %s is not decided: %s' % (what, ' or '.join(sorted(show(v)[:80] for v in vals))))
        return None
    return vals.pop()


PROLOG = re.compile(r'^<\?xml [^<>]*\?>(\s*<!--.*?-->)?\s*', re.S)


def oks(W, facts):
    """Alternatives of the result under the facts: (guard, bytes) of successes, guard of failures."""
    E = W.E
    good, bad = [], 0
    for g, t in pkg.case(E, W.ret, W.decide(facts)):
        w = pkg.guard_case(E, E.B.AND(g, W.st.pc), W.decide(facts))
        if not w:
            continue
        if t.op == 'agg' and t.a[1] == 0:
            good.append((w, t.a[2][0]))
        else:
            bad = E.B.OR(bad, w)
    return good, bad


def nolimit(W):
    """The loop guard does not strike (limit() shows when)."""
    E = W.E

    def f(d):
        for j, x in ((1, 0), (2, 1)):
            t = d[j]
            y = t.a[0] if t.op == 'plus' else t
            if any(y is S for S in W.counters.values()):
                return x        # lt(counter, bound): still below; lt(bound, counter): not yet
        return None

    def g(d):
        r = f(d)
        return None if r is None else 1 - r
    return g


def root(ctx, W):
    E = W.E
    lim = nolimit(W)
    for text, kids, attrs in itertools.product((0, 1), (0, 1), (0, 1)):
        facts = base('root', text, kids, attrs)
        facts['limit'] = lim
        name = 'the root (%s%s%s)' % ('text' if text else 'no text', ', children' if kids else ', no children', ', attributes' if attrs else '')
        enter = pkg.guard_case(E, E.entry.pc, W.decide(facts))
        if enter == 0:
            good, bad = oks(W, facts)
            if kids:
                ctx.bad(name, 'the children of the root are not written')
                continue
            if len(good) != 1 or bad:
                ctx.bad(name, '%s is not always written' % name)
                continue
            s = one(ctx, W, name, good[0][1], facts)
            want = [start('root', text, kids, attrs, 1, f) for f in (('closed',) if text else ('empty', 'closed'))]
        elif enter == 1:
            s = one(ctx, W, name, E.entry.st[W.out], facts)
            want = [start('root', text, kids, attrs, 1, 'open')]
            cur = E.entry.st[W.cursor]
            if not (cur.op == 'int' and cur.a[0] == 0 or cur.op == 'id' and W.el(cur.a[0]) == 'root'):
                ctx.bad('start of the traversal', 'the traversal starts at %s instead of the root' % fmt(cur, 3)[:60])
        else:
            ctx.bad(name, 'writing %s depends on %s' % (name, E.bfmt(enter, 1)[:120]))
            continue
        if s is None:
            continue
        m = PROLOG.match(s)
        body = s[m.end():] if m else s
        if body not in want:
            ctx.bad(name, '%s is written as %s instead of %s' % (name, show(s)[:140], show(want[0])[:100]))
        else:
            ctx.ok('root', name)
        if not m:
            ctx.bad('xml declaration', 'the part does not start with an XML declaration: %s' % show(s)[:60])
    # at the end
    facts = base('root', 0, 1, 0)
    facts.update(next=0, atroot=1, limit=lim)
    good, bad = oks(W, facts)
    vals = set()
    for g, t in good:
        for g2, s in xmlout.Render(W, facts).string(t):
            vals.add(xmlout.canonical(s))
    want = '\x01OUT\x02</\x01TAG:root\x02>'
    if vals != {want}:
        ctx.bad('end of the root', 'the document ends with %s instead of %s' % (' or '.join(show(v)[:80] for v in sorted(vals)) or 'nothing', show(want)))
    else:
        ctx.ok('root', 'end tag')


def leaving(W, facts):
    """Guards of leaving the loop: (in order, with an error)."""
    E = W.E
    fn, h = W.E.head
    good = bad = 0
    for t, pc in E.left:
        w = pkg.guard_case(E, pc, W.decide(facts))
        if E.err_exit(fn, t):
            bad = E.B.OR(bad, w)
        else:
            good = E.B.OR(good, w)
    return good, bad


def relevant(E, W, g):
    """Guard without the facts of the part before the loop."""
    if g in (0, 1):
        return g
    vs = frozenset(v for v in E.B.support(g) if not any(hasattr(x, 'op') and pkg.mentions(x, lambda z: z is W.child or z is W.here or z is W.H) for x in E.vars[v][1:]))
    return E.B.exists(g, vs) if vs else g


def steps(ctx, W):
    E = W.E
    lim = nolimit(W)
    rootf = base('root', 1, 1, 1)
    cases = [(1, t, k, a) for t, k, a in itertools.product((0, 1), (0, 1), (0, 1))] + [(0, 0, 0, 0)]
    for nxt, text, kids, attrs in cases:
        facts = dict(rootf)
        facts.update(base('child', text, kids, attrs))
        facts.update(next=nxt, limit=lim)
        if not nxt:
            facts['atroot'] = 0
        name = 'a child with%s%s%s' % (' text' if text else 'out text', ', with children' if kids else '', ', with attributes' if attrs else '') if nxt else 'no further child'
        go = relevant(E, W, pkg.guard_case(E, W.back.pc, W.decide(facts)))
        good, bad = (relevant(E, W, x) for x in leaving(W, facts))
        if go != 1 or bad or good:
            ctx.bad('step: %s' % name, 'the traversal %s at %s%s' % ('fails' if bad else 'ends', name, '' if go == 0 else ' when %s' % E.bfmt(bad or good or E.B.NOT(go), 1)[:120]))
            continue
        s = one(ctx, W, name, W.back.st[W.out], facts)
        cur = {c for c in (where(W, t) for g, t in pkg.case(E, W.back.st[W.cursor], W.decide(facts)))}
        if s is None:
            continue
        if len(cur) != 1:
            ctx.bad('step: %s' % name, 'after %s the traversal goes on at %s' % (name, ' or '.join(sorted(cur))))
            continue
        cur = cur.pop()
        O = '\x01OUT\x02'
        if nxt:
            want = [(O + start('child', text, kids, attrs, 0, 'open'), 'child')]
            if not kids:
                want.append((O + start('child', text, kids, attrs, 0, 'closed'), 'here'))
                if not text:
                    want.append((O + start('child', text, kids, attrs, 0, 'empty'), 'here'))
        else:
            want = [(O + '</\x01TAG:here\x02>', 'up')]
        if (s, cur) in want:
            ctx.ok('step', name)
        elif s not in [w[0] for w in want]:
            ctx.bad('written: %s' % name, 'for %s the writer emits %s instead of %s' % (name, show(s)[:140], show(want[-1][0])[:100]))
        else:
            ctx.bad('position: %s' % name, 'after %s the traversal goes on at %s' % (name, {'here': 'the same element', 'child': 'the child', 'up': 'the parent'}.get(cur, cur)))
    facts = dict(rootf)
    facts.update(next=0, atroot=1, limit=lim)
    go = relevant(E, W, pkg.guard_case(E, W.back.pc, W.decide(facts)))
    good, bad = (relevant(E, W, x) for x in leaving(W, facts))
    if go or bad or good != 1:
        ctx.bad('step: end', 'at the root without further children the traversal %s' % ('goes on' if go else 'fails'))
    else:
        ctx.ok('step', 'end')


def where(W, t):
    if t is W.H:
        return 'here'
    if t.op == 'id' and W.el(t.a[0]) == 'child' or t.op in ('f', 'vf') and pkg.mentions(t, lambda z: z is W.child):
        return 'child'
    if t.op == 'get_parent_id' and t.a[0] is W.here:
        return 'up'
    return fmt(t, 4)[:60]


def limit(ctx, W):
    """A document of n elements takes n-1 steps down, at most n-1 up and one to find the end."""
    E = W.E
    fn, h = E.head
    facts = dict(base('root', 1, 1, 1))
    facts.update(base('child', 1, 1, 1))
    worst = None
    n_checked = 0
    for nxt, atroot in ((1, 0), (1, 1), (0, 0), (0, 1)):
        f = dict(facts)
        f.update(next=nxt, atroot=atroot)
        good, bad = leaving(W, f)
        vs = [i for i in (E.B.support(bad) if bad > 1 else ()) if E.vars[i][0] in ('lt', 'x', 'eq') and any(hasattr(x, 'op') and pkg.mentions(x, lambda z: any(z is S for S in W.counters.values())) for x in E.vars[i][1:])]
        if not vs:
            continue
        for n in (1, 2, 3, 4, 5, 8, 100, 10 ** 4, 10 ** 8):
            last = (2 * n - 1) if nxt == 0 and atroot else 2 * n - 2
            for i in sorted(x for x in {1, 2, last // 2, last - 1, last} if 1 <= x <= last):
                env = {}
                for k, S in W.counters.items():
                    e, b = E.entry.st[k], E.back.__len__() and W.back.st[k]
                    if e.op != 'int' or b.op != 'plus' or b.a[0] is not S:
                        ctx.unknown('loop guard', 'counter')
                        return
                    env[S] = e.a[0] + (i - 1) * b.a[1]
                ev = Sized(E, env, n)
                try:
                    m = {v: int(ev.atom(E.vars[v])) for v in vs}
                except streval.Unknown as e:
                    ctx.unknown('loop guard', str(e))
                    return
                n_checked += 1
                if E.B.subst(bad, m) and worst is None:
                    worst = (n, i)
    if worst:
        ctx.bad('loop guard', 'a document of %d elements is given up after %d of up to %d steps' % (worst[0], worst[1], 2 * worst[0] - 1))
    else:
        ctx.ok('loop guard', '%d cases' % n_checked)


class Sized(streval.Eval):
    def __init__(self, E, env, n):
        streval.Eval.__init__(self, E, env)
        self.n = n

    def ev(self, t):
        if t.op == 'len' and not pkg.mentions(t, lambda z: z.op in ('children', 'attrs')):
            return self.n
        return streval.Eval.ev(self, t)
