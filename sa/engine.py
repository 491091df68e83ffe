"""Guarded value-flow analysis over the MIR dump.

A forward abstract interpretation: every block is analysed with the join of its
predecessors' states (no path enumeration, no solver).  A state is a guard (the
reachability condition, a BDD over interned predicates) and a store mapping
abstract locations to interned values.  Loops are summarised by widening:
values of an iteration become values of "some iteration" when they flow round
the back edge.  XML tree, containers and RefCell/Rc are abstracted by models.
"""
import re

from .bdd import BDD
from .mir import short


class T:
    __slots__ = ('op', 'a', 'id', 'syms')

    def __repr__(self):
        return fmt(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _n[0]
        t.syms = None
        _n[0] += 1
        _tab[k] = t
    return t


def fmt(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(fmt(x, d + 1) for x in t) + ')'
        return repr(t)
    if d > 9:
        return '..'
    o, a = t.op, t.a
    if o == 'int':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'S':
        return '%s#%s%s' % (a[2], '.'.join(str(x[1]) for x in a[0][-2:]) + '.' + str(a[1]), '*' if a[3] else '') + \
            ('(' + ','.join(fmt(x, d + 1) for x in a[4:]) + ')' if len(a) > 4 else '')
    if o == 'agg':
        return '%s:%s{%s}' % (str(a[0]).split('::')[-1], a[1], ', '.join(fmt(x, d + 1) for x in a[2]))
    if o == 'g':
        return 'g[' + '; '.join('%s→%s' % (ENG.bfmt(g) if ENG else g, fmt(x, d + 1)) for g, x in a[0]) + ']'
    if o == 'b':
        return 'b<' + (ENG.bfmt(a[0]) if ENG else str(a[0])) + '>'
    return '%s(%s)' % (o, ', '.join(fmt(x, d + 1) for x in a))


ENG = None
UNDEF = mk('undef')
ABSENT = mk('absent')
UNIT = mk('agg', 'tuple', 0, ())
EMPTY = mk('empty')
TRUE = mk('b', 1)
FALSE = mk('b', 0)


def Str(s):
    return mk('str', s)


def Int(n):
    return mk('int', n)


def Agg(name, vi, fields):
    return mk('agg', name, vi, tuple(fields))


OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
NONE = Agg(OPT, 0, ())


def Some(x):
    return Agg(OPT, 1, (x,))


def Ok(x):
    return Agg(RES, 0, (x,))


def Err(x):
    return Agg(RES, 1, (x,))


def Ref(root, path=()):
    if root[0] == 'V' and not path:
        return root[1]
    return mk('ref', root, path)


class State:
    __slots__ = ('pc', 'st')

    def __init__(self, pc, st):
        self.pc = pc
        self.st = st

    def copy(self):
        return State(self.pc, dict(self.st))


class Dead(Exception):
    """The current abstract state became unreachable."""


class Budget(Exception):
    pass


BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


class Engine:
    MAXALT = 40
    MAXITER = 7

    hazards = None      # makes the observer of places that can panic (c07)

    def __init__(self, prog, models=None, budget=400000, drops=False):
        global ENG
        ENG = self
        self.P = prog
        self.B = BDD()
        self.vars = []          # var index -> descriptor
        self.varof = {}         # descriptor -> var
        self.chain = {}         # term -> [consts]
        self.nvar = {}          # discr term -> number of variants
        self.unknown = {}       # callee -> count
        self.notes = []
        self.rejects = {}       # (fn, line, what) -> bdd
        self.steps = 0
        self.budget = budget
        self.drops = drops
        self.blocks_seen = set()
        self.fns_seen = set()
        self.hazard = Engine.hazards(self) if Engine.hazards else None
        self.calls_seen = 0
        from . import models as M
        self.models = dict(M.MODELS)
        if models:
            self.models.update(models)
        self.fallback = M.fallback
        self.variants = {}
        for t in prog.types:
            if t['k'] == 'adt':
                self.variants.setdefault(t['name'], [(v['n'], v['d']) for v in t['v']])
        self.elinfo = {}        # created element -> (tag, parent, how)
        self.popped = set()
        self.orders = []
        self.effects = []
        self.drains = []
        self.strict = False
        self.keep_exits = False  # do not assume that loops are left without an error
        self.watch = ()
        self.roottags = []
        self.treeops = {}
        self.docrefs = []
        self.closes = []
        self._pure = {}
        self.pure_used = set()
        self.setattrs = {}
        self.finds = {}
        self.wide = {}           # number -> bits of the type it was widened from
        self.posof = {}          # position symbol -> the list entry at that position
        self.loopstack = []
        self.skips = []
        self.nextc = {}
        self.unrolled = set()
        self.rounding = []
        self.nextok = {}
        self.entstores = []      # in-place changes of list entries: (enclosing loops, location, value)
        self.early = {}          # (ctx, header) -> guards of exits taken before the iterator is exhausted
        self.exitcond = {}
        self.pops = {}
        self.leave = {}
        self.mapops = {}
        self.retains = {}

    # ---------------------------------------------------------------- guards
    def note(self, s):
        if len(self.notes) < 200 and s not in self.notes:
            self.notes.append(s)

    def newvar(self, desc):
        v = self.varof.get(desc)
        if v is None:
            v = len(self.vars)
            self.vars.append(desc)
            self.varof[desc] = v
        return v

    def atom(self, *desc):
        return self.B.v(self.newvar(desc))

    def eqc(self, t, c):
        """Guard for symbolic term t == constant c (string or int)."""
        ch = self.chain.setdefault(t, [])
        n = self.nvar.get(t)
        if c in ch:
            i = ch.index(c)
        else:
            if n is not None and len(ch) == n - 1:
                i = len(ch)     # last remaining variant: all others false
                r = 1
                for j in range(i):
                    r = self.B.AND(r, self.B.NOT(self.atom('x', t, ch[j])))
                return r
            ch.append(c)
            i = len(ch) - 1
        r = self.atom('x', t, c)
        for j in range(i):
            r = self.B.AND(r, self.B.NOT(self.atom('x', t, ch[j])))
        return r

    def eqc_n(self, t, c, n):
        if t not in self.nvar:
            self.nvar[t] = n
        return self.eqc(t, c)

    def bfmt(self, f, limit=6):
        if f == 1:
            return 'T'
        if f == 0:
            return 'F'
        ps = self.B.paths(f, limit)
        return ' | '.join('&'.join(('' if b else '!') + self.vfmt(v) for v, b in p) for p in ps)

    def vfmt(self, v):
        d = self.vars[v]
        if d[0] == 'x':
            return '%s==%s' % (fmt(d[1], 3), d[2])
        return '%s(%s)' % (d[0], ','.join(fmt(x, 3) for x in d[1:]))

    # ---------------------------------------------------------------- values
    def g(self, alts):
        """Guarded value from [(bdd, term)]."""
        m = {}
        order = []
        for gd, t in alts:
            if gd == 0:
                continue
            if t.op == 'g':
                for g2, t2 in t.a[0]:
                    x = self.B.AND(gd, g2)
                    if x:
                        if t2 in m:
                            m[t2] = self.B.OR(m[t2], x)
                        else:
                            m[t2] = x
                            order.append(t2)
            else:
                if t in m:
                    m[t] = self.B.OR(m[t], gd)
                else:
                    m[t] = gd
                    order.append(t)
        if len(order) > 1 and UNDEF in m:
            order.remove(UNDEF)
        if not order:
            return UNDEF
        if len(order) == 1:
            return order[0]
        # merge aggregates of the same variant, booleans, containers
        groups = {}
        for t in order:
            if t.op == 'agg':
                k = ('agg', t.a[0], t.a[1], len(t.a[2]))
            elif t.op == 'b':
                k = 'b'
            elif t.op in ('vec', 'map', 'acc'):
                k = (t.op, t.a[0])
            elif t.op == 'upd':
                k = ('upd', t.a[0])
            else:
                k = t
            groups.setdefault(k, []).append(t)
        # symbolic base next to an update of it
        for k in list(groups):
            if isinstance(k, tuple) and k[0] == 'upd' and k[1] in groups:
                groups[k] = groups[k] + groups.pop(k[1])
            if isinstance(k, tuple) and k[0] == 'acc' and k[1] in groups:
                b = groups.pop(k[1])[0]
                e = mk('acc', b, ())
                m[e] = m[b]
                groups[k] = groups[k] + [e]
        out = []
        for k, ts in groups.items():
            if len(ts) == 1:
                out.append((m[ts[0]], ts[0]))
                continue
            gd = 0
            for t in ts:
                gd = self.B.OR(gd, m[t])
            if k == 'b':
                r = 0
                for t in ts:
                    r = self.B.OR(r, self.B.AND(m[t], t.a[0]))
                out.append((gd, mk('b', self.B.restrict(r, gd))))
            elif k[0] == 'agg':
                nf = k[3]
                fs = []
                for i in range(nf):
                    fs.append(self.g([(self.B.restrict(m[t], gd), t.a[2][i]) for t in ts]))
                out.append((gd, mk('agg', k[1], k[2], tuple(fs))))
            elif k[0] == 'upd':
                keys = []
                for t in ts:
                    if t.op == 'upd':
                        for kk, _ in t.a[1]:
                            if kk not in keys:
                                keys.append(kk)
                kv = []
                for kk in keys:
                    kv.append((kk, self.g([(self.B.restrict(m[t], gd), self.proj(t, kk)) for t in ts])))
                out.append((gd, mk('upd', k[1], tuple(kv))))
            else:
                acc = ts[0]
                ag = m[ts[0]]
                for t in ts[1:]:
                    ng = self.B.OR(ag, m[t])
                    acc = self.merge_container(self.B.restrict(m[t], ng), t, acc)
                    ag = ng
                out.append((gd, acc))
        if len(out) == 1:
            return out[0][1]
        if len(out) == 2:
            r = self.extremum(out)
            if r is not None:
                return r
        if len(out) > self.MAXALT:
            self.note('alternatives capped')
            return mk('many', out[0][1], len(out))
        out.sort(key=lambda x: x[1].id)
        return mk('g', tuple(out))

    def extremum(self, out):
        """x if y < x else y  is the maximum of the two."""
        (c, a), (d, b) = out
        B = self.B
        if a.op in ('agg', 'vec', 'map', 'b', 'g', 'absent', 'undef') or b.op in ('agg', 'vec', 'map', 'b', 'g', 'absent', 'undef') or c <= 1 or d <= 1:
            return None
        r = B.restrict(c, B.OR(c, d))
        sup = B.support(r)
        if len(sup) != 1:
            return None
        v = next(iter(sup))
        k = self.vars[v]
        if k[0] == 'next' and k[1].op == 'S' and k[1].a[3]:
            # the smallest (largest) so far, or the bound it started from when nothing was seen
            for x, y in ((a, b), (b, a)):
                if x.op == 'op' and x.a[0] in ('min', 'max') and y in x.a[1:] and (x is a) == (B.subst(r, {v: 1}) == 1):
                    return x
        if k[0] != 'lt' or {k[1], k[2]} != {a, b}:
            return None
        less = a if B.subst(r, {v: 1}) else b
        return self.extreme('max' if less is k[2] else 'min', (a, b))

    def extreme(self, n, vals):
        terms = []

        def add(t):
            if t.op == 'g':
                for _, x in t.a[0]:
                    add(x)
            elif t.op == 'op' and t.a[0] == n:
                for x in t.a[1:]:
                    add(x)
            elif t not in terms:
                terms.append(t)
        for v in vals:
            add(v)
        ints = [t.a[0] for t in terms if t.op == 'int']
        if ints:
            terms = [t for t in terms if t.op != 'int'] + [mk('int', max(ints) if n == 'max' else min(ints))]
        if len(terms) == 1:
            return terms[0]
        # a generic earlier iteration stands for every iteration's contribution
        terms.sort(key=lambda t: t.id)
        return mk('op', n, *terms)

    def ite(self, c, a, b):
        if c == 1 or a is b:
            return a
        if c == 0:
            return b
        if a.op == 'undef':
            return b
        if b.op == 'undef':
            return a
        return self.g([(c, a), (self.B.NOT(c), b)])

    def merge_container(self, c, a, b):
        """ite(c, a, b) for containers with the same base."""
        B = self.B
        if a is b:
            return a
        if a.op in ('vec', 'acc'):
            if a.op == 'vec' and len(a.a[1]) == len(b.a[1]) and all(
                    x[0] == y[0] and x[1] == y[1] and x[3] == y[3] and (x[2] is y[2] or self.same_record(x[2], y[2]))
                    for x, y in zip(a.a[1], b.a[1])):
                # the same entries, changed in place on one side
                return mk('vec', a.a[0], tuple((x[0], x[1], self.ite(c, x[2], y[2]), x[3]) for x, y in zip(a.a[1], b.a[1])))

            def keyed(v):
                cnt = {}
                r = []
                for e in v.a[1]:
                    k = (e[1], e[2], e[3])
                    n = cnt.get(k, 0)
                    cnt[k] = n + 1
                    r.append(((k, n), e))
                return r
            ka, kb = keyed(a), keyed(b)
            da, db = dict(ka), dict(kb)
            out = []
            first, second = (ka, kb) if len(ka) >= len(kb) else (kb, ka)
            for k, e in first + [x for x in second if x[0] not in dict(first)]:
                ga = da[k][0] if k in da else 0
                gb = db[k][0] if k in db else 0
                gd = B.ite(c, ga, gb)
                if gd:
                    out.append((gd, e[1], e[2], e[3]))
            return mk(a.op, a.a[0], tuple(out))
        # map
        da = {e[0]: e for e in a.a[1]}
        db = {e[0]: e for e in b.a[1]}
        out = []
        for e in a.a[1]:
            k = e[0]
            va = e[2]
            if k in db:
                vb = db[k][2]
                mult = 'many' if 'many' in (e[1], db[k][1]) else 'one'
            else:
                vb = self.map_base(b, k)
                mult = e[1]
            out.append((k, mult, self.ite(c, va, vb)))
        for e in b.a[1]:
            k = e[0]
            if k in da:
                continue
            out.append((k, e[1], self.ite(c, self.map_base(a, k), e[2])))
        return mk('map', a.a[0], tuple(out))

    def same_record(self, x, y):
        return (x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2])
                and any(p is q for p, q in zip(x.a[2], y.a[2])))

    def map_base(self, m, k):
        """Value (or ABSENT) of key k in the base of map m."""
        b = m.a[0]
        if b is EMPTY:
            return ABSENT
        if b.op == 'attrs' and k.op == 'str':
            h = self.atom('has', b.a[0], k.a[0])
            return self.g([(h, mk('attr', b.a[0], k.a[0])), (self.B.NOT(h), ABSENT)])
        h = self.atom('haskey', b, k)
        return self.g([(h, mk('mapval', b, k)), (self.B.NOT(h), ABSENT)])

    def map_get(self, m, k):
        for e in m.a[1]:
            if e[0] is k:
                return e[2]
        # overridden by symbolic keys that may be equal: reported only as note
        if k.op == 'g':
            return self.g([(gd, self.map_get(m, t)) for gd, t in k.a[0]])
        if m.a[0] is EMPTY and m.a[1] and k.op not in ('str', 'int', 'chr') and len(m.a[1]) <= 40 \
                and all(e[1] == 'one' and e[0].op in ('str', 'int', 'chr') for e in m.a[1]):
            # a table of known entries looked up with an arbitrary key
            out, rest = [], 1
            for e in m.a[1]:
                q = self.eq(k, e[0])
                out.append((self.B.AND(rest, q), e[2]))
                rest = self.B.AND(rest, self.B.NOT(q))
            return self.g(out + [(rest, ABSENT)])
        return self.map_base(m, k)

    def map_set(self, m, k, v):
        if k.op == 'g':
            r = m
            for gd, t in k.a[0]:
                cur = self.map_get(r, t)
                r = self.map_set(r, t, self.ite(gd, v, cur))
            return r
        out = []
        done = False
        for e in m.a[1]:
            if e[0] is k:
                out.append((k, 'one', v))
                done = True
            else:
                out.append(e)
        if not done:
            out.append((k, 'one', v))
        return mk('map', m.a[0], tuple(out))

    def alts(self, v):
        if v.op == 'g':
            return v.a[0]
        return ((1, v),)

    def lift(self, v, f):
        if v.op == 'g':
            return self.g([(gd, f(t)) for gd, t in v.a[0]])
        return f(v)

    def lift2(self, a, b, f):
        if a.op == 'g' or b.op == 'g':
            if len(self.alts(a)) * len(self.alts(b)) > 64:
                return f(a, b)
            out = []
            for g1, t1 in self.alts(a):
                for g2, t2 in self.alts(b):
                    x = self.B.AND(g1, g2)
                    if x:
                        out.append((x, f(t1, t2)))
            return self.g(out)
        return f(a, b)

    # projection keys: ('f',i) or ('vf',vi,i)
    def proj(self, v, k):
        if v.op == 'g':
            if k[0] == 'vf':
                out = []
                for gd, t in v.a[0]:
                    if t.op == 'agg' and t.a[1] != k[1]:
                        continue
                    out.append((gd, self.proj(t, k)))
                return self.g(out)
            return self.g([(gd, self.proj(t, k)) for gd, t in v.a[0]])
        if v.op == 'agg':
            if k[0] == 'vf':
                if v.a[1] != k[1]:
                    return UNDEF
                i = k[2]
            else:
                i = k[1]
            if i < len(v.a[2]):
                return v.a[2][i]
            return UNDEF
        if v.op == 'upd':
            for kk, x in v.a[1]:
                if kk == k:
                    return x
            return self.proj(v.a[0], k)
        if v.op in ('undef', 'absent'):
            return UNDEF
        if k[0] == 'f':
            return mk('f', v, k[1])
        return mk('vf', v, k[1], k[2])

    def setproj(self, v, k, x):
        if v.op == 'g':
            return self.g([(gd, self.setproj(t, k, x)) for gd, t in v.a[0]])
        if v.op == 'agg':
            i = k[2] if k[0] == 'vf' else k[1]
            if k[0] == 'vf' and v.a[1] != k[1]:
                return v
            f = list(v.a[2])
            while len(f) <= i:
                f.append(UNDEF)
            f[i] = x
            return mk('agg', v.a[0], v.a[1], tuple(f))
        if v.op == 'undef':
            i = k[2] if k[0] == 'vf' else k[1]
            f = [UNDEF] * (i + 1)
            f[i] = x
            return mk('agg', '?', k[1] if k[0] == 'vf' else 0, tuple(f))
        base, kv = (v.a[0], v.a[1]) if v.op == 'upd' else (v, ())
        kv = tuple((kk, y) for kk, y in kv if kk != k) + ((k, x),)
        kv = tuple(sorted(kv, key=lambda z: str(z[0])))
        return mk('upd', base, kv)

    def root_default(self, root):
        if root[0] == 'CLOSED':
            return FALSE
        if root[0] == 'G':
            return mk('map', EMPTY, ())
        if root[0] == 'V':
            return root[1]
        if root[0] == 'EA':
            b = root[1]
            if b.op == 'E':
                return mk('map', EMPTY, ())
            return mk('map', mk('attrs', b), ())
        if root[0] == 'EV':
            b = root[1]
            if b.op == 'E':
                return NONE
            return mk('elval', b)
        return UNDEF

    def getroot(self, st, root):
        v = st.st.get(root)
        if v is None:
            return self.root_default(root)
        return v

    def load_loc(self, st, loc):
        root, path = loc
        v = self.getroot(st, root)
        for k in path:
            if k[0] == 'val':      # value of a map entry
                v = self.lift(v, lambda m: self.map_get(m, k[1]) if m.op == 'map' else self.map_get(mk('map', m, ()), k[1]))
                v = self.strip_absent(v)
            elif k[0] == 'ent':    # term of a vec entry
                v = self.lift(v, lambda m: m.a[1][k[1]][2] if m.op == 'vec' and k[1] < len(m.a[1]) else UNDEF)
            else:
                v = self.proj(v, k)
        return v

    def strip_absent(self, v):
        if v.op == 'g':
            return self.g([(gd, t) for gd, t in v.a[0] if t is not ABSENT])
        return v

    def store_loc(self, st, loc, val):
        root, path = loc
        if not path:
            st.st[root] = val
            return
        if any(k[0] == 'ent' for k in path):
            self.entstores.append((tuple(self.loopstack), root, path, val))
        st.st[root] = self._upd(self.getroot(st, root), path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        k = path[0]
        if v.op == 'g':
            return self.g([(gd, self._upd(t, path, val)) for gd, t in v.a[0]])
        if k[0] == 'val':
            m = v if v.op == 'map' else mk('map', v, ())
            cur = self.map_get(m, k[1])
            new = self.lift(cur, lambda t: t if t is ABSENT else self._upd(t, path[1:], val))
            r = self.map_set(m, k[1], new)
            return r
        if k[0] == 'ent':
            if v.op != 'vec' or k[1] >= len(v.a[1]):
                return v
            es = list(v.a[1])
            e = es[k[1]]
            es[k[1]] = (e[0], e[1], self._upd(e[2], path[1:], val), e[3])
            return mk('vec', v.a[0], tuple(es))
        return self.setproj(v, k, self._upd(self.proj(v, k), path[1:], val))

    def load(self, st, v):
        """Dereference a value once."""
        if v.op == 'ref':
            return self.load_loc(st, (v.a[0], v.a[1]))
        if v.op == 'g':
            return self.g([(gd, self.load(st, t)) for gd, t in v.a[0]])
        r = ('V', v)
        x = st.st.get(r)
        return v if x is None else x

    def deep(self, st, v, n=8):
        """Dereference references until a non-reference value."""
        while n and (v.op == 'ref' or (v.op == 'g' and any(t.op == 'ref' for _, t in v.a[0]))):
            v = self.load(st, v)
            n -= 1
        if v.op not in ('agg', 'g', 'str', 'int', 'b', 'vec', 'map', 'upd'):
            x = st.st.get(('V', v))
            if x is not None:
                return x
        return v

    def lastref(self, st, v, n=8):
        """Follow references while the target is itself a reference; returns the last reference."""
        while n:
            if v.op == 'ref':
                x = self.load_loc(st, (v.a[0], v.a[1]))
                if x.op == 'ref' or (x.op == 'g' and any(t.op == 'ref' for _, t in x.a[0])):
                    v = x
                    n -= 1
                    continue
                if x.op in ('S', 'f', 'vf', 'mapval', 'tagged', 'elem') and v.a[0][0] == 'L' and not v.a[1] and False:
                    return x
                return v
            if v.op == 'g':
                return self.g([(gd, self.lastref(st, t, n - 1)) for gd, t in v.a[0]])
            return v
        return v

    def store(self, st, refv, val):
        """Write val through reference value."""
        if refv.op == 'ref':
            self.store_loc(st, (refv.a[0], refv.a[1]), val)
        elif refv.op == 'g':
            for gd, t in refv.a[0]:
                cur = self.load(st, t)
                self.store(st, t, self.ite(gd, val, cur))
        elif refv.op == 'undef':
            return
        else:
            st.st[('V', refv)] = val

    def update(self, st, refv, f):
        """Apply f to the value behind a reference (per alternative)."""
        if refv.op == 'g':
            for gd, t in refv.a[0]:
                cur = self.load(st, t)
                new = self.lift(cur, f)
                self.store(st, t, self.ite(gd, new, cur))
        else:
            self.store(st, refv, self.lift(self.load(st, refv), f))

    # ------------------------------------------------------------- conditions
    def truth(self, v):
        """BDD for a boolean value."""
        if v.op == 'b':
            return v.a[0]
        if v.op == 'int':
            return 1 if v.a[0] else 0
        if v.op == 'g':
            r = 0
            for gd, t in v.a[0]:
                r = self.B.OR(r, self.B.AND(gd, self.truth(t)))
            return r
        return self.atom('t', v)

    def cond_eq(self, v, c):
        """BDD for value v == python constant c."""
        if v.op == 'g':
            r = 0
            for gd, t in v.a[0]:
                r = self.B.OR(r, self.B.AND(gd, self.cond_eq(t, c)))
            return r
        if v.op in ('int', 'str'):
            return 1 if v.a[0] == c else 0
        if v.op == 'b':
            return v.a[0] if c else self.B.NOT(v.a[0])
        if v.op == 'chr':
            return 1 if v.a[0] == c else 0
        if v.op == 'undef':
            return 0
        if isinstance(c, bool) or (v.op in ('t',)):
            return self.truth(v) if c else self.B.NOT(self.truth(v))
        if v.op == 'discr' and v not in self.nvar:
            pass
        return self.eqc(v, c)

    def eq(self, a, b):
        """BDD for structural equality of two values."""
        if a is b:
            return 1
        if a.op == 'g':
            r = 0
            for gd, t in a.a[0]:
                r = self.B.OR(r, self.B.AND(gd, self.eq(t, b)))
            return r
        if b.op == 'g':
            return self.eq(b, a)
        if a.op in ('int', 'str', 'b', 'chr') and b.op in ('int', 'str', 'chr'):
            return 1 if a.a[0] == b.a[0] else 0
        if b.op == 'b' and a.op == 'b':
            return self.B.NOT(self.B.ite(a.a[0], self.B.NOT(b.a[0]), b.a[0]))
        if b.op in ('int', 'str', 'chr'):
            return self.cond_eq(a, b.a[0])
        if a.op in ('int', 'str', 'chr'):
            return self.cond_eq(b, a.a[0])
        if a.op == 'b' or b.op == 'b':
            x, y = self.truth(a), self.truth(b)
            return self.B.NOT(self.B.ite(x, self.B.NOT(y), y))
        if a.op == 'agg' and b.op == 'agg':
            if a.a[1] != b.a[1]:
                return 0
            r = 1
            for x, y in zip(a.a[2], b.a[2]):
                r = self.B.AND(r, self.eq(x, y))
            return r
        if a.op == 'agg' or b.op == 'agg':
            if b.op == 'agg':
                a, b = b, a
            r = self.cond_eq(self.discr(b, a.a[0]), self.dval(a))
            for i, x in enumerate(a.a[2]):
                r = self.B.AND(r, self.eq(x, self.proj(b, ('vf', a.a[1], i))))
            return r
        if a.op == 'undef' or b.op == 'undef':
            return 0
        x, y = (a, b) if a.id < b.id else (b, a)
        return self.atom('eq', x, y)

    def dval(self, t):
        vs = self.variants.get(t.a[0])
        if vs and t.a[1] < len(vs):
            return vs[t.a[1]][1]
        return t.a[1]

    def discr(self, v, name=None):
        def f(t):
            if t.op == 'agg':
                return Int(self.dval(t))
            if t.op == 'undef':
                return UNDEF
            if t.op == 'upd':
                t = t.a[0]
            d = mk('discr', t)
            if name and d not in self.nvar:
                vs = self.variants.get(name)
                if vs:
                    self.nvar[d] = len(vs)
            return d
        return self.lift(v, f)

    # ------------------------------------------------------------ substitution
    def syms(self, t):
        """Set of S terms mentioned in a term (including guards)."""
        if t.syms is not None:
            return t.syms
        t.syms = frozenset()    # guard against cycles
        r = set()
        if t.op == 'S':
            r.add(t)
        if t.op == 'b':
            r |= self.bsyms(t.a[0])
        else:
            self._syms_in(t.a, r, t.op)
        t.syms = frozenset(r)
        return t.syms

    def _syms_in(self, a, r, op):
        for x in a:
            if isinstance(x, T):
                r |= self.syms(x)
            elif isinstance(x, tuple):
                if op in ('g', 'vec', 'acc') and len(x) >= 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and any(isinstance(y, T) for y in x):
                    r |= self.bsyms(x[0])
                self._syms_in(x, r, op)

    def bsyms(self, f):
        r = set()
        for v in self.B.support(f) if f > 1 else ():
            if v < len(self.vars):
                for x in self.vars[v][1:]:
                    if isinstance(x, T):
                        r |= self.syms(x)
        return r

    def substituter(self, mp):
        """Return (term_subst, bdd_subst) applying the S-term map mp (dict T->T)."""
        keys = frozenset(mp)
        tm = {}
        bm = {}
        vm = {}

        def sb(f):
            if f < 2:
                return f
            r = bm.get(f)
            if r is None:
                m = {}
                for v in self.B.support(f):
                    if v >= len(self.vars):
                        continue
                    c = sv(v)
                    if c is not None:
                        m[v] = c
                r = self.B.subst(f, m) if m else f
                bm[f] = r
            return r

        def sv(v):
            if v in vm:
                return vm[v]
            d = self.vars[v]
            new = tuple(s(x) if isinstance(x, T) else x for x in d[1:])
            if new == d[1:]:
                vm[v] = None
                return None
            if d[0] == 'x':
                t = new[0]
                if d[1] in self.nvar and t not in self.nvar and t.op == 'discr':
                    self.nvar[t] = self.nvar[d[1]]
                r = self.cond_eq(t, d[2])
            elif d[0] == 'eq':
                r = self.eq(new[0], new[1])
            elif d[0] == 't':
                r = self.truth(new[0])
            else:
                r = self.atom(d[0], *new)
            vm[v] = r
            return r

        def stup(a, op):
            out = []
            ch = False
            for x in a:
                if isinstance(x, T):
                    y = s(x)
                elif isinstance(x, tuple):
                    if op in ('vec', 'acc') and len(x) == 4 and isinstance(x[2], T):
                        y = (sb(x[0]), x[1], s(x[2]), x[3])
                    else:
                        y = stup(x, op)
                else:
                    y = x
                if y is not x and y != x:
                    ch = True
                out.append(y)
            return tuple(out) if ch else a

        def s(t):
            if not (self.syms(t) & keys):
                return t
            r = tm.get(t)
            if r is not None:
                return r
            if t in mp:
                r = mp[t]
            elif t.op == 'b':
                r = mk('b', sb(t.a[0]))
            elif t.op == 'g':
                r = self.g([(sb(gd), s(x)) for gd, x in t.a[0]])
            elif t.op == 'map':
                r = self.norm_map(mk('map', s(t.a[0]), stup(t.a[1], 'map')))
            elif t.op in ('vec', 'acc'):
                r = self.norm_vec(mk(t.op, s(t.a[0]), stup(t.a[1], t.op)))
            elif t.op == 'ref':
                r = mk('ref', stup(t.a[0], 'ref'), stup(t.a[1], 'ref'))
            elif t.op == 'f':
                r = self.proj(s(t.a[0]), ('f', t.a[1]))
            elif t.op == 'vf':
                r = self.proj(s(t.a[0]), ('vf', t.a[1], t.a[2]))
            elif t.op == 'discr':
                n = s(t.a[0])
                r = self.discr(n)
                if r.op == 'discr' and t in self.nvar and r not in self.nvar:
                    self.nvar[r] = self.nvar[t]
            else:
                r = mk(t.op, *stup(t.a, t.op))
            tm[t] = r
            return r

        def sroot(root):
            return stup(root, 'ref')
        return s, sb, sroot

    def norm_map(self, m):
        out = []
        idx = {}
        for e in m.a[1]:
            if e[0] in idx:
                i = idx[e[0]]
                out[i] = (e[0], 'many', e[2])
            else:
                idx[e[0]] = len(out)
                out.append(e)
        return mk('map', m.a[0], tuple(out))

    def norm_vec(self, v):
        out = []
        idx = {}
        for e in v.a[1]:
            if e[2] in idx:
                i = idx[e[2]]
                o = out[i]
                out[i] = (self.B.OR(o[0], e[0]), 'many', e[2], o[3])
            else:
                idx[e[2]] = len(out)
                out.append(e)
        return mk(v.op, v.a[0], tuple(out))

    # -------------------------------------------------------------------- join
    def join(self, s1, s2, sel=None, pc=None):
        B = self.B
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if pc is None:
            pc = B.OR(s1.pc, s2.pc)
        c = B.restrict(s1.pc, pc) if sel is None else sel
        st = {}
        d2 = s2.st
        for k, v in s1.st.items():
            w = d2.get(k)
            if w is v:
                st[k] = v
            elif w is None:
                if k[0] in ('L', 'H', 'E'):
                    st[k] = v
                else:
                    st[k] = self.ite(c, v, self.root_default(k))
            else:
                st[k] = self.ite(c, v, w)
        for k, w in d2.items():
            if k not in st:
                if k[0] in ('L', 'H', 'E'):
                    st[k] = w
                else:
                    st[k] = self.ite(c, self.root_default(k), w)
        return State(pc, st)

    # --------------------------------------------------------------- types
    def resize(self, v, src, dst):
        """A number of type src as one of type dst: only a cut that can lose bits is kept as a term."""
        a, b = (BITS.get(self.P.types[x].get('s')) if x is not None else None for x in (src, dst))
        if a is None or b is None:
            return v
        if a <= b:
            if a < b:
                for _, t in self.alts(v):
                    self.wide[t] = min(a, self.wide.get(t, 64))
            return v
        if a == 64 and b >= 16:
            return v            # sizes and positions as ids: their number is taken as bounded
        name = self.P.tname(dst)

        def f(t):
            if t.op == 'int':
                n = t.a[0] % (1 << b)
                return Int(n - (1 << b) if name[0] == 'i' and n >= 1 << b - 1 else n)
            w = self.wide.get(t, 99)
            if t.op == 'S' and t.a[2] == 'range' and len(t.a) > 4:
                w = max([self.wide.get(x, BITS['u8'] if x.op == 'int' and x.a[0] < 256 else 99) for x in t.a[4].a[1:] if hasattr(x, 'op')] or [99]) if t.a[4].op == 'op' else 99
            return t if w <= b or t.op == 'chr' else mk('cast', name, t)
        return self.lift(v, f)

    def ptype(self, fn, place):
        t = fn.locals[place[0]][0]
        for p in place[1]:
            if t is None:
                return None
            if p == '*':
                x = self.P.types[t]
                if x['k'] in ('ref', 'ptr'):
                    t = x['t']
                elif x['k'] == 'adt' and x['args']:
                    t = x['args'][0] if isinstance(x['args'][0], int) else None
                else:
                    t = None
            elif p[0] == 'f':
                t = p[2]
            elif p[0] in ('i', 'ci'):
                x = self.P.types[t]
                t = x.get('t') if x['k'] in ('array', 'slice') else None
            elif p[0] == 'd':
                pass
            elif p[0] == 'sub':
                pass
        return t

    def adtname(self, t):
        if t is None:
            return None
        x = self.P.types[t]
        return x['name'] if x['k'] == 'adt' else None

    # --------------------------------------------------------------- MIR eval
    def place_loc(self, st, fr, place):
        """-> list of (guard, (root, path))"""
        locs = [(1, (('L', fr.ctx, place[0]), ()))]
        vi = None
        for p in place[1]:
            if p == '*':
                out = []
                for gd, loc in locs:
                    v = self.load_loc(st, loc)
                    for g2, t in self.alts(v):
                        x = self.B.AND(gd, g2)
                        if not x:
                            continue
                        if t.op == 'ref':
                            out.append((x, (t.a[0], t.a[1])))
                        elif t.op == 'undef':
                            continue
                        else:
                            out.append((x, (('V', t), ())))
                locs = out
                vi = None
            elif p[0] == 'd':
                vi = p[1]
            elif p[0] == 'f':
                k = ('vf', vi, p[1]) if vi is not None else ('f', p[1])
                vi = None
                locs = [(gd, (l[0], l[1] + (k,))) for gd, l in locs]
            elif p[0] == 'i':
                idx = self.load_loc(st, (('L', fr.ctx, p[1]), ()))
                locs = [(gd, (('V', mk('idx', self.load_loc(st, l), idx)), ())) for gd, l in locs]
            elif p[0] == 'ci':
                out = []
                for gd, l in locs:
                    v = self.load_loc(st, l)
                    if v.op == 'agg' and not p[3]:
                        out.append((gd, (l[0], l[1] + (('f', p[1]),))))
                    else:
                        out.append((gd, (('V', mk('idx', v, Int(p[1]))), ())))
                locs = out
            elif p[0] == 'sub':
                locs = [(gd, (('V', mk('subslice', self.load_loc(st, l))), ())) for gd, l in locs]
        return locs

    def read_place(self, st, fr, place):
        if not place[1]:
            return st.st.get(('L', fr.ctx, place[0]), UNDEF)
        locs = self.place_loc(st, fr, place)
        if len(locs) == 1:
            return self.load_loc(st, locs[0][1])
        return self.g([(gd, self.load_loc(st, l)) for gd, l in locs])

    def write_place(self, st, fr, place, val):
        if not place[1]:
            st.st[('L', fr.ctx, place[0])] = val
            return
        locs = self.place_loc(st, fr, place)
        if len(locs) == 1:
            self.store_loc(st, locs[0][1], val)
            return
        for gd, l in locs:
            self.store_loc(st, l, self.ite(gd, val, self.load_loc(st, l)))

    def const(self, tid, v):
        ty = self.P.types[tid] if tid is not None else None
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return Int(v)
        if v is None:
            return mk('kunk', tid)
        if 'str' in v:
            return Str(v['str'])
        if 'char' in v:
            return mk('chr', v['char'])
        if 'float' in v:
            return mk('flt', str(v['float']))
        if 'tup' in v:
            return Agg('tuple', 0, [self.const(None, x) if not isinstance(x, list) else self.const(x[0], x[1]) for x in v['tup']])
        if 'bytes' in v:
            return mk('bytes', tuple(v['bytes']))
        if 'arr' in v:
            return mk('karr', tuple(self.cval(x) for x in v['arr']))
        if 'ref' in v:
            x = self.cval(v['ref'])
            return x
        if 'adt' in v:
            name = self.P.types[v['adt']]['name']
            return Agg(name, v.get('vi', 0), [self.cval(x) for x in v.get('f', [])])
        if 'static' in v:
            return mk('static', v['static'])
        if 'fnaddr' in v:
            return mk('fnaddr', str(v['fnaddr']))
        if 'zst' in v:
            if ty and ty['k'] == 'adt':
                return Agg(ty['name'], 0, [])
            if ty and ty['k'] in ('fndef', 'closure'):
                return mk('fn', tid)
            return UNIT
        return mk('kunk', str(v))

    def cval(self, x):
        if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int):
            return self.const(x[0], x[1])
        return self.const(None, x)

    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            return self.read_place(st, fr, o[1])
        if o[0] == 'k':
            return self.const(o[1], o[2])
        return TRUE     # runtime checks

    def binop(self, op, a, b):
        B = self.B
        if op in ('Eq', 'Ne'):
            r = self.eq(a, b)
            return mk('b', r if op == 'Eq' else B.NOT(r))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            def cmp(x, y):
                if op in ('Gt', 'Le'):
                    p, q = y, x
                else:
                    p, q = x, y
                # Lt(p,q)
                if p.op == 'int' and q.op == 'int':
                    r = 1 if p.a[0] < q.a[0] else 0
                elif p is q:
                    r = 0
                else:
                    r = self.atom('lt', p, q)
                return mk('b', r if op in ('Lt', 'Gt') else B.NOT(r))
            return self.lift2(a, b, cmp)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.op == 'b' and b.op == 'b':
                f = {'BitAnd': B.AND(a.a[0], b.a[0]), 'BitOr': B.OR(a.a[0], b.a[0]),
                     'BitXor': B.ite(a.a[0], B.NOT(b.a[0]), b.a[0])}[op]
                return mk('b', f)

        def ar(x, y):
            if x.op == 'int' and y.op == 'int':
                m, n = x.a[0], y.a[0]
                try:
                    if op.startswith('Add'):
                        return Int(m + n)
                    if op.startswith('Sub'):
                        return Int(m - n)
                    if op.startswith('Mul'):
                        return Int(m * n)
                    if op == 'Div':
                        return Int(m // n)
                    if op == 'Rem':
                        return Int(m % n)
                except ZeroDivisionError:
                    pass
            nm = op.replace('Unchecked', '').replace('WithOverflow', '')
            if nm in ('Add', 'Sub') and y.op == 'int':
                k = y.a[0] if nm == 'Add' else -y.a[0]
                base = x
                if x.op == 'plus':
                    base, k = x.a[0], k + x.a[1]
                return base if k == 0 else mk('plus', base, k)
            if nm == 'Add' and x.op == 'int':
                k, base = x.a[0], y
                if y.op == 'plus':
                    base, k = y.a[0], k + y.a[1]
                return base if k == 0 else mk('plus', base, k)
            if nm in ('Add', 'Mul') and x.id > y.id:
                x, y = y, x
            return mk('op', nm, x, y)
        return self.lift2(a, b, ar)

    def rvalue(self, st, fr, rv, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'addr':
            pl = rv[2] if k == 'ref' else rv[-1]
            locs = self.place_loc(st, fr, pl)
            return self.g([(gd, Ref(l[0], l[1])) for gd, l in locs])
        if k == 'discr':
            v = self.read_place(st, fr, rv[1])
            return self.discr(v, self.adtname(self.ptype(fr.fn, rv[1])))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in rv[4]]
            kind = rv[1]
            if kind == 'adt':
                return Agg(self.P.types[rv[2]]['name'], rv[3], ops)
            if kind == 'closure':
                return mk('agg', 'closure', rv[2], tuple(ops))
            if kind == 'array':
                return mk('vec', EMPTY, tuple((1, 'one', o, i) for i, o in enumerate(ops)))
            return Agg(kind, 0, ops)
        if k == 'bin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            if rv[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.binop(rv[1], a, b)
            return self.binop(rv[1], a, b)
        if k == 'cbin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return Agg('tuple', 0, (self.binop(rv[1], a, b), FALSE))
        if k == 'cast':
            kk = str(rv[1])
            o = rv[2]
            if kk == 'BoxDerefTransmute' and o[0] in ('c', 'm') and o[1][1] and o[1][1][-1][0] == 'f':
                # the pointer inside a box: here a box is the pointer
                o = [o[0], [o[1][0], o[1][1][:-1]]]
            v = self.operand(st, fr, o)
            if 'Float' in kk and 'Int' in kk:
                return self.lift(v, lambda t: mk('cast', self.P.tname(rv[3]), t))
            if v.op == 'b' and 'IntToInt' in kk:
                return self.ite(v.a[0], Int(1), Int(0))
            if 'IntToInt' in kk and isinstance(rv[3], int):
                src = self.ptype(fr.fn, o[1]) if o[0] in ('c', 'm') else o[1] if o[0] == 'k' and isinstance(o[1], int) else None
                return self.resize(v, src, rv[3])
            return v
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                ty = self.P.types[fr.fn.locals[dest[0]][0]] if not dest[1] else None
                if v.op == 'b' or (ty and ty['k'] == 'bool'):
                    return mk('b', self.B.NOT(self.truth(v)))
                return mk('op', 'Not', v)
            if rv[1] == 'Neg':
                return self.lift(v, lambda t: Int(-t.a[0]) if t.op == 'int' else mk('op', 'Neg', t))
            return mk('op', str(rv[1]), v)
        if k == 'len':
            return mk('op', 'len', self.read_place(st, fr, rv[1]))
        if k == 'repeat':
            return mk('op', 'repeat', self.operand(st, fr, rv[1]))
        return mk('op', 'rv_' + k)

    # --------------------------------------------------------------- functions
    def call_fn(self, st, fn, args, site, ctx):
        """Inline a local function.  site identifies the call in ctx."""
        nctx = ctx + (site,)
        if len(nctx) > 40 or any(s[2] == fn.key for s in nctx[:-1]):
            self.note('recursion/depth at ' + fn.short)
            return None
        self.fns_seen.add(fn.key)
        fr = Frame(fn, nctx)
        for i, a in enumerate(args):
            st.st[('L', nctx, i + 1)] = a
        out = self.run(fr, st)
        if out is None:
            raise Dead()
        ret = out.st.get(('L', nctx, 0), UNDEF)
        n = len(nctx)
        st.pc = out.pc
        new = {k: v for k, v in out.st.items() if not (k[0] == 'L' and len(k[1]) >= n and k[1][:n] == nctx)}
        st.st = new
        return ret

    def run(self, fr, st):
        """Analyse a function body from state st; returns the state at return or None."""
        fn = fr.fn
        pend = {0: [st]}
        rets = []
        self.region(fr, None, pend, rets)
        r = None
        for s in rets:
            r = self.join(r, s)
        return r

    def region(self, fr, header, pend, rets, body=None):
        """Process blocks in RPO.  pend: {block: [states]}.  When header is given,
        only blocks in body are processed; edges to header or out of body are
        returned as {target: [states]}."""
        fn = fr.fn
        out = {}
        rpo = fn.rpo
        loops = fn.loops
        done_inner = set()
        first = True
        for b in rpo:
            if body is not None and b not in body:
                continue
            if b in done_inner:
                continue
            if b not in pend:
                continue
            sts = pend.pop(b)
            s = None
            for x in sts:
                s = self.join(s, x)
            if s is None or s.pc == 0:
                continue
            if b in loops and b != header:
                lb = loops[b]
                done_inner |= lb
                exits = self.loop(fr, b, lb, s, rets)
                for t, ss in exits.items():
                    if body is not None and (t not in body or t == header):
                        out.setdefault(t, []).extend(ss)
                    else:
                        pend.setdefault(t, []).extend(ss)
                continue
            for t, s2 in self.block(fr, b, s, rets):
                if body is not None and (t not in body or t == header):
                    out.setdefault(t, []).append(s2)
                else:
                    pend.setdefault(t, []).append(s2)
        return out

    def in_loop(self, S, fr, body):
        """Was symbol S created inside loop `body` of frame fr?"""
        ctx = S.a[0]
        n = len(fr.ctx)
        if S.a[3]:
            return False
        if len(ctx) < n or ctx[:n] != fr.ctx:
            return False
        if len(ctx) == n:
            return S.a[1] % ROUND in body
        return ctx[n][1] % ROUND in body

    def next_call(self, fn, h, body):
        """The place of the iterator whose `next` decides about the loop with header h; None: not that kind of loop."""
        memo = self.nextc.setdefault(fn.key, {})
        if h in memo:
            return memo[h]
        r = None
        b, n, refs = h, 0, {}
        while b in body and n < 8:
            n += 1
            blk = fn.blocks[b]
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'ref' and not s[1][1]:
                    refs[s[1][0]] = s[2][2]
            if blk['k'] == 'goto':
                b = blk['t']
                continue
            if blk['k'] == 'call' and short(blk['f'].get('path') or '') in ('std::iter::Iterator::next',) and blk['a'] and blk['a'][0][0] in ('c', 'm') \
                    and not blk['a'][0][1][1] and blk['a'][0][1][0] in refs:
                r = refs[blk['a'][0][1][0]]
                while r[1] == ['*'] and r[0] in refs and refs[r[0]] is not r:
                    r = refs[r[0]]
                # nothing else in the loop may advance it
                for k in body:
                    for s in fn.blocks[k]['s']:
                        if k != b and s[0] == '=' and (s[1][0] == r[0] or s[2][0] in ('ref', 'addr') and s[2][2][0] == r[0]):
                            r = None
                            break
                    if r is None:
                        break
            break
        memo[h] = r
        return r

    def rounds(self, fr, h, body, s0, rets):
        """A loop over a known short list, taken round by round; None: not such a loop."""
        place = self.next_call(fr.fn, h, body)
        if place is None:
            return None
        it = self.read_place(s0, fr, place)
        n = self.known(s0, it)
        if n is None:
            return None
        out = {}
        cur = s0.copy()
        tag, skips = fr.tag, self.skips
        self.unrolled.add((fr.ctx, h))
        self.rounding.append((fr.ctx, h))
        for j in range(n + 1):
            step = ('at', j) if j < n else ('end',)
            s = cur.copy()
            self.write_place(s, fr, place, mk('iter', it.a[0], it.a[1], (step,) + it.a[2]))
            fr.tag, self.skips = tag * 64 + j + 1, []
            try:
                exits = self.region(fr, h, {h: [s]}, rets, body)
                back = exits.pop(h, []) + self.skips
            finally:
                fr.tag, self.skips = tag, skips
            for t, ss in exits.items():
                out.setdefault(t, []).extend(ss)
            cur = None
            for x in back:
                cur = self.join(cur, x)
            if cur is None or cur.pc == 0:
                break
        self.rounding.pop()
        for t in list(out):
            for x in out[t]:
                self.write_place(x, fr, place, UNDEF)
            if not self.strict and not self.keep_exits and self.err_exit(fr.fn, t):
                for x in out.pop(t):
                    k = (fr.fn.short, 'error exit')
                    self.rejects[k] = (self.B.OR(self.rejects.get(k, (0, 0))[0], x.pc), fr.fn.blocks[t].get('l'))
        return out

    def known(self, st, it):
        """Number of elements of an iterator over a list whose members are all known, None otherwise."""
        from . import models
        es = models.members(self, st, it)
        return len(es) if es is not None and len(es) <= 40 else None

    def loop(self, fr, h, body, s0, rets):
        B = self.B
        r = self.rounds(fr, h, body, s0, rets)
        if r is not None:
            return r
        cur = s0
        base_rets = len(rets)
        exits = {}
        force_iv = False
        for it in range(self.MAXITER):
            del rets[base_rets:]
            pend = {h: [cur.copy()]}
            self.loopstack.append((fr.ctx, h))
            exits = self.region(fr, h, pend, rets, body)
            self.loopstack.pop()
            back = exits.pop(h, [])
            if not back:
                break
            s = None
            for x in back:
                s = self.join(s, x)
            new = self.widen(fr, h, body, s0, cur, s, force=it >= self.MAXITER - 2)
            if new.pc == cur.pc and new.st.keys() == cur.st.keys() and all(new.st[k] is cur.st[k] for k in new.st):
                break
            ivs = {k: v for k, v in new.st.items() if v.op == 'S' and v.a[2] == 'iv' and v.a[1] == h and v.a[0] == fr.ctx}
            if any(cur.st.get(k) is not v for k, v in ivs.items()) and not force_iv:
                # the iteration is redone with the general value from the start
                cur = s0.copy()
                cur.st.update(ivs)
                force_iv = it > self.MAXITER // 2
                continue
            cur = new
        else:
            self.note('loop not stable in ' + fr.fn.short)
        # leave the loop: forget iteration predicates in the reachability guard
        for t in list(exits):
            if not self.strict and not self.keep_exits and self.err_exit(fr.fn, t):
                for x in exits.pop(t):
                    k = (fr.fn.short, 'error exit')
                    self.rejects[k] = (B.OR(self.rejects.get(k, (0, 0))[0], x.pc), fr.fn.blocks[t].get('l'))
        ntarget = [(t, x) for t in sorted(exits) for x in exits[t]]
        qs = []
        self.leave[fr.ctx, h] = [x.pc for t, x in ntarget]
        self.early[fr.ctx, h] = [x.pc for t, x in ntarget if self.not_exhausted(x.pc, fr, body)]
        for t, x in ntarget:
            vs = frozenset(v for v in B.support(x.pc) if self.var_in(v, fr, body)) if x.pc > 1 else frozenset()
            qs.append(B.exists(x.pc, vs))
        over = lambda: any(B.AND(qs[i], qs[j]) for i in range(len(qs)) for j in range(i))
        if over():
            # left early for the element at hand, or every element is seen and none of them is left for
            early = [i for i, (t, x) in enumerate(ntarget) if self.not_exhausted(x.pc, fr, body)]
            done = [i for i in range(len(ntarget)) if i not in early]
            if early and len(done) == 1 and all(qs[i] > 1 for i in early):
                hit = 0
                for i in early:
                    x = ntarget[i][1]
                    vs = frozenset(v for v in B.support(x.pc) if self.var_in(v, fr, body) and self.vars[v][0] != 'next')
                    qs[i] = B.exists(x.pc, vs)
                    hit = B.OR(hit, qs[i])
                qs[done[0]] = B.AND(qs[done[0]], B.NOT(hit))
        if over():
            rest = 1
            for i, (t, x) in enumerate(ntarget):
                if i < len(qs) - 1:
                    e = self.atom('exit', mk('S', fr.ctx, h, 'exit%d' % t, False))
                    self.exitcond[fr.ctx, h, 'exit%d' % t] = x.pc
                    qs[i] = B.AND(qs[i], B.AND(rest, e))
                    rest = B.AND(rest, B.NOT(e))
                else:
                    qs[i] = B.AND(qs[i], rest)
        for i, (t, x) in enumerate(ntarget):
            x.pc = qs[i]
        return exits

    def not_exhausted(self, pc, fr, body):
        vs = [v for v in self.B.support(pc) if self.vars[v][0] == 'next' and self.in_loop(self.vars[v][1], fr, body)] if pc > 1 else []
        return bool(vs) and all(self.B.AND(self.B.subst(pc, {v: 1}), self.nextok.get(self.vars[v][1], 1)) for v in vs)

    def err_exit(self, fn, t):
        """Does this exit edge run straight to returning an error?"""
        r = fn._errx.get(t)
        if r is None:
            r = False
            b, n = t, 0
            while b is not None and n < 40:
                n += 1
                blk = fn.blocks[b]
                for s in blk['s']:
                    if s[0] == '=' and s[1] == [0, []] and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][3] == 1 \
                            and self.P.types[s[2][2]].get('name', '').endswith('result::Result'):
                        r = True
                if r:
                    break
                if blk['k'] == 'call' and blk['d'] == [0, []] and 'from_residual' in (blk['f'].get('path') or ''):
                    r = True
                    break
                sc = fn.succs[b]
                b = sc[0] if len(sc) == 1 and blk['k'] in ('goto', 'drop', 'call', 'assert') else None
            fn._errx[t] = r
        return r

    def var_in(self, v, fr, body):
        for x in self.vars[v][1:]:
            if isinstance(x, T):
                for S in self.syms(x):
                    if self.in_loop(S, fr, body):
                        return True
        return False

    def star(self, S):
        return mk('S', S.a[0], S.a[1], S.a[2], True, *S.a[4:])

    def widen(self, fr, h, body, s0, cur, back, force=False):
        B = self.B
        # symbols of this iteration
        syms = set()
        for v in back.st.values():
            syms |= self.syms(v)
        for k in back.st:
            for x in k:
                if isinstance(x, T):
                    syms |= self.syms(x)
        syms |= self.bsyms(back.pc)
        mine = [S for S in syms if self.in_loop(S, fr, body)]
        mp = {S: None for S in mine}
        # star mapping must be applied inside-out for nested symbols
        for S in mine:
            mp[S] = None

        def stared(S, memo={}):
            args = []
            for x in S.a[4:]:
                args.append(deep(x))
            return mk('S', S.a[0], S.a[1], S.a[2], True, *args)

        def deep(x):
            if isinstance(x, T):
                if x.op == 'S' and x in mp:
                    return stared(x)
                if not (self.syms(x) & set(mp)):
                    return x
                return mk(x.op, *[deep(y) for y in x.a]) if x.op not in ('g', 'b', 'vec', 'map', 'acc') else x
            if isinstance(x, tuple):
                return tuple(deep(y) for y in x)
            return x
        for S in mine:
            mp[S] = stared(S)
        st0_, sb_, sr_ = self.substituter(mp)
        # a record built from this iteration *and* a value carried over from an earlier one: keep the two apart
        mine_s = frozenset(mine)
        old_s = frozenset(mp.values())
        both = []

        def older():
            if not both:
                mp2 = dict(mp)
                for S in mine:
                    o = mp[S]
                    mp2[o] = o if str(o.a[2]).endswith('~') else mk('S', o.a[0], o.a[1], str(o.a[2]) + '~', True, *o.a[4:])
                both.append(self.substituter(mp2))
            return both[0]

        def st_(v):
            if v.op in ('vec', 'map', 'acc') and self.syms(v) & mine_s and self.syms(v) & old_s:
                es = []
                for e in v.a[1]:
                    sy = set()
                    for x in e:
                        if isinstance(x, T):
                            sy |= self.syms(x)
                    if v.op != 'map':
                        sy |= self.bsyms(e[0])
                    mixed = sy & mine_s and sy & old_s
                    s_, b_, _ = older() if mixed else (st0_, sb_, None)
                    es.append(tuple(b_(x) if i == 0 and v.op != 'map' else s_(x) if isinstance(x, T) else x for i, x in enumerate(e)))
                r = mk(v.op, st0_(v.a[0]), tuple(es))
                return self.norm_map(r) if v.op == 'map' else self.norm_vec(r)
            if v.op == 'agg' and self.syms(v) & mine_s and self.syms(v) & old_s:
                return mk('agg', v.a[0], v.a[1], tuple(st_(x) for x in v.a[2]))
            return st0_(v)
        pcs = sb_(back.pc)
        vs = set()
        if pcs > 1:
            stars = set(mp.values())
            for v in B.support(pcs):
                for x in self.vars[v][1:]:
                    if isinstance(x, T) and self.syms(x) & stars:
                        vs.add(v)
        pcb = B.exists(pcs, frozenset(vs))
        pc = B.OR(s0.pc, pcb)
        sel = B.restrict(pcs, pc)
        # child symbols whose tag is dispatched on
        tagsyms = {}
        for S in mine:
            tg = mk('tag', S)
            if tg in self.chain:
                tagsyms[S] = tg
        raw_sel = None
        out = {}
        live = fr.fn.live_in[h]
        keys = set(s0.st) | set(back.st)
        for k in keys:
            if k[0] == 'L' and (len(k[1]) > len(fr.ctx) or (k[1] == fr.ctx and k[2] not in live)):
                continue
            v0 = s0.st.get(k)
            vb = back.st.get(k)
            if vb is v0:
                out[k] = v0
                continue
            if vb is None:
                if k[0] in ('L', 'H', 'E'):
                    out[k] = v0
                    continue
                vb = self.root_default(k)
            nk = k
            if k[0] != 'L':
                nk = sr_(k)
            if v0 is None:
                v0 = UNDEF if k[0] in ('L', 'H', 'E') else self.root_default(nk)
            if nk != k:
                # location of this iteration's object: keep as the generic object's
                x = (older()[0] if self.syms(vb) & mine_s and self.syms(vb) & old_s else st_)(vb)
                if nk in out and out[nk] is not x:
                    x = self.ite(sel, x, out[nk])
                out[nk] = x
                continue
            iv = self.induction(v0, cur.st.get(k), vb, fr.ctx, h)
            if iv is not None:
                out[k] = iv
                continue
            ts = [S for S in tagsyms if S in self.syms(vb) or S in self.bsyms(back.pc)]
            if vb.op not in ('vec', 'map', 'agg', 'upd') and len(ts) == 1:
                out[k] = self.tagsplit(ts[0], tagsyms[ts[0]], mp, back.pc, pc, vb, v0, cur.st.get(k))
            elif vb.op in ('agg', 'upd') and len(ts) == 1 and v0.op in ('agg', 'upd', 'S', 'f', 'V'):
                out[k] = self.tagsplit_agg(ts[0], tagsyms[ts[0]], mp, back.pc, pc, vb, v0, cur.st.get(k), st_, sel)
            else:
                out[k] = self.ite(sel, st_(vb), v0)
                if force and out[k] is not cur.st.get(k):
                    out[k] = mk('S', fr.ctx, h, 'widen', True, self.rkey(k))
                    self.note('widened %s in %s' % (k[-1], fr.fn.short))
        return State(pc, out)

    def induction(self, v0, cur, vb, ctx, h):
        """A variable that grows by the same amount in every iteration: start + step * (number of earlier iterations)."""
        if cur is None or v0 is None or vb is cur:
            return None

        def dec(t):
            return (None, t.a[0]) if t.op == 'int' else t.a[:2] if t.op == 'plus' else (t, 0)
        (b1, k1), (b2, k2) = dec(cur), dec(vb)
        if b1 is not b2 or not isinstance(k1, int) or not isinstance(k2, int):
            return None
        d = k2 - k1
        if not d:
            return None
        iv = mk('S', ctx, h, 'iv', True, v0, Int(d))
        if cur is v0 or cur is iv:
            return iv
        return None

    def rkey(self, k):
        return Str(str(k[-1]))

    def tagsplit_agg(self, S, tg, mp, pcb, pc, vb, v0, hv, st_, sel):
        """Field-wise tag split for records that stay the same variant."""
        if vb.op == 'agg' and v0.op == 'agg' and vb.a[0] == v0.a[0] and vb.a[1] == v0.a[1] and len(vb.a[2]) == len(v0.a[2]):
            fs = []
            for i in range(len(vb.a[2])):
                x, y = vb.a[2][i], v0.a[2][i]
                if x is y:
                    fs.append(x)
                    continue
                h = self.proj(hv, ('f', i)) if hv is not None and hv.op in ('agg', 'upd') else None
                if x.op in ('vec', 'map'):
                    fs.append(self.ite(sel, st_(x), y))
                elif x.op == 'agg' and y.op == 'agg':
                    fs.append(self.tagsplit_agg(S, tg, mp, pcb, pc, x, y, h, st_, sel))
                else:
                    fs.append(self.tagsplit(S, tg, mp, pcb, pc, x, y, h))
            return mk('agg', vb.a[0], vb.a[1], tuple(fs))
        return self.tagsplit(S, tg, mp, pcb, pc, vb, v0, hv)

    def tagsplit(self, S, tg, mp, pcb, pc, vb, v0, hv):
        """Summarise a scalar set under 'the child has tag X' by the child with that tag."""
        B = self.B
        acc = v0
        ch = list(self.chain.get(tg, ()))
        xs = [self.newvar(('x', tg, c)) for c in ch]
        for i in range(len(ch) + 1):
            m = {}
            for j, x in enumerate(xs):
                m[x] = 1 if j == i else 0
            if i < len(ch):
                m = {xs[j]: (1 if j == i else 0) for j in range(i + 1)}
                for j in range(i + 1, len(xs)):
                    m[xs[j]] = 0
            p = B.subst(pcb, m)
            if p == 0:
                continue
            v = self.bsubst(vb, m)
            if hv is not None and v is self.bsubst(hv, m):
                continue
            if v is v0:
                continue
            label = ch[i] if i < len(ch) else '*'
            m2 = dict(mp)
            m2[S] = mk('ct', S.a[4], label) if len(S.a) > 4 else mp[S]
            # nested symbols inside S-derived terms
            for q in mp:
                if q is not S and S in self.syms(q):
                    m2[q] = mk('S', q.a[0], q.a[1], q.a[2], True, *[self._rep(z, S, m2[S]) for z in q.a[4:]])
            s_, b_, _ = self.substituter(m2)
            p2 = b_(p)
            pq = B.OR(pc, p2)
            c = B.restrict(p2, pq)
            # drop the fact that other iterations exist
            acc = self.ite(c, s_(v), acc)
        return acc

    def _rep(self, z, S, by):
        if isinstance(z, T):
            s_, _, _ = self.substituter({S: by})
            return s_(z)
        return z

    def bsubst(self, t, m):
        """Apply a variable assignment to all guards inside a term."""
        memo = {}
        vs = frozenset(m)

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t.op == 'b':
                r = mk('b', self.B.subst(t.a[0], m)) if t.a[0] > 1 else t
            elif t.op == 'g':
                r = self.g([(self.B.subst(gd, m), go(x)) for gd, x in t.a[0]])
            elif t.op in ('vec', 'acc'):
                r = mk(t.op, t.a[0], tuple((gg, e[1], go(e[2]), e[3]) for e in t.a[1] for gg in (self.B.subst(e[0], m),) if gg))
            elif t.op == 'map':
                r = mk('map', t.a[0], tuple((e[0], e[1], go(e[2])) for e in t.a[1]))
            elif t.op == 'agg':
                r = mk('agg', t.a[0], t.a[1], tuple(go(x) for x in t.a[2]))
            elif t.op == 'upd':
                r = mk('upd', t.a[0], tuple((k, go(x)) for k, x in t.a[1]))
            elif t.op in ('op', 'cat', 'tostr', 'parse', 'plus', 'f', 'vf', 'cast'):
                r = mk(t.op, *[go(x) if isinstance(x, T) else (tuple(go(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x) for x in t.a])
            else:
                r = t
            memo[t] = r
            return r
        return go(t)

    # --------------------------------------------------------------- one block
    def block(self, fr, b, st, rets):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        fn = fr.fn
        self.blocks_seen.add((fn.key, b))
        blk = fn.blocks[b]
        try:
            for s in blk['s']:
                k = s[0]
                if k == '=':
                    self.write_place(st, fr, s[1], self.rvalue(st, fr, s[2], s[1]))
                elif k == 'dead':
                    st.st.pop(('L', fr.ctx, s[1]), None)
                elif k == 'sd':
                    v = self.read_place(st, fr, s[1])
                    self.write_place(st, fr, s[1], self.lift(v, lambda t: mk('agg', t.a[0], s[2], t.a[2]) if t.op == 'agg' else t))
            k = blk['k']
            if k == 'goto':
                return [(blk['t'], st)]
            if k == 'return':
                rets.append(st)
                return []
            if k == 'switch':
                return self.switch(fr, blk, st)
            if k == 'assert':
                if self.hazard:
                    self.hazard.assertion(fr, blk, st)
                return [(blk['t'], st)]
            if k == 'drop':
                if self.drops:
                    self.do_drop(fr, b, blk, st)
                return [(blk['t'], st)]
            if k == 'call':
                v = self.call(fr, b, blk, st)
                if blk.get('t') is None:
                    return []
                self.write_place(st, fr, blk['d'], v)
                return [(blk['t'], st)]
            return []
        except Dead:
            return []

    def switch(self, fr, blk, st):
        B = self.B
        v = self.operand(st, fr, blk['d'])
        op = blk['d']
        ty = None
        if op[0] in ('c', 'm'):
            t = self.ptype(fr.fn, op[1])
            ty = self.P.types[t]['k'] if t is not None else None
        out = []
        rest = st.pc
        for val, tgt in blk['b']:
            if ty == 'bool':
                c = self.truth(v)
                if not val:
                    c = B.NOT(c)
            elif ty == 'char' and v.op == 'chr':
                c = 1 if ord(v.a[0]) == val else 0
            else:
                c = self.cond_eq(v, val)
            p = B.AND(rest, c)
            rest = B.AND(rest, B.NOT(c))
            if p:
                s2 = st.copy()
                s2.pc = p
                self.refine(s2, fr, blk, st.pc)
                out.append((tgt, s2))
        if rest and blk.get('o') is not None:
            ob = fr.fn.blocks[blk['o']]
            if not (ob['k'] == 'unreachable'):
                s2 = st
                s2.pc = rest
                out.append((blk['o'], s2))
        return out

    def refine(self, st, fr, blk, oldpc):
        pass

    def do_drop(self, fr, b, blk, st):
        """Run the local Drop implementations of a dropped place."""
        ty = self.P.types[blk['ty']] if blk.get('ty') is not None else None
        if not ty or ty['k'] != 'adt':
            return
        key = ty.get('drop')
        if key and key in self.P.fns:
            locs = self.place_loc(st, fr, blk['p'])
            for gd, l in locs:
                if gd != 1:
                    continue
                if self.load_loc(st, l).op == 'undef':
                    continue
                self.call_fn(st, self.P.fns[key], [Ref(l[0], l[1])], (fr.fn.key, b + ROUND * fr.tag, key), fr.ctx)

    # --------------------------------------------------------------- calls
    def fresh(self, fr, b, kind, *args):
        return mk('S', fr.ctx, b + ROUND * fr.tag, kind, False, *args)

    def call(self, fr, b, blk, st):
        self.calls_seen += 1
        f = blk['f']
        args = [self.operand(st, fr, o) for o in blk['a']]
        dty = self.ptype(fr.fn, blk['d'])
        c = Call(self, fr, b, blk, st, f, args, dty)
        if 'dyn' in f:
            fv = self.operand(st, fr, f['dyn'])
            return self.call_value(c, fv, args)
        path = f.get('rpath') or f.get('path')
        key = f.get('key')
        if self.watch and any(w in path for w in self.watch):
            n = len(self.effects)
            self.effects.append([path, [self.deep(st, x) for x in args], st.pc, fr, blk.get('l'), None])
            r = self.call2(c, f, args, path, key, fr, b, blk, st)
            self.effects[n][5] = r
            return r
        return self.call2(c, f, args, path, key, fr, b, blk, st)

    def call2(self, c, f, args, path, key, fr, b, blk, st):
        if self.hazard:
            self.hazard.call(c, f, args, fr, blk, st)
        for p in (short(f.get('rpath') or ''), short(f.get('path') or '')):
            m = self.models.get(p)
            if m:
                r = m(c)
                if r is not None:
                    return r
        if key and key in self.P.fns:
            fn = self.P.fns[key]
            a = args
            if f.get('kind') != 'ctor' and fn.closure and len(args) == 2:
                a = self.spread(st, fn, args)
            if self.pure_loop(fn):
                return self.pure_call(c, fn, a)
            r = self.call_fn(st, fn, a, (fr.fn.key, b + ROUND * fr.tag, key), fr.ctx)
            if r is not None:
                return r
            return self.opaque(c)
        r = self.fallback(c)
        if r is not None:
            return r
        p = short(f.get('path') or '?')
        self.unknown[p] = self.unknown.get(p, 0) + 1
        return self.opaque(c)

    def pure_loop(self, fn):
        """A function over plain values whose body iterates: kept as an
        uninterpreted pure function of its arguments."""
        r = self._pure.get(fn.key)
        if r is None:
            def plain(t, n=0):
                ty = self.P.types[t]
                k = ty['k']
                if k in ('bool', 'char', 'int', 'float', 'str'):
                    return True
                if k == 'ref':
                    return not ty.get('mut') and plain(ty['t'], n + 1)
                if k == 'tuple':
                    return all(plain(x, n + 1) for x in ty['t'])
                if k == 'adt':
                    if ty['name'].endswith('string::String'):
                        return True
                    if ty['name'].endswith('anyhow::Error'):
                        return True
                    if ty['name'].endswith(('result::Result', 'option::Option')):
                        return all(plain(x[1], n + 1) for v in ty['v'] for x in v['f'])
                return False
            def folds():
                return any(short((t.get('f') or {}).get('path') or '').split('::')[-1] in ('fold', 'try_fold', 'rfold', 'sum', 'product', 'reduce')
                           for b, t in fn.calls())
            r = bool(fn.argc and not fn.closure and (fn.loops or folds()) and all(plain(fn.locals[i][0]) for i in range(fn.argc + 1)))
            self._pure[fn.key] = r
        return r

    def pure_call(self, c, fn, args):
        st = c.st
        self.pure_used.add(fn.key)
        vs = [self.deep(st, x) for x in args]

        def f(*xs):
            t = mk('op', 'fn:' + fn.short, *xs)
            ty = self.P.types[fn.locals[0][0]]
            if ty['k'] == 'adt' and ty['name'].endswith('result::Result'):
                ok = self.atom('okcall', t)
                return self.g([(ok, Ok(t)), (self.B.NOT(ok), Err(mk('op', 'err', t)))])
            return t
        n = len(vs)
        if n == 1:
            return self.lift(vs[0], f)
        if n == 2:
            return self.lift2(vs[0], vs[1], f)
        return f(*vs)

    def spread(self, st, fn, args):
        env, tup = args
        tup2 = self.load(st, tup) if tup.op == 'ref' else tup
        n = fn.argc - 1
        # by-value closure env expected but body takes reference or reverse
        return [env] + [self.proj(tup2, ('f', i)) for i in range(n)]

    def constructed(self, ty, args):
        """The value built by a tuple constructor used as a function (`Some`, `Ok`, a tuple struct); None for other functions."""
        m = re.match(r'^(?:unsafe )?fn\(.*\) -> (.+?) \{(.+)\}$', ty.get('s', ''))
        if not m:
            return None
        name = re.sub(r'::<.*>$', '', m.group(2)).rsplit('::', 1)[-1]
        for t in self.P.types:
            if t and t['k'] == 'adt' and t['s'] == m.group(1):
                for i, v in enumerate(t['v']):
                    if v['n'] == name and len(v['f']) == len(args) and all(x[0] == str(j) for j, x in enumerate(v['f'])):
                        return Agg(t['name'], i, args)
                return None
        return None

    def call_value(self, c, fv, args):
        """Call a closure / fn value with positional args."""
        st = c.st
        v = fv
        envref = fv
        n = 0
        while v.op == 'ref' and n < 6:
            envref = v
            v = self.load(st, v)
            n += 1
        if v.op == 'agg' and v.a[0] == 'closure':
            ty = self.P.types[v.a[1]]
            key = ty.get('key')
        elif v.op == 'fn':
            ty = self.P.types[v.a[0]]
            key = ty.get('key') or (ty.get('fn') if isinstance(ty.get('fn'), str) else None)
            if isinstance(ty.get('fn'), dict):
                key = ty['fn'].get('key')
        else:
            return None
        fn = self.P.fns.get(key)
        if fn is None:
            f = ty.get('fn')
            t = self.constructed(ty, args)
            if t is not None:
                return t
            if isinstance(f, dict):
                c2 = Call(self, c.fr, c.b, c.blk, st, f, list(args), c.dty)
                for p in (short(f.get('rpath') or ''), short(f.get('path') or '')):
                    m = self.models.get(p)
                    if m:
                        return m(c2)
                return self.fallback(c2)
            return None
        a = list(args)
        if fn.closure:
            t1 = self.P.types[fn.locals[1][0]]
            if t1['k'] == 'ref':
                if envref is v:
                    root = ('H', c.fr.ctx, ('env', c.b))
                    st.st[root] = v
                    envref = Ref(root)
                a = [envref] + a
            else:
                a = [v] + a
        return self.call_fn(st, fn, a, (c.fr.fn.key, c.b + ROUND * c.fr.tag, key), c.fr.ctx)

    def opaque(self, c):
        """Unknown call: fresh result; things reachable through &mut arguments become unknown."""
        st = c.st
        for i, o in enumerate(c.blk['a']):
            if o[0] in ('c', 'm'):
                t = self.ptype(c.fr.fn, o[1])
                if t is not None:
                    ty = self.P.types[t]
                    if ty['k'] == 'ref' and ty.get('mut'):
                        r = self.lastref(st, c.args[i])
                        if r.op == 'ref' and r.a[0][0] != 'V':
                            self.store(st, r, self.fresh(c.fr, c.b, 'mut%d' % i))
        nm = short(c.f.get('path') or 'dyn').split('::')[-1]
        a = tuple(x for x in (self.deep(st, v) for v in c.args) if x.op not in ('agg', 'g', 'vec', 'map'))
        return self.fresh(c.fr, c.b, nm, *a[:3])


ROUND = 1000000      # block numbers are extended by the round of the loops taken round by round


class Frame:
    __slots__ = ('fn', 'ctx', 'tag')

    def __init__(self, fn, ctx):
        self.fn = fn
        self.ctx = ctx
        self.tag = 0        # rounds of the loops taken round by round, 0 outside them


class Call:
    __slots__ = ('E', 'fr', 'b', 'blk', 'st', 'f', 'args', 'dty')

    def __init__(self, E, fr, b, blk, st, f, args, dty):
        self.E, self.fr, self.b, self.blk, self.st, self.f, self.args, self.dty = E, fr, b, blk, st, f, args, dty

    def ld(self, i):
        return self.E.deep(self.st, self.args[i])

    def fresh(self, kind, *a):
        return self.E.fresh(self.fr, self.b, kind, *a)

    @property
    def line(self):
        return self.blk.get('l')
