"""C07: no input makes the library panic."""
from ..engine import Engine, State, mk, Ref, Dead, fmt
from .. import engine as X
from .. import pkg
from ..mir import short
from ..models import mapref, pointee

EXPLAIN = '''Every public operation is evaluated symbolically (abstract interpretation with gated values and binary decision
diagrams over atomic facts, no solver) from an arbitrary state and arbitrary arguments. Wherever the code can panic, the
condition under which it does is formed: a missing value or failure being unwrapped, an arithmetic overflow or underflow,
a division by zero, an element or slice position outside its sequence, an explicit panic. The condition is then judged by
what it rests on: facts of the document or of the caller's arguments (an attribute that may be absent, text that may not
parse, a search that may find nothing, a number that may be anything) that nothing on the path has excluded.'''
RULE = '''no panic site whose failing condition is satisfiable and rests on input alone; a Result or a part handle is never
unwrapped unless the path has established that it holds a value; integers read from the file or given by the caller keep
within range of every arithmetic operation applied to them by the tests on the path (interval domain)'''
ASSUME = ['overflow checks are panics (debug semantics); in release builds the same sites wrap silently, which is no better',
          'conditions that rest on state the library builds itself (ids of its own tree, counters, cached positions) are not judged',
          'exhaustion of memory or stack is not judged']

ABSENT_OPS = ('rfind', 'find', 'split_once', 'rsplit_once', 'strip_prefix', 'strip_suffix', 'char_indices', 'position', 'to_digit',
              'checked_add', 'checked_sub', 'checked_mul', 'from_u32', 'from_digit', 'nth', 'last', 'next', 'max', 'min')
INFALLIBLE = ('std::fmt::Write::write_str', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_char', 'std::fmt::write')
BITS = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
        'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
        'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1)}
SIZEMAX = 2**40     # lengths of texts and lists


def pointee_name(c):
    ty = pointee(c)
    return ty['name'].split('::')[-1] if ty and ty['k'] == 'adt' else ''


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        for x in t:
            yield from subterms(x, seen)
        return
    if not hasattr(t, 'op') or t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if hasattr(x, 'op') or isinstance(x, tuple):
            yield from subterms(x, seen)


def carriers(t):
    """The texts and lists a value was taken from, not the elements that carry them."""
    yield t
    if t.op in ('attr', 'text', 'elval', 'tag', 'attrs'):
        return
    for x in t.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if hasattr(y, 'op'):
                yield from carriers(y)


def is_arg(t):
    return t.op == 'S' and str(t.a[2]).startswith('arg') and not t.a[0]


class Judge:
    """Collects the failing condition of every panic site of one entry."""

    def __init__(self, E, entry, method, types):
        self.E, self.entry, self.method, self.types = E, entry, method, types
        self.rec, self.first = {}, {}
        self.seen = set()
        self.searched = {}
        self.srcs = {}
        self.fixed = {}
        self.val = {}

    # ------------------------------------------------------------- hooks
    def put(self, fr, blk, kind, bad, pc, ops, extra=None):
        site = (fr.fn.key, blk.get('l'), kind)
        self.seen.add(site)
        r = (bad, pc, ops, fr.fn, extra)
        # inside loops: the first round (which is exact) and the last (which stands for all)
        self.first.setdefault((site, fr.ctx, fr.tag), r)
        self.rec[(site, fr.ctx, fr.tag)] = r

    def assertion(self, fr, blk, st):
        E = self.E
        m = blk['m']
        if m[0] == 'overflow':
            a, b = [E.deep(st, E.operand(st, fr, x)) for x in m[2:4]]
            ty = self.optype(fr, m[2]) or self.optype(fr, m[3])
            self.put(fr, blk, m[1], st.pc, st.pc, (a, b), ty)
        elif m[0] in ('rem0', 'div0'):
            self.put(fr, blk, 'zero divisor', st.pc, st.pc, tuple(E.deep(st, E.operand(st, fr, x)) for x in m[1:]))
        elif m[0] == 'bounds':
            self.put(fr, blk, 'position', st.pc, st.pc, tuple(E.deep(st, E.operand(st, fr, x)) for x in m[1:]))

    def optype(self, fr, o):
        E = self.E
        t = o[1] if o[0] == 'k' else E.ptype(fr.fn, o[1])
        t = E.P.types[t] if t is not None else None
        return t.get('s') or t.get('n') if t else None

    def call(self, c, f, args, fr, blk, st):
        E = self.E
        p = f.get('path') or ''
        last = p.split('::')[-1]
        if last in ABSENT_OPS and args:
            self.searched[(fr.ctx, c.b)] = tuple(E.deep(st, x) for x in args)
        if 'panic' in last or 'panicking::' in p or p.endswith('::unreachable_display'):
            self.put(fr, blk, 'panic', st.pc, st.pc, ())
        elif last in ('unwrap', 'expect') and ('option::Option' in p or 'result::Result' in p):
            good = 1 if 'option' in p else 0
            v = E.deep(st, args[0])
            bad, miss = self.missing(v, good)
            if bad == 0 and self.always(fr.fn, c.b):
                self.put(fr, blk, 'failure', st.pc, st.pc, (v,), 'source')
                return
            self.put(fr, blk, 'missing value' if good else 'failure', bad, st.pc, (v,), miss)
        elif last == 'pow' and p.startswith('core::num::'):
            self.put(fr, blk, 'power', st.pc, st.pc, (E.deep(st, args[0]), E.deep(st, args[1])))
        elif last in ('index', 'index_mut') and p.startswith('std::ops::Index') and pointee_name(c) in ('HashMap', 'BTreeMap'):
            v = mapref(c, E.lastref(st, args[0]), E.deep(st, args[1]))
            bad, miss = self.missing(v, 1)
            self.put(fr, blk, 'missing value', bad, st.pc, (v,), miss)
        elif last in ('index', 'index_mut') and p.startswith('std::ops::Index'):
            v, i = E.deep(st, args[0]), E.deep(st, args[1])
            self.put(fr, blk, 'position', st.pc, st.pc, (v, i), self.argtype(c, fr, blk))
        elif last in ('split_at', 'remove', 'swap_remove', 'split_off', 'insert', 'drain', 'insert_str', 'replace_range') and len(args) > 1 \
                and (p.startswith('std::vec::Vec') or p.startswith('std::string::String') or p.startswith('core::str') or
                     p.startswith('core::slice') or p.startswith('std::collections::VecDeque')):
            self.put(fr, blk, 'position', st.pc, st.pc, (E.deep(st, args[0]), E.deep(st, args[1])), last)

    def missing(self, v, good):
        E = self.E
        bad = 0
        miss = []
        for gd, x in E.alts(v):
            if x.op == 'agg':
                b = gd if x.a[1] != good else 0
            elif x.op == 'undef':
                b = 0
            else:
                b = E.B.AND(gd, E.cond_eq(mk('discr', x), 1 - good))
                miss.append(x)
            bad = E.B.OR(bad, b)
        return bad, tuple(miss)

    def always(self, fn, b):
        """Is the unwrapped value straight from a call that can fail for reasons outside the program
        (or a handle that may be gone), with no test of such a value before it?"""
        k = (fn.key, b)
        if k in self.srcs:
            return self.srcs[k]
        o = fn.blocks[b]['a'][0]
        defs = {}
        for x in fn.rpo:
            t = fn.blocks[x]
            for s in t['s']:
                if s[0] == '=' and not s[1][1] and s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and not s[2][1][1][1]:
                    defs.setdefault(s[1][0], []).append(('=', s[2][1][1][0]))
            if t['k'] == 'call' and not t['d'][1]:
                defs.setdefault(t['d'][0], []).append(('c', x))
        r = False
        l = o[1][0] if o[0] in ('c', 'm') and not o[1][1] else None
        for _ in range(12):
            d = defs.get(l)
            if not d or len(d) != 1:
                break
            if d[0][0] == '=':
                l = d[0][1]
                continue
            t = fn.blocks[d[0][1]]
            f = t['f']
            p = f.get('path') or ''
            if p.split('::')[-1] in ('context', 'with_context', 'map_err', 'map', 'and_then', 'ok_or', 'ok_or_else', 'inspect_err') and t['a'] and \
                    t['a'][0][0] in ('c', 'm') and not t['a'][0][1][1]:
                l = t['a'][0][1][0]
                continue
            name = short(f.get('rpath') or p)
            if p.split('::')[-1] == 'upgrade' and 'Weak' in p:
                r = True
            elif p.split('::')[-1] in ('try_borrow', 'try_borrow_mut', 'get', 'get_mut', 'get_key_value') or p in INFALLIBLE:
                r = False
            elif self.E.P.is_result(fn.locals[t['d'][0]][0]) and (f.get('key') not in self.E.P.fns or name in self.E.models or short(p) in self.E.models):
                r = p.split('::')[-1] not in ('fmt', 'write_str', 'write_fmt')
            break
        if r:
            for x, t in fn.calls():
                n = (t['f'].get('path') or '').split('::')[-1]
                if n in ('is_ok', 'is_err', 'is_some', 'is_none') and fn.dominates(x, b):
                    r = False
        self.srcs[k] = r
        return r

    def argtype(self, c, fr, blk):
        t = self.optype(fr, blk['a'][0])
        return t or ''

    # ------------------------------------------------------------- classification
    def given(self, t):
        """Is the term taken from the document or from the caller?"""
        for x in subterms(t):
            if x.op in ('attr', 'text', 'elval', 'znames', 'parse', 'tag', 'unescaped', 'evname', 'evattrs'):
                return True
            if is_arg(x) and not (self.method and x.a[2] == 'arg0'):
                return True
            if x.op == 'S' and x.a[2] == 'item' and any(is_arg(y) for y in subterms(x.a[4:])):
                return True
            if x.op == 'S' and x.a[2] == 'EVENT':
                return True
        return False

    def of_event(self, d):
        return any(y.op == 'S' and y.a[2] == 'EVENT' for x in d[1:] if hasattr(x, 'op') for y in subterms(x))

    def subjects(self, v):
        """What an absent-or-present search looked at, with its alternatives."""
        args = self.searched.get((v.a[0], v.a[1])) or tuple(x for x in v.a[4:] if hasattr(x, 'op'))
        if not args:
            return [], ()
        return list(self.E.alts(args[0])), args[1:]

    def own(self, t):
        """Does it rest on something the engine could not follow?"""
        return any(x.op in ('undef',) or x.op == 'S' and x.a[2] in ('widen', 'iv') for x in subterms(t))

    def support(self, g):
        return [self.E.vars[v] for v in self.E.B.support(g)]

    def interval(self, t, pc, ty=None):
        """(lo, hi, given) or None"""
        E = self.E
        if t in self.fixed:
            return self.fixed[t]
        if t.op == 'g':
            r = None
            for gd, x in t.a[0]:
                if E.B.AND(gd, pc) == 0:
                    continue
                i = self.interval(x, E.B.AND(gd, pc), ty)
                if i is None:
                    return None
                r = i if r is None else (min(r[0], i[0]), max(r[1], i[1]), r[2] or i[2])
            return r
        if t.op == 'int':
            return (t.a[0], t.a[0], False)
        r = None
        if t.op == 'plus':
            i = self.interval(t.a[0], pc, ty)
            k = t.a[1] if isinstance(t.a[1], int) else t.a[1].a[0]
            return i and (i[0] + k, i[1] + k, i[2])
        if t.op == 'op' and t.a[0] in ('Add', 'Sub', 'Mul') and len(t.a) == 3:
            a, b = self.interval(t.a[1], pc, ty), self.interval(t.a[2], pc, ty)
            if not a or not b:
                return None
            if t.a[0] == 'Add':
                r = (a[0] + b[0], a[1] + b[1], a[2] or b[2])
            elif t.a[0] == 'Sub':
                r = (a[0] - b[1], a[1] - b[0], a[2] or b[2])
            else:
                q = [x * y for x in a[:2] for y in b[:2]]
                r = (min(q), max(q), a[2] or b[2])
        elif t.op == 'op' and t.a[0] == 'Rem' and t.a[2].op == 'int':
            return (0, t.a[2].a[0] - 1, False)
        elif t.op == 'op' and t.a[0] == 'Div' and t.a[2].op == 'int' and t.a[2].a[0] > 0:
            a = self.interval(t.a[1], pc, ty)
            return a and (a[0] // t.a[2].a[0], a[1] // t.a[2].a[0], a[2])
        elif t.op == 'len':
            x = t.a[0]
            n = 0
            if x.op == 'vec':
                n = sum(1 for e in x.a[1] if e[1] == 'one' and E.B.AND(pc, E.B.NOT(e[0])) == 0)
            r = (n, SIZEMAX, self.given(x))
        elif t.op == 'parse' or t.op == 'vf' and t.a[0].op == 'parse':
            p = t if t.op == 'parse' else t.a[0]
            ty = [x for x in p.a if isinstance(x, str) and x in BITS] + [x.a[0] for x in p.a if hasattr(x, 'op') and x.op == 'str' and x.a[0] in BITS]
            if not ty:
                return None
            r = BITS[ty[0]] + (True,)
        elif is_arg(t) and not (self.method and t.a[2] == 'arg0'):
            n = self.types.get(t.a[2])
            if n not in BITS:
                return None
            r = BITS[n] + (True,)
        elif t.op == 'S' and t.a[2] == 'iv':
            a = self.interval(t.a[4], pc, ty)
            k = t.a[5].a[0]
            return a and ((a[0], a[0] + SIZEMAX, False) if k > 0 else None)
        elif t.op == 'S' and t.a[2] in ('index', 'pos', 'rfind', 'find', 'len') or t.op == 'vf' and t.a[0].op == 'S' and t.a[0].a[2] in ('rfind', 'find', 'position'):
            r = (0, SIZEMAX, self.given(t))
        else:
            return None
        return self.narrow(t, r, pc)

    def narrow(self, t, r, pc):
        """Tighten by the comparisons on the path; a fact about the term of another kind makes it unknown."""
        E = self.E
        lo, hi, g = r
        B = E.B
        again = True
        facts = []
        for v in B.support(pc):
            d = E.vars[v]
            if d[0] == 'lt' and (d[1] is t or d[2] is t):
                facts.append((v, d))
            elif d[0] == 'x' and d[1] is t:
                facts.append((v, d))
            elif g and d[0] not in ('fits', 'parseok') and any(x is t for y in d[1:] for x in subterms(y)) and \
                    not (d[0] == 'lt' and any(y is not t and y.op == 'op' for y in d[1:] if hasattr(y, 'op'))):
                g = None
        while again:
            again = False
            for v, d in facts:
                for val in (True, False):
                    if B.AND(pc, B.v(v) if val else B.NOT(B.v(v))) != 0:
                        continue
                    val = not val      # the fact is always `val`
                    if d[0] == 'lt':
                        o = d[2] if d[1] is t else d[1]
                        if o.op != 'int':
                            g = None
                            continue
                        k = o.a[0]
                        if d[1] is t:
                            n = (lo, min(hi, k - 1)) if val else (max(lo, k), hi)
                        else:
                            n = (max(lo, k + 1), hi) if val else (lo, min(hi, k))
                    else:
                        k = d[2]
                        if not isinstance(k, int):
                            continue
                        if val:
                            n = (max(lo, k), min(hi, k))
                        else:
                            n = (lo + 1 if k == lo else lo, hi - 1 if k == hi else hi)
                    if n != (lo, hi):
                        lo, hi = n
                        again = True
        return (lo, hi, g)

    # ------------------------------------------------------------- verdicts
    def verdict(self, site, ctx, bad, pc, ops, fn, extra):
        """(verdict, explanation): 'safe', 'bad' or 'unknown'"""
        E, B = self.E, self.E.B
        kind = site[2]
        bad = B.AND(bad, pc)
        if bad == 0:
            return 'safe', ''
        self.val = {}
        for v in B.support(pc):
            if B.AND(pc, B.NOT(B.v(v))) == 0:
                self.val[E.vars[v]] = True
            elif B.AND(pc, B.v(v)) == 0:
                self.val[E.vars[v]] = False
        if kind in ('Add', 'Sub', 'Mul'):
            return self.arith(kind, ops, pc, extra)
        if extra == 'source':
            return 'bad', 'the outcome of an operation that can fail is unwrapped'
        if kind in ('missing value', 'failure'):
            return self.unwrapped(bad, pc, ops[0], extra, kind)
        if kind == 'power':
            return self.power(ops, pc)
        if kind == 'zero divisor':
            i = self.interval(ops[0], pc)
            # the operand recorded is the dividend: the divisor follows from the guard
            return 'unknown', ''
        if kind == 'position':
            return self.position(ops, pc, extra)
        if kind == 'panic':
            facts = self.failing(bad, 1)
            if any(self.opaque(d) for d, val in facts) or any(self.opaque(d) for d in self.support(bad)):
                return 'unknown', ''
            hit = [(d, val) for d, val in facts if self.fact(d, val, self.without(bad, d), 'panic') == 'bad' or
                   d[0] == 'x' and not val and d[1].op in ('attr', 'text', 'elval') and isinstance(d[2], str)]
            if not hit and facts and all(self.of_event(d) for d, val in facts) and all(self.of_event(d) for d in self.support(bad)):
                hit = facts
            if hit:
                return 'bad', 'explicit panic where ' + self.say(hit)
            return 'unknown', ''
        return 'unknown', ''

    def power(self, ops, pc):
        b, e = ops
        if b.op == 'int' and b.a[0] < 2:
            return 'safe', ''
        i = self.interval(e, pc)
        if i and i[1] <= 6:
            return 'safe', ''
        if e.op == 'S' and e.a[2] == 'index':
            # the position in a sequence: bounded where the length is
            for v in self.E.B.support(pc):
                d = self.E.vars[v]
                if any(hasattr(x, 'op') and any(y.op == 'len' or y.op == 'S' and y.a[2] in ('len', 'count') for y in subterms(x)) for x in d[1:]):
                    return 'safe', ''
            src = [self.E.vars[v][1] for v in self.E.B.support(pc) if self.E.vars[v][0] == 'next']
            if any((x.a[0], x.a[1]) == (e.a[0], e.a[1]) and self.given(x) for x in src):
                return 'bad', '%s to the power of a position in %s, which may be of any length' % (fmt(b), fmt(src[-1], 4)[:60])
        return 'unknown', ''

    def arith(self, kind, ops, pc, ty):
        if ty not in BITS:
            return 'unknown', ''
        a, b = self.interval(ops[0], pc, ty), self.interval(ops[1], pc, ty)
        lim = BITS[ty]
        if a is None or b is None:
            return 'unknown', ''
        if kind == 'Add':
            r = (a[0] + b[0], a[1] + b[1])
        elif kind == 'Sub':
            r = (a[0] - b[1], a[1] - b[0])
        else:
            q = [x * y for x in a[:2] for y in b[:2]]
            r = (min(q), max(q))
        if lim[0] <= r[0] and r[1] <= lim[1]:
            return 'safe', ''
        if a[2] is None or b[2] is None or not (a[2] or b[2]):
            return 'unknown', ''
        wide = [x for x in (a, b) if x[2]]
        if r[0] < lim[0] and not any(x[2] for x in ((a,) if a[0] - b[1] < lim[0] else ())):
            return 'unknown', ''
        if any(x[1] == SIZEMAX for x in wide) and r[0] >= lim[0]:
            return 'unknown', ''
        if kind == 'Add' and self.together(ops, pc):
            return 'unknown', ''
        return 'bad', '%s of %s and %s leaves %s' % ({'Add': 'sum', 'Sub': 'difference', 'Mul': 'product'}[kind], fmt(ops[0], 5)[:60], fmt(ops[1], 5)[:60], ty)

    def together(self, ops, pc):
        """A number from outside plus the position in a sequence, where the path compared the number together
        with a length: the sum may be bounded by what was compared."""
        def pos(t):
            return any(x.op == 'S' and x.a[2] in ('index', 'pos', 'position') for x in subterms(t))
        for a, b in (ops, ops[::-1]):
            if not pos(b):
                continue
            roots = {x for x in subterms(a) if is_arg(x) or x.op in ('attr', 'parse')}
            for v in self.E.B.support(pc):
                d = self.E.vars[v]
                if d[0] != 'lt':
                    continue
                sub = {x for y in d[1:] if hasattr(y, 'op') for x in subterms(y)}
                if roots & sub and any(x.op == 'len' or x.op == 'S' and x.a[2] in ('len', 'count') for x in sub):
                    return True
        return False

    def without(self, g, d):
        for v in self.E.B.support(g):
            if self.E.vars[v] is d:
                return self.E.B.exists(g, {v})
        return g

    def opaque(self, d):
        return d[0] not in ('has', 'hastext', 'existstag', 'existsattr', 'hasattrs', 'parseok', 'fits', 'partexists', 'next', 'starts_with', 'ends_with', 'x',
                            'eq', 'eq_ignore_case', 'lt', 'exit', 'finite', 'nan', 'haskey', 'nonempty', 'emptytag', 'okcall', 'limited', 'inrange')

    def say(self, facts):
        return ', '.join(('' if val else 'not ') + '%s(%s)' % (d[0], ','.join(fmt(x, 5)[:60] if hasattr(x, 'op') else str(x) for x in d[1:])) for d, val in facts)

    def unwrapped(self, bad, pc, v, miss, kind):
        E, B = self.E, self.E.B
        # the facts whose outcome makes the value missing
        facts = self.failing(bad, pc)
        if not facts:
            return 'unknown', ''
        verdicts = []
        for d, val in facts:
            verdicts.append(self.fact(d, val, pc, kind))
        if all(x == 'bad' for x in verdicts):
            return 'bad', self.say(facts)
        if all(x == 'safe' for x in verdicts):
            return 'safe', ''
        return 'unknown', ''

    def failing(self, bad, pc):
        """The atoms the failure adds to the path condition."""
        E, B = self.E, self.E.B
        out = []
        for var in B.support(bad):
            x = B.v(var)
            for val, lit in ((True, x), (False, B.NOT(x))):
                if B.AND(bad, B.NOT(lit)) == 0 and B.AND(pc, B.NOT(lit)) != 0:
                    out.append((E.vars[var], val))
        return out

    def fact(self, d, val, pc, kind):
        E = self.E
        k = d[0]
        others = [x for x in self.support(pc) if x is not d]
        if k in ('has', 'hastext'):
            if self.own(mk('op', 'w', *[x for x in d[1:] if hasattr(x, 'op')])) or any(x.op == 'E' for x in d[1:] if hasattr(x, 'op')):
                return 'unknown'
            return 'bad'
        if k == 'hasattrs':
            if d[1].op == 'E' or self.own(d[1]):
                return 'unknown'
            return 'unknown' if any(o[0] == 'has' and o[1] is d[1] for o in others) else 'bad'
        if k == 'fits' and d[1].op in ('plus', 'op'):
            i = self.interval(d[1], pc)
            return 'safe' if i and 0 <= i[0] and i[1] <= 255 else 'bad' if i and i[2] and i[0] < 0 else 'unknown'
        if k in ('parseok', 'fits', 'partexists'):
            t = d[1]
            if not self.given(t) and k == 'parseok':
                return 'unknown'
            return 'unknown' if self.told(t, others) else 'bad'
        if k == 'okcall':
            return 'bad' if self.given(d[1]) and not self.told(d[1], others) else 'unknown'
        if k == 'next':
            S = d[1]
            src = S.a[4] if len(S.a) > 4 else None
            if src is None:
                return 'unknown'
            for x in subterms(src):
                if x.op == 'S' and x.a[2] in ('split', 'rsplit', 'splitn', 'rsplitn', 'split_terminator', 'chars', 'lines', 'split_whitespace'):
                    if x.a[2] in ('split', 'rsplit', 'splitn', 'rsplitn'):
                        return 'safe'
                    return 'bad' if self.given(x) and not self.told(x.a[4], others) else 'unknown'
            if src.op == 'tagged':
                return 'unknown' if any(o[0] == 'existstag' for o in others) or val else 'bad'
            if is_arg(src) and not (self.method and src.a[2] == 'arg0'):
                return 'bad' if not self.told(src, [o for o in others if o[0] != 'next']) else 'unknown'
            return 'unknown'
        if k == 'inrange':
            if is_arg(d[1]) and not (self.method and d[1].a[2] == 'arg0') and d[2].op in ('str', 'int'):
                return 'unknown' if self.told(d[1], others, upto=d[2].a[0] if d[2].op == 'int' else 0) else 'bad'
            return 'unknown'
        if k == 'haskey':
            m, key = d[1], d[2]
            if self.own(key) or any(x is m for x in subterms(key)) or key.op not in ('str', 'S', 'attr', 'text'):
                return 'unknown'
            if m.op == 'attrs' and key.op == 'str':
                return 'unknown' if self.told(m, others) else 'bad'
            if is_arg(m) and not (self.method and m.a[2] == 'arg0') and key.op == 'str':
                return 'unknown' if self.told(m, others) else 'bad'
            return 'unknown'
        if k == 'x' and d[1].op == 'discr':
            v = d[1].a[0]
            if kind == 'failure':
                return 'bad'
            if v.op == 'S' and v.a[2] in ABSENT_OPS:
                alts, rest = self.subjects(v)
                needle = rest[0].a[0] if rest and rest[0].op in ('str', 'chr') else None
                for gd, x in alts:
                    if E.B.AND(gd, pc) == 0 or not self.given(x) or self.own(x) or self.told(x, others, need=needle):
                        continue
                    if x.op == 'cat' and needle and any(y.op == 'str' and needle in y.a[0] for y in subterms(x)):
                        continue
                    return 'bad'
                return 'unknown'
            if v.op == 'S' and len(v.a) > 4:
                return 'unknown'
            # an optional argument or an optional field of the record the operation works on
            u = v
            while u.op in ('f', 'vf'):
                u = u.a[0]
            if is_arg(u) or u.op == 'S' and u.a[2] == 'item' and not u.a[3] and any(is_arg(y) for y in subterms(u.a[4:])):
                return 'bad'
        return 'unknown'

    def allows(self, d, t, n):
        """Can the comparison come out as it did while the list has no more than n entries?"""
        val = self.val.get(d)
        self.fixed = {mk('len', t): (0, n, False)}
        try:
            a, b = [self.interval(x, 1) for x in d[1:3]]
        finally:
            self.fixed = {}
        if val is None or not a or not b:
            return False
        return a[0] < b[1] if val else a[1] >= b[0]

    def told(self, t, others, need=None, upto=None):
        """Does the path already say something about this very term?"""
        for d in others:
            if d[0] in ('has', 'x') and not any(x is t for x in d[1:] if hasattr(x, 'op')) and d[0] == 'has':
                continue
            if need is not None and d[0] in ('starts_with', 'ends_with'):
                p = d[2].a[0] if hasattr(d[2], 'op') and d[2].op in ('str', 'chr') else None
                if isinstance(p, str) and not (p.startswith(need) if d[0] == 'starts_with' else p.endswith(need)):
                    continue
            if upto is not None and d[0] == 'lt' and self.allows(d, t, upto):
                continue
            for y in d[1:]:
                if hasattr(y, 'op') and any(x is t for x in subterms(y)):
                    return True
        return False

    def position(self, ops, pc, extra):
        v, i = ops
        if i.op == 'agg' and len(i.a[2]) in (1, 2):
            ks = [x.a[0] for x in i.a[2] if x.op == 'int' and x.a[0] > 0]
            if not ks or extra == 'drain':
                return 'unknown', ''
            i = mk('int', max(ks))
        if extra in ('insert', 'split_off', 'drain', 'replace_range', 'insert_str') or i.op == 'g' or v.op == 'g':
            return 'unknown', ''
        others = self.support(pc)
        if i.op == 'int':
            # a fixed position of a text or list that came from outside
            base = v
            if self.own(v) or not self.given(v):
                return 'unknown', ''
            for x in carriers(v):
                if self.told(x, [d for d in others if d[0] in ('lt', 'x', 'eq', 'starts_with', 'ends_with', 'next', 't', 'nonempty', 'haskey') and
                                 not (d[0] == 'next' and d[1].op == 'S' and d[1].a[2] == 'item' and any(z is d[1] for z in subterms(v)))], upto=i.a[0]) and \
                        x.op not in ('str', 'int'):
                    return 'unknown', ''
            if any(x.op == 'S' and x.a[2] in ('split', 'rsplit', 'splitn', 'rsplitn') for x in subterms(v)) and i.a[0] == 0:
                return 'safe', ''
            return 'bad', 'position %d of %s' % (i.a[0], fmt(v, 5)[:80])
        # a number taken from the document or the caller, about which nothing was established
        n = self.interval(i, pc)
        facts = [d for d in others if d[0] not in ('parseok', 'fits', 'has', 'hasattrs', 'existstag', 'next')]
        if n and n[2] and n[1] > 255 and not self.own(i) and not any(self.told(x, facts) for x in carriers(i) if x.op not in ('str', 'int')):
            return 'bad', 'position %s of %s' % (fmt(i, 5)[:60], fmt(v, 4)[:60])
        return 'unknown', ''


TREE = ('files::xml::xml_tree::',)


def entries(P):
    """(function, is it part of the element tree): what callers outside the library, drops and the tree's users reach."""
    E = pkg.engine(P)
    for k, f in sorted(P.lib.items(), key=lambda x: x[1].short):
        if f.is_test or f.closure:
            continue
        if f.trait and (f.trait.startswith('std::') or f.trait.startswith('core::')) and not f.short.endswith('::drop'):
            continue
        tree = f.short.startswith(TREE)
        if f.exported or f.short.endswith('::drop') or E.pure_loop(f) or tree:
            yield f, tree


class Quiet:
    """Context for engines that are only observed."""

    def __init__(self, ctx):
        self.P = ctx.P

    def __getattr__(self, n):
        return lambda *a, **k: None


def layers(ctx, judges):
    """The XML reader and writer, one arbitrary step of each."""
    from . import c05
    from .. import xmlout

    def make(E):
        J = Judge(E, None, False, {})
        judges.append(J)
        return J
    Engine.hazards = make
    try:
        for what, go in (('reader', lambda q: [R.run(fn) for R in [c05.Reader(q)] for fn in R.all]), ('writer', lambda q: xmlout.Writer(q).run())):
            try:
                go(Quiet(ctx))
            except Exception as e:      # noqa: BLE001
                ctx.unknown('panic sites of the XML ' + what, '%s: %s' % (type(e).__name__, str(e)[:80]))
    finally:
        Engine.hazards = None


def run(ctx):
    P = ctx.P
    verdicts = {}
    reached = set()
    n = 0
    judges = []
    for f, tree in entries(P):
        E = pkg.engine(P)
        E.budget = 150000
        E.strict = True
        if tree:
            E.models = {k: v for k, v in E.models.items() if not k.startswith(TREE)}
        types = {}
        st = State(1, {})
        args = []
        method = False
        for i in range(f.argc):
            t = P.types[f.locals[1 + i][0]]
            u = t
            while u['k'] == 'ref':
                u = P.types[u['t']]
            if i == 0 and len(f.locals[1]) > 1 and f.locals[1][1] == 'self':
                method = True
            if not tree:
                types['arg%d' % i] = u.get('s') or u.get('n')
            s = mk('S', (), 0, 'arg%d' % i, True)
            if t['k'] == 'ref' and P.types[t['t']]['k'] not in ('str', 'slice', 'dyn'):
                st.st[('H', i)] = s
                args.append(Ref(('H', i)))
            else:
                args.append(s)
        J = Judge(E, f, method, types)
        E.hazard = J
        judges.append(J)
        n += 1
        try:
            E.call_fn(st, f, args, ('c07', 0, f.key), ())
        except Dead:
            pass
        except Exception as e:      # noqa: BLE001
            ctx.unknown('panic sites of ' + f.short, '%s: %s' % (type(e).__name__, str(e)[:80]))
    ctx.need('operations evaluated', n, 40)
    layers(ctx, judges)
    for J in judges:
        E = X.ENG = J.E
        reached |= J.seen
        who = J.entry.short if J.entry else 'the XML reader or writer'
        for (site, c, tg), r in J.rec.items():
            x, why = J.verdict(site, c, *r)
            if x != 'bad' and J.first[(site, c, tg)] != r:
                y, w = J.verdict(site, c, *J.first[(site, c, tg)])
                if y == 'bad':
                    x, why = y, w
            verdicts.setdefault(site, []).append((x, why, who, E.bfmt(E.B.AND(r[0], r[1]), 1)[:400] if x != 'safe' else ''))
        ctx.count('functions analysed', len(E.fns_seen))
        ctx.count('calls resolved', E.calls_seen)
    ctx.need('panic sites reached', len(reached), 40)
    for site, l in sorted(verdicts.items(), key=lambda x: str(x[0])):
        fn = P.lib[site[0]]
        bad = [x for x in l if x[0] == 'bad']
        if bad:
            ctx.bad('%s:%s' % (fn.short, site[2]), '%s, line %s: %s (%s) when called through %s' % (fn.short, site[1], site[2], bad[0][1], bad[0][2]))
        elif any(x[0] == 'unknown' for x in l):
            ctx.count('sites that rest on state of the library itself')
            if getattr(ctx, 'debug', None) is not None:
                ctx.debug.append((fn.short, site[1], site[2], [x for x in l if x[0] == 'unknown'][0][2:]))
        else:
            ctx.ok('panic site cannot fail on input', '%s:%s %s' % (fn.short, site[1], site[2]))
