"""C28: column letters and column numbers convert back and forth exactly."""
from .. import engine as X
from ..engine import Dead, State, fmt, mk
from ..xmlcore import StepEngine

EXPLAIN = '''Both conversions are loops.  An abstract interpretation of the compiler's MIR takes one arbitrary round of each: the number and the text at the head
of the round are symbols, and what the round turns them into is a term over them, read off together with the values before the first round, the
condition for another round and the value returned.  The terms are compared with the recurrences of the bijective base-26 numeral system.'''
RULE = '''Letters of a number: with m the number still to be written (the loop variable minus its offset), each round puts the letter 65 + (m-1) mod 26 in
front and goes on with (m-1) div 26 while m > 0, starting from the number itself.  Number of the letters: starting from 0, either the letters are taken
from the front and each turns n into 26 n + v, or from the back and the i-th adds v 26^i, where v is the letter minus 64; up to three letters are
accepted.  That these recurrences are inverse to each other on 1..16384 is the arithmetic of bijective numeration.'''
ASSUME = ['conversions written in another way than one loop over a number or over the letters are not judged',
          'overflow is left to C07']


def strip(t):
    while t.op == 'cast' or t.op == 'op' and t.a[0] in ('cast', 'as') and len(t.a) == 2:
        t = t.a[1]
    return t


def linear(t):
    """(core, offset): t = core + offset"""
    if t.op == 'plus':
        c, k = linear(t.a[0])
        return c, k + (t.a[1] if isinstance(t.a[1], int) else t.a[1].a[0])
    if t.op == 'op' and t.a[0] in ('Add', 'Sub') and len(t.a) == 3:
        for i, j in ((1, 2), (2, 1)):
            k = number(t.a[j])
            if k is not None and (t.a[0] == 'Add' or i == 1):
                c, o = linear(t.a[i])
                return c, o + (k if t.a[0] == 'Add' else -k)
    return t, 0


def number(t):
    if t.op == 'int' and isinstance(t.a[0], int):
        return t.a[0]
    if t.op == 'chr':
        return ord(t.a[0]) if isinstance(t.a[0], str) else t.a[0]
    return None


def show(t, d=0):
    if t.op == 'S':
        return str(t.a[2])
    if t.op == 'op':
        return '%s(%s)' % (t.a[0], ', '.join(show(x) for x in t.a[1:] if hasattr(x, 'op')))
    if t.op == 'plus':
        return '%s%+d' % (show(t.a[0]), t.a[1] if isinstance(t.a[1], int) else t.a[1].a[0])
    return fmt(t, 3)


class Round:
    """One arbitrary round of the only loop of fn."""

    def __init__(self, P, fn, inner):
        class One(StepEngine):
            def stepping(self, fr, body):
                return fr.fn in inner and self.main(fr.fn, body)

            def main(self, f, body):
                return len(body) == max(len(b) for b in f.loops.values())

            def pure_loop(self, f):
                return False
        E = self.E = X.ENG = One(P, lambda p: False)
        E.strict = True
        self.arg = mk('S', (), 0, 'arg0', True)
        st = State(1, {})
        try:
            self.ret = E.deep(st, E.call_fn(st, fn, [self.arg], ('c28', 0, fn.key), ()))
        except Dead:
            self.ret = None
        self.ok = E.head is not None and len(getattr(E, 'back', [])) >= 1
        if self.ok:
            self.vars = {}
            for k, v in E.changed.items():
                self.vars[v] = (E.deep(E.entry, E.entry.st[k]), [E.deep(b, b.st[k]) for b in E.back])

    def result(self):
        """Payloads of the successful outcome."""
        out = []
        for g, x in self.E.alts(self.ret):
            if x.op == 'agg' and x.a[1] == 0 and len(x.a[2]) == 1:
                out += [y for _, y in self.E.alts(x.a[2][0])]
        return out


def subterms(t):
    yield t
    for x in t.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if hasattr(y, 'op'):
                yield from subterms(y)


def loops_of(P, fn):
    """fn and the functions it calls that have a loop."""
    out, todo = set(), [fn]
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if f.loops:
            out.add(f)
        for b, t in f.calls():
            g = P.lib.get(t['f'].get('key'))
            if g is not None:
                todo.append(g)
    return out


def quotient(t):
    """(core, a, B, d): t = (core + a) div B + d"""
    c, d = linear(t)
    if c.op == 'op' and c.a[0] == 'Div' and number(c.a[2]) is not None:
        x, a = linear(c.a[1])
        return x, a, number(c.a[2]), d
    return None


def remainder(t):
    c, d = linear(t)
    c = strip(c)
    if c.op == 'op' and c.a[0] == 'Rem' and number(c.a[2]) is not None:
        x, a = linear(c.a[1])
        return x, a, number(c.a[2]), d
    return None


def grown(x, t):
    """(is the piece put in front, the piece) when x is the text t with one piece added"""
    if x.op == 'op' and x.a[0] == 'prepend' and x.a[2] is t:
        return True, x.a[1]
    if x.op == 'acc' and x.a[0] is t and len(x.a[1]) == 1 and x.a[1][0][0] == 1:
        return False, x.a[1][0][2]
    if x.op == 'cat' and len(x.a[0]) == 2 and t in x.a[0]:
        return x.a[0][1] is t, [y for y in x.a[0] if y is not t][0]
    return None


class Undecided(Exception):
    pass


class Fork(Exception):
    """A comparison that comes out either way, depending on the column."""


class Lin:
    """A linear form over the digits d1..dn of one class of columns; every digit ranges over 1..26."""

    def __init__(self, co=None, k=0):
        self.co = {d: c for d, c in (co or {}).items() if c}
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.co == o.co and self.k == o.k

    def __hash__(self):
        return hash((tuple(sorted(self.co.items())), self.k))

    def add(self, o, f=1):
        return Lin({d: self.co.get(d, 0) + f * o.co.get(d, 0) for d in set(self.co) | set(o.co)}, self.k + f * o.k)

    def times(self, n):
        return Lin({d: c * n for d, c in self.co.items()}, self.k * n)

    def range(self, top=None):
        lo = self.k + sum(c * (1 if c > 0 else 26) for c in self.co.values())
        hi = self.k + sum(c * (26 if c > 0 else 1) for c in self.co.values())
        if top is not None and self.co == top[0].co:
            hi = min(hi, top[1] - top[0].k + self.k)
        return lo, hi

    def split(self, n):
        """quotient and remainder by n"""
        q = Lin({d: c // n for d, c in self.co.items() if c % n == 0})
        r = Lin({d: c for d, c in self.co.items() if c % n}, self.k)
        lo, hi = r.range()
        if lo // n != hi // n:
            raise Undecided('a division that depends on the digits')
        q.k = lo // n
        r.k -= n * q.k
        return q, r

    def __repr__(self):
        return ' + '.join(['%s%s' % ('%d ' % c if c != 1 else '', d) for d, c in sorted(self.co.items())] + ([str(self.k)] if self.k or not self.co else []))


LAST = 16384


class Walk:
    """The extracted loop carried out on one class of columns in the domain of linear forms over the digits."""

    def __init__(self, R, n, word, assume={}):
        self.assume = assume
        self.R, self.n, self.E = R, n, R.E
        self.digits = ['d%d' % (i + 1) for i in range(n)]
        self.number = Lin({d: 26 ** (n - 1 - i) for i, d in enumerate(self.digits)})
        self.text = tuple(Lin({d: 1}, 64) for d in self.digits)
        self.arg = self.text if word else self.number
        self.top = (self.number, LAST) if n == 3 else None
        self.round = 0
        self.val = {}

    def int(self, t):
        x = self.ev(t)
        if not isinstance(x, Lin):
            raise Undecided('a number is expected: %s' % show(t))
        return x

    def const(self, t):
        x = self.int(t)
        if x.co:
            raise Undecided('a constant is expected: %s' % show(t))
        return x.k

    def word(self, t):
        x = self.ev(t)
        if isinstance(x, Lin):
            return (x,)
        return x

    def ev(self, t):
        if t in self.val:
            return self.val[t]
        if t is self.R.arg:
            return self.arg
        if t.op == 'g':
            live = [x for g, x in self.E.alts(t) if self.holds(g)]
            if len(live) != 1:
                raise Undecided('alternatives')
            return self.ev(live[0])
        k = number(t)
        if k is not None:
            return Lin(k=k)
        if t.op == 'str':
            return tuple(Lin(k=ord(c)) for c in t.a[0])
        if t.op == 'plus':
            return self.int(t.a[0]).add(self.int(t.a[1]) if hasattr(t.a[1], 'op') else Lin(k=t.a[1]))
        if t.op == 'cat':
            return tuple(y for x in t.a[0] for y in self.word(x))
        if t.op == 'acc':
            out = self.word(t.a[0])
            for e in t.a[1]:
                if e[1] not in (1, 'one'):
                    raise Undecided('a loop of its own')
                if self.holds(e[0]):
                    out = out + self.word(e[2])
            return out
        if t.op == 'len':
            return Lin(k=len(self.word(t.a[0])))
        if t.op == 'cast' and t.a[0] in X.BITS and t.a[0][0] == 'u':
            x = self.int(t.a[1])
            lo, hi = x.range(self.top)
            return x if lo >= 0 and hi < 1 << X.BITS[t.a[0]] else x.split(1 << X.BITS[t.a[0]])[1]
        if t.op == 'op':
            o, a = t.a[0], t.a[1:]
            if o in ('cast', 'as') and len(a) == 1:
                return self.ev(a[0])
            if o in ('Add', 'Sub'):
                return self.int(a[0]).add(self.int(a[1]), 1 if o == 'Add' else -1)
            if o == 'Mul':
                x, y = self.int(a[0]), self.int(a[1])
                if x.co and y.co:
                    raise Undecided('a product of digits')
                return x.times(y.k) if not y.co else y.times(x.k)
            if o in ('Div', 'Rem'):
                n = self.const(a[1])
                if n <= 0:
                    raise Undecided('division by %d' % n)
                return self.int(a[0]).split(n)[0 if o == 'Div' else 1]
            if o in ('min', 'max') and len(a) == 2:
                x, y = self.int(a[0]), self.int(a[1])
                b = self.less(x, y)
                return (x if b else y) if o == 'min' else (y if b else x)
            if o in ('pow', 'Pow'):
                return Lin(k=self.const(a[0]) ** self.const(a[1]))
            if o == 'prepend' and len(a) == 2:
                return self.word(a[0]) + self.word(a[1])
            if o == 'collect' and a and a[0].op == 'S' and a[0].a[2] == 'item' and self.order(a[0]) is not None and all(
                    y.op == 'op' and y.a[0] in ('take', 'skip') for y in a[1:]):
                x = self.word(a[0].a[4])
                x = x if self.order(a[0]) else x[::-1]
                for y in a[1:]:
                    # the digits of the row follow the letters, so only what cuts the letters shows
                    x = x[:self.const(y.a[1])] if y.a[0] == 'take' else x[self.const(y.a[1]):]
                return x
            if o in ('upper', 'to_ascii_uppercase'):
                return self.ev(a[0])
            if o in ('tostr', 'tostring'):
                return self.ev(a[0])
        if t.op == 'S':
            k, a = t.a[2], t.a[4:]
            if k in ('to_ascii_uppercase', 'to_uppercase', 'chars', 'bytes', 'char_indices', 'as_bytes', 'as_str') and len(a) == 1:
                return self.ev(a[0])
            if k == 'to_ascii_lowercase' and len(a) == 1:
                x = self.ev(a[0])
                return tuple(c.add(Lin(k=32)) for c in x) if isinstance(x, tuple) else x.add(Lin(k=32))
            if k == 'len' and len(a) == 1:
                return Lin(k=len(self.word(a[0])))
            if k == 'pow' and len(a) == 2:
                return Lin(k=self.const(a[0]) ** self.const(a[1]))
            if k in ('min', 'max') and len(a) == 2:
                x, y = self.int(a[0]), self.int(a[1])
                b = self.less(x, y)
                return (x if b else y) if k == 'min' else (y if b else x)
            if k == 'index' and self.head(t):
                if not all(x.a[0] in ('skip', 'take') for x in a):
                    raise Undecided('a count of some of the letters')
                return Lin(k=self.round + (0 if any(x.a[0] == 'skip' for x in a) else self.skipped()))
            if k == 'item' and self.head(t):
                return self.letter(t)
        if t.op == 'tostr':
            return self.ev(t.a[0])
        raise Undecided(show(t)[:120])

    # ---- the letters the loop goes over
    def head(self, s):
        """s is made by the head of the loop"""
        return s.a[1] == self.E.head[1]

    def order(self, s):
        """True: from the front, False: from the back, None: unknown"""
        o = s.a[5].a[0] if len(s.a) > 5 and hasattr(s.a[5], 'op') else str(s.a[5]) if len(s.a) > 5 else 'next'
        return {'next': True, 'rev': False, 'next_back': False}.get(o)

    def limits(self):
        g = self.E.back[0].pc
        return [self.E.vars[v][1] for v in self.E.B.support(g) if self.E.vars[v][0] == 'limited' and self.head(self.E.vars[v][1])]

    def skipped(self):
        n = 0
        for s in self.limits():
            if s.a[2] == 'skip':
                n += self.const(s.a[4])
        return n

    def more(self, s):
        if self.order(s) is None:
            raise Undecided('order of %s' % show(s))
        w = self.word(s.a[4])
        return self.round + self.skipped() < len(w)

    def letter(self, s):
        w = self.word(s.a[4])
        if not self.order(s):
            w = w[::-1]
        i = self.round + self.skipped()
        if self.order(s) is None or i >= len(w):
            raise Undecided('letter')
        return w[i]

    # ---- conditions
    def less(self, x, y):
        lo, hi = y.add(x, -1).range(None if self.top is None else self.top)
        lo2, hi2 = x.add(y, -1).range(None if self.top is None else self.top)
        if lo > 0 or hi2 < 0:
            return True
        if hi <= 0 or lo2 >= 0:
            return False
        d = y.add(x, -1)
        if d in self.assume:
            return self.assume[d]
        if d.co in (self.number.co, {q: -c for q, c in self.number.co.items()}) or len(d.co) == 1 and abs(list(d.co.values())[0]) == 1:
            # either way happens for some column of the class
            raise Fork(d)
        raise Undecided('a comparison that depends on the digits: %s < %s' % (x, y))

    def atom(self, d):
        k = d[0]
        if k == 'lt':
            return self.less(self.int(d[1]), self.int(d[2]))
        if k == 'x':
            x = self.ev(d[1])
            if isinstance(d[2], str):
                if isinstance(x, tuple) and len(x) != len(d[2]):
                    return False
                raise Undecided('a comparison with %r' % d[2])
            if isinstance(x, Lin) and isinstance(d[2], int):
                lo, hi = x.range(self.top)
                if not x.co:
                    return x.k == d[2]
                if d[2] < lo or d[2] > hi:
                    return False
            raise Undecided('a comparison with %s' % (d[2],))
        if k == 'eq':
            x, y = self.ev(d[1]), self.ev(d[2])
            if x == y:
                return True
            if isinstance(x, Lin) and isinstance(y, Lin):
                lo, hi = x.add(y, -1).range()
                if lo > 0 or hi < 0:
                    return False
        if k == 'nonempty':
            return len(self.word(d[1])) > 0
        if k == 'next' and self.head(d[1]) and d[1].a[2] == 'item':
            return self.more(d[1])
        if k == 'limited' and self.head(d[1]) and d[1].a[2] in ('take', 'skip') and len(d[1].a) > 4:
            return True if d[1].a[2] == 'skip' else self.round < self.const(d[1].a[4])
        raise Undecided('%s %s' % (k, show(d[1])[:80] if hasattr(d[1], 'op') else ''))

    def holds(self, g):
        B = self.E.B
        memo = {}
        def go(n):
            # may the condition still go both ways at the end?  undecided atoms matter only when they decide
            if n < 2:
                return bool(n)
            v = B.var[n]
            try:
                b = memo[v] if v in memo else memo.setdefault(v, self.atom(self.E.vars[v]))
            except Undecided as e:
                x, y = go(B.lo[n]), go(B.hi[n])
                if x == y:
                    return x
                raise e
            return go(B.hi[n] if b else B.lo[n])
        return go(g)

    def run(self):
        for v, (entry, _) in self.R.vars.items():
            self.val[v] = self.ev(entry)
        for self.round in range(8):
            taken = [i for i, b in enumerate(self.E.back) if self.holds(b.pc)]
            if len(taken) > 1:
                raise Undecided('two ways to go on')
            if not taken:
                break
            new = {v: self.ev(nx[taken[0]]) for v, (_, nx) in self.R.vars.items()}
            self.val = new
        else:
            return None
        ret = self.R.ret
        live = [x for g, x in self.E.alts(ret) if self.holds(g)]
        if len(live) != 1 or live[0].op != 'agg':
            raise Undecided('result')
        if live[0].a[1] != 0:
            return 'an error'
        return self.ev(live[0].a[2][0])


def walk(ctx, what, R, word, name):
    """Every class of columns; returns whether all were decided."""
    done = True
    for n in (1, 2, 3):
        w = Walk(R, n, word)
        want = w.number if word else w.text
        try:
            try:
                got = w.run()
            except Fork as k:
                # one comparison that depends on the column: every column of either side has to come out right
                for b in (True, False):
                    got = Walk(R, n, word, {k.args[0]: b}).run()
                    if got != want:
                        break
        except Fork as e:
            ctx.unknown('%s with %d letter%s' % (what, n, 's'[:n > 1]), 'several comparisons depend on the column')
            done = False
            continue
        except Undecided as e:
            ctx.unknown('%s with %d letter%s' % (what, n, 's'[:n > 1]), str(e))
            done = False
            continue
        if got == want:
            ctx.ok('%s: every column with %d letter%s' % (what, n, 's'[:n > 1]), '%s: %s' % (name, want))
        else:
            ctx.bad('%s:%d letters' % (name, n), '%s: for a column with %d letter%s (digits %s, each 1..26) the result is %s instead of %s' % (
                name, n, 's'[:n > 1], ' '.join(w.digits), 'never reached' if got is None else got if isinstance(got, (str, Lin)) else [str(x) for x in got], want if word else [str(x) for x in want]))
    return done


def letters(ctx, P, fn):
    R = Round(P, fn, loops_of(P, fn))
    what = 'letters of a column number'
    if not R.ok:
        return ctx.unknown(what, 'not one loop')
    if walk(ctx, what, R, False, fn.short):
        return
    E = R.E
    num = [(v, e, n) for v, (e, n) in R.vars.items() if all(quotient(x) for x in n)]
    txt = [(v, e, n) for v, (e, n) in R.vars.items() if all(grown(x, v) for x in n)]
    if len(num) != 1 or len(txt) != 1 or len(num[0][2]) != 1 or len(txt[0][2]) != 1:
        return ctx.unknown(what, 'the loop is not over a number that is divided and a text')
    n, entry, (nxt,) = num[0]
    core, e = linear(entry)
    if core not in (R.arg,):
        return ctx.unknown(what, 'starts from %s' % show(entry))
    x, a, base, d = quotient(nxt)
    if x is not n:
        return ctx.unknown(what, 'goes on with %s' % show(nxt))
    t, tentry, (tnext,) = txt[0]
    if tentry.op != 'str':
        return ctx.unknown(what, 'the text starts from %s' % show(tentry))
    front, piece = grown(tnext, t)
    piece = strip(piece)
    r = remainder(piece)
    if r is None or r[0] is not n:
        return ctx.unknown(what, 'the letter is %s' % show(piece))
    _, b, rbase, c = r
    name = fn.short
    faults = []
    if base != 26 or rbase != 26:
        faults.append('the number is taken apart by %s and %s instead of 26' % (base, rbase))
    else:
        if (b + c - 65 + e + 1) % 26 and c == 65:
            faults.append('the letter of the remainder is %s for a number that stands for itself%+d' % (show(piece), e))
        elif c != 65:
            faults.append('the letters start at code %d' % c)
        if a != -e - 1 or d != e:
            # (m-1) div 26 with m = n - e, and the next variable is again m' + e
            if (a + e + 1) % 26 or (a + e + 1) // 26 + d != e:
                faults.append('goes on with %s, not with the number of the letters still to come' % show(nxt))
    res = R.result()
    if tentry.a[0] != '':
        faults.append('starts from the text %r' % tentry.a[0])
    if res and all(x is t or grown(x, t) for x in res):
        if not front:
            faults.append('puts later letters behind earlier ones')
    elif not res or not all(any(y is t for y in subterms(x)) for x in res):
        return ctx.unknown(what, 'returns something else')
    elif front:
        return ctx.unknown(what, 'the text is worked on after the loop')
    # the condition for another round
    B = E.B
    pc = E.back[0].pc
    cond = [(E.vars[v], B.AND(pc, B.NOT(B.v(v))) == 0, B.AND(pc, B.v(v)) == 0) for v in B.support(pc)]
    cond = [(q, yes) for q, yes, no in cond if yes != no and any(y is n for z in q[1:] if hasattr(z, 'op') for y in subterms(z))]
    if len(cond) == 1:
        q, yes = cond[0]
        low = None
        if q[0] == 'lt' and q[2] is n and yes and number(q[1]) is not None:
            low = number(q[1])
        elif q[0] == 'lt' and q[1] is n and not yes and number(q[2]) is not None:
            low = number(q[2]) - 1
        elif q[0] == 'x' and q[1] is n and not yes:
            low = q[2] if q[2] == 0 else None
        if low is not None and low != e:
            faults.append('stops when the number is %d, while %d stands for nothing left' % (low, e))
        elif low is None:
            ctx.unknown(what, 'condition for another round')
    for x in faults:
        ctx.bad(name + ':' + x.split(' ')[0], '%s: %s' % (name, x))
    if not faults:
        ctx.ok('letters put in front, (m-1) mod 26 each, going on with (m-1) div 26', name)
        ctx.ok('starts from the number, ends at nothing left', name)


def parts_of_sum(t):
    c, k = linear(t)
    if c.op == 'op' and c.a[0] == 'Add' and len(c.a) == 3:
        return parts_of_sum(c.a[1]) + parts_of_sum(c.a[2]) + ([k] if k else [])
    return [c] + ([k] if k else [])


def value_of(t):
    """(letter, offset) of a letter turned into a number"""
    c, k = linear(t)
    c = strip(c)
    if c.op == 'S' and c.a[2] in ('to_ascii_uppercase', 'to_uppercase') or c.op == 'op' and c.a[0] in ('upper', 'to_ascii_uppercase'):
        return c, k
    if c.op == 'S' and c.a[2] == 'item':
        return c, k
    return None


def numbers(ctx, P, fn):
    what = 'number of column letters'
    R = Round(P, fn, loops_of(P, fn))
    if R.ok and walk(ctx, what, R, True, fn.short):
        return
    if not R.ok or len(R.vars) != 1:
        return ctx.unknown(what, 'not one loop over one number')
    E = R.E
    v, (entry, nexts) = list(R.vars.items())[0]
    if len(set(nexts)) != 1 or number(entry) is None:
        return ctx.unknown(what, 'more than one way to go on')
    items = [E.vars[x][1] for x in E.B.support(E.back[0].pc) if E.vars[x][0] == 'next' and E.vars[x][1].a[1] == E.head[1]]
    if len(items) != 1:
        return ctx.unknown(what, 'not one pass over the letters')
    item = items[0]
    order = item.a[5].a[0] if len(item.a) > 5 and hasattr(item.a[5], 'op') else str(item.a[5]) if len(item.a) > 5 else 'next'
    kinds = {y.a[2] for y in subterms(mk('op', 'w', *[x for x in item.a[4:] if hasattr(x, 'op')])) if y.op == 'S'}
    back = order in ('rev', 'next_back') or 'rev' in str(order)
    summands = parts_of_sum(nexts[0])
    const = [x for x in summands if isinstance(x, int)]
    terms = [x for x in summands if not isinstance(x, int)]
    old = [x for x in terms if x is v]
    scaled = [x for x in terms if x.op == 'op' and x.a[0] == 'Mul' and any(y is v for y in x.a[1:])]
    power = [x for x in terms if x.op == 'op' and x.a[0] == 'Mul' and not any(y is v for y in subterms(x))]
    rest = [x for x in terms if x not in old + scaled + power]
    faults = []
    if len(old) == 1 and len(power) == 1 and not rest and not scaled:
        fs = power[0].a[1:]
        pw = [x for x in fs if strip(x).op == 'S' and strip(x).a[2] == 'pow' or strip(x).op == 'op' and strip(x).a[0] in ('pow', 'Pow')]
        vs = [value_of(x) for x in fs if x not in pw]
        if len(pw) != 1 or len(vs) != 1 or vs[0] is None:
            return ctx.unknown(what, 'adds %s' % show(power[0]))
        p = strip(pw[0])
        args = [x for x in p.a[4:] if hasattr(x, 'op')] if p.op == 'S' else list(p.a[1:])
        if len(args) == 2 and number(args[0]) is not None:
            if number(args[0]) != 26:
                faults.append('adds powers of %d' % number(args[0]))
            ex, off = linear(strip(args[1]))
            if off:
                faults.append('the last letter counts %d to the power of %d' % (number(args[0]), off))
        if not back:
            faults.append('takes the letters from the front although later letters weigh less')
        val = vs[0][1] + 0
        if const:
            return ctx.unknown(what, 'adds a constant each round')
    elif len(scaled) == 1 and not old and not power and (len(rest) == 1):
        fs = [x for x in scaled[0].a[1:] if x is not v]
        if len(fs) != 1 or number(fs[0]) is None or value_of(rest[0]) is None:
            return ctx.unknown(what, 'goes on with %s' % show(nexts[0]))
        if number(fs[0]) != 26:
            faults.append('earlier letters weigh %d times as much' % number(fs[0]))
        if back:
            faults.append('takes the letters from the back although each letter makes the earlier ones weigh more')
        val = value_of(rest[0])[1] + sum(const)
    else:
        return ctx.unknown(what, 'goes on with %s' % show(nexts[0]))
    if val != -64:
        faults.append('the letter A counts %d' % (65 + val))
    if number(entry) != 0:
        faults.append('starts from %d' % number(entry))
    res = R.result()
    for x in res:
        c, k = linear(x)
        if c is v and k:
            faults.append('returns the number %+d' % k)
    # refused lengths
    g = E.back[0].pc
    for q in E.B.support(g):
        d = E.vars[q]
        if d[0] == 'lt' and E.B.AND(g, E.B.v(q)) == 0 and number(d[1]) is not None and d[2].op in ('len', 'S') and (d[2].op == 'len' or d[2].a[2] == 'len') and number(d[1]) < 3:
            faults.append('refuses references of more than %d letters' % number(d[1]))
        if d[0] == 'lt' and E.B.AND(g, E.B.NOT(E.B.v(q))) == 0 and number(d[2]) is not None and d[1].op in ('len', 'S') and (d[1].op == 'len' or d[1].a[2] == 'len') and number(d[2]) < 4:
            faults.append('refuses references of more than %d letters' % (number(d[2]) - 1))
    name = fn.short
    for x in faults:
        ctx.bad(name + ':' + x.split(' ')[0], '%s: %s' % (name, x))
    if not faults:
        ctx.ok('each letter weighs 26 times the next, A counts 1', name)
        ctx.ok('all letters of up to three accepted, starting from nothing', name)


def run(ctx):
    P = ctx.P
    letters(ctx, P, ctx.fn('ConverterUtil::get_column_ref'))
    numbers(ctx, P, ctx.fn('ConverterUtil::get_column_index'))
    ctx.count('recurrences compared', 2)
    ctx.need('conversions', 2, 2)
