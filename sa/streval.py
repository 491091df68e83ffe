"""The function a value-flow term denotes: its value for given values of its symbolic inputs.

Used to compare an extracted string (or number) transfer function with its specification on one representative of every class of inputs."""


class Unknown(Exception):
    pass


class Opt(tuple):
    """variant index, fields"""


NONE = Opt((0, ()))


def some(x):
    return Opt((1, (x,)))


class Eval:
    def __init__(self, E, env, atom=None):
        self.E, self.env, self.atomf = E, env, atom
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = (self.ev(t),)
        return r[0]

    def guard(self, g):
        B, E = self.E.B, self.E
        n = 0
        while g not in (0, 1):
            # decide the top-most variable
            v = min(B.support(g))
            a = self.atom(E.vars[v])
            g = B.subst(g, {v: int(a)})
            n += 1
            if n > 500:
                raise Unknown('guard')
        return g

    def atom(self, d):
        if self.atomf is not None:
            r = self.atomf(d, self)
            if r is not None:
                return r
        k = d[0]
        ev = lambda x: self(x) if hasattr(x, 'op') else x
        if k == 'x':
            v = ev(d[1])
            c = d[2]
            if isinstance(v, bool):
                return str(int(v)) == str(c)
            return str(v) == str(c)
        if k in ('eq', 't'):
            return ev(d[1]) == ev(d[2]) if k == 'eq' else bool(ev(d[1]))
        if k == 'lt':
            a, b = ev(d[1]), ev(d[2])
            if type(a) != type(b) and (isinstance(a, str) or isinstance(b, str)):
                raise Unknown('lt')
            return a < b
        if k == 'eq_ignore_case':
            return ev(d[1]).lower() == ev(d[2]).lower()
        if k == 'starts_with':
            return ev(d[1]).startswith(ev(d[2]))
        if k == 'ends_with':
            return ev(d[1]).endswith(ev(d[2]))
        if k == 'contains':
            return ev(d[2]) in ev(d[1])
        raise Unknown('atom ' + str(k))

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        o, a = t.op, t.a
        if o == 'str':
            return a[0]
        if o == 'int':
            return a[0]
        if o == 'chr':
            return a[0]
        if o == 'b':
            return bool(self.guard(a[0]))
        if o == 'g':
            for g, x in a[0]:
                if self.guard(g):
                    return self(x)
            raise Unknown('no alternative')
        if o == 'cat':
            return ''.join(self.text(x) for x in a[0])
        if o == 'tostr':
            return self.text(a[0])
        if o == 'agg':
            return Opt((a[1], tuple(Lazy(self, x) for x in a[2])))
        if o == 'vf':
            v = self(a[0])
            if not isinstance(v, Opt) or v[0] != a[1]:
                raise Unknown('variant')
            return force(v[1][a[2]])
        if o == 'f':
            v = self(a[0])
            if isinstance(v, Opt):
                return force(v[1][a[1]])
            if isinstance(v, (tuple, list)):
                return force(v[a[1]])
            raise Unknown('field')
        if o == 'discr':
            v = self(a[0])
            if isinstance(v, Opt):
                return v[0]
            raise Unknown('discr')
        if o == 'len':
            v = self(a[0])
            return len(v.encode()) if isinstance(v, str) else len(v)
        if o == 'plus':
            return self(a[0]) + a[1]
        if o == 'cast':
            return self(a[-1])
        if o == 'op':
            n = a[0]
            if n == 'slice':
                return self.slice(self(a[1]), a[2])
            xs = [self(x) for x in a[1:] if hasattr(x, 'op')]
            if n in ('collect', 'clone', 'iter') and len(xs) == 1:
                return xs[0]
            if n == 'Add':
                return xs[0] + xs[1]
            if n == 'Sub':
                return xs[0] - xs[1]
            if n == 'Mul':
                return xs[0] * xs[1]
            if n == 'Div':
                return xs[0] // xs[1]
            if n == 'Rem':
                return xs[0] % xs[1]
            if n == 'trim':
                return xs[0].strip()
            if n == 'trim_start':
                return xs[0].lstrip()
            if n == 'trim_end':
                return xs[0].rstrip()
            if n == 'lower':
                return xs[0].lower()
            if n == 'upper':
                return xs[0].upper()
            return self.strfn(n, xs)
        if o == 'S':
            return self.strfn(a[2], [self(x) for x in a[4:] if hasattr(x, 'op')])
        if o == 'idx':
            v, i = self(a[0]), a[1] if isinstance(a[1], int) else self(a[1])
            if not isinstance(v, (list, tuple, str)) or not -len(v) <= i < len(v):
                raise Unknown('idx')
            return v[i]
        if o == 'parse':
            raise Unknown('parse')
        raise Unknown(o)

    def strfn(self, n, xs):
        if not xs or not isinstance(xs[0], str):
            raise Unknown(n)
        s = xs[0]
        if n in ('find', 'rfind') and len(xs) == 2:
            i = s.find(xs[1]) if n == 'find' else s.rfind(xs[1])
            return NONE if i < 0 else some(i)
        if n == 'strip_prefix':
            return some(s[len(xs[1]):]) if s.startswith(xs[1]) else NONE
        if n == 'strip_suffix':
            return some(s[:len(s) - len(xs[1])]) if s.endswith(xs[1]) else NONE
        if n == 'rsplit_once':
            i = s.rfind(xs[1])
            return NONE if i < 0 else some((s[:i], s[i + len(xs[1]):]))
        if n == 'split_once':
            i = s.find(xs[1])
            return NONE if i < 0 else some((s[:i], s[i + len(xs[1]):]))
        if n == 'trim_start_matches':
            while xs[1] and s.startswith(xs[1]):
                s = s[len(xs[1]):]
            return s
        if n == 'trim_end_matches':
            while xs[1] and s.endswith(xs[1]):
                s = s[:len(s) - len(xs[1])]
            return s
        if n == 'replace' and len(xs) == 3:
            return s.replace(xs[1], xs[2])
        if n in ('split', 'rsplit'):
            r = s.split(xs[1])
            return r if n == 'split' else r[::-1]
        raise Unknown(n)

    def slice(self, v, r):
        if r.op != 'agg':
            raise Unknown('slice')
        n = str(r.a[0]).split('::')[-1]
        xs = [self(x) for x in r.a[2]]
        if n == 'RangeTo':
            return v[:xs[0]]
        if n == 'RangeFrom':
            return v[xs[0]:]
        if n == 'Range':
            return v[xs[0]:xs[1]]
        if n == 'RangeFull':
            return v
        raise Unknown('slice ' + n)

    def text(self, x):
        v = self(x)
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, float):
            return repr(v)
        if isinstance(v, (str, int)):
            return str(v)
        raise Unknown('text')


class Lazy:
    def __init__(self, ev, t):
        self.ev, self.t = ev, t


def force(x):
    return x.ev(x.t) if isinstance(x, Lazy) else x


def plain(v):
    """Python value with all fields computed."""
    if isinstance(v, Opt):
        return (v[0],) + tuple(plain(force(x)) for x in v[1])
    if isinstance(v, (tuple, list)):
        return tuple(plain(force(x)) for x in v)
    return force(v)
