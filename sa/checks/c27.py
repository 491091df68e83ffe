from .. import ffi
from ..engine import fmt

EXPLAIN = ('The exported style function (and the exported constructors) are interpreted from MIR over an arbitrary request buffer: each field of the value handed to the library is a term over '
           'the accessors of the request, read off field by field.')
RULE = 'every field of the request value handed to the library is derived from the request\'s own field of that name and from no other; the fields the schema has are forwarded'
ASSUME = ['rs_ffi is compiled against a stand-in for its generated flatbuffers module (see C25); accessor names are the schema\'s field names',
          'request fields whose type the schemas leave undeclared (enumerations, and the tables containing them) are compared by name only']


def fields(t, out):
    if isinstance(t, tuple):
        for x in t:
            fields(x, out)
    elif hasattr(t, 'op'):
        if t.op == 'field':
            out.add(t.a[0])
        else:
            fields(t.a, out)
    return out


ALTER = {'op', 'plus', 'maxof', 'minof', 'joined', 'cat', 'chr', 'parse'}


def carried(t, leaf):
    """t is the leaf's value with nothing done to it but a change of its owner (None: cannot be told)."""
    if leaf(t):
        return True
    if t.op == 'g':
        r = [carried(x, leaf) for x in t_alts(t)]
        return False if False in r else None if None in r else True
    if t.op == 'agg':
        return True if not t.a[2] else carried(t.a[2][0], leaf) if len(t.a[2]) == 1 else None
    if t.op in ('vf', 'tostr', 'some', 'ref', 'deref'):
        return carried(t.a[0], leaf)
    if t.op == 'made':
        r = [carried(x, leaf) for x in t.a[1:] if hasattr(x, 'op')]
        return None if not r or None in r else all(r)
    if t.op in ALTER and holds(t, leaf):
        return False
    return None if holds(t, leaf) else True


def holds(t, leaf):
    if isinstance(t, tuple):
        return any(holds(x, leaf) for x in t)
    return hasattr(t, 'op') and (leaf(t) or any(holds(x, leaf) for x in t.a))


def t_alts(t):
    return [x for g, x in ENG[0].alts(t)]


ENG = [None]


def struct(P, name):
    for t in P.types:
        if t and t['k'] == 'adt' and t['name'].endswith('::' + name) and not t.get('enum') and 'openxml_office_fbs' not in t['name']:
            return t
    return None


def schema(P, table):
    return sorted({f.short.split('::')[-1] for f in P.lib.values() if 'openxml_office_fbs' in f.short and ('::%s::<' % table in f.short or '::%s<' % table in f.short) and not f.trait})


def run(ctx):
    P = ffi.program()
    if P is None:
        ctx.unknown('C interface', 'the interface crate does not compile against the schemas')
        return
    done = set()
    for f in ffi.exported(P):
        E = ffi.Run(P, f).run_fn()
        n = f.short.split('::')[-1]
        ctx.count('functions interpreted', len(E.fns_seen))
        for pc, name, args, r, byval, line, res, path in E.lib:
            for a in args:
                if not res:
                    continue
                if a.op == 'upd':
                    done.add(n)
                    given = {}
                    T = struct(P, 'StyleSetting')
                    for acc, v in a.a[1]:
                        if acc[0] == 'f' and T:
                            given[T['v'][0]['f'][acc[1]][0]] = v
                    whole(ctx, E, n, line, 'StyleSetting', given, P)
                elif a.op == 'agg' and a.a[0].endswith('PropertiesModel'):
                    done.add(n)
                    T = struct(P, a.a[0].split('::')[-1])
                    given = {x[0]: v for x, v in zip(T['v'][0]['f'], a.a[2])} if T else {}
                    whole(ctx, E, n, line, None, given, P)
    ctx.need('functions handing over a request', len(done), 4)


def fmt_atom(a):
    return ' '.join(fmt(x, -3) if hasattr(x, 'op') else str(x) for x in a)


def whole(ctx, E, n, line, table, given, P):
    for k, v in sorted(given.items()):
        got = fields(v, set())
        if got == {k}:
            ENG[0] = E
            leaf = lambda t: t.op == 'field' and t.a[0] == k
            c = carried(v, leaf)
            odd = [a for g, x in E.alts(v) for i in E.B.support(g) for a in [E.vars[i]] if holds(a, leaf) and not (a[0] == 'x' and (a[1].op == 'field' or a[1].op == 'discr' and leaf(a[1].a[0])))]
            if odd:
                c = False
            if c:
                ctx.ok('field forwarded', '%s: %s' % (n, k))
            elif c is None:
                ctx.unknown('%s: %s' % (n, k), fmt(v, -3)[:100])
            else:
                ctx.bad('%s: %s altered' % (n, k), '%s (line %s): the %s of the request is altered on its way to the library: %s' % (
                    n, line, k, ('only when %s' % fmt_atom(odd[0]) if odd else fmt(v, -3))[:160]))
        elif not got and v.op in ('S', 'made'):
            ctx.unknown('%s: %s' % (n, k), fmt(v)[:80])
        else:
            ctx.bad('%s: %s' % (n, k), '%s (line %s): the %s handed to the library is taken from %s of the request' % (n, line, k, ', '.join(sorted(got)) or 'nothing'))
    if table:
        for k in schema(P, table):
            if k not in given:
                ctx.bad('%s: %s not forwarded' % (n, k), '%s: the %s of the request never reaches the library' % (n, k))
