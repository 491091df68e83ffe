"""Load/save transfer relation of a part: run the part's constructor and its
closing routine through the value-flow interpreter in one abstract state and
read off, for every element the writer creates, how each attribute depends on
the attributes of the element the reader consumed."""
from .engine import Engine, State, mk, fmt, Ref, Dead
from . import models as M

INFRA1 = {'next', 'existstag', 'hasattrs', 'exists', 'partexists', 'okcall', 'hastext'}


class Scenario:
    def __init__(self, P, newfn, closefn, setters=(), initial=None, budget=400000, holder=None, strict=False, watch=()):
        """holder=(type name, field index, number of fields): setters are called on that struct, which
        owns the part in the given field (the part is then addressed through it)."""
        self.P = P
        E = self.E = Engine(P, budget=budget)
        E.watch = list(watch)
        st = self.st = State(1, {})
        args = [mk('S', (), 0, 'arg%d' % i, True) for i in range(newfn.argc)]
        r = E.call_fn(st, newfn, args, ('new', 0, newfn.key), ())
        self.unknown_new = dict(E.unknown)
        out = [(g, x) for g, x in E.alts(r) if x.op == 'agg' and x.a[1] == 0 and x.a[2]]
        if not out:
            raise RuntimeError('constructor never succeeds')
        part = out[0][1].a[2][0]
        if len(out) > 1:
            part = E.g([(g, x.a[2][0]) for g, x in out])
        self.root = ('H', 'part')
        self.part = part
        path = ()
        if holder is not None:
            name, at, cnt = holder
            part = mk('agg', name, 0, tuple(part if i == at else mk('S', (), 0, 'held%d' % i, True) for i in range(cnt)))
            path = (('f', at),)
        st.st[self.root] = part
        self.results = []
        self.pc_loaded = st.pc
        E.keep_exits = True
        E.strict = strict
        for i, (fn, a) in enumerate(setters):
            r = E.call_fn(st, fn, [Ref(self.root)] + list(a), ('set%d' % i, 0, fn.key), ())
            self.results.append((r, dict(st.st), st.pc))
        E.keep_exits = False
        E.strict = False
        self.before_close = dict(st.st)
        if closefn is not None:
            E.call_fn(st, closefn, [Ref(self.root, path)], ('close', 0, closefn.key), ())
        self.elements = []
        o = st.st.get(M.OUT)
        if o is not None and o.op == 'map':
            for e, m, v in o.a[1]:
                tag, par, how = E.elinfo[e]
                self.elements.append(Out(self, e, tag, par, how, v))

    def by_tag(self, tag):
        return [o for o in self.elements if o.tag == tag]


class Out:
    def __init__(self, sc, e, tag, par, how, guard):
        E = sc.E
        self.sc, self.e, self.par, self.how = sc, e, par, how
        self.tag = tag.a[0] if tag.op == 'str' else None
        self.tagterm = tag
        self.guard = 0
        for g, x in E.alts(guard):
            if x.op != 'absent':
                self.guard = E.B.OR(self.guard, g)
        self.attrs = {}
        self.odd = []
        am = E.getroot(sc.st, ('EA', e))
        self.attrmap = am
        for x, t in E.alts(am):
            if t.op == 'map':
                for k, m, v in t.a[1]:
                    if k.op == 'str':
                        g = v if x == 1 else E.ite(x, v, mk('absent'))
                        self.attrs[k.a[0]] = g if k.a[0] not in self.attrs else E.ite(x, v, self.attrs[k.a[0]])
                    else:
                        self.odd.append(k)
        self.text = E.getroot(sc.st, ('EV', e))

    def __repr__(self):
        return '<%s>' % self.tag


def infra_assign(E, bdds):
    """Assignment of the 'the element exists / the loop has another item' atoms."""
    m = {}
    for f in bdds:
        for v in E.B.support(f):
            d = E.vars[v]
            if d[0] in INFRA1:
                m[v] = 1
            elif d[0] == 'lt' and nonempty(d):
                m[v] = 1
            elif d[0] == 'x' and hasattr(d[1], 'op') and d[1].op == 'len' and d[2] in (0, '0'):
                m[v] = 0
    return m


def nonempty(d):
    """lt(0, len(collection with entries))"""
    a, b = d[1], d[2]
    return hasattr(a, 'op') and a.op == 'int' and a.a[0] == 0 and hasattr(b, 'op') and b.op == 'len'


def str_eval(t, at, token):
    """Value of string term t when attribute term `at` holds `token` (None: unknown)."""
    if t is at:
        return token
    if t.op == 'op' and len(t.a) >= 2 and hasattr(t.a[1], 'op'):
        x = str_eval(t.a[1], at, token)
        if x is None:
            return None
        n = t.a[0]
        if n == 'trim':
            return x.strip()
        if n in ('to_lowercase', 'lower', 'to_ascii_lowercase'):
            return x.lower()
        if n in ('to_uppercase', 'upper', 'to_ascii_uppercase'):
            return x.upper()
    if t.op == 'tostr' and hasattr(t.a[0], 'op'):
        return str_eval(t.a[0], at, token)
    return None


def token_text(t, at, token):
    """Like str_eval, for literals too."""
    if hasattr(t, 'op') and t.op in ('str', 'chr') and isinstance(t.a[0], str):
        return t.a[0]
    return str_eval(t, at, token) if hasattr(t, 'op') else None


def guards_of(E, t, acc=None, n=0):
    acc = [] if acc is None else acc
    if t.op == 'g':
        for g, x in t.a[0]:
            acc.append(g)
            guards_of(E, x, acc, n + 1)
    elif t.op == 'b':
        acc.append(t.a[0])
    elif n < 8:
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if hasattr(y, 'op'):
                    guards_of(E, y, acc, n + 1)
    return acc


def attr_sources(E, t):
    """All (element symbol, attribute) whose value or presence t depends on."""
    r = set()
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'attr' and isinstance(t.a[1], str):
            r.add((t.a[0], t.a[1]))
        if t.op == 'g':
            for g, x in t.a[0]:
                gb(g)
                go(x)
            return
        if t.op == 'b':
            gb(t.a[0])
            return
        for x in t.a:
            deep(x)

    def deep(x):
        if hasattr(x, 'op'):
            go(x)
        elif isinstance(x, tuple):
            for y in x:
                deep(y)

    sb = set()

    def gb(g):
        for v in E.B.support(g):
            if v in sb:
                continue
            sb.add(v)
            d = E.vars[v]
            if d[0] == 'has' and isinstance(d[2], str):
                r.add((d[1], d[2]))
            else:
                for x in d[1:]:
                    deep(x)
    go(t)
    return r


def assign_token(E, support, S, key, token):
    """Assignment of the atoms about attribute `key` of element S for a token
    (None: absent; '?': some other string)."""
    at = mk('attr', S, key)
    m = {}
    for v in support:
        d = E.vars[v]
        if d[0] == 'has' and d[1] is S and d[2] == key:
            m[v] = 0 if token is None else 1
        elif token is None:
            continue
        elif d[0] == 'x' and hasattr(d[1], 'op') and str_eval(d[1], at, token) is not None:
            m[v] = 1 if d[2] == str_eval(d[1], at, token) else 0
        elif d[0] == 'parseok' and d[1] is at:
            m[v] = 1
        elif d[0] == 'lt' and token == '?' and d[1].op == 'int' and d[1].a[0] == 0 and is_copy(d[2], at, True):
            m[v] = 1    # a generic number is taken as positive
        elif d[0] == 'x' and token == '?' and hasattr(d[1], 'op') and is_copy(d[1], at, True):
            m[v] = 0
        elif d[0] in ('starts_with', 'ends_with', 'contains', 'eq', 'eq_ignore_case', 'nonempty') and token != '?':
            a = [token_text(x, at, token) for x in d[1:]]
            if None in a or not any(hasattr(x, 'op') and str_eval(x, at, token) is not None for x in d[1:]):
                continue
            m[v] = int({'starts_with': lambda: a[0].startswith(a[1]), 'ends_with': lambda: a[0].endswith(a[1]),
                        'contains': lambda: a[1] in a[0], 'eq': lambda: a[0] == a[1],
                        'eq_ignore_case': lambda: a[0].lower() == a[1].lower(), 'nonempty': lambda: bool(a[0])}[d[0]]())
        elif d[0] in ('eq', 'eq_ignore_case') and token == '?' and any(hasattr(x, 'op') and is_copy(x, at, True) for x in d[1:]) \
                and any(hasattr(x, 'op') and x.op in ('str', 'chr') for x in d[1:]):
            m[v] = 0
    return m


def resolve(E, t, m):
    """Apply an assignment to a value; returns [(guard, term)]."""
    t2 = E.bsubst(t, m) if m else t
    return [(g, x) for g, x in E.alts(t2) if g]


def describe(E, g, limit=2):
    return E.bfmt(g, limit)


BOOL_ON, BOOL_OFF = ('1', 'true'), ('0', 'false')


def tokens_of(typ):
    if typ[0] == 'bool':
        return [None, '1', 'true', '0', 'false']
    if typ[0] == 'enum':
        return [None] + list(typ[1])
    return [None, '?']


# largest value each numeric attribute takes in practice (default: 65535)
LARGEST = dict(outlineLevel=7, zoomScale=400, zoomScaleNormal=400, zoomScaleSheetLayoutView=400, zoomScalePageLayoutView=400,
               tabRatio=1000, min=16384, max=16384, r=1048576, s=65490, style=65490, ht=409, width=255)
FRACTION = ('ht', 'width')
CAPACITY = dict(u8=255, i8=127, u16=65535, i16=32767)


def tyname(x):
    return fmt(x).strip("'") if hasattr(x, 'op') else str(x)


def narrow(E, o, at, key):
    """The number type that is too small for the attribute, if the value passes through one."""
    for g in [o.guard] + [g for v in o.attrs.values() for g in guards_of(E, v)]:
        for v in E.B.support(g):
            d = E.vars[v]
            if d[0] == 'parseok' and at in d[1:]:
                for x in d[1:]:
                    if x is not at and (CAPACITY.get(tyname(x), 1 << 32) < LARGEST.get(key, 65535)
                                        or key in FRACTION and tyname(x)[:1] in 'ui'):
                        return tyname(x)
    todo, seen = list(o.attrs.values()), set()
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if hasattr(t, 'op'):
            if t.op == 'cast' and CAPACITY.get(tyname(t.a[0]), 1 << 32) < LARGEST.get(key, 65535) and inside(at, t):
                return tyname(t.a[0])
            todo += [x for x in t.a if hasattr(x, 'op') or isinstance(x, tuple)]
        else:
            todo += [x for x in t if hasattr(x, 'op') or isinstance(x, tuple)]
    return None


def inside(x, t):
    """Does term x occur in t?"""
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if id(y) in seen:
            continue
        seen.add(id(y))
        todo += [z for z in (y.a if hasattr(y, 'op') else y) if hasattr(z, 'op') or isinstance(z, tuple)]
    return False


def is_copy(t, at, numeric):
    """Does term t denote the same text (or, if numeric, the same number)?"""
    n = 0
    while n < 8:
        n += 1
        if t is at:
            return True
        if t.op in ('tostr', 'fmt1', 'some') and t.a and hasattr(t.a[0], 'op'):
            t = t.a[0]
        elif t.op == 'parse' and numeric:
            t = t.a[1]
        elif t.op == 'cat' and len(t.a) == 1 and hasattr(t.a[0], 'op'):
            t = t.a[0]
        elif t.op == 'cast' and numeric:
            t = [x for x in t.a if hasattr(x, 'op')][-1]
        else:
            return False
    return False


def accept(typ, token, t, at):
    """Is t an acceptable written value for a source attribute with this token?"""
    default = typ[-1] if len(typ) > 1 else None
    if typ[0] == 'bool':
        d = typ[1]
        val = d if token is None else token in BOOL_ON
        if t.op == 'absent':
            return d is not None and val == d or val is None
        if t.op == 'str':
            if t.a[0] not in BOOL_ON + BOOL_OFF:
                return False
            return (t.a[0] in BOOL_ON) == bool(val) if val is not None else False
        return None if t is not at else token is not None
    if typ[0] == 'enum':
        d = typ[2]
        val = d if token is None else token
        if t.op == 'absent':
            return val == d
        if t.op == 'str':
            return t.a[0] == val
        return True if t is at and token is not None else None
    num = typ[0] == 'num'
    d = typ[1] if len(typ) > 1 else None
    if token is None:
        if t.op == 'absent':
            return True
        if t.op in ('str', 'int'):
            return d is not None and str(t.a[0]) == str(d)
        return False if refers(t) else None
    if token != '?' and (t.op == 'absent' and d is not None and str(d) == token or t.op in ('str', 'int') and str(t.a[0]) == token):
        return True
    if t.op in ('absent', 'str', 'int'):
        return False
    if is_copy(t, at, num):
        return True
    if t.op in ('attr', 'text', 'parse', 'tostr', 'cat', 'plus') or t.op == 'op' and t.a[0] in ('Add', 'Sub'):
        return False
    return None


def refers(t):
    return t.op in ('attr', 'text')


class Finding:
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def check_attr(sc, o, out_key, S, src_key, typ, given=None, extra=None):
    """Yield (verdict, token, term, witness) for every token of the source attribute.
    given: {(S2,key2): token2} assumed context."""
    E, B = sc.E, sc.E.B
    v = o.attrs.get(out_key, mk('absent'))
    gs = [o.guard] + guards_of(E, v)
    sup = set()
    for g in gs:
        sup |= set(B.support(g))
    at = mk('attr', S, src_key)
    toks = tokens_of(typ)
    if typ[0] in ('num', 'str'):
        # values the code tells apart
        for q in sup:
            d = E.vars[q]
            if d[0] == 'x' and hasattr(d[1], 'op') and isinstance(d[2], (str, int)) and is_copy(d[1], at, True):
                tk = str(d[2])
                if tk not in toks and len(toks) < 12 and (typ[0] == 'str' or tk.replace('.', '', 1).isdigit()):
                    toks.append(tk)
    for token in toks:
        m = infra_assign(E, gs)
        for q in sup:
            if E.vars[q][0] == 'parseok':
                m[q] = 1
        for (S2, k2), t2 in (given or {}).items():
            m.update(assign_token(E, sup, S2, k2, t2))
        m.update(assign_token(E, sup, S, src_key, token))
        if extra:
            m.update(extra)
        eg = B.subst(o.guard, m)
        if eg == 0:
            yield 'dropped', token, None, 0
            continue
        for g, t in resolve(E, v, m):
            w = B.AND(g, eg)
            if w == 0:
                continue
            a = accept(typ, token, t, at)
            yield ('ok' if a else 'unknown' if a is None else 'bad'), token, t, w


def source_of(sc, o, pick=None):
    """The source element symbol(s) an output element's attributes come from."""
    cnt = {}
    for k, v in o.attrs.items():
        for s, a in attr_sources(sc.E, v):
            if a == k:
                cnt[s] = cnt.get(s, 0) + 1
    return sorted(cnt, key=lambda s: -cnt[s])


# ------------------------------------------------------------------ reporting
def kind_of(t, at, S):
    if t is None:
        return 'element not written'
    if t.op == 'absent':
        return 'not written'
    if t.op == 'str':
        return 'written as "%s"' % t.a[0]
    if t.op == 'int':
        return 'written as %s' % t.a[0]
    src = attr_leaves(t)
    names = sorted({a for s, a in src})
    if names and not (len(src) == 1 and next(iter(src)) == (at.a[0], at.a[1])):
        return 'written from ' + ','.join(names)
    return 'altered (%s)' % t.op


def attr_leaves(t, acc=None):
    acc = set() if acc is None else acc
    if t.op == 'attr' and isinstance(t.a[1], str):
        acc.add((t.a[0], t.a[1]))
    elif t.op not in ('S', 'ct'):
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if hasattr(y, 'op'):
                    attr_leaves(y, acc)
                elif isinstance(y, tuple):
                    for z in y:
                        if hasattr(z, 'op'):
                            attr_leaves(z, acc)
    return acc


def tokname(tok):
    return 'absent' if tok is None else 'set' if tok == '?' else '"%s"' % tok


def check_spec(ctx, sc, tag, spec, schema_attrs, ignore=(), given=None, S=None, outs=None, extra=None, mandatory=()):
    """Every attribute of the spec must come back under its own name with the same meaning."""
    E, B = sc.E, sc.E.B
    outs = sc.by_tag(tag) if outs is None else outs
    n = 0
    for o in outs:
        if S is None:
            ss = source_of(sc, o)
            if not ss:
                continue
            src = ss[0]
        else:
            src = S
        n += 1
        for k in o.attrs:
            if k not in schema_attrs:
                ctx.bad('%s@%s: unknown attribute' % (tag, k), '<%s> is written with an attribute "%s" the schema does not define' % (tag, k))
        for k, typ in spec.items():
            opts = {}
            if isinstance(typ, dict):
                opts, typ = typ, typ['type']
            at = mk('attr', src, k)
            gv = {(src, a): t for a, t in (given or {}).items()}
            gv.update({(src, a): t for a, t in opts.get('given', {}).items()})
            res = {}
            for verdict, tok, t, w in check_attr(sc, o, k, src, k, typ, gv, extra):
                if tok is None and (k in mandatory):
                    continue
                if tok in opts.get('skip', ()):
                    continue
                res.setdefault(tok, []).append((verdict, t, w))
            for tok, rs in res.items():
                what = '%s@%s=%s' % (tag, k, tokname(tok))
                bad = [r for r in rs if r[0] in ('bad', 'dropped')]
                unk = [r for r in rs if r[0] == 'unknown']
                if bad:
                    for verdict, t, w in bad[:3]:
                        kd = kind_of(t, at, src)
                        cond = cross(E, w, src, k)
                        ctx.bad('%s: %s' % (what, kd),
                                'reading <%s %s> with value %s%s, the attribute is %s on save' % (
                                    tag, k, tokname(tok), (' when ' + cond) if cond else '', kd))
                elif unk:
                    ctx.unknown(what, fmt(unk[0][1], 2)[:120])
                elif typ[0] == 'num' and tok is not None and narrow(E, o, at, k):
                    ty = narrow(E, o, at, k)
                    ctx.bad('%s: read as %s' % (what, ty), '%s of <%s> is read as %s, which cannot hold every value of it' % (k, tag, ty))
                else:
                    ctx.ok('attribute tokens', '%s -> %s' % (what, '; '.join(sorted({kind_of(r[1], at, src).replace('altered (', 'copied (') for r in rs}))))
    return n


def cross(E, w, S, k):
    """Readable part of the witness that concerns other attributes."""
    r = []
    if w in (0, 1):
        return ''
    for pth in E.B.paths(w, 1):
        for v, val in (pth.items() if isinstance(pth, dict) else pth):
            d = E.vars[v]
            if d[0] == 'has' and d[2] != k:
                r.append('%s %s' % (d[2], 'present' if val else 'absent'))
            elif d[0] == 'x' and hasattr(d[1], 'op'):
                l = attr_leaves(d[1])
                for s, a in l:
                    if a != k:
                        r.append('%s %s "%s"' % (a, '=' if val else '!=', d[2]))
    return ', '.join(r[:4])


def dup_check(ctx, sc, tags):
    """No two creation sites may both write the same singleton element."""
    E, B = sc.E, sc.E.B
    for tag in tags:
        os_ = sc.by_tag(tag)
        for i in range(len(os_)):
            for j in range(i):
                m = infra_assign(E, [os_[i].guard, os_[j].guard])
                if B.subst(B.AND(os_[i].guard, os_[j].guard), m):
                    ctx.bad('%s: written twice' % tag, '<%s> can be written by two sites in one save' % tag)


def child_assign(E, sup, S, present):
    """Assignment of the 'S has a child <tag>' atoms."""
    m = {}
    for v in sup:
        d = E.vars[v]
        t = d[1] if len(d) > 1 else None
        if d[0] in ('next', 'hastext', 'existstag') and hasattr(t, 'op') and t.op == 'ct' and t.a[0] is S and t.a[1] in present:
            m[v] = present[t.a[1]]
    return m


def text_alts(E, t):
    """(guard, text term or 'none') of an element value (Option<String>)."""
    for g, x in E.alts(t):
        if x.op == 'agg' and x.a[0].endswith('Option') or x.op == 'agg' and len(x.a) > 2:
            if not x.a[2]:
                yield g, mk('absent')
            else:
                for g2, y in E.alts(x.a[2][0]):
                    g3 = E.B.AND(g, g2)
                    if g3:
                        yield g3, y
        else:
            yield g, x


def text_of(want, t):
    """Does term t denote the text of element `want` (or of its first child)?"""
    n = 0
    while t.op in ('tostr', 'cat') and len(t.a) == 1 and hasattr(t.a[0], 'op') and n < 6:
        t = t.a[0]
        n += 1
    if t.op != 'text':
        return False
    return want(t.a[0])


def check_text(ctx, sc, o, label, what, tokens, children, want, cell):
    """Under the given attribute tokens/children of the source element `cell`, the
    written element o must exist and hold the text accepted by want()."""
    E, B = sc.E, sc.E.B
    gs = [o.guard] + guards_of(E, o.text)
    sup = set()
    for g in gs:
        sup |= set(B.support(g))
    m = infra_assign(E, gs)
    for q in sup:
        if E.vars[q][0] == 'parseok':
            m[q] = 1
    for k, tok in tokens.items():
        m.update(assign_token(E, sup, cell, k, tok))
    m.update(child_assign(E, sup, cell, children))
    eg = B.subst(o.guard, m)
    if eg == 0:
        if want is not None:
            ctx.bad('%s: not written' % label, what + ': <%s> is not written on save' % o.tag)
        else:
            ctx.ok('text cases', label)
        return
    if want is None:
        ctx.bad('%s: written' % label, what + ': <%s> is written on save although nothing was read for it' % o.tag)
        return
    verdict = True
    for g, t in text_alts(E, E.bsubst(o.text, m)):
        if B.AND(g, eg) == 0:
            continue
        if not text_of(want, t):
            ctx.bad('%s: %s' % (label, 'empty' if t.op in ('absent', 'str') else t.op),
                    what + ': the text of the written <%s> is %s' % (o.tag, fmt(t, 2)[:120]))
            verdict = False
    if verdict:
        ctx.ok('text cases', label)


def path_of(sc, o):
    E = sc.E
    r, e = [], o.par
    while hasattr(e, 'op') and e in E.elinfo:
        t = E.elinfo[e][0]
        r.append(t.a[0] if t.op == 'str' else '?')
        e = E.elinfo[e][1]
    if hasattr(e, 'op') and e.op != 'root':
        x = e
        while x.op in ('S', 'id') and not (x.op == 'S' and len(x.a) > 4 and hasattr(x.a[4], 'op') and x.a[4].op == 'tagged'):
            nxt = [y for y in x.a if hasattr(y, 'op')]
            if not nxt:
                break
            x = nxt[0]
        if x.op == 'S':
            x = x.a[4]
        if x.op == 'tagged':
            r.append(x.a[0] if isinstance(x.a[0], str) else x.a[0].a[0])
        elif x.op == 'ct':
            r.append(x.a[1])
    return r[::-1]


def check_parent(ctx, sc, tag, path):
    for o in sc.by_tag(tag):
        p = path_of(sc, o)
        if p == path:
            ctx.ok('element nesting', '/'.join(p + [tag]))
        elif '?' in p:
            ctx.unknown('nesting of <%s>' % tag, '/'.join(p))
        else:
            ctx.bad('%s: under %s' % (tag, '/'.join(p) or 'root'), '<%s> is written under /%s, the schema places it under /%s' % (tag, '/'.join(p), '/'.join(path)))


def pure_leaves(t, fns=None):
    """(attribute leaves, arithmetic ops) of a term; calls of pure functions are transparent."""
    leaves, ar = [], []

    def go(t):
        if t.op == 'attr' and isinstance(t.a[1], str):
            leaves.append((t.a[0], t.a[1]))
            return
        if t.op in ('S', 'ct', 'E'):
            return
        if t.op == 'op' and not str(t.a[0]).startswith('fn:') or t.op in ('plus', 'int'):
            ar.append(t.a[0] if t.op == 'op' else t.op)
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if hasattr(y, 'op'):
                    go(y)
    go(t)
    return leaves, ar


def order_rule(ctx, sc, tag):
    """Records of <tag> pushed while reading must be taken out in the same order,
    and no record may be added beside the ones read."""
    E, B = sc.E, sc.E.B
    srcs = {s for o in sc.by_tag(tag) for s in source_of(sc, o)[:1]}
    n = 0
    seen = set()
    for kind, ents, fn, line in E.drains:
        mine = [e for e in ents if any(s in srcs for s, a in attr_leaves(e[2]))]
        if not mine:
            continue
        back = kind.split('_')[-1] in ('back', 'rev')
        for e in mine:
            if e[1] != 'many' or e[3] not in ('b', 'f'):
                continue
            n += 1
            if (fn.key, kind, e[3]) in seen:
                continue
            seen.add((fn.key, kind, e[3]))
            if back != (e[3] == 'f'):
                ctx.bad('%s: order reversed' % tag, 'the <%s> records are queued at the %s while reading and taken from the %s in %s (line %s), so they are written in reverse order' % (
                    tag, 'front' if e[3] == 'f' else 'back', 'back' if back else 'front', fn.short.split('::')[-1], line))
            else:
                ctx.ok('record order', '%s: queued %s, taken %s' % (tag, e[3], kind))
        for e in ents:
            if e in mine:
                continue
            m = infra_assign(E, [e[0]] + [x[0] for x in mine])
            g = B.subst(e[0], m)
            if g and not (set(attr_leaves(e[2]))):
                ctx.bad('%s: extra record' % tag, 'besides the <%s> records that were read, another one is added when %s' % (tag, E.bfmt(g, 1)[:160]))
            else:
                ctx.ok('no extra record', tag)
    return n
