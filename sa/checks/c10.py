from .. import pkg
from ..codec import Scenario
from ..engine import fmt, mk, State, Ref, Engine
from ..streval import Eval, Unknown, Opt, NONE, some, plain
from .c01 import strip

EXPLAIN = ('Loading a relationship part and writing it back are interpreted as one composition for an arbitrary relationship element; the lookup, creation and '
           'deletion functions are interpreted for an arbitrary collection, and the path function each of them denotes (a value-flow term) is compared '
           'with the specification on every class of owning part (root, folder, nested folder, folder names containing the marker) and target.')
RULE = ('id, target, type and mode written = read; lookup by id/type = that relationship resolved against the owning folder; new relationship = unused id, '
        'type of its kind, absolute target equal to the returned path; deletion keeps exactly the relationships that resolve elsewhere')
ASSUME = ['relationship ids are unique within a part of the source package']

NAMES = ('Id', 'Target', 'Type', 'TargetMode')
FILES = [('_rels/.rels', '', 'package root'), ('xl/_rels/workbook.xml.rels', 'xl/', 'folder'), ('xl/worksheets/_rels/sheet1.xml.rels', 'xl/worksheets/', 'nested folder'),
         ('my_rels/_rels/a.xml.rels', 'my_rels/', 'folder name ending in _rels'), ('x/_relsold/b/_rels/a.rels.rels', 'x/_relsold/b/', 'folder name starting with _rels')]
TARGETS = [('/xl/styles.xml', 'absolute'), ('styles.xml', 'same folder'), ('theme/theme1.xml', 'subfolder'), ('/a.xml', 'absolute at the root'),
           ('../media/x.bin', 'parent folder')]


def resolve(base, target):
    p = target[1:] if target.startswith('/') else base + target
    out = []
    for s in p.split('/'):
        if s == '..':
            out = out[:-1]
        elif s != '.':
            out.append(s)
    return '/'.join(out)


def run(ctx):
    roles = roundtrip(ctx)
    if not roles:
        return
    lookups(ctx, roles)
    creation(ctx, roles)
    deletion(ctx, roles)


def roundtrip(ctx):
    new, close = ctx.fn('RelationsPart::new'), ctx.impl('XmlDocumentPartCommon', 'RelationsPart', 'close_document')
    ctx.need('relationship part constructor and closing', int(new is not None) + int(close is not None), 2)
    if new is None or close is None:
        return None
    sc = Scenario(ctx.P, new, close)
    E = sc.E
    ctx.count('functions analysed', len(E.fns_seen))
    ctx.count('calls resolved', E.calls_seen)
    roles = roles_of(ctx, sc)
    for n in NAMES:
        if n not in roles:
            ctx.bad('not kept: ' + n, 'the %s of a relationship is not kept when a part is loaded' % n)
    outs = sc.by_tag('Relationship')
    ctx.need('relationship elements written', len(outs), 1)
    for o in outs:
        if o.par is not None and fmt(o.par) not in ('root()',) and getattr(o.par, 'op', '') not in ('none', 'root'):
            pass
        g = pkg.guard_case(E, o.guard, only_exists)
        if g != 1:
            ctx.bad('relationship left out', 'a relationship is written only when %s' % E.bfmt(g)[:200])
        else:
            ctx.ok('relationship written', 'every relationship of the part')
        if o.how not in ('append', 'append_child', 'append_child_mut'):
            ctx.unknown('relationship position', str(o.how))
        src = set()
        for n in NAMES:
            v = o.attrs.get(n, mk('absent'))
            for present in ((True, False) if n == 'TargetMode' else (True,)):
                def dec(d, n=n, present=present):
                    if d[0] == 'has':
                        return int(present) if d[2] == 'TargetMode' else 1
                    if d[0] in ('x', 'lt') or d[0] == 'eq':
                        return pkg.infra(d)
                    return 1 if d[0] in ('next', 'existstag', 'hasattrs', 'okcall') else None
                for g, x in pkg.case(E, v, dec):
                    x = strip(x)
                    if present and x.op == 'attr' and x.a[1] == n:
                        src.add(x.a[0])
                        ctx.ok('attribute kept', '%s := %s' % (n, fmt(x, 5)[:80]))
                    elif not present and x.op == 'absent':
                        ctx.ok('absent attribute stays absent', n)
                    else:
                        ctx.bad('%s %s' % (n, 'changed' if present else 'invented'), 'a relationship %s %s is written with %s' % (
                            'with' if present else 'without', n, fmt(x, 4)[:120]))
        if len(src) > 1:
            ctx.bad('attributes mixed', 'the attributes of one relationship come from different elements')
        for n in o.attrs:
            if n not in NAMES:
                ctx.bad('attribute %s' % n, 'a relationship is written with the attribute %s' % n)
    closes = 0
    for c in E.closes:
        closes = E.B.OR(closes, c[3])
    def single(d):
        # one relationship and nothing else
        if d[0] == 'lt' and d[1].op == 'int':
            return int(d[1].a[0] < (1 if d[2].op == 'len' else 0))
        if d[0] == 'lt' and d[2].op == 'int':
            return int((1 if d[1].op == 'len' else 0) < d[2].a[0])
        if d[0] == 'x' and getattr(d[1], 'op', '') == 'len':
            return int(str(d[2]) == '1')
        if d[0] == 'x' and getattr(d[1], 'op', '') == 'S':
            return int(str(d[2]) == '0')
        return pkg.infra(d) if d[0] != 'x' else None
    g = pkg.guard_case(E, closes, single)
    if g == 1:
        ctx.ok('part kept', 'a part with relationships is closed, not deleted')
    else:
        ctx.bad('part dropped', 'a part with relationships is written only when %s' % E.bfmt(g)[:160])
    return roles if len(roles) == 4 else None


def roles_of(ctx, sc):
    """Which component of a relationship record holds which attribute."""
    E = sc.E
    fi = pkg.field(ctx.P, 'RelationsPart', 'relationships')
    roles = {}
    for g, v in E.alts(E.proj(sc.part, ('f', fi)) if fi is not None else sc.part):
        if v.op == 'vec':
            for cg, mu, t, d in v.a[1]:
                if t.op == 'agg':
                    for i, c in enumerate(t.a[2]):
                        for g2, x in E.alts(c):
                            y = x.a[2][0] if x.op == 'agg' and x.a[1] == 1 and x.a[2] else x
                            y = strip(y)
                            if y.op == 'attr' and y.a[1] in NAMES:
                                roles.setdefault(y.a[1], i)
    return roles


def only_exists(d):
    return 1 if d[0] in ('next', 'existstag', 'hasattrs', 'has', 'okcall') else pkg.infra(d)


class Part:
    """A relationship part with an arbitrary collection, and one of its functions applied."""

    def __init__(self, ctx, name):
        self.P = P = ctx.P
        self.fn = ctx.fn('RelationsPart::' + name)
        self.ok = self.fn is not None
        if not self.ok:
            return
        E = self.E = Engine(P)
        st = self.st = State(1, {})
        self.root = ('H', 'rel')
        self.part = st.st[self.root] = mk('S', (), 0, 'part', True)
        self.args = []
        a = [Ref(self.root)]
        for i in range(1, self.fn.argc):
            t = P.types[self.fn.locals[i + 1][0]]
            v = mk('S', (), 0, 'ARG%d' % i, True)
            self.args.append((v, t))
            if t['k'] == 'ref':
                r = ('H', 'a%d' % i)
                st.st[r] = v
                v = Ref(r)
            a.append(v)
        self.ret = E.call_fn(st, self.fn, a, ('m', 0, self.fn.key), ())
        self.fi = pkg.field(P, 'RelationsPart', 'relationships')
        self.file = mk('f', self.part, pkg.field(P, 'RelationsPart', 'file_path'))
        self.rel = mk('f', self.part, self.fi)
        ctx.count('functions analysed', len(E.fns_seen))

    def is_item(self, S):
        return S.op == 'S' and S.a[2].rstrip('~') == 'item' and any(getattr(x, 'op', '') and pkg.mentions(x, lambda z: z is self.rel) for x in S.a[4:])

    def items(self, t):
        r = set()
        pkg.mentions(t, lambda z: r.add(z) or False if self.is_item(z) else False)
        return r


def record(roles, ident, target, ty, mode=NONE):
    t = [None] * (max(roles.values()) + 1)
    t[roles['Id']], t[roles['Target']], t[roles['Type']], t[roles['TargetMode']] = ident, target, ty, mode
    return tuple(t)


class Env(dict):
    """Every item of the collection is the same representative."""

    def __init__(self, part, rec, base):
        dict.__init__(self, base)
        self.part, self.rec = part, rec

    def __contains__(self, t):
        return dict.__contains__(self, t) or self.part.is_item(t) and t.a[2] not in ('pos',)

    def __getitem__(self, t):
        return dict.__getitem__(self, t) if dict.__contains__(self, t) else self.rec


def atoms(found):
    def f(d, ev):
        if d[0] == 'next':
            return int(found)
        if d[0] == 'okcall':
            return 1
        return None
    return f


def value(p, rec, env, t, found=True):
    ev = Eval(p.E, Env(p, rec, env), atoms(found))
    return plain(ev(t))


def lookups(ctx, roles):
    p = Part(ctx, 'get_target_by_id')
    n = 0
    if p.ok:
        ID = p.args[0][0]
        for file, base, fclass in FILES:
            for target, tclass in TARGETS:
                for match in (True, False):
                    rec = record(roles, 'rId7' if match else 'rId70', target, 'urn:t')
                    want = (0, (1, resolve(base, target)) if match else (0,))
                    n += judge(ctx, 'lookup by id', p, rec, {ID: 'rId7', p.file: file}, want, fclass, tclass, match)
    p = Part(ctx, 'get_relationship_target_by_type_mut')
    if p.ok:
        TY = p.args[0][0]
        for file, base, fclass in FILES:
            for target, tclass in TARGETS:
                rec = record(roles, 'rId7', target, 'urn:t')
                n += judge(ctx, 'lookup by type', p, rec, {TY: 'urn:t', p.file: file}, (0, resolve(base, target)), fclass, tclass, True)
    ctx.need('lookups compared', n, 30)


def judge(ctx, what, p, rec, env, want, fclass, tclass, match):
    try:
        got = value(p, rec, env, p.ret)
    except Unknown as e:
        ctx.unknown('%s: undetermined' % what, '%s: what it returns for a %s target of a part in a %s cannot be determined (%s)' % (what, tclass, fclass, e))
        return 1
    if got == want:
        ctx.ok(what, '%s target, owner in a %s%s -> %s' % (tclass, fclass, '' if match else ', other id', got[-1]))
        return 1
    key = '%s: %s' % (what, tclass if tclass == 'parent folder' else '%s / %s' % (fclass, tclass)) if match else '%s: other relationship' % what
    ctx.bad(key, '%s: a %s target of a part in a %s gives %s instead of %s' % (what, tclass, fclass, got, want))
    return 1


CONTENT = {'schemas_type': 'urn:kind', 'extension': 'xml', 'default_path': 'xl', 'default_name': 'thing', 'content_type': 'ct', 'extension_type': 'et', 'alias': 'al',
           'schemas_namespace': 'ns'}


def creation(ctx, roles):
    done = 0
    for name in ('set_new_relationship_mut', 'get_relationship_target_by_type_mut'):
        p = Part(ctx, name)
        if not p.ok:
            continue
        E = p.E
        ids = [x for x, t in p.args if t['k'] == 'ref' and p.P.types[t['t']].get('name', '').endswith('Content')]
        opts = [x for x, t in p.args if t['k'] == 'adt' and t.get('name', '').endswith('Option')]
        strs = [x for x, t in p.args if t['k'] == 'ref' and x not in ids]
        if len(ids) != 1 or len(opts) != 2:
            ctx.unknown('creation', name + ': parameters')
            continue
        # the collection afterwards
        added = []
        for g, v in E.alts(E.proj(E.getroot(p.st, p.root), ('f', p.fi))):
            if v.op == 'vec':
                if v.a[0] is not p.rel:
                    ctx.bad('%s: collection replaced' % name, '%s replaces the relationships by %s' % (name, fmt(v.a[0], 3)[:100]))
                for cg, mu, t, d in v.a[1]:
                    added.append((g, t, d))
            elif v is not p.rel:
                ctx.bad('%s: collection replaced' % name, '%s replaces the relationships by %s' % (name, fmt(v, 3)[:100]))
        if not added:
            ctx.bad('%s: nothing added' % name, '%s adds no relationship' % name)
            continue
        for path, fname in ((None, None), ('a/b', 'part9'), ('a/b', None), (None, 'part9')):
            target = '%s/%s.%s' % (path or CONTENT['default_path'], fname or CONTENT['default_name'], CONTENT['extension'])
            env = {p.file: 'xl/_rels/workbook.xml.rels', opts[0]: NONE if path is None else some(path), opts[1]: NONE if fname is None else some(fname)}
            for s in strs:
                env[s] = 'urn:kind'
            env[ids[0]] = fields(p.P, 'Content', CONTENT)
            rec = record(roles, 'rId1', '/other.xml', 'urn:other')
            for g, t, d in added:
                ev = Eval(E, IdEnv(p, rec, env), lambda d_, e_: 0 if d_[0] == 'next' else 1 if d_[0] == 'okcall' else None)
                try:
                    t = plain(ev(t))[1:] if t.op == 'agg' else plain(ev(t))
                except Unknown as e:
                    ctx.unknown('%s: undetermined' % name, 'the relationship %s adds cannot be determined (%s)' % (name, e))
                    continue
                for n, want in (('Target', '/' + target), ('Type', 'urn:kind'), ('TargetMode', (0,))):
                    if t[roles[n]] == want:
                        ctx.ok('new relationship', '%s: %s = %s' % (name, n, want))
                        done += 1
                    else:
                        ctx.bad('%s: %s of the new relationship' % (name, n), '%s adds a relationship with %s %s instead of %s' % (name, n, t[roles[n]], want))
                idt = t[roles['Id']]
                # what is returned
                try:
                    r = plain(Eval(E, IdEnv(p, rec, env), lambda d_, e_: 0 if d_[0] == 'next' else 1 if d_[0] == 'okcall' else None)(p.ret))
                except Unknown as e:
                    ctx.unknown('%s: result undetermined' % name, '%s: %s' % (name, e))
                    continue
                want = (0, target) if name.startswith('get') else (0, idt)
                if r == want:
                    ctx.ok('result names the new relationship', '%s -> %s' % (name, r[1]))
                else:
                    ctx.bad('%s: result' % name, '%s returns %s for the relationship with id %s and target %s' % (name, r, idt, '/' + target))
    ctx.need('components of new relationships compared', done, 12)
    unused(ctx, roles)


def fields(P, ty, vals):
    for t in P.types:
        if t['k'] == 'adt' and t.get('name', '').endswith('::' + ty) and t.get('local', True):
            return tuple(vals.get(n, '?' + n) for n, _ in t['v'][0]['f'])
    return ()


class IdEnv(Env):
    """A loop-carried counter stands for some number."""

    def __contains__(self, t):
        return Env.__contains__(self, t) or t.op == 'S' and t.a[2].rstrip('~') in ('widen', 'iv', 'range', 'pos', 'carried')

    def __getitem__(self, t):
        if dict.__contains__(self, t):
            return dict.__getitem__(self, t)
        if t.op == 'S' and t.a[2].rstrip('~') in ('widen', 'iv', 'range', 'pos', 'carried'):
            return 5
        return self.rec


def unused(ctx, roles):
    """The id of a new relationship has been compared with the id of every relationship of the part before it is used."""
    p = Part(ctx, 'set_new_relationship_mut')
    if not p.ok:
        return
    E = p.E
    ids = []
    for g, v in E.alts(E.proj(E.getroot(p.st, p.root), ('f', p.fi))):
        if v.op == 'vec':
            for cg, mu, t, d in v.a[1]:
                if t.op == 'agg':
                    ids += [x for _, x in E.alts(t.a[2][roles['Id']])]
    unstar = lambda t: fmt(t, -30).replace('*', '').replace('~', '')
    for x in ids:
        lits = x.op == 'cat' and all(y.op == 'str' for y in x.a[0]) or x.op == 'str'
        if lits:
            ctx.bad('id: constant', 'every new relationship gets the id %s' % fmt(x))
            continue
        want = unstar(x)
        hit = None
        for key, conds in E.leave.items():
            for cond in conds:
                for a in E.B.support(cond):
                    d = E.vars[a]
                    if d[0] != 'eq':
                        continue
                    for u, w in ((d[1], d[2]), (d[2], d[1])):
                        if u.op == 'f' and u.a[1] == roles['Id'] and p.is_item(u.a[0]) and unstar(w) == want:
                            # left only when no relationship has it
                            rest = E.B.subst(cond, {b: 1 for b in E.B.support(cond) if E.vars[b][0] == 'next' and p.is_item(E.vars[b][1])})
                            if E.B.subst(rest, {a: 1}) == 0:
                                hit = (key, d)
        if hit:
            ctx.ok('unused id', '%s is compared with the id of every relationship' % want[:80])
        else:
            ctx.bad('id: may be in use', 'the id given to a new relationship, %s, is not shown to differ from the ids in use' % want[:120])


def deletion(ctx, roles):
    p = Part(ctx, 'delete_relationship_mut')
    n = 0
    if not p.ok:
        return
    E = p.E
    PATH = p.args[0][0]
    keeps = []
    for k, v in E.retains.items():
        if v[2] is p.rel:
            keeps.append((v[0], v[1]))
    if not keeps:
        ctx.bad('deletion: nothing removed', 'deleting a relationship leaves the collection as it is, or the way it filters is not understood')
        return
    for file, base, fclass in FILES:
        for target, tclass in TARGETS:
            res = resolve(base, target)
            for path, word in ((res, 'its part'), ('/' + res, 'its part, written with a slash'), ('x' + res, 'another part'), (res + 'x', 'another part'), ('/x/' + res, 'another part')):
                want = word == 'another part'
                rec = record(roles, 'rId7', target, 'urn:t')
                got = True
                try:
                    for item, keep in keeps:
                        got = got and bool(value(p, rec, {PATH: path, p.file: file}, keep if hasattr(keep, 'op') else mk('b', keep)))
                except Unknown as e:
                    ctx.unknown('deletion: undetermined', 'whether deleting a part keeps a relationship cannot be determined (%s)' % e)
                    n += 1
                    continue
                n += 1
                if got == want:
                    ctx.ok('deletion', '%s target of a part in a %s, deleting %s: %s' % (tclass, fclass, word, 'kept' if got else 'removed'))
                else:
                    key = 'deletion: parent folder' if tclass == 'parent folder' else 'deletion: %s / %s' % (fclass, tclass)
                    ctx.bad(key, 'deleting %s (%s) %s the relationship with the %s target %s of %s' % (word, path, 'keeps' if got else 'removes', tclass, target, file))
    ctx.need('deletions compared', n, 50)
