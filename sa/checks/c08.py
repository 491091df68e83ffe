from ..engine import Engine, State, mk, fmt, Ref
from ..mir import short

EXPLAIN = ('The save routine is interpreted with every outcome of every fallible call kept apart; the file-system calls it makes form a guarded '
           'effect trace. The trace is checked against the replace-by-rename protocol, and a who-may-call rule over the call graph of the crate '
           'covers file-system access everywhere else.')
RULE = ('only the save routine changes files; the target is replaced by one rename of a file written beside it, after every write succeeded; '
        'the temporary file is removed on every failing exit')
ASSUME = ['rename() replaces its target atomically', 'std::fs functions do what their documentation says']

READ = {'File::open', 'metadata', 'symlink_metadata', 'exists', 'read', 'read_to_string', 'canonicalize', 'read_dir', 'read_link', 'File::metadata',
        'OpenOptions::new', 'OpenOptions::read', 'Metadata::len', 'Metadata::is_file', 'Metadata::is_dir', 'File::try_clone', 'File::options'}
WRITE_ON_FILE = ('std::io::Write::', 'std::io::BufWriter', 'std::io::LineWriter', 'std::io::copy')
DEST = {'rename': 1, 'copy': 1, 'hard_link': 1, 'OpenOptions::open': 1}


def fsname(p):
    p = short(p)
    if not p.startswith('std::fs::'):
        return None
    return p[len('std::fs::'):]


def strip(t):
    n = 0
    while n < 10 and t.op in ('tostr', 'cat', 'S', 'op') and n < 10:
        n += 1
        if t.op == 'S' and isinstance(t.a[2], str) and t.a[2] in ('new', 'from', 'as_ref', 'to_path_buf', 'as_path', 'to_owned', 'into', 'clone', 'canonicalize', 'unwrap_or', 'deref'):
            xs = [x for x in t.a[4:] if hasattr(x, 'op')]
        elif t.op in ('tostr', 'cat') and len(t.a) == 1:
            xs = [x for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a) if hasattr(x, 'op')]
        else:
            return t
        if len(xs) != 1:
            return t
        t = xs[0]
    return t


def mentions(t, x):
    if t is x:
        return True
    for y in t.a:
        for z in (y if isinstance(y, tuple) else (y,)):
            if hasattr(z, 'op'):
                if mentions(z, x):
                    return True
            elif isinstance(z, tuple):
                if any(hasattr(w, 'op') and mentions(w, x) for w in z):
                    return True
    return False


def mutating(f):
    p = f.get('rpath') or f.get('path') or ''
    n = fsname(p) or fsname(f.get('path') or '')
    if n is not None and n not in READ:
        return n
    return None


def run(ctx):
    P = ctx.P
    save = ctx.fn('OfficeDocument::save_as')
    ctx.need('save routine', int(save is not None), 1)
    if save is None:
        return
    E = Engine(P)
    E.strict = True
    E.watch = ('std::fs::', 'std::io::')
    st = State(1, {})
    root, pr = ('H', 'doc'), ('H', 'path')
    st.st[root] = mk('S', (), 0, 'document', True)
    target = mk('S', (), 0, 'target', True)
    st.st[pr] = target
    r = E.call_fn(st, save, [Ref(root), Ref(pr)], ('save', 0, save.key), ())
    B = E.B
    ok = err = 0
    for g, x in E.alts(r):
        d = E.cond_eq(E.discr(x), 0)
        ok = B.OR(ok, B.AND(g, d))
        err = B.OR(err, B.AND(g, B.NOT(d)))

    def good(res):
        o = 0
        for g, x in E.alts(res):
            o = B.OR(o, B.AND(g, E.cond_eq(E.discr(x), 0)))
        return o
    effects = []
    seen = set()
    for path, args, pc, fr, line, res in E.effects:
        k = (path, fr.ctx, line, pc)
        n = fsname(path)
        if k in seen:
            continue
        seen.add(k)
        if n in READ:
            continue
        effects.append((n, path, args, pc, fr, line, res))
    ctx.count('effects in the save trace', len(effects))
    files = []      # (effect, created ok)
    renames, removes, writes = [], [], []
    for n, path, args, pc, fr, line, res in effects:
        where = '%s (line %s)' % (fr.fn.short.split('::')[-1], line)
        if n is None:
            # a write: on the file, or on a buffer
            dest = [a for a in args[:1]]
            if any(mentions(a, t) for a in args for _, _, t, _ in files):
                writes.append((path, pc, res, where))
                if short(path).split('::')[-1] in ('write', 'write_vectored') and not any(line == blk.get('l') and b in body for body in fr.fn.loops.values()
                                                                                         for b, blk in enumerate(fr.fn.blocks)):
                    ctx.bad('partial write', '%s writes the package with a single write(), which may store only a part of it' % where)
            continue
        i = DEST.get(n, 0)
        dests = [strip(x) for _, x in E.alts(args[i])] if len(args) > i else []
        for d in dests:
            if n == 'rename':
                src = [strip(x) for _, x in E.alts(args[0])]
                if d is target and target not in src:
                    renames.append((src[0], pc, res, where))
                    ctx.ok('target replaced by rename', 'rename(%s, target)' % fmt(src[0], 2)[:60])
                elif target in src:
                    ctx.bad('rename of the target', 'the existing target file is moved away in %s, so a failure afterwards leaves none' % where)
                elif mentions(d, target):
                    ctx.unknown('rename in ' + where, fmt(d, 2)[:80])
                else:
                    ctx.bad('%s on another file' % n, '%s moves a file onto %s' % (where, fmt(d, 2)[:80]))
            elif n.startswith('File::') and n.split('::')[1] in ('sync_all', 'sync_data', 'set_len', 'set_permissions', 'set_modified'):
                if n != 'File::set_len':
                    writes.append((path, pc, res, where))
            elif d is target:
                ctx.bad('%s on the target' % n, '%s: the existing target file is changed in place by std::fs::%s before the new package is complete and in its place' % (where, n))
            elif not mentions(d, target):
                if n in ('OpenOptions::write', 'OpenOptions::create', 'OpenOptions::create_new', 'OpenOptions::truncate', 'OpenOptions::append'):
                    continue
                ctx.bad('%s on another file' % n, '%s calls std::fs::%s on %s, which is not derived from the path being saved' % (where, n, fmt(d, 2)[:80]))
            elif n in ('File::create', 'File::create_new', 'OpenOptions::open', 'write', 'copy'):
                f = res if res is not None else mk('absent')
                files.append((pc, d, f, B.AND(pc, good(f))))
                if n == 'write':
                    writes.append((path, pc, res, where))
                ctx.ok('temporary file beside the target', '%s(%s)' % (n, fmt(d, 2)[:60]))
            elif n in ('remove_file', 'remove_dir_all', 'remove_dir'):
                removes.append((d, pc))
            else:
                ctx.bad('%s in the save routine' % n, '%s calls std::fs::%s' % (where, n))
    if not renames and not ctx.viol:
        ctx.bad('no rename', 'the save routine never puts a completely written file in the place of the target')
    for src, pc, res, where in renames:
        mk_ = [c for c in files if c[1] is src]
        if not mk_:
            ctx.bad('rename of a file not written', '%s renames %s, which the save routine did not create' % (where, fmt(src, 2)[:60]))
        for c in mk_:
            if B.AND(pc, B.NOT(c[3])):
                ctx.bad('rename without file', '%s can rename the temporary file although creating it failed' % where)
            else:
                ctx.ok('rename only after success', 'created')
        for path, wpc, wres, wwhere in writes:
            bad = B.AND(pc, B.AND(wpc, B.NOT(good(wres)))) if wres is not None else 0
            if bad:
                ctx.bad('rename after failed %s' % short(path).split('::')[-1], '%s can replace the target although %s in %s failed' % (where, short(path).split('::')[-1], wwhere))
            else:
                ctx.ok('rename only after success', short(path).split('::')[-1])
        if not writes:
            ctx.bad('nothing written', 'the file put in place of the target was never written to')
        # success is reported only when the rename happened and succeeded
        rn = B.AND(pc, good(res))
        if B.AND(ok, B.NOT(rn)):
            ctx.bad('success without replacement', 'the save routine can report success although the target was not replaced (%s)' % E.bfmt(B.AND(ok, B.NOT(rn)), 1)[-160:])
        else:
            ctx.ok('success means replaced', where)
        # no temporary file left after a failure
        rem = 0
        for d, p in removes:
            if d is src:
                rem = B.OR(rem, p)
        for c in mk_:
            left = B.AND(B.AND(err, c[3]), B.AND(B.NOT(rn), B.NOT(rem)))
            if left:
                ctx.bad('temporary file left', 'a failing save can leave its temporary file behind')
            else:
                ctx.ok('temporary file removed on failure', fmt(src, 2)[:60])
    # who may change files
    flow = {P.fns[k] for k in E.fns_seen}
    callers = {}
    sites = []
    for f in P.lib.values():
        for b, t in f.calls():
            c = t['f']
            if 'dyn' in c:
                continue
            n = mutating(c)
            if n:
                sites.append((f, n, t.get('l')))
                if not any(short(c.get('path') or '').startswith('std::fs::') for _ in (0,)):
                    continue
            k = c.get('key')
            if k:
                callers.setdefault(k, set()).add(f)
            # closures and functions passed as values
        for k in f_refs(P, f):
            callers.setdefault(k, set()).add(f)
    ctx.need('file-changing calls', len(sites), 2)
    for f, n, line in sites:
        # every chain of callers must pass through the save routine
        todo, seen2, escape = [f], set(), None
        while todo:
            x = todo.pop()
            if x.key in seen2 or x is save:
                continue
            seen2.add(x.key)
            cs = callers.get(x.key, ())
            if not cs and not x.closure or x.exported and x is not save:
                escape = x
            todo += list(cs)
        if f not in flow:
            ctx.bad('%s outside the save routine: %s' % (n, f.short.split('::')[-1]), '%s calls std::fs::%s (line %s) but is not part of the save routine' % (f.short, n, line))
        elif escape is not None:
            ctx.bad('%s reachable outside the save routine' % n, '%s calls std::fs::%s and can be reached without the save routine through %s' % (f.short, n, escape.short))
        else:
            ctx.ok('file-changing call sites', '%s in %s' % (n, f.short.split('::')[-1]))
    opens = 0
    for f in P.lib.values():
        for b, t in f.calls():
            c = t['f']
            if 'dyn' not in c and (fsname(c.get('rpath') or c.get('path') or '') in READ):
                opens += 1
    ctx.count('read-only file calls', opens)
    ctx.count('functions scanned', len(P.lib))


def f_refs(P, f):
    """Functions and closures mentioned as values in f."""
    r = set()

    def op(o):
        if isinstance(o, list) and o and o[0] == 'k' and isinstance(o[1], int):
            ty = P.types[o[1]]
            if ty['k'] == 'closure' and ty.get('key'):
                r.add(ty['key'])
            if ty['k'] == 'fndef' and isinstance(ty.get('fn'), dict) and ty['fn'].get('key'):
                r.add(ty['fn']['key'])
    for l in f.locals:
        ty = P.types[l[0]]
        if ty['k'] == 'closure' and ty.get('key'):
            r.add(ty['key'])
    for blk in f.blocks:
        if blk['k'] == 'call':
            for a in blk['a']:
                op(a)
        for s in blk['s']:
            if s[0] == '=':
                for x in s[2]:
                    if isinstance(x, list):
                        op(x)
    return r
