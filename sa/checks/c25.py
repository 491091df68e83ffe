from .. import ffi
from . import c27
from ..engine import fmt

EXPLAIN = ('Every exported function of the C interface (found by its no_mangle attribute) is interpreted from MIR with arbitrary pointer arguments, helpers and combinators included: '
           'input pointers are symbolic and may be null, output pointers refer to cells that start out unset, every call into the library may succeed or fail. At the end the '
           'conditions under which a status is returned, an output is written, a pointer is used, a handle is turned back into a box and released are compared as boolean functions.')
RULE = ('success <=> the operation ran and nothing failed; a failure sets the error text (or its conversion failed); an input pointer is used only when it is not null; an output handle is '
        'written exactly on success, with a box or string that stays allocated; a handle is released exactly by save; each operation gets the arguments of the same name in order')
ASSUME = ['rs_ffi cannot be compiled as committed: its flatbuffers module is generated code that is not in the repository and the generator is not installed. The check compiles the '
          'current sources of rs_ffi against a stand-in written from the schemas in fbs/ (accessors only); no build of this crate is part of the repository build',
          'output pointers themselves are assumed valid']

OPS = {'excel_create': ('Excel::new',), 'excel_add_sheet': ('add_sheet_mut',), 'excel_rename_sheet': ('rename_sheet_name_mut',), 'excel_get_sheet': ('get_worksheet_mut',),
       'excel_hide_sheet': ('hide_sheet_mut',), 'get_style_id_mut': ('get_style_id_mut',), 'excel_save_as': ('Excel::save_as',),
       'word_create': ('Word::new',), 'word_save_as': ('Word::save_as',), 'power_point_create': ('PowerPoint::new',), 'power_point_save_as': ('PowerPoint::save_as',)}


def lasting(E, t):
    """The stored pointer refers to memory that is still allocated after the function returned."""
    if t.op in ('nullptr', 'raw', 'arg'):
        return True
    if t.op == 'g':
        return all(lasting(E, x) for g, x in E.alts(t))
    if t.op == 'ref' or t.op == 'within' and t.a[0] not in E.leaked:
        return False
    if t.op == 'within':
        return True
    return None


def mentions(t, p, seen=None):
    if isinstance(t, tuple):
        return any(mentions(x, p) for x in t)
    if not hasattr(t, 'op'):
        return False
    return p(t) or any(mentions(x, p) for x in t.a)


def run(ctx):
    P = ffi.program()
    if P is None:
        ctx.unknown('C interface', 'the interface crate does not compile against the schemas')
        ctx.notes.append('the interface crate does not compile against the stand-in for its generated module; nothing was decided')
        return
    fns = ffi.exported(P)
    ctx.count('exported functions', len(fns))
    ctx.need('exported functions', len(fns), 11)
    for f in fns:
        one(ctx, P, f)


def one(ctx, P, f):
    E = ffi.Run(P, f).run_fn()
    B, n = E.B, f.short.split('::')[-1]
    ctx.count('functions interpreted', len(E.fns_seen))
    ctx.count('calls resolved', E.calls_seen)
    ok, other = 0, 0
    for g, t in E.alts(E.ret):
        v = E.strip(t) if hasattr(E, 'strip') else t
        if t.op == 'int':
            if t.a[0] == 0:
                ok = B.OR(ok, g)
        else:
            other = B.OR(other, g)
    if other:
        ctx.unknown('%s: status' % n, 'a status that is not a constant')

    def say(what, cond, msg):
        cond = B.AND(cond, B.NOT(other))
        if cond == 0:
            ctx.ok(what, n)
        else:
            ctx.bad('%s: %s' % (n, what), '%s: %s (when %s)' % (n, msg, E.bfmt(cond, 1)[:260]))

    lib = [x for x in E.lib if x[6]]
    ran = fail = 0
    for pc, name, a, r, byval, line, res, path in lib:
        bad = B.AND(pc, E.failed(r))
        fail = B.OR(fail, bad)
        ran = B.OR(ran, pc)
        say('status of a failed operation', B.AND(ok, bad), 'returns the success status although %s (line %s) failed' % (name, line))
    for pc, name, r, line in E.fall:
        bad = B.AND(pc, E.failed(r))
        fail = B.OR(fail, bad)
        say('status of a failed step', B.AND(ok, bad), 'returns the success status although %s (line %s) failed' % (name, line))
    if not lib:
        ctx.unknown('%s: operation' % n, 'no operation of the library is called')
        return
    say('status without the operation', B.AND(ok, B.NOT(ran)), 'returns the success status without having done anything')
    say('status of a finished operation', B.AND(ran, B.NOT(B.OR(fail, ok))), 'returns a failure status although nothing failed')
    text = 0
    for r in E.text:
        text = B.OR(text, E.failed(r))
    for o, (root, ty) in E.outs.items():
        unset = 0
        for g, t in E.alts(E.end.st[root]):
            if t.op == 'unset':
                unset = B.OR(unset, g)
                continue
            l = lasting(E, t)
            if l is False:
                ctx.bad('%s: %s dangles' % (n, o), '%s: what is stored through %s is released when the function returns' % (n, o))
            elif l:
                ctx.ok('stored pointers', '%s: %s' % (n, fmt(t, -3)[:60]))
            else:
                ctx.unknown('%s: %s' % (n, o), 'stores %s' % fmt(t, -3)[:100])
        if 'error' in o:
            say('error text', B.AND(fail, B.AND(unset, B.NOT(text))), 'a failed operation leaves the error text unset')
            say('error text on success', B.AND(ok, B.NOT(unset)), 'sets the error text although it reports success')
        else:
            say('output on success', B.AND(ok, unset), 'reports success without storing %s' % o)
            say('output on failure', B.AND(B.NOT(ok), B.NOT(unset)), 'stores %s although it reports a failure' % o)
    for pc, p, what, line, where in E.uses:
        say('null pointer %s' % (p.a[0] if p.op == 'arg' else 'null'), B.AND(pc, E.null(p)), '%s is %s (line %s) without having been tested for null' % (
            p.a[0] if p.op == 'arg' else 'a null pointer', what, line))
    # ownership of handles
    saves = 0
    for x in lib:
        if x[1] in ('save_as', 'save') or x[4] and any(mentions(t, lambda y: y.op == 'handle') for t in x[2]):
            saves = B.OR(saves, x[0])
    taken = {x[1] for x in E.owned} | {x[1] for x in E.uses if x[2] == 'read'}
    for p in taken:
        own = 0
        for pc, q, line in E.owned:
            if q == p:
                own = B.OR(own, pc)
        say('handle %s released by saving' % p.a[0], B.AND(saves, B.NOT(own)), 'saving takes the object behind %s without releasing its box' % p.a[0])
    for p in {x[1] for x in E.owned}:
        own = kept = twice = 0
        for pc, q, line in E.owned:
            if q == p:
                twice = B.OR(twice, B.AND(own, pc))
                own = B.OR(own, pc)
        for pc, q in E.kept:
            if q == p:
                kept = B.OR(kept, pc)
        say('handle %s released twice' % p.a[0], B.AND(twice, B.NOT(kept)), 'the box behind %s is rebuilt twice' % p.a[0])
        say('handle %s released' % p.a[0], B.AND(own, B.AND(B.NOT(kept), B.NOT(saves))), 'releases the object behind %s, which the caller still holds' % p.a[0])
        say('handle %s kept' % p.a[0], B.AND(saves, kept), 'the object behind %s is consumed by saving and kept as well' % p.a[0])
    # the operation it is named after, with the arguments in order
    if n in OPS:
        wrong = [x for x in lib if not any(x[7].endswith(o) for o in OPS[n])]
        for x in wrong:
            ctx.bad('%s: operation %s' % (n, x[1]), '%s calls %s (line %s) instead of %s' % (n, x[1], x[5], '/'.join(OPS[n])))
        if not wrong:
            ctx.ok('operation called', n)
    for x in lib:
        got = []

        def walk(t):
            if isinstance(t, tuple):
                for y in t:
                    walk(y)
            elif hasattr(t, 'op'):
                if t.op == 'text' and t.a[0].op == 'arg':
                    got.append(t.a[0].a[0])
                else:
                    walk(t.a)
        walk(tuple(x[2]))
        for nm in sorted(set(got)):
            leaf = lambda t: t.op == 'text' and t.a[0].op == 'arg' and t.a[0].a[0] == nm
            c27.ENG[0] = E
            r = [c27.carried(t, leaf) for t in x[2] if c27.holds(t, leaf)]
            if False in r:
                ctx.bad('%s: argument %s altered' % (n, nm), '%s hands an altered %s to %s (line %s)' % (n, nm, x[1], x[5]))
            elif None in r:
                ctx.unknown('%s: argument %s' % (n, nm), 'what is handed to %s' % x[1])
            else:
                ctx.ok('text argument handed on', '%s: %s' % (n, nm))
        bufs = []

        def find(t):
            if isinstance(t, tuple):
                for y in t:
                    find(y)
            elif hasattr(t, 'op'):
                if t.op == 'buffer':
                    bufs.append(t)
                find(t.a)
        find(tuple(x[2]))
        for t in set(bufs):
            p, z = t.a[0], t.a[1]
            names = [nm for nm, ty in E.ins]
            if p.op == 'arg' and z.op == 'arg' and names.index(z.a[0]) == names.index(p.a[0]) + 1:
                ctx.ok('request buffer', n)
            elif p.op == 'arg' and z.op in ('plus', 'op', 'int', 'maxof', 'arg'):
                ctx.bad('%s: length of the request' % n, '%s reads %s with the length %s instead of its own' % (n, p.a[0], fmt(z, -3)[:60]))
            else:
                ctx.unknown('%s: request buffer' % n, fmt(t, -3)[:80])
        want = [nm for nm, t in E.ins if nm in got]
        if got != want:
            ctx.bad('%s: arguments' % n, '%s passes %s to %s (line %s) in the order %s' % (n, ', '.join(want), x[1], x[5], ', '.join(got)))
        else:
            ctx.ok('arguments in order', n)
        texts = [nm for nm, t in E.ins if nm.endswith('name')]
        for nm in texts:
            if nm not in got:
                # only when that argument is null
                say('argument %s' % nm, B.AND(x[0], B.NOT(E.null(ffi.mk('arg', nm)))), '%s is not handed to %s (line %s)' % (nm, x[1], x[5]))
