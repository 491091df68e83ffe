from ..errs import fates, fallible, losing_calls, items_fallible, sources, tested, cont_points, returns_ok_from, PROPAGATE
from ..mir import short
from .c08 import f_refs

EXPLAIN = ('Every call that yields a Result, and every upgrade of a part handle, is followed through the MIR of its function (moves, references, '
           'discriminant tests, combinators, drops) to what finally happens to the failing variant.')
RULE = ('on no path may the failing variant be dropped, replaced by a default, or reach a successful return; '
        'only Drop implementations, the removal of a temporary file and conversions used as a test are exempt')

PREDICATES = ('core::str::<impl str>::parse',)
CLEANUP = {'std::fs::remove_file': 'removing a temporary file after another failure was already recorded'}
HANDLE_OK = {
    'XmlElement::get_namespace': 'elements never outlive the document that owns the namespace table',
    'XmlElement::set_attribute_mut': 'elements never outlive the document that owns the namespace table',
    'ShareStringPart::load_content_to_database': 'called by the constructor with the handle it just obtained',
    'CalculationChainPart::load_content_to_database': 'called by the constructor with the handle it just obtained',
    'StylePart::load_content': 'called by the constructor with the handle it just obtained',
    'RelationsPart::load_relations': 'called by the constructor with the handle it just obtained',
    'WorkbookPart::load_sheet_names': 'called by the constructor with the handle it just obtained',
    'WorkSheet::initialize_worksheet': 'called by the constructor with the handle it just obtained',
    'WorkSheet::get_sheet_file_name': 'called by the constructor with the handle it just obtained',
}


def closing_functions(P):
    """Functions reached from Drop implementations: closing an already closed part is a no-op."""
    todo = [f for f in P.lib.values() if f.trait and f.trait.endswith('Drop') and f.short.endswith('::drop')]
    drops = set(f.key for f in todo)
    seen = set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for b, t in f.calls():
            k = t['f'].get('key') if 'dyn' not in t['f'] else None
            if k and k in P.lib:
                todo.append(P.lib[k])
        for k in f_refs(P, f):
            if k in P.lib:
                todo.append(P.lib[k])
    return seen, drops


def reads_payload(fn, local, P=None):
    """Is the payload of the value in `local` used for anything but a decision?"""
    seen = {local}

    def hits(x, whole):
        """Operands within x that read the payload (of `local`) or a copy of it."""
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                return x[0] in seen and (x[0] != local or whole is None or bool(x[1]) and x[1][0] != '*')
            return any(hits(y, whole) for y in x)
        return False

    def boolean(l):
        return P is not None and P.types[fn.locals[l][0]]['k'] == 'bool'
    grown = True
    while grown:
        grown = False
        for blk in fn.blocks:
            for s in blk['s']:
                if s[0] == '=' and s[2][0] not in ('discr',) and hits(s[2], True):
                    if s[1][1] or s[2][0] == 'agg' or s[1][0] == 0:
                        return True
                    if s[2][0] in ('bin', 'cbin') and boolean(s[1][0]):
                        continue
                    if s[1][0] not in seen:
                        seen.add(s[1][0])
                        grown = True
            if blk['k'] == 'call' and any(hits(a, True) for a in blk['a']):
                d = blk['d']
                if d[1] or not boolean(d[0]):
                    return True
    return False


def base(f):
    s = f.short
    while s.endswith('}') and '::{closure' in s:
        s = s[:s.rindex('::{closure')]
    return '::'.join(s.split('::')[-2:])


def run(ctx):
    P = ctx.P
    closing, drops = closing_functions(P)
    n = 0
    for fn in P.lib.values():
        refs = f_refs(P, fn)
        if fn.key in drops:
            ctx.count('Drop implementations (exempt)')
            continue
        for b, t in fn.calls():
            f = t['f']
            d = t['d']
            path = short((f.get('rpath') or f.get('path') or 'dyn') if 'dyn' not in f else 'a closure')
            last = path.split('::')[-1]
            # functions that hide failures when passed to an iterator
            for a in t['a']:
                if a[0] == 'k' and isinstance(a[1], int):
                    ty = P.types[a[1]]
                    if ty['k'] == 'fndef' and isinstance(ty.get('fn'), dict):
                        q = short(ty['fn'].get('path') or '')
                        if 'result::Result' in q and q.split('::')[-1] in ('ok', 'unwrap_or_default', 'is_ok', 'unwrap_or'):
                            ctx.bad('%s: failures filtered out' % base(fn), '%s (line %s) passes Result::%s to %s, so failing items are silently left out' % (
                                base(fn), t.get('l'), q.split('::')[-1], last))
            h = fallible(P, f) if 'dyn' not in f else None
            ty = fn.locals[d[0]][0] if not d[1] else None
            if h != 'handle':
                if ty is None or not P.is_result(ty):
                    continue
                if last in PROPAGATE | {'from_residual'} and 'result::Result' in path or path.startswith('anyhow::Context') or path.endswith('FromResidual::from_residual'):
                    continue
                if last == 'or_else' and 'result::Result' in path:
                    continue
            n += 1
            ctx.count('obligations')
            if d[0] == 0 and not d[1]:
                ctx.count('discharged')
                ctx.count('returned as is')
                continue
            fs = fates(P, fn, [(x, 0) for x in cont_points(fn, b)], d[0], h == 'handle')
            bad = None
            for x in fs:
                if x.kind in ('propagated', 'returned', 'handled', 'stored', 'passed'):
                    continue
                if h == 'handle' and (fn.key in closing or base(fn) in HANDLE_OK):
                    continue
                if path in CLEANUP and x.kind == 'discarded':
                    continue
                if path in PREDICATES and (x.kind == 'looked' or x.what in ('is_ok_and', 'is_err', 'is_ok') or x.kind == 'ignored' and not reads_payload(fn, d[0], P)):
                    continue
                if x.what == 'or_else' and or_else_keeps(P, fn, x.line):
                    continue
                if x.kind == 'unknown':
                    ctx.unknown('%s <- %s' % (base(fn), last), x.what)
                    continue
                bad = x
                break
            if bad:
                ctx.violation('%s: %s of %s' % (base(fn), bad.kind, last),
                              '%s (line %s): a failure of %s is %s (%s)' % (base(fn), t.get('l'), last if h != 'handle' else 'the part handle', bad.kind, bad.what))
            else:
                ctx.count('discharged')
                for k in {x.kind for x in fs}:
                    ctx.count('fate: ' + k)
                if len(ctx.samples) < 12:
                    ctx.samples.append('%s: %s -> %s' % (base(fn), last, ','.join(sorted({x.kind for x in fs}))))
    for fn in P.lib.values():
        if fn.key in drops:
            continue
        for line, last in losing_calls(P, fn):
            ctx.bad('%s: failing items left out by %s' % (base(fn), last),
                    '%s (line %s) applies %s to an iterator of results, so failing items are silently left out' % (base(fn), line, last))
        kept = False
        for kind, st, l, line in sources(P, fn):
            ctx.count('obligations')
            ctx.count('results from ' + kind)
            fs = [tested(P, fn, st)] if kind == 'tested' else fates(P, fn, st, l, False)
            bad = [x for x in fs if x.kind not in ('propagated', 'returned', 'handled', 'stored', 'passed', 'unknown')
                   and not (x.what == 'or_else' and or_else_keeps(P, fn, x.line))]
            kept = kept or any(x.kind in ('propagated', 'returned', 'handled') for x in fs)
            if bad:
                x = bad[0]
                ctx.violation('%s: %s of a%s %s' % (base(fn), x.kind, 'n' if kind == 'item' else '', kind),
                              '%s (line %s): a failure arriving as %s is %s (%s)' % (base(fn), x.line or line, {'item': 'an item of an iterator or container', 'parameter': 'a parameter', 'tested': 'an item tested in place'}[kind], x.kind, x.what))
            else:
                ctx.count('discharged')
        for b, t in fn.calls():
            d = t['d']
            if not d[1] and d[0] and not kept and (t['f'].get('path') or '').endswith('::collect'):
                ty = P.types[fn.locals[d[0]][0]]
                if ty.get('name', '').split('::')[-1] in ('Vec', 'VecDeque') and items_fallible(P, fn.locals[d[0]][0]):
                    ctx.bad('%s: collected results never reported' % base(fn),
                            '%s (line %s) collects results into a list and reports none of them' % (base(fn), t.get('l')))
    ctx.need('fallible calls', n, 500)
    ctx.count('functions analysed', len(P.lib))


def or_else_keeps(P, fn, line):
    """Does the closure given to or_else always return an error?"""
    for b, t in fn.calls():
        if t.get('l') != line or 'dyn' in t['f'] or not (t['f'].get('path') or '').endswith('or_else'):
            continue
        for a in t['a']:
            ty = None
            if a[0] in ('c', 'm') and not a[1][1]:
                ty = P.types[fn.locals[a[1][0]][0]]
            elif a[0] == 'k' and isinstance(a[1], int):
                ty = P.types[a[1]]
            if ty and ty['k'] == 'closure' and ty.get('key') in P.fns:
                return not returns_ok_from(P, P.fns[ty['key']], 0, set())
    return False
