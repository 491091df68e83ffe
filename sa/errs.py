"""Error discipline: what happens to every Result (and every handle upgrade) a function obtains."""
from .mir import short

PROPAGATE = {'context', 'with_context', 'map_err', 'map', 'and_then', 'branch', 'from_residual', 'and', 'inspect_err', 'inspect', 'ok_or', 'ok_or_else',
             'into', 'from', 'transpose', 'as_ref', 'as_mut', 'copied', 'cloned', 'expect', 'unwrap', 'as_deref', 'as_deref_mut', 'filter'}
SWALLOW = {'ok', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'or', 'or_else', 'map_or', 'map_or_else', 'is_ok_and', 'is_none_or', 'iter',
           'into_iter', 'err', 'unwrap_err', 'expect_err'}
LOOK = {'is_ok', 'is_err', 'is_some', 'is_none'}


class Fate:
    def __init__(self, kind, line, what=''):
        self.kind, self.line, self.what = kind, line, what


def unused(dc, line, what):
    if 'failing' in dc:
        return Fate('ignored', line, 'failing arm continues')
    if 'looked' in dc or any(isinstance(x, tuple) for x in dc):
        return Fate('looked', line, 'only tested')
    return Fate('discarded', line, what)


def local_of(o):
    if o[0] in ('c', 'm') and not o[1][1]:
        return o[1][0]
    return None


def fallible(P, f):
    """Is this callee a source of failures? Returns 'result', 'handle' or None (by callee)."""
    p = short(f.get('rpath') or f.get('path') or '')
    if p in ('std::rc::Weak::<T, A>::upgrade', 'std::rc::Weak::<T>::upgrade', 'std::sync::Weak::<T, A>::upgrade'):
        return 'handle'
    return None


def cont_points(fn, b):
    """Blocks after b's call returns normally."""
    t = fn.blocks[b].get('t')
    return [t] if t is not None else []


def returns_ok_from(P, fn, start, err_locals):
    """Can control starting at block `start` reach a return whose value is not an error?
    A path is an error path when the last assignment to _0 is an Err aggregate,
    a residual conversion, or a move of one of the error values."""
    rt = P.types[fn.locals[0][0]]
    isres = P.is_result(fn.locals[0][0])
    isopt = P.is_option(fn.locals[0][0])
    if rt['k'] == 'never':
        return False
    # state: last kind of _0: 'u' unset, 'e' error, 'o' other
    seen = set()
    todo = [(start, 'u', frozenset(err_locals))]
    while todo:
        b, s, errs = todo.pop()
        if (b, s, errs) in seen:
            continue
        seen.add((b, s, errs))
        blk = fn.blocks[b]
        for st in blk['s']:
            if st[0] != '=' or st[1][1]:
                continue
            e = classify(P, st[2], errs)
            if st[1][0] == 0:
                s = e
            else:
                # an error built on the way (`let e = Err(..)`, then `e.context(..)`)
                errs = errs | {st[1][0]} if e == 'e' else errs - {st[1][0]} if st[1][0] not in err_locals else errs
        k = blk['k']
        if k == 'return':
            if not isres or s != 'e':
                return True
            continue
        if k == 'call' and not blk['d'][1]:
            p = blk['f'].get('path') or ''
            e = 'o'
            if 'from_residual' in p or blk['a'] and local_of(blk['a'][0]) in errs and p.split('::')[-1] in PROPAGATE:
                e = 'e'
            if blk['d'][0] == 0:
                s = e
            elif blk['d'][0] not in err_locals:
                errs = errs | {blk['d'][0]} if e == 'e' else errs - {blk['d'][0]}
        for x in fn.succs[b]:
            todo.append((x, s, errs))
    return False


def classify(P, rv, err_locals):
    if rv[0] == 'agg' and rv[1] == 'adt' and P.types[rv[2]].get('name', '').endswith('result::Result'):
        return 'e' if rv[3] == 1 else 'o'
    if rv[0] == 'use' and local_of(rv[1]) in err_locals:
        return 'e'
    return 'o'


def ptype(P, fn, p):
    """Type of a place whose last step is a field (or the local itself); None if not known."""
    pr = list(p[1])
    star = 0
    while pr and pr[-1] == '*':
        pr.pop()
        star += 1
    if not pr:
        t = fn.locals[p[0]][0]
    elif isinstance(pr[-1], list) and pr[-1][0] == 'f':
        t = pr[-1][2]
    else:
        return None
    for _ in range(star):
        if P.types[t]['k'] != 'ref':
            return None
        t = P.types[t]['t']
    return t


def sources(P, fn):
    """Results that reach the function other than as the direct result of a call: parameters, payloads taken out of
    another value (such as the items of an iterator), and payloads tested in place."""
    for l in range(1, fn.argc + 1):
        if P.is_result(fn.locals[l][0]):
            yield ('parameter', [(0, 0)], l, fn.line if hasattr(fn, 'line') else None)
    for b, blk in enumerate(fn.blocks):
        for i, st in enumerate(blk['s']):
            if st[0] != '=':
                continue
            pl, rv = st[1], st[2]
            if rv[0] == 'use' and rv[1][0] in ('c', 'm') and rv[1][1][1] and not pl[1] and P.is_result(fn.locals[pl[0]][0]) \
                    and 'Result<!,' not in P.types[fn.locals[pl[0]][0]]['s']:
                yield ('item', [(b, i + 1)], pl[0], st[3] if len(st) > 3 else None)
            if rv[0] == 'discr' and rv[1][1] and rv[1][1] != ['*'] and not pl[1]:
                t = ptype(P, fn, rv[1])
                if t is not None and P.is_result(t) and 'Result<!,' not in P.types[t]['s'] and blk['k'] == 'switch' and local_of(blk['d']) == pl[0]:
                    yield ('tested', b, None, st[3] if len(st) > 3 else None)


def tested(P, fn, b):
    """A payload whose variant is tested in place: may the failing arm still return successfully?"""
    blk = fn.blocks[b]
    tgts = dict((v, t) for v, t in blk['b'])
    bt = tgts.get(1, blk.get('o'))
    if bt is not None and fn.blocks[bt]['k'] != 'unreachable' and returns_ok_from(P, fn, bt, set()):
        return Fate('ignored', blk.get('l'), 'failing arm continues')
    return Fate('handled', blk.get('l'))


def fates(P, fn, starts, local, is_handle):
    """Follow the fallible value held in `local` from the given (block, statement) points."""
    out = []
    bad_variant = 0 if is_handle else 1     # the failing variant
    seen = set()
    # (block, index, local, refs) ; refs: locals holding a reference to it
    todo = [(x, local, frozenset(), frozenset(), i) for x, i in starts]
    while todo:
        b, l, refs, discr, i0 = todo.pop()
        if (b, l, refs, discr, i0) in seen:
            continue
        seen.add((b, l, refs, discr, i0))
        if len(seen) > 4000:
            out.append(Fate('unknown', None, 'too many paths'))
            return out
        blk = fn.blocks[b]
        cur, rf, dc = l, set(refs), set(discr)
        dead = False
        for st in blk['s'][i0:]:
            if st[0] == '=':
                pl, rv = st[1], st[2]
                ops = []
                if rv[0] in ('use',):
                    ops = [rv[1]]
                elif rv[0] == 'agg':
                    ops = rv[4]
                elif rv[0] in ('cast',):
                    ops = [rv[2]] if isinstance(rv[2], list) else []
                if rv[0] == 'ref' or rv[0] == 'addr':
                    p = rv[2]
                    if p[0] == cur and not p[1]:
                        if not pl[1]:
                            rf.add(pl[0])
                        else:
                            out.append(Fate('stored', st[3] if len(st) > 3 else None))
                            dead = True
                        continue
                    if p[0] in rf and p[1] == ['*']:
                        rf.add(pl[0])
                        continue
                    continue
                if rv[0] == 'discr':
                    p = rv[1]
                    if p[0] == cur and not p[1] or p[0] in rf and p[1] == ['*']:
                        dc.add(pl[0])
                    continue
                mv = [o for o in ops if o[0] in ('c', 'm') and o[1][0] == cur]
                rm = [o for o in ops if o[0] in ('c', 'm') and o[1][0] in rf and not o[1][1]]
                if mv:
                    pr = mv[0][1][1]
                    if not pr:
                        if rv[0] == 'use' and not pl[1]:
                            if pl[0] == 0:
                                out.append(Fate('returned', st[3] if len(st) > 3 else None))
                                dead = True
                                break
                            cur = pl[0]
                        else:
                            out.append(Fate('stored', st[3] if len(st) > 3 else None))
                            dead = True
                            break
                    # projections of a payload: the variant was decided by a switch before
                elif rm and not pl[1]:
                    rf.add(pl[0])
            elif st[0] == 'dead' and st[1] == cur:
                out.append(unused(dc, None, 'goes out of scope unused'))
                dead = True
                break
        if dead:
            continue
        k = blk['k']
        if k == 'call':
            args = blk['a']
            name = short(blk['f'].get('rpath') or blk['f'].get('path') or 'dyn').split('::')[-1]
            hit = [i for i, a in enumerate(args) if local_of(a) == cur]
            hitr = [i for i, a in enumerate(args) if local_of(a) in rf]
            if hit:
                if name in SWALLOW and hit[0] == 0:
                    out.append(Fate('swallowed', blk.get('l'), name))
                    continue
                if name in PROPAGATE and not blk['d'][1]:
                    d = blk['d'][0]
                    if name == 'branch' or name in ('unwrap', 'expect'):
                        out.append(Fate('propagated', blk.get('l'), name))
                        continue
                    if d == 0:
                        out.append(Fate('returned', blk.get('l'), name))
                        continue
                    for x in cont_points(fn, b):
                        todo.append((x, d, frozenset(), frozenset(), 0))
                    continue
                if name == 'drop':
                    out.append(unused(dc, blk.get('l'), 'drop()'))
                    continue
                out.append(Fate('passed', blk.get('l'), name))
                continue
            if 'failing' in dc and blk['d'] == [cur, []]:
                out.append(unused(dc, blk.get('l'), 'overwritten'))
                continue
            if hitr and name in LOOK:
                dc.add(('look', blk['d'][0], name))
            elif hitr and name in ('ok', 'unwrap_or', 'map_or'):
                out.append(Fate('swallowed', blk.get('l'), name))
                continue
            elif hitr and name in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut') and not blk['d'][1]:
                # a view of the same value: follow the view
                for x in cont_points(fn, b):
                    todo.append((x, blk['d'][0], frozenset(), frozenset(), 0))
                continue
            for x in cont_points(fn, b):
                todo.append((x, cur, frozenset(rf), frozenset(dc), 0))
            continue
        if k == 'drop':
            p = blk['p']
            if p[0] == cur and not p[1]:
                out.append(unused(dc, blk.get('l'), 'dropped'))
                continue
            todo.append((blk['t'], cur, frozenset(rf), frozenset(dc), 0))
            continue
        if k == 'switch':
            o = blk['d']
            ol = local_of(o)
            if ol is not None and ol in dc:
                tgts = dict((v, t) for v, t in blk['b'])
                bt = tgts.get(bad_variant, blk.get('o'))
                gt = [t for v, t in blk['b'] if v != bad_variant] + ([blk['o']] if blk.get('o') is not None and bad_variant in tgts else [])
                # failing arm
                if bt is not None and fn.blocks[bt]['k'] != 'unreachable':
                    if returns_ok_from(P, fn, bt, {cur}):
                        # the value may still be passed on behind the test
                        todo.append((bt, cur, frozenset(rf), frozenset(dc) | {'looked', 'failing'}, 0))
                    else:
                        out.append(Fate('handled', blk.get('l'), 'failing arm returns an error'))
                else:
                    out.append(Fate('handled', blk.get('l')))
                continue
            lk = [x for x in dc if isinstance(x, tuple) and x[1] == ol]
            if lk:
                fail = 1 if lk[0][2] in ('is_err', 'is_none') else 0
                tgts = dict((v, t) for v, t in blk['b'])
                bt = tgts.get(fail, blk.get('o'))
                if bt is not None and len(lk) == 1 and not returns_ok_from(P, fn, bt, {cur}):
                    # the failing arm never succeeds, in the other one the value is there
                    out.append(Fate('handled', blk.get('l'), 'failing arm returns an error'))
                    continue
                for x in fn.succs[b]:
                    todo.append((x, cur, frozenset(rf), frozenset(dc) | {'looked'}, 0))
                continue
        if k == 'return':
            if cur == 0:
                out.append(Fate('returned', blk.get('l')))
            else:
                out.append(unused(dc, blk.get('l'), 'never used'))
            continue
        for x in fn.succs[b]:
            todo.append((x, cur, frozenset(rf), frozenset(dc), 0))
    return out


ITEMS = ('Attributes', 'Lines', 'ReadDir', 'Bytes', 'Split')
LOSING = {'flatten', 'filter', 'count', 'last', 'skip_while', 'min', 'max', 'nth', 'skip'}


def items_fallible(P, t, depth=0):
    """Does iterating a value of this type yield Results?"""
    if depth > 6 or not isinstance(t, int):
        return False
    d = P.types[t]
    if d['k'] == 'ref':
        return items_fallible(P, d['t'], depth + 1)
    if d['k'] == 'closure' or d['k'] != 'adt':
        return False
    name = d.get('name', '').split('::')[-1]
    args = [a for a in d.get('args', ()) if isinstance(a, int)]
    full = d.get('name', '')
    if name in ITEMS and ('quick_xml' in full or full.startswith('std::') or full.startswith('core::')) and 'str' not in full.split('::'):
        return True
    if name == 'Map' and 'iter' in full and args:
        f = P.types[args[-1]]
        if f['k'] == 'closure' and f.get('key') in P.fns:
            return P.is_result(P.fns[f['key']].locals[0][0])
        return False
    if name in ('Vec', 'IntoIter', 'Iter', 'VecDeque', 'IterMut', 'Drain') and args:
        return any(P.is_result(a) for a in args)
    if 'iter' in full and args:
        return items_fallible(P, args[0], depth + 1)
    return False


def losing_calls(P, fn):
    """Adaptors and consumers that drop items of an iterator of Results."""
    for b, t in fn.calls():
        f = t['f']
        if 'dyn' in f:
            continue
        path = short(f.get('rpath') or f.get('path') or '')
        last = path.split('::')[-1]
        if last not in LOSING or not t['a'] or not ('Iterator' in path or 'iter' in path):
            continue
        a = t['a'][0]
        if a[0] in ('c', 'm') and not a[1][1] and items_fallible(P, fn.locals[a[1][0]][0]):
            yield t.get('l'), last
