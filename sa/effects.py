"""Who takes mutable access to a field."""


def writers_of_field(P, ty, name):
    from .pkg import field
    idx = field(P, ty, name)
    out = []
    for fn in P.lib.values():
        hit = None
        for blk in fn.blocks:
            for st in blk['s']:
                if st[0] != '=':
                    continue
                if touches(P, fn, st[1], ty, idx) and st[1][1]:
                    hit = (st[3] if len(st) > 3 else None, 'assignment')
                rv = st[2]
                if rv[0] in ('ref', 'addr') and rv[1] and touches(P, fn, rv[2], ty, idx):
                    hit = hit or (st[3] if len(st) > 3 else None, 'mutable borrow')
                if rv[0] == 'agg' and rv[1] == 'adt' and P.types[rv[2]].get('name', '').endswith('::' + ty):
                    hit = hit or (st[3] if len(st) > 3 else None, 'construction')
        if hit:
            out.append((fn, hit[0], hit[1]))
    return out


def touches(P, fn, place, ty, idx):
    t = fn.locals[place[0]][0]
    for p in place[1]:
        d = P.types[t] if t is not None else None
        if p == '*':
            t = d.get('t') if d and d['k'] in ('ref', 'ptr') else None
            if t is None and d and d['k'] == 'adt' and d.get('args'):
                t = d['args'][0] if isinstance(d['args'][0], int) else None
        elif isinstance(p, list) and p[0] == 'f':
            if d and d['k'] == 'adt' and d.get('name', '').endswith('::' + ty) and p[1] == idx:
                return True
            t = p[2]
        elif isinstance(p, list) and p[0] == 'd':
            pass
        else:
            t = None
    return False
