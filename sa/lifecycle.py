"""Must-pass-through analysis: on every error-free path to a call, has an event happened before?

Error paths (a block that builds an error result or propagates one with `?`) are cut: what an
operation that failed leaves behind is not judged here.  The analysis follows calls both ways: a call
is an event when its callee cannot return successfully without one, and an obligation that a function
does not meet itself is passed on to every place that calls it."""


class Must:
    def __init__(self, P, is_event, opaque=()):
        self.P = P
        self.opaque = set(opaque)     # functions whose events count for somebody else
        self.is_event = is_event      # key of a function -> bool
        self.memo = {}
        self.dropm = {}
        self.callers = {}
        for fn in P.lib.values():
            for b, t in fn.calls():
                f = t.get('f')
                k = f.get('key') if isinstance(f, dict) else None
                if k in P.lib:
                    self.callers.setdefault(k, []).append((fn, b))
        for fn in P.lib.values():
            for b, blk in enumerate(fn.blocks):
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'closure':
                        k = P.types[s[2][2]].get('key')
                        if k in P.lib:
                            self.callers.setdefault(k, []).append((fn, b))

    def drops(self, ty, seen=()):
        """Does dropping a value of this type run an event?"""
        if ty is None or ty in seen:
            return False
        if ty in self.dropm:
            return self.dropm[ty]
        d = self.P.types[ty]
        r = False
        if d['k'] == 'adt':
            k = d.get('drop')
            if k and (self.is_event(k) or (k in self.P.lib and self.must(self.P.lib[k]))):
                r = True
            elif not d.get('enum'):
                r = any(self.drops(f[1], seen + (ty,)) for v in d.get('v', ()) for f in v['f'])
        self.dropm[ty] = r
        return r

    def event_block(self, fn, b):
        blk = fn.blocks[b]
        if blk['k'] == 'call':
            f = blk.get('f')
            k = f.get('key') if isinstance(f, dict) else None
            if k and (self.is_event(k) or (k in self.P.lib and self.must(self.P.lib[k]))):
                return True
            if isinstance(f, dict) and (f.get('path') or '').endswith('mem::drop') and f.get('args'):
                return isinstance(f['args'][0], int) and self.drops(f['args'][0])
        if blk['k'] == 'drop':
            return self.drops(blk['ty'])
        return False

    def error_block(self, fn, b):
        blk = fn.blocks[b]
        if blk['k'] == 'call' and isinstance(blk.get('f'), dict) and 'FromResidual' in (blk['f'].get('trait') or ''):
            return True
        for s in blk['s']:
            if s[0] == '=' and s[1] == [0, []] and s[2][0] == 'agg' and s[2][1] == 'adt':
                d = self.P.types[s[2][2]]
                if d.get('name', '').endswith('result::Result') and s[2][3] == 1:
                    return True
        return False

    def reach(self, fn, stop):
        """Blocks reachable from the entry without passing an event."""
        seen, todo = set(), [0]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == stop or self.event_block(fn, b) or self.error_block(fn, b):
                continue
            todo.extend(fn.succs[b])
        return seen

    def must(self, fn):
        """No successful return without an event."""
        if fn.key in self.opaque:
            return False
        if fn.key in self.memo:
            return self.memo[fn.key]
        self.memo[fn.key] = False
        seen = self.reach(fn, None)
        r = not any(fn.blocks[b]['k'] == 'return' for b in seen)
        self.memo[fn.key] = r
        return r

    def before(self, fn, b, depth=0):
        """Entry points from which (fn, b) can be reached without an event before it."""
        if b not in self.reach(fn, b):
            return []
        cs = self.callers.get(fn.key, ())
        if (fn.exported and not fn.closure) or not cs or depth > 8:
            return [(fn, b)]
        out = []
        for g, c in cs:
            if g.key != fn.key:
                out += self.before(g, c, depth + 1)
        return out
