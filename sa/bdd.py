"""Reduced ordered binary decision diagrams used as the guard domain of the
value-flow analysis.  Nodes are ints; 0 = false, 1 = true."""
import sys
sys.setrecursionlimit(20000)


class BDD:
    def __init__(self):
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self._ite = {}
        self._res = {}
        self._sup = {0: frozenset(), 1: frozenset()}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def v(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if g == f:
            g = 1
        if h == f:
            h = 0
        k = (f, g, h)
        r = self._ite.get(k)
        if r is not None:
            return r
        var = self.var
        t = var[f]
        if var[g] < t:
            t = var[g]
        if var[h] < t:
            t = var[h]
        f0, f1 = (self.lo[f], self.hi[f]) if var[f] == t else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if var[g] == t else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if var[h] == t else (h, h)
        r = self.mk(t, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self._ite[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def restrict(self, f, c):
        """Coudert-Madre restrict: simplify f using care set c."""
        if c == 1 or f < 2:
            return f
        if c == 0:
            return f
        if f == c:
            return 1
        k = (f, c)
        r = self._res.get(k)
        if r is not None:
            return r
        var = self.var
        vf, vc = var[f], var[c]
        if vc < vf:
            r = self.restrict(f, self.OR(self.lo[c], self.hi[c]))
        elif vf < vc:
            r = self.mk(vf, self.restrict(self.lo[f], c), self.restrict(self.hi[f], c))
        else:
            c0, c1 = self.lo[c], self.hi[c]
            if c0 == 0:
                r = self.restrict(self.hi[f], c1)
            elif c1 == 0:
                r = self.restrict(self.lo[f], c0)
            else:
                r = self.mk(vf, self.restrict(self.lo[f], c0), self.restrict(self.hi[f], c1))
        self._res[k] = r
        return r

    def support(self, f):
        r = self._sup.get(f)
        if r is None:
            r = frozenset((self.var[f],)) | self.support(self.lo[f]) | self.support(self.hi[f])
            self._sup[f] = r
        return r

    def exists(self, f, vs):
        if not vs or not (self.support(f) & vs):
            return f
        memo = {}

        def go(n):
            if n < 2 or not (self.support(n) & vs):
                return n
            r = memo.get(n)
            if r is None:
                a, b = go(self.lo[n]), go(self.hi[n])
                if self.var[n] in vs:
                    r = self.OR(a, b)
                else:
                    r = self.ite(self.v(self.var[n]), b, a)
                memo[n] = r
            return r
        return go(f)

    def forall(self, f, vs):
        return self.NOT(self.exists(self.NOT(f), vs))

    def subst(self, f, m):
        """m: {var: bdd}"""
        ks = frozenset(m)
        if not (self.support(f) & ks):
            return f
        memo = {}

        def go(n):
            if n < 2 or not (self.support(n) & ks):
                return n
            r = memo.get(n)
            if r is None:
                a, b = go(self.lo[n]), go(self.hi[n])
                v = self.var[n]
                c = m.get(v)
                if c is None:
                    c = self.v(v)
                r = self.ite(c, b, a)
                memo[n] = r
            return r
        return go(f)

    def cofactor(self, f, m):
        """m: {var: 0/1}"""
        return self.subst(f, m)

    def paths(self, f, limit=64):
        """Enumerate cubes [(var,bool),...] of f (for messages)."""
        out = []

        def go(n, acc):
            if len(out) >= limit:
                return
            if n == 1:
                out.append(list(acc))
                return
            if n == 0:
                return
            go(self.hi[n], acc + [(self.var[n], True)])
            go(self.lo[n], acc + [(self.var[n], False)])
        go(f, [])
        return out
