"""Reduced ordered BDDs: propositional normal form for control-dependence conditions."""
import sys
sys.setrecursionlimit(1000000)

F, T = 0, 1


class BDD:
    def __init__(self):
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.ite_memo = {}
        self.restrict_memo = {}
        self.supp_memo = {}
        self.nvars = 0

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
        return r

    def new_var(self):
        v = self.nvars
        self.nvars += 1
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.ite_memo.get(k)
        if r is not None:
            return r
        v = min(self.var[f], self.var[g], self.var[h])
        f0, f1 = (self.lo[f], self.hi[f]) if self.var[f] == v else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if self.var[g] == v else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if self.var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.ite_memo[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def not_(self, a):
        return self.ite(a, 0, 1)

    def ands(self, xs):
        r = 1
        for x in xs:
            r = self.and_(r, x)
        return r

    def ors(self, xs):
        r = 0
        for x in xs:
            r = self.or_(r, x)
        return r

    def implies(self, a, b):
        return self.ite(a, b, 1) == 1

    def restrict(self, f, c):
        """simplify f using care set c (result agrees with f wherever c holds)"""
        if c == 1 or f < 2 or c == 0:
            return f
        if f == c:
            return 1
        k = (f, c)
        r = self.restrict_memo.get(k)
        if r is not None:
            return r
        vf, vc = self.var[f], self.var[c]
        if vc < vf:
            r = self.restrict(f, self.or_(self.lo[c], self.hi[c]))
        else:
            c0, c1 = (self.lo[c], self.hi[c]) if vc == vf else (c, c)
            if c0 == 0:
                r = self.restrict(self.hi[f], c1)
            elif c1 == 0:
                r = self.restrict(self.lo[f], c0)
            else:
                r = self.mk(vf, self.restrict(self.lo[f], c0), self.restrict(self.hi[f], c1))
        self.restrict_memo[k] = r
        return r

    def support(self, f):
        r = self.supp_memo.get(f)
        if r is None:
            if f < 2:
                r = frozenset()
            else:
                r = self.support(self.lo[f]) | self.support(self.hi[f]) | {self.var[f]}
            self.supp_memo[f] = r
        return r

    def cofactor(self, f, v, val):
        """f with variable index v set to val"""
        memo = {}

        def go(x):
            if x < 2 or self.var[x] > v:
                return x
            if x in memo:
                return memo[x]
            if self.var[x] == v:
                r = self.hi[x] if val else self.lo[x]
            else:
                r = self.mk(self.var[x], go(self.lo[x]), go(self.hi[x]))
            memo[x] = r
            return r
        return go(f)

    def exists(self, f, v):
        return self.or_(self.cofactor(f, v, 0), self.cofactor(f, v, 1))

    def cubes(self, f, limit=64):
        """list of {var: bool} covering f (for reports)"""
        out = []

        def go(x, acc):
            if len(out) >= limit:
                return
            if x == 0:
                return
            if x == 1:
                out.append(dict(acc))
                return
            v = self.var[x]
            acc[v] = False
            go(self.lo[x], acc)
            acc[v] = True
            go(self.hi[x], acc)
            del acc[v]
        go(f, {})
        return out
