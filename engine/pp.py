"""compact printing with shared subterm names (diagnostics only)"""
import core
from core import *

class PP:
    def __init__(self, limit=70):
        self.names = {}
        self.defs = []
        self.memo = {}
        self.limit = limit

    def s(self, t):
        if isinstance(t, tuple):
            return '(%s)' % ', '.join(self.s(x) for x in t)
        if not isinstance(t, Term):
            return str(t)
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self.raw(t)
        if len(r) > self.limit and t.op not in ('agg', 'list', 'cat', 'b'):
            nm = '$%d' % (len(self.defs) + 1)
            self.defs.append((nm, r))
            r = nm
        self.memo[t] = r
        return r

    def raw(self, t):
        o, a, s = t.op, t.args, self.s
        if o == 'int': return str(a[0])
        if o == 'strc': return json.dumps(a[0])
        if o == 'b': return 'true' if a[0] == 1 else 'false' if a[0] == 0 else '{%s}' % self.g(a[0])
        if o == 'in': return a[0]
        if o == 'field': return '%s.%s' % (s(a[0]), a[1])
        if o == 'agg':
            ty = a[0].split('::')[-1]
            if a[0] == 'tuple': return '(%s)' % ', '.join(s(x) for x in a[3])
            if a[0].startswith('closure'): return '|closure|'
            nm = ty if a[1] in ('', ty) else '%s::%s' % (ty, a[1])
            if a[0] in (OPT, RES, CF): nm = a[1]
            if not a[2]: return nm
            if a[2] == ('0',): return '%s(%s)' % (nm, s(a[3][0]))
            return '%s{%s}' % (nm, ', '.join('%s: %s' % (n, s(x)) for n, x in zip(a[2], a[3])))
        if o == 'phi': return '⟨%s⟩' % ' | '.join('%s ⇒ %s' % (self.g(g), s(l)) for g, l in a[0])
        if o == 'comp':
            if a[1] == 1: return '[%s for %s]' % (s(a[2]), s(a[0]))
            return '[%s for %s if %s]' % (s(a[2]), s(a[0]), self.g(a[1]))
        if o == 'elem': return '%s[*]' % s(a[0])
        if o == 'list': return '[%s]' % ', '.join(s(x) for x in a[0])
        if o == 'cat': return ' ++ '.join(s(x) for x in a[0])
        if o == 'load': return '%s[%s]%s' % (a[0], s(a[1]), '' if a[2] == 0 else "'" + str(a[2]))
        if o == 'forall': return '∀%s:(%s)' % (s(a[0]), self.g(a[1]))
        if o == 'eq': return '%s == %s' % (s(a[0]), s(a[1]))
        if o == 'lt': return '%s < %s' % (s(a[0]), s(a[1]))
        if o == 'is': return '%s is %s' % (s(a[0]), a[1])
        if o == 'true': return s(a[0])
        return '%s(%s)' % (o, ', '.join(s(x) for x in a))

    def g(self, g):
        if g == 1: return 'true'
        if g == 0: return 'false'
        # hide io errors
        for v in list(B_().support(g)):
            if core.W.atom_of[v].op == 'ioerr':
                c = B_().cofactor(g, v, 0)
                g = c
                if g < 2: return 'true' if g else 'false'
        lits, rest = factor(g)
        out = []
        for v, val in lits:
            x = self.s(core.W.atom_of[v])
            out.append(x if val else '¬' + ('(%s)' % x if ' ' in x else x))
        if rest != 1:
            cs = B_().cubes(rest, 6)
            ds = []
            for c in cs:
                ds.append(' & '.join((self.s(core.W.atom_of[v]) if val else '¬(%s)' % self.s(core.W.atom_of[v])) for v, val in c.items()))
            out.append('(%s%s)' % (' | '.join(ds), ' | …' if len(cs) >= 6 else ''))
        return ' & '.join(out)

    def flush(self):
        r = self.defs
        self.defs = []
        self.defs_done = getattr(self, 'defs_done', 0) + len(r)
        return r

def B_(): return core.B
