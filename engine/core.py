"""Guarded value-flow analysis over MIR facts.

Every body is analysed once per calling context.  Values are provenance terms (where does this
value come from: a message field, a storage cell, the element of a collection, ...), merged at
joins as guarded unions; guards are BDDs over branch predicates (control dependence).  Loops and
iterator adaptors are both summarised as comprehensions over "the element of collection C".
Nothing is executed and no solver is called: predicates are uninterpreted atoms.
"""
import json
import os
import re
import sys
import threading
from bdd import BDD

sys.setrecursionlimit(1000000)

# ---------------------------------------------------------------- terms


class Term:
    __slots__ = ('op', 'args', 'id', '_s')

    def __hash__(self):          # independent of memory addresses, so that runs are reproducible
        return self.id

    def __repr__(self):
        return show(self)


class World:
    """term interning + BDD atoms"""

    def __init__(self):
        self.tab = {}
        self.n = 0
        self.bdd = BDD()
        self.atom_of = []      # var index -> atom term
        self.var_of = {}       # atom term -> bdd node
        self.fns = {}          # callee json by id (fn items)
        self.loops = {}        # loop variable -> (value before the loop, value after an iteration, base)
        self.contains_memo = {}
        self.free_memo = {}
        self.functional = []      # bases assumed to be functional
        self.fsupp = {}
        self.members = {}
        self.numeric = set()      # terms shown as decimal numbers
        self.discr = {}        # type id -> {discriminant: variant name}

    def t(self, op, *args):
        k = (op, args)
        r = self.tab.get(k)
        if r is None:
            r = Term()
            r.op = op
            r.args = args
            r.id = self.n
            r._s = None
            self.n += 1
            self.tab[k] = r
        return r

    def atom(self, term):
        r = self.var_of.get(term)
        if r is None:
            r = self.bdd.new_var()
            self.atom_of.append(term)
            self.var_of[term] = r
        return r


W = None          # current world
B = None


def reset():
    global W, B
    W = World()
    B = W.bdd
    return W


def mk(op, *args):
    return W.t(op, *args)


# ---- constructors / simplifiers

def cint(v):
    return mk('int', int(v))


def cstr(s):
    return mk('strc', s)


def cbool(b):
    return mk('b', 1 if b else 0)


def bterm(x):
    return mk('b', x)


def agg(ty, var, names, vals):
    """struct / enum variant / tuple / closure value"""
    names = tuple(names)
    vals = tuple(vals)
    # rebuild of the same value field by field: collapse
    if vals and len(names) == len(vals):
        b0 = None
        ok = True
        for n, v in zip(names, vals):
            fn = fname(n, var if var and ty_is_enum(ty, var) else None)
            if v.op == 'field' and v.args[1] == fn and (b0 is None or v.args[0] is b0):
                b0 = v.args[0]
            else:
                ok = False
                break
        if ok and b0 is not None and (b0.op in ('in', 'load', 'elem', 'field', 'lv')) and ty_known(ty, var, names):
            if not (var and ty_is_enum(ty, var)):
                if TYHINT.get(b0) == ty:
                    return b0
    return mk('agg', ty, var, names, vals)


TYHINT = {}       # term -> adt path (to justify collapsing a rebuilt struct)


def ty_is_enum(ty, var):
    return ty in ENUMS


ENUMS = set()


def ty_known(ty, var, names):
    return True


OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
ENUMS.update([OPT, RES, CF, 'core::option::Option', 'core::result::Result'])


def some(v):
    return mk('agg', OPT, 'Some', ('0',), (v,))


def none():
    return mk('agg', OPT, 'None', (), ())


def ok(v):
    return mk('agg', RES, 'Ok', ('0',), (v,))


def err(v):
    return mk('agg', RES, 'Err', ('0',), (v,))


def tup(*vs):
    return mk('agg', 'tuple', '', tuple(str(i) for i in range(len(vs))), tuple(vs))


def unit():
    return tup()


def is_phi(t):
    return t.op == 'phi'


def alts(t):
    """guarded alternatives [(bdd, leaf)]"""
    if t.op == 'phi':
        return t.args[0]
    return ((1, t),)


MAXALT = 40


def phi(pairs, care=1):
    """pairs: [(bdd, term)] ; guards assumed to cover `care`"""
    m = {}
    order = []
    for g, t in pairs:
        if g == 0:
            continue
        for g2, l in alts(t):
            if l.op == 'bot':
                continue
            gg = B.and_(g, g2)
            if gg == 0:
                continue
            if l not in m:
                m[l] = gg
                order.append(l)
            else:
                m[l] = B.or_(m[l], gg)
    if not order:
        return mk('bot')
    if len(order) == 1:
        return order[0]
    # booleans: one BDD
    if all(l.op == 'b' for l in order):
        r = 0
        tot = 0
        for l in order:
            r = B.or_(r, B.and_(m[l], l.args[0]))
            tot = B.or_(tot, m[l])
        return bterm(B.restrict(r, B.and_(tot, care) or tot))
    # merge aggregates of the same shape field by field
    groups = {}
    for l in order:
        if l.op == 'agg':
            groups.setdefault((l.args[0], l.args[1], l.args[2]), []).append(l)
    merged = []
    done = set()
    for l in order:
        if l in done:
            continue
        if l.op == 'agg':
            g = groups[(l.args[0], l.args[1], l.args[2])]
            if len(g) > 1:
                tot = B.ors([m[x] for x in g])
                vals = []
                for i in range(len(l.args[2])):
                    vals.append(phi([(B.restrict(m[x], tot) if False else m[x], x.args[3][i]) for x in g], tot))
                nl = mk('agg', l.args[0], l.args[1], l.args[2], tuple(vals))
                merged.append((tot, nl))
                done.update(g)
                continue
        merged.append((m[l], l))
        done.add(l)
    if len(merged) == 1:
        return merged[0][1]
    tot = B.ors([g for g, _ in merged])
    c = B.and_(tot, care)
    if c == 0:
        c = tot
    out = {}
    order2 = []
    for g, l in merged:
        g = B.restrict(g, c)
        if g == 0:
            continue
        if l not in out:
            out[l] = g
            order2.append(l)
        else:
            out[l] = B.or_(out[l], g)
    if len(order2) == 1:
        return order2[0]
    if len(order2) > MAXALT:
        return mk('many', tuple(order2[:8]))
    return mk('phi', tuple((out[l], l) for l in order2))


def under(t, care):
    """value t as seen at a point where care holds"""
    if t.op == 'phi':
        ps = []
        for g, l in t.args[0]:
            if B.and_(g, care) != 0:
                ps.append((B.restrict(g, care), l))
        if len(ps) == 1:
            return ps[0][1]
        if len(ps) == len(t.args[0]):
            return t
        if ps:
            return mk('phi', tuple(ps))
    elif t.op == 'b':
        x = t.args[0]
        if x > 1:
            if B.and_(x, care) == 0:
                return bterm(0)
            if B.implies(care, x):
                return bterm(1)
    return t


def fname(n, var):
    return '%s.%s' % (var, n) if var else n


def field(t, n, var=None, tyh=None):
    op = t.op
    if op == 'agg':
        if var and t.args[1] != var and t.args[1] != '':
            return mk('bot')
        if n in t.args[2]:
            return t.args[3][t.args[2].index(n)]
        return mk('field', t, fname(n, var))
    if op == 'phi':
        return phi([(g, field(l, n, var, tyh)) for g, l in t.args[0]])
    if op == 'upd':
        if t.args[1] == fname(n, var):
            return t.args[2]
        return field(t.args[0], n, var)
    if op == 'bot':
        return t
    if op == 'store' and n == 'idx':
        return t.args[2] if len(t.args) > 2 else mk('field', t, n)
    if op == 'nextopt':
        return t.args[1]
    if op == 'ref':
        return t              # Box<T> / NonNull wrappers around a pointer
    if op in ('store', 'midx'):
        return mk('field', t, fname(n, var))
    r = mk('field', t, fname(n, var))
    return r


def elem(c):
    return mk('elem', c)


def comp(c, g, e):
    """[e | elem(c), g]"""
    if g == 1 and e is elem(c):
        return c
    if c.op == 'again' and len(c.args) == 1:
        b = unalias(c)
        if not any(contains(e, x) or (g > 1 and bdd_mentions(g, x)) for x in (elem(b), mk('idxof', b))):
            return comp(b, rename_base(g, c, b), rename_base(e, c, b))
    if c.op == 'list' and not c.args[0]:
        return c
    if c.op == 'list' and 1 < len(c.args[0]) <= 8:
        # a literal list: expand element by element
        el = elem(c)
        parts = []
        for x in c.args[0]:
            g2 = subst(g, el, x) if g > 1 else g
            if g2 == 0:
                continue
            e2 = subst(e, el, x)
            parts.append(lst(e2) if g2 == 1 else mk('comp', lst(x), g2, e2))
        return cat(*parts)
    return mk('comp', c, g, e)


def again(c):
    """a second, independent traversal of collection c"""
    return mk('again', c)


def unalias(c):
    while c.op == 'again':
        c = c.args[0]
    return c


def pick(c, p):
    """some element of c satisfying p (only meaningful where one exists)"""
    return mk('pick', c, bterm(p))


def positions(c):
    """the collection whose positions the range c counts"""
    if c.op == 'agg' and c.args[0].endswith('ops::Range') and len(c.args[3]) == 2:
        lo, hi = c.args[3]
        if lo.op == 'int' and lo.args[0] == 0 and hi.op == 'len':
            return hi.args[0]
    return None


def iterate(c):
    """(base, guard, element value)"""
    if c.op == 'agg':
        x = positions(c)
        if x is not None:
            b, g, e = iterate(x)
            return (b, g, mk('idxof', b if g == 1 else x))
    if c.op == 'again':
        b, g, e = iterate(c.args[0])
        b2 = mk('again', b, *c.args[1:])
        return (b2, subst(g, elem(b), elem(b2)) if g > 1 else g, rename_base(e, b, b2))
    if c.op == 'comp':
        return c.args
    if c.op == 'zip':
        b1, g1, e1 = iterate(c.args[0])
        b2, g2, e2 = iterate(c.args[1])
        if b1 is b2 and g1 == g2:
            return (b1, g1, tup(e1, e2))
        # paired by position: the generic element of the pairing itself
        z = mk('zip', b1 if g1 == 1 else c.args[0], b2 if g2 == 1 else c.args[1])
        x1, x2 = field(elem(z), '0'), field(elem(z), '1')
        return (z, 1, tup(at_position(e1, b1, x1, z) if g1 == 1 else x1, at_position(e2, b2, x2, z) if g2 == 1 else x2))
    if c.op == 'enum':
        b, g, e = iterate(c.args[0])
        return (b, g, tup(mk('idxof', b if g == 1 else c.args[0]), e))
    if c.op == 'mapof':      # map built from a collection of pairs
        return iterate(c.args[0])
    if c.op == 'setof':
        return iterate(c.args[0])
    if c.op == 'list':
        xs = c.args[0]
        if len(xs) == 1:
            return (c, 1, xs[0])
    if c.op == 'elemw':
        b, g, e = iterate(c.args[0])
        return (b, g, c.args[1])
    return (c, 1, elem(c))


def at_position(e, b, x, z):
    return subst(subst(e, elem(b), x), mk('idxof', b), mk('idxof', z))


def backwards(c):
    """c in reverse order"""
    if c.op == 'list':
        return mk('list', tuple(reversed(c.args[0])))
    if c.op == 'phi':
        return phi([(g, backwards(l)) for g, l in c.args[0]])
    b, g, e = iterate(c)
    if b.op == 'again' and b.args[1:] == ('rev',):
        b2 = b.args[0]
    else:
        b2 = mk('again', b, 'rev')
    return comp(b2, subst(g, elem(b), elem(b2)) if g > 1 else g, rename_base(e, b, b2))


def cat(*cs):
    parts = []
    for c in cs:
        if c.op == 'cat':
            parts.extend(c.args[0])
        elif c.op == 'list' and len(c.args[0]) == 0:
            continue
        else:
            parts.append(c)
    out = []
    for p in parts:
        if p.op == 'list' and out and out[-1].op == 'list':
            out[-1] = mk('list', out[-1].args[0] + p.args[0])
        else:
            out.append(p)
    if not out:
        return mk('list', ())
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


def lst(*xs):
    return mk('list', tuple(xs))


# ---- predicates (return bdd)

def atom(op, *args):
    return W.atom(mk(op, *args))


def strip_const(t):
    return t


def is_const(t):
    return t.op in ('int', 'strc', 'bytes')


def truth(t):
    if t.op == 'b':
        return t.args[0]
    if t.op == 'phi':
        return B.ors([B.and_(g, truth(l)) for g, l in t.args[0]])
    if t.op == 'int':
        return 1 if t.args[0] else 0
    if t.op == 'bot':
        return 0
    if t.op == 'looptest':
        return t.args[1].args[0]
    return atom('true', t)


def variant(t, v, ty=None):
    """bdd: value t is variant v"""
    if t.op == 'agg':
        return 1 if t.args[1] == v else 0
    if t.op == 'phi':
        return B.ors([B.and_(g, variant(l, v, ty)) for g, l in t.args[0]])
    if t.op == 'bot':
        return 0
    if t.op == 'cmp':
        a, b = t.args
        if v == 'Less':
            return lt(a, b)
        if v == 'Greater':
            return lt(b, a)
        return eq(a, b)
    if t.op == 'upd':
        return variant(t.args[0], v, ty)
    if v == 'None':
        return B.not_(atom('is', t, 'Some'))
    if v == 'Err':
        return B.not_(atom('is', t, 'Ok'))
    if v == 'Break':
        return B.not_(atom('is', t, 'Continue'))
    rep = None if v in ('Some', 'Ok', 'Continue') else two_variants(v, ty)
    if rep is not None and rep != v:
        return B.not_(atom('is', t, rep))
    return atom('is', t, v)


VARIANTS = {}      # enum path -> variant names
VNAMES = {}        # variant name -> set of variant tuples it occurs in


def note_enum(path, names):
    names = tuple(names)
    if VARIANTS.get(path) != names:
        VARIANTS[path] = names
        for n in names:
            VNAMES.setdefault(n, set()).add(names)


def two_variants(v, ty):
    """for a variant of an enum with exactly two: the one whose predicate stands for both"""
    if isinstance(ty, (tuple, list)):
        vs = tuple(ty)
    elif ty in VARIANTS:
        vs = VARIANTS[ty]
    else:
        s = VNAMES.get(v, ())
        vs = next(iter(s)) if len(s) == 1 else ()
    if len(vs) != 2 or v not in vs:
        return None
    return vs[0]


def eq(a, b):
    if a is b:
        return 1
    if a.op == 'bot' or b.op == 'bot':
        return 0
    if a.op == 'discr' and b.op == 'int':
        return discr_is(a, b.args[0])
    if b.op == 'discr' and a.op == 'int':
        return discr_is(b, a.args[0])
    if a.op == 'b' and b.op == 'b':
        return B.not_(B.ite(a.args[0], B.not_(b.args[0]), b.args[0]))
    if a.op == 'b':
        return B.ite(a.args[0], truth(b), B.not_(truth(b)))
    if b.op == 'b':
        return eq(b, a)
    if a.op == 'phi':
        return B.ors([B.and_(g, eq(l, b)) for g, l in a.args[0]])
    if b.op == 'phi':
        return eq(b, a)
    if is_const(a) and is_const(b):
        if a.op == b.op:
            return 1 if a.args == b.args else 0
    if a.op == 'agg' and b.op == 'agg':
        if a.args[0] == b.args[0] or a.args[0] in (OPT, RES):
            if a.args[1] != b.args[1]:
                return 0
            if a.args[2] == b.args[2]:
                return B.ands([eq(x, y) for x, y in zip(a.args[3], b.args[3])])
    for x, y in ((a, b), (b, a)):
        if x.op == 'agg' and len(x.args[2]) == 0 and x.args[1] and x.args[0] in ENUMS:
            return variant(y, x.args[1], x.args[0])
        if x.op == 'agg' and x.args[1] and x.args[0] in ENUMS and y.op != 'agg':
            return B.ands([variant(y, x.args[1], x.args[0])] +
                          [eq(v, field(y, n, x.args[1])) for n, v in zip(x.args[2], x.args[3])])
        if x.op == 'agg' and x.args[0] == OPT and x.args[1] == 'Some':
            return B.and_(variant(y, 'Some'), eq(x.args[3][0], field(y, '0', 'Some')))
        if x.op == 'int' and x.args[0] == 0 and y.op == 'len':
            return empty(y.args[0])
        if x.op == 'list' and len(x.args[0]) == 0:
            return empty(y)
    if a.id > b.id:
        a, b = b, a
    return atom('eq', a, b)


def discr_is(d, n):
    dm = W.discr.get(d.args[1], {})
    nm = dm.get(str(n))
    if nm is None:
        return atom('is', d.args[0], 'd%s' % n)
    return variant(d.args[0], nm, list(dm.values()))


def lt(a, b):
    if a is b:
        return 0
    if a.op == 'bot' or b.op == 'bot':
        return 0
    if a.op == 'phi':
        return B.ors([B.and_(g, lt(l, b)) for g, l in a.args[0]])
    if b.op == 'phi':
        return B.ors([B.and_(g, lt(a, l)) for g, l in b.args[0]])
    if a.op == 'int' and b.op == 'int':
        return 1 if a.args[0] < b.args[0] else 0
    # newtypes compare as what they wrap
    if a.op == 'agg' and len(a.args[3]) == 1 and a.args[2] == ('0',) and not a.args[1]:
        return lt(a.args[3][0], field(b, '0'))
    if b.op == 'agg' and len(b.args[3]) == 1 and b.args[2] == ('0',) and not b.args[1]:
        return lt(field(a, '0'), b.args[3][0])
    if a.op == 'int' and a.args[0] == 0 and b.op == 'len':
        return B.not_(empty(b.args[0]))
    if a.op == 'idxof' and b.op == 'len' and len(a.args) == 1 and same_base(a.args[0], b.args[0]):
        return 1
    if b.op == 'int' and b.args[0] == 1 and a.op == 'len':
        return empty(a.args[0])
    return lin_lt(a, b)


def linear(t, sign, acc):
    """accumulate coefficients of an unsigned sum/difference"""
    if t.op in ('add', 'satadd'):
        linear(t.args[0], sign, acc)
        linear(t.args[1], sign, acc)
    elif t.op == 'sub':
        linear(t.args[0], sign, acc)
        linear(t.args[1], -sign, acc)
    elif t.op == 'int':
        acc[None] = acc.get(None, 0) + sign * t.args[0]
    else:
        acc[t] = acc.get(t, 0) + sign
    return acc


def lin_lt(a, b):
    """a < b over unsigned integers whose subtractions did not underflow: move everything to positive sums"""
    if a.op not in ('add', 'sub', 'satadd') and b.op not in ('add', 'sub', 'satadd') and a.op != 'int' and b.op != 'int':
        return atom('lt', a, b)
    acc = linear(b, 1, {})
    linear(a, -1, acc)
    k = acc.pop(None, 0)
    pos = sum_of([(t, n) for t, n in acc.items() if n > 0])
    neg = sum_of([(t, -n) for t, n in acc.items() if n < 0])
    # neg < pos + k
    if pos is None and neg is None:
        return 1 if k > 0 else 0
    if neg is None:
        if k > 0:
            return 1
        if k == 0:
            return B.not_(eq(pos, cint(0)))
        return atom('lt', cint(-k), pos)
    if pos is None:
        if k <= 0:
            return 0
        if k == 1:
            return eq(neg, cint(0))
        return atom('lt', neg, cint(k))
    if k == 0:
        return atom('lt', neg, pos)
    if k == 1:
        return B.not_(atom('lt', pos, neg))
    if k > 0:
        return atom('lt', neg, arith('add', pos, cint(k)))
    return atom('lt', arith('add', neg, cint(-k)), pos)


def sum_of(l):
    r = None
    for t, n in sorted(l, key=lambda x: x[0].id):
        x = t if n == 1 else arith('mul', cint(n), t)
        r = x if r is None else arith('add', r, x)
    return r


def empty(c):
    if c.op == 'list':
        return 1 if len(c.args[0]) == 0 else 0
    if c.op == 'cat':
        return B.ands([empty(x) for x in c.args[0]])
    if c.op == 'phi':
        return B.ors([B.and_(g, empty(l)) for g, l in c.args[0]])
    if c.op == 'comp':
        if c.args[1] != 1:
            return forall(c.args[0], B.not_(c.args[1]))
        return empty(c.args[0])
    if c.op in ('enum', 'mapof', 'setof', 'sorted', 'again'):
        return empty(c.args[0])
    if c.op == 'strc':
        return 1 if c.args[0] == '' else 0
    return atom('empty', c)


def rename_base(t, b, b2):
    """t over the generic element of b, rewritten over the generic element of b2"""
    if isinstance(t, Term):
        return subst(subst(t, elem(b), elem(b2)), mk('idxof', b), mk('idxof', b2))
    if t < 2:
        return t
    return subst(subst(t, elem(b), elem(b2)), mk('idxof', b), mk('idxof', b2))


def forall(c, p):
    """bdd: for every element of c, p (p over elem(c))"""
    if p == 1:
        return 1
    if c.op == 'again':
        b = unalias(c)
        if not bdd_mentions(p, elem(b)) and not bdd_mentions(p, mk('idxof', b)):
            return forall(b, rename_base(p, c, b))
    if c.op == 'list' and 1 < len(c.args[0]) <= 8 and p > 1:
        return B.ands([subst(p, elem(c), x) for x in c.args[0]])
    # factor out what does not depend on the element
    if p > 1 and not bdd_mentions(p, elem(c)) and not bdd_mentions(p, mk('idxof', c)):
        return B.or_(p, empty(c))
    if c.op == 'list' and len(c.args[0]) <= 1:
        return 1 if not c.args[0] else p
    if p == 0:
        return empty(c)
    return atom('forall', c, p)


def same_base(a, b):
    b0, g, _ = iterate(b)
    return b0 is a and g == 1 or a is b


def length(c):
    if positions(c) is not None:
        return c.args[3][1]
    if c.op == 'list':
        return cint(len(c.args[0]))
    if c.op == 'comp' and c.args[1] == 1:
        return length(c.args[0])
    if c.op in ('enum', 'sorted', 'again'):
        return length(c.args[0])
    if c.op == 'phi':
        return phi([(g, length(l)) for g, l in c.args[0]])
    if c.op == 'bytes':
        return cint(len(c.args[0]))
    return mk('len', c)


def arith(op, a, b):
    if a.op == 'int' and b.op == 'int':
        x, y = a.args[0], b.args[0]
        try:
            if op == 'add':
                return cint(x + y)
            if op == 'sub':
                return cint(x - y)
            if op == 'mul':
                return cint(x * y)
            if op == 'div' and y:
                return cint(x // y)
        except Exception:
            pass
    if op in ('add', 'mul', 'bitor', 'bitand', 'bitxor', 'max', 'min') and a.id > b.id:
        a, b = b, a
    if op == 'add':
        for x, y in ((a, b), (b, a)):
            if x.op == 'int' and x.args[0] == 0:
                return y
        if a.op == 'add' or b.op == 'add':
            k = 0
            l = []
            st = [a, b]
            while st:
                x = st.pop()
                if x.op == 'add':
                    st.extend(x.args)
                elif x.op == 'int':
                    k += x.args[0]
                else:
                    l.append(x)
            l.sort(key=lambda x: x.id)
            if k:
                l.insert(0, cint(k))
            r = l[0]
            for x in l[1:]:
                r = mk('add', r, x)
            return r
    if op == 'sub' and b.op == 'int' and b.args[0] == 0:
        return a
    if op == 'mul':
        for x, y in ((a, b), (b, a)):
            if x.op == 'int' and x.args[0] == 1:
                return y
    return mk(op, a, b)


# ---- traversal

def subterms(t, seen=None):
    """all subterms, including those inside guards of phi / comp / forall"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                for g, l in x.args[0]:
                    st.append(l)
                    st.extend(W.atom_of[v] for v in B.support(g))
            elif x.op == 'comp':
                st.append(x.args[0])
                st.append(x.args[2])
                st.extend(W.atom_of[v] for v in B.support(x.args[1]))
            elif x.op == 'forall':
                st.append(x.args[0])
                st.extend(W.atom_of[v] for v in B.support(x.args[1]))
            elif x.op == 'b':
                st.extend(W.atom_of[v] for v in B.support(x.args[0]))
            else:
                st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def contains(t, x):
    k = t
    s = W.contains_memo.get(k)
    if s is None:
        s = frozenset(y.id for y in subterms(t))
        W.contains_memo[k] = s
    return x.id in s


def free_in(t, el):
    """el occurs in t outside the binders of its own collection"""
    k = (t, el)
    r = W.free_memo.get(k)
    if r is None:
        r = contains(t, el) and subst(t, el, mk('in', '?')) is not t
        W.free_memo[k] = r
    return r


def bdd_mentions(g, x):
    for v in B.support(g):
        if contains(W.atom_of[v], x):
            return True
    return False


def leaves(t):
    """value leaves without guards (data dependencies only)"""
    seen = set()
    st = [t]
    out = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        out.add(x)
        if x.op == 'phi':
            st.extend(l for _, l in x.args[0])
        elif x.op == 'comp':
            st.append(x.args[0])
            st.append(x.args[2])
        elif x.op == 'forall':
            st.append(x.args[0])
        elif x.op == 'b':
            pass
        else:
            st.extend(x.args)
    return out


# ---- substitution of one term by another (data and guards)

BINDERS = ('comp', 'pick')


def rebind(x, go, gsub):
    """substitute inside a comprehension whose base may change too"""
    b = x.args[0]
    nb = go(b)
    g, e = gsub(x.args[1]), go(x.args[2])
    if nb is not b:
        g = rename_base(g, b, nb)
        e = rename_base(e, b, nb)
    return comp(nb, g, e)


def subst(t, old, new, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        if x is old:
            return new
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in memo:
            return memo[x]
        if not contains(x, old):
            memo[x] = x
            return x
        if x.op == 'phi':
            r = phi([(gsub(g), go(l)) for g, l in x.args[0]])
        elif x.op == 'b':
            r = bterm(gsub(x.args[0]))
        elif x.op in BINDERS and old.op in ('elem', 'idxof') and old.args[0] is x.args[0]:
            # the element is bound here
            nb = go(x.args[0])
            if nb is x.args[0]:
                r = x
            elif x.op == 'comp':
                r = comp(nb, x.args[1], x.args[2])
            else:
                r = mk(x.op, nb, *x.args[1:])
        elif x.op == 'comp':
            r = rebind(x, go, gsub)
        elif x.op == 'agg':
            r = mk('agg', x.args[0], x.args[1], x.args[2], tuple(go(y) for y in x.args[3]))
        elif x.op == 'field':
            nm = x.args[1]
            if '.' in nm:
                v, n = nm.split('.', 1)
            else:
                v, n = None, nm
            r = field(go(x.args[0]), n, v)
        else:
            r = mk(x.op, *[go(y) for y in x.args])
        memo[x] = r
        return r

    def atomsub(a):
        if a.op == 'eq':
            return eq(go(a.args[0]), go(a.args[1]))
        if a.op == 'lt':
            return lt(go(a.args[0]), go(a.args[1]))
        if a.op == 'is':
            return variant(go(a.args[0]), a.args[1])
        if a.op == 'true':
            return truth(go(a.args[0]))
        if a.op == 'empty':
            return empty(go(a.args[0]))
        if a.op == 'forall':
            if old.op in ('elem', 'idxof') and old.args[0] is a.args[0]:
                nb = go(a.args[0])
                return W.var_of[a] if nb is a.args[0] else forall(nb, a.args[1])
            nb = go(a.args[0])
            p = gsub(a.args[1])
            if nb is not a.args[0]:
                p = rename_base(p, a.args[0], nb)
            return forall(nb, p)
        return W.atom(mk(a.op, *[go(y) for y in a.args]))
    gm = {}

    def gsub(g):
        if g < 2:
            return g
        if g in gm:
            return gm[g]
        a = W.atom_of[B.var[g]]
        lo, hi = gsub(B.lo[g]), gsub(B.hi[g])
        c = atomsub(a) if contains(a, old) else W.var_of[a]
        r = B.ite(c, hi, lo)
        gm[g] = r
        return r
    return go(t) if isinstance(t, Term) else gsub(t)


# ---- specialisation: rewrite a term (data and guards) under known facts

def assume(t, care):
    """t with every predicate decided by care replaced by its value, everywhere inside"""
    lits, _ = factor(care)
    facts = {W.atom_of[v]: val for v, val in lits}
    return assume_facts(t, facts, {})


def assume_facts(t, facts, memos):
    key = frozenset(a.id for a in facts)
    memo, gm = memos.setdefault(key, ({}, {}))

    def inside(el):
        f2 = {a: v for a, v in facts.items() if not contains(a, el)}
        return f2 if len(f2) != len(facts) else None

    def sub(x, f2):
        return assume_facts(x, f2, memos) if f2 is not None else (go(x) if isinstance(x, Term) else gsub(x))

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'phi':
            r = phi([(gsub(g), go(l)) for g, l in x.args[0]])
        elif x.op == 'b':
            r = bterm(gsub(x.args[0]))
        elif x.op == 'comp':
            b = x.args[0]
            nb = go(b)
            f2 = inside(elem(b))
            g, e = x.args[1], x.args[2]
            g = sub(g, f2) if g > 1 else g
            e = sub(e, f2)
            if nb is not b:
                g = rename_base(g, b, nb) if g > 1 else g
                e = rename_base(e, b, nb)
            r = comp(nb, g, e)
        elif x.op == 'pick':
            b = x.args[0]
            nb = go(b)
            p = x.args[1].args[0]
            p = sub(p, inside(elem(b))) if p > 1 else p
            if nb is not b and p > 1:
                p = rename_base(p, b, nb)
            r = pick(nb, p)
        elif x.op == 'agg':
            r = mk('agg', x.args[0], x.args[1], x.args[2], tuple(go(y) for y in x.args[3]))
        elif x.op == 'field':
            nm = x.args[1]
            v, n = nm.split('.', 1) if '.' in nm else (None, nm)
            r = field(go(x.args[0]), n, v)
        else:
            r = mk(x.op, *[go(y) for y in x.args])
        memo[x] = r
        return r

    def atomsub(a):
        if a in facts:
            return 1 if facts[a] else 0
        if a.op == 'eq':
            return eq(go(a.args[0]), go(a.args[1]))
        if a.op == 'lt':
            return lt(go(a.args[0]), go(a.args[1]))
        if a.op == 'is':
            return variant(go(a.args[0]), a.args[1])
        if a.op == 'true':
            return truth(go(a.args[0]))
        if a.op == 'empty':
            return empty(go(a.args[0]))
        if a.op == 'forall':
            b = a.args[0]
            nb = go(b)
            p = sub(a.args[1], inside(elem(b)))
            if nb is not b and p > 1:
                p = rename_base(p, b, nb)
            return forall(nb, p)
        return W.atom(mk(a.op, *[go(y) for y in a.args]))

    def gsub(g):
        if g < 2:
            return g
        r = gm.get(g)
        if r is None:
            c = atomsub(W.atom_of[B.var[g]])
            r = B.ite(c, gsub(B.hi[g]), gsub(B.lo[g]))
            # what was rewritten may itself be decided
            gm[g] = r
        return r
    return go(t) if isinstance(t, Term) else gsub(t)


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if isinstance(t, Term):
        if d > 14:
            return '…'
        o = t.op
        a = t.args
        if o == 'int':
            return str(a[0])
        if o == 'strc':
            return json.dumps(a[0])
        if o == 'b':
            return 'true' if a[0] == 1 else 'false' if a[0] == 0 else '{%s}' % showb(a[0], d + 1)
        if o == 'in':
            return a[0]
        if o == 'field':
            return '%s.%s' % (show(a[0], d + 1), a[1])
        if o == 'agg':
            ty = a[0].split('::')[-1]
            if a[0] == 'tuple':
                return '(%s)' % ', '.join(show(x, d + 1) for x in a[3])
            if a[0].startswith('closure'):
                return '|closure|'
            nm = ty if a[1] in ('', ty) else '%s::%s' % (ty, a[1])
            if a[0] in (OPT, RES, CF):
                nm = a[1]
            if not a[2]:
                return nm
            if a[2] == ('0',):
                return '%s(%s)' % (nm, show(a[3][0], d + 1))
            return '%s{%s}' % (nm, ', '.join('%s: %s' % (n, show(x, d + 1)) for n, x in zip(a[2], a[3])))
        if o == 'phi':
            return '⟨%s⟩' % ' | '.join('%s ⇒ %s' % (showb(g, d + 1), show(l, d + 1)) for g, l in a[0])
        if o == 'comp':
            if a[1] == 1:
                return '[%s for %s]' % (show(a[2], d + 1), show(a[0], d + 1))
            return '[%s for %s if %s]' % (show(a[2], d + 1), show(a[0], d + 1), showb(a[1], d + 1))
        if o == 'elem':
            return '%s[*]' % show(a[0], d + 1)
        if o == 'list':
            return '[%s]' % ', '.join(show(x, d + 1) for x in a[0])
        if o == 'cat':
            return ' ++ '.join(show(x, d + 1) for x in a[0])
        if o == 'load':
            return '%s[%s]%s' % (a[0], show(a[1], d + 1), '' if a[2] == 0 else "'" + str(a[2]))
        if o == 'forall':
            return '∀%s:(%s)' % (show(a[0], d + 1), showb(a[1], d + 1))
        if o == 'eq':
            return '%s == %s' % (show(a[0], d + 1), show(a[1], d + 1))
        if o == 'lt':
            return '%s < %s' % (show(a[0], d + 1), show(a[1], d + 1))
        if o == 'is':
            return '%s is %s' % (show(a[0], d + 1), a[1])
        if o == 'true':
            return show(a[0], d + 1)
        return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))
    if isinstance(t, tuple):
        return '(%s)' % ', '.join(show(x, d + 1) for x in t)
    return str(t)


def showb(g, d=0):
    if g == 1:
        return 'true'
    if g == 0:
        return 'false'
    if d > 12:
        return '…'
    # common literals first
    lits, rest = factor(g)
    s = []
    for v, val in lits:
        a = show(W.atom_of[v], d + 1)
        s.append(a if val else '¬(%s)' % a)
    if rest != 1:
        cs = B.cubes(rest, 6)
        ds = []
        for c in cs:
            ds.append(' & '.join((show(W.atom_of[v], d + 1) if val else '¬(%s)' % show(W.atom_of[v], d + 1)) for v, val in c.items()))
        s.append('(%s%s)' % (' | '.join(ds), ' | …' if len(cs) >= 6 else ''))
    return ' & '.join(s)


def factor(g):
    """literals implied by g, and the remainder"""
    lits = []
    for v in sorted(B.support(g)):
        if B.cofactor(g, v, 0) == 0:
            lits.append((v, True))
        elif B.cofactor(g, v, 1) == 0:
            lits.append((v, False))
    r = g
    for v, val in lits:
        r = B.cofactor(r, v, val)
    return lits, r


def members_of(a):
    """terms occurring in atom a that denote members of a collection: {base: [member terms]}"""
    k = a
    memo = W.members
    r = memo.get(k)
    if r is None:
        r = {}
        for x in subterms(a):
            if isinstance(x, Term):
                if x.op == 'elem':
                    r.setdefault(unalias(x.args[0]), []).append(x)
                elif x.op in ('pick', 'first', 'last'):
                    r.setdefault(unalias(x.args[0]), []).append(x)
        memo[k] = r
    return r


def close(g, skolem=False):
    """g plus what its quantified atoms, witnesses and enum atoms say"""
    done = set()
    changed = True
    rounds = 0
    while changed and rounds < 12:
        rounds += 1
        changed = False
        sup = sorted(B.support(g))
        mem = {}
        for v in sup:
            for b, xs in members_of(W.atom_of[v]).items():
                l = mem.setdefault(b, [])
                for x in xs:
                    if x not in l:
                        l.append(x)
        if skolem:
            fs = [v for v in sup if W.atom_of[v].op == 'forall']
            for v in fs:
                a = W.atom_of[v]
                if ('s', v) in done:
                    continue
                done.add(('s', v))
                na = B.not_(W.var_of[a])
                if B.and_(g, na) == 0:
                    continue
                base = a.args[0]
                w = pick(base, B.not_(a.args[1]))
                n = B.and_(g, B.ite(na, B.and_(B.not_(subst(a.args[1], elem(base), w)), B.not_(empty(base))), 1))
                mem.setdefault(unalias(base), [])
                if w not in mem[unalias(base)]:
                    mem[unalias(base)].append(w)
                if n != g:
                    g = n
                    changed = True
        for v in sup:
            a = W.atom_of[v]
            if a.op == 'forall':
                base = a.args[0]
                el = elem(base)
                cand = [el] + [x for x in mem.get(unalias(base), []) if x is not el]
                for x in cand[:12]:
                    if (v, x) in done:
                        continue
                    done.add((v, x))
                    # a nested quantifier mentions its own element: not an instance here
                    if x is not el and free_in(x, el):
                        continue
                    p = a.args[1] if x is el else subst(a.args[1], el, x)
                    n = B.and_(g, B.ite(W.var_of[a], p, 1))
                    if n != g:
                        g = n
                        changed = True
        for b, xs in mem.items():
            for x in xs:
                if x.op == 'pick' and ('p', x) not in done:
                    done.add(('p', x))
                    p = x.args[1].args[0]
                    base = x.args[0]
                    ex = B.not_(forall(base, B.not_(p)))
                    n = B.and_(g, B.ite(ex, subst(p, elem(base), x), 1))
                    if n != g:
                        g = n
                        changed = True
        # collections assumed to be functions from their first component to their second
        for fb in W.functional:
            ms = mem.get(fb, [])
            keys = [(x, field(x, '0')) for x in ms]
            keyed = {}
            for v in sup:
                a = W.atom_of[v]
                if a.op == 'eq':
                    for p, q in (a.args, a.args[::-1]):
                        for x, kx in keys:
                            if kx is p:
                                keyed.setdefault(q, []).append((x, v))
            for k, l in keyed.items():
                for i in range(len(l)):
                    for j in range(i):
                        (x, vx), (y, vy) = l[i], l[j]
                        if x is y:
                            continue
                        t1, t2 = truth(field(x, '1')), truth(field(y, '1'))
                        both = B.and_(W.var_of[W.atom_of[vx]], W.var_of[W.atom_of[vy]])
                        n = B.and_(g, B.ite(both, B.ite(t1, t2, B.not_(t2)), 1))
                        if n != g:
                            g = n
                            changed = True
        # order: not both a < b and b < a; neither together with a = b; trichotomy where all three occur
        pairs = {}
        for v in sorted(B.support(g)):
            a = W.atom_of[v]
            if a.op in ('lt', 'eq'):
                k = frozenset(a.args)
                pairs.setdefault(k, []).append((a, v))
        for k, l in pairs.items():
            if len(l) > 1 and ('o', k, len(l)) not in done:
                done.add(('o', k, len(l)))
                ax = 1
                for i in range(len(l)):
                    for j in range(i):
                        ax = B.and_(ax, B.not_(B.and_(W.var_of[l[i][0]], W.var_of[l[j][0]])))
                if len(l) == 3:
                    ax = B.and_(ax, B.ors([W.var_of[a] for a, v in l]))
                n = B.and_(g, ax)
                if n != g:
                    g = n
                    changed = True
        # enum exclusivity
        groups = {}
        for v in sorted(B.support(g)):
            a = W.atom_of[v]
            if a.op == 'is' and a.args[1] not in ('Some', 'Ok', 'Continue'):
                groups.setdefault(a.args[0], []).append(W.var_of[a])
        for k, vs in groups.items():
            if len(vs) > 1:
                ax = 1
                for i in range(len(vs)):
                    for j in range(i):
                        ax = B.and_(ax, B.not_(B.and_(vs[i], vs[j])))
                n = B.and_(g, ax)
                if n != g:
                    g = n
                    changed = True
    return g
