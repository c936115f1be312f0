"""Rule vocabulary: obligations over the guarded value-flow facts of one or more contracts.

A rule never executes anything and never enumerates paths.  It asks, for a construct found in the
source (a storage write, an outgoing message, a successful return), whether the condition under
which the construct is reached *contains* a required condition (BDD implication between control
dependence conditions, with uninterpreted atoms), or whether a value placed there has the required
provenance.
"""
import os
import sys
import core
import interp
import api
import models
from core import (mk, cint, cstr, cbool, bterm, agg, some, none, ok, tup, unit, phi, alts, under, field, fname,
                  elem, comp, again, unalias, iterate, cat, lst, truth, variant, eq, lt, empty, forall, length,
                  subterms, contains, leaves, subst, close, show, showb, Term, OPT, RES)

CRATES = ['aggregate_verifier', 'batching', 'connection_router', 'gateway', 'multisig', 'multisig_prover',
          'nexus_gateway', 'rewards', 'service_registry', 'voting_verifier', 'axelar_wasm_std',
          'connection_router_api', 'gateway_api', 'report']


class Missing(Exception):
    """an anchor of the rule is not in the analysed tree"""


def B():
    return core.B


def And(*a):
    return core.B.ands(list(a))


def Or(*a):
    return core.B.ors(list(a))


def Not(a):
    return core.B.not_(a)


def inp(s):
    return mk('in', s)


def F(t, *names):
    """nested field; 'Variant.f' selects an enum payload"""
    for n in names:
        if '.' in n:
            v, f = n.split('.', 1)
            t = field(t, f, v)
        else:
            t = field(t, n)
    return t


def ld(ns, key=None):
    return mk('load', ns, key if key is not None else unit(), 0)


def has(ns, key=None):
    return core.atom('has', mk('cell', ns, key if key is not None else unit(), 0))


def addr(x):
    return mk('addr', x)


SENDER = None


def sender():
    return F(inp('info'), 'sender')


def funds():
    return F(inp('info'), 'funds')


def height():
    return F(inp('env'), 'block', 'height')


def now():
    return F(inp('env'), 'block', 'time')


class Eff:
    """one storage effect on a successful execution"""

    def __init__(self, R, e):
        self.R = R
        self.kind = e['kind']
        self.ns = e.get('ns')
        self.key = e.get('key')
        self.val = e.get('val')
        self.local = e['guard']
        self.fn = e['fn']
        self.span = e['span']
        self.loops = tuple(e['loops'])
        self.e = e
        self._g = None

    @property
    def guard(self):
        if self._g is None:
            self._g = close(core.B.and_(self.local, self.R.okg))
        return self._g

    def site(self):
        return '%s %s in %s' % (self.kind, self.ns, short(self.fn))

    def loc(self):
        return '%s (%s)' % (self.fn, loc_of(self.span))


class Msg:
    """one outgoing message (or family of messages) of a successful response"""

    def __init__(self, R, guard, bases, sub):
        self.R = R
        self._raw = guard
        self._g = None
        self.bases = bases
        self.id = field(sub, 'id') if sub.op == 'agg' else mk('none')
        self.reply_on = '?'
        self.kind = 'other'
        self.to = self.body = self.funds = self.amount = None
        self.sub = sub
        if sub.op == 'agg' and 'msg' in sub.args[2]:
            ro = field(sub, 'reply_on')
            self.reply_on = ro.args[1] if ro.op == 'agg' else show(ro)
            m = field(sub, 'msg')
            while m.op == 'agg' and m.args[0].endswith('CosmosMsg') and m.args[3]:
                m = m.args[3][0]
            self.msg = m
            if m.op == 'agg' and m.args[1] == 'Execute':
                self.kind = 'execute'
                self.to = field(m, 'contract_addr', 'Execute')
                b = field(m, 'msg', 'Execute')
                self.body = b.args[0] if b.op == 'json' else b
                self.funds = field(m, 'funds', 'Execute')
            elif m.op == 'agg' and m.args[1] == 'Send':
                self.kind = 'send'
                self.to = field(m, 'to_address', 'Send')
                self.amount = field(m, 'amount', 'Send')
            elif m.op == 'agg' and m.args[1]:
                self.kind = m.args[1].lower()

    @property
    def guard(self):
        if self._g is None:
            self._g = close(self._raw)
        return self._g

    def variant(self):
        return self.body.args[1] if self.body is not None and self.body.op == 'agg' else None

    def site(self):
        return 'message %s%s' % (self.kind, ' ' + self.variant() if self.variant() else '')


def short(fn):
    return '::'.join(fn.split('::')[-2:])


def loc_of(span):
    p = span.split('/')
    if 'contracts' in p:
        return '/'.join(p[p.index('contracts'):])
    if 'packages' in p:
        return '/'.join(p[p.index('packages'):])
    return '/'.join(p[-2:])


def walk_coll(t, g, bases=()):
    """(guard, bases, element value) for every syntactic family of elements of collection t"""
    if g == 0 or t.op == 'bot':
        return
    if t.op == 'phi':
        for gg, l in t.args[0]:
            yield from walk_coll(l, And(g, gg), bases)
    elif t.op == 'list':
        for x in t.args[0]:
            yield from walk_val(x, g, bases)
    elif t.op == 'cat':
        for x in t.args[0]:
            yield from walk_coll(x, g, bases)
    elif t.op == 'comp':
        b, gg, e = iterate(t)
        for g2, b2 in base_members(b):
            yield from walk_val(e, And(g, gg), bases + (b,))
    elif t.op == 'flat':
        b, gg, e = iterate(t.args[0])
        yield from walk_coll(e, And(g, gg), bases + (b,))
    elif t.op == 'agg' and t.args[0] == OPT:
        if t.args[1] == 'Some':
            yield from walk_val(t.args[3][0], g, bases)
    elif t.op in ('setof', 'mapof', 'sorted'):
        yield from walk_coll(t.args[0], g, bases)
    elif t.op in ('zip', 'enum', 'again'):
        b, gg, e = iterate(t)
        yield from walk_val(e, And(g, gg), bases + (b,))
    elif t.op == 'group':
        # members of a group: those elements of the grouped collection with the group's key
        b, gg, e = iterate(again(t.args[0]))
        yield from walk_val(field(e, '1'), And(g, And(gg, eq(field(e, '0'), t.args[1]))), bases + (b,))
    else:
        yield from walk_val(elem(t), g, bases + (t,))


def base_members(b):
    yield 1, b


def walk_val(t, g, bases):
    if t.op == 'phi':
        for gg, l in t.args[0]:
            yield from walk_val(l, And(g, gg), bases)
    elif g != 0 and t.op != 'bot':
        yield g, bases, t


def split(t, g=1):
    """[(guard, leaf)]"""
    return [(And(g, gg), l) for gg, l in alts(t) if And(g, gg) != 0]


class Ctx:
    def __init__(self, prop, factsdir):
        self.prop = prop
        self.factsdir = factsdir
        self.facts = {}
        self.runs = {}
        self.obl = []            # (name, ok)
        self.viol = []           # (key, text)
        self.functions = {}
        self.counts = {}
        self.unknown = {}
        core.reset()

    # ---- analysed program
    def crate(self, c):
        if c not in self.facts:
            p = os.path.join(self.factsdir, c + '.json')
            if not os.path.exists(p):
                raise Missing('no facts for crate ' + c)
            self.facts[c] = interp.Facts(p)
        return self.facts[c]

    def variants(self, crate, entry='execute'):
        Fx = self.crate(crate)
        key = '%s::contract::%s' % (crate, entry)
        if key not in Fx.bodies:
            raise Missing('entry point %s not found' % key)
        for nm, ty in api.args_for(Fx, key):
            if ty['k'] == 'adt' and ty.get('e') and nm.lstrip('_') == 'msg':
                return api.variants(ty)
        return [None]

    def run(self, crate, entry='execute', variant=None):
        k = (crate, entry, variant)
        if k in self.runs:
            return self.runs[k]
        Fx = self.crate(crate)
        key = '%s::contract::%s' % (crate, entry)
        if key not in Fx.bodies:
            raise Missing('entry point %s not found' % key)
        if variant is not None and variant not in self.variants(crate, entry):
            raise Missing('%s has no message %s' % (key, variant))
        R = api.run_entry(Fx, key, variant)
        self.note(R, crate, entry, variant)
        self.runs[k] = R
        return R

    def body(self, crate, key, watch=()):
        """analyse one function on symbolic arguments"""
        Fx = self.crate(crate)
        if key not in Fx.bodies:
            raise Missing('function %s not found' % key)
        R = api.run_entry(Fx, key, None, watch=watch)
        self.note(R, crate, key, None)
        return R

    def note(self, R, crate, entry, variant):
        R.crate = crate
        R.name = '%s %s%s' % (crate, entry, ' ' + variant if variant else '')
        R.ok = close(R.okg)
        for k, n in R.I.inlined.items():
            p = R.I.facts.bodies[k]['p']
            if p.split('::')[0] in CRATES or R.I.facts.bodies[k].get('cr') in CRATES or R.I.facts.bodies[k].get('cr') in ('axelar_wasm_std', 'connection_router_api', 'gateway_api'):
                self.functions[p] = self.functions.get(p, 0) + n
        for k, n in R.I.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + n
        R.effs = [Eff(R, e) for e in R.effects]

    def all_runs(self, crate, entries=('instantiate', 'execute', 'reply')):
        out = []
        Fx = self.crate(crate)
        for en in entries:
            key = '%s::contract::%s' % (crate, en)
            if key not in Fx.bodies:
                continue
            for v in self.variants(crate, en):
                out.append(self.run(crate, en, v))
        return out

    # ---- constructs
    def saves(self, R, ns=None):
        return [e for e in R.effs if e.kind == 'save' and (ns is None or e.ns == ns) and e.guard != 0]

    def writes(self, R, ns=None):
        return [e for e in R.effs if e.kind in ('save', 'remove') and (ns is None or e.ns == ns) and e.guard != 0]

    def queries(self, R):
        return [e for e in R.effs if e.kind == 'query' and e.guard != 0]

    def msgs(self, R):
        out = []
        if R.okval.op == 'bot':
            return out
        for g, val in split(R.okval, R.okg):
            for g2, bs, sub in walk_coll(field(val, 'messages'), g):
                # split on the message value too
                for g3, m in split(field(sub, 'msg') if sub.op == 'agg' else sub, g2):
                    s2 = sub
                    if sub.op == 'agg' and m is not field(sub, 'msg'):
                        i = sub.args[2].index('msg')
                        s2 = mk('agg', sub.args[0], sub.args[1], sub.args[2], sub.args[3][:i] + (m,) + sub.args[3][i + 1:])
                    x = Msg(R, g3, bs, s2)
                    if x.body is not None and x.body.op == 'phi':
                        for g4, b in split(x.body, g3):
                            y = Msg(R, g4, bs, s2)
                            y.body = b
                            if y.guard != 0:
                                out.append(y)
                    elif x.guard != 0:
                        out.append(x)
        return out

    def events(self, R):
        """[(guard, bases, type string, {attr: value})]"""
        out = []
        for g, val in split(R.okval, R.okg):
            for g2, bs, ev in walk_coll(field(val, 'events'), g):
                if ev.op != 'agg':
                    out.append((g2, bs, None, {}))
                    continue
                at = {}
                for g3, bs3, a in walk_coll(field(ev, 'attributes'), g2):
                    k = field(a, '0') if a.op == 'agg' and a.args[0] == 'tuple' else field(a, 'key')
                    v = field(a, '1') if a.op == 'agg' and a.args[0] == 'tuple' else field(a, 'value')
                    if k.op == 'strc':
                        at[k.args[0]] = v
                ty = field(ev, 'ty')
                out.append((close(g2), bs, ty.args[0] if ty.op == 'strc' else None, at))
        return out

    # ---- obligations
    def fail(self, rule, site, text, loc=''):
        key = '%s|%s|%s' % (self.prop, rule, site)
        self.viol.append((key, rule, site, text, loc))

    def check(self, cond, rule, site, text, loc=''):
        self.obl.append((rule, site, bool(cond)))
        if not cond:
            self.fail(rule, site, text, loc)
        return bool(cond)

    def implies(self, g, p, rule, site, text, loc=''):
        c = close(g)
        r = core.B.implies(c, p)
        if not r:
            # the conclusion may contain quantifiers whose instances matter
            r = close(core.B.and_(c, core.B.not_(p)), True) == 0
        if not r:
            text = text + '\n    construct reached under: ' + trim(showb(c)) + '\n    required: ' + trim(showb(p))
        return self.check(r, rule, site, text, loc)

    def same(self, g, a, b, rule, site, text, loc=''):
        c = close(g)
        r = same(c, a, b)
        if not r:
            text = text + '\n    found: ' + trim(show(under(a, c))) + '\n    expected: ' + trim(show(under(b, c)))
        return self.check(r, rule, site, text, loc)

    def kept(self, g, a, bs, rule, site, text, loc=''):
        """a is one of bs, which the stored records keep equal"""
        c = close(g)
        r = all(any(same(And(c, h), l, b) for b in bs) for h, l in split(under(a, c), c))
        if not r:
            text = text + '\n    found: ' + trim(show(under(a, c))) + '\n    expected: ' + trim(show(under(bs[0], c)))
        return self.check(r, rule, site, text, loc)

    def floor(self, what, n, least):
        self.counts[what] = n
        self.check(n >= least, 'floor', what, 'only %d instances of "%s" found, at least %d expected: the rule has lost its subject' % (n, what, least))


def holds(c, p):
    """c implies p, including what its quantifiers and orderings say"""
    c = close(c)
    return core.B.implies(c, p) or close(core.B.and_(c, core.B.not_(p)), True) == 0


def same(c, a, b):
    """a and b denote the same value whenever c holds"""
    if a is b:
        return True
    a, b = under(a, c), under(b, c)
    if a is b:
        return True
    if a.op == 'phi' or b.op == 'phi':
        for g, x in alts(a):
            for h, y in alts(b):
                cc = close(core.B.ands([c, g, h]))
                if cc == 0:
                    continue
                if not same1(cc, x, y):
                    return False
        return True
    return same1(c, a, b)


def same1(c, a, b):
    if a is b:
        return True
    if core.B.implies(c, eq(a, b)):
        return True
    if a.op == 'agg' and b.op == 'agg' and a.args[:3] == b.args[:3]:
        return all(same(c, x, y) for x, y in zip(a.args[3], b.args[3]))
    # a struct update against a rebuilt struct
    if a.op == 'upd' and b.op == 'agg' and not b.args[1]:
        return all(same(c, field(a, n), v) for n, v in zip(b.args[2], b.args[3]))
    if b.op == 'upd' and a.op == 'agg' and not a.args[1]:
        return all(same(c, field(b, n), v) for n, v in zip(a.args[2], a.args[3]))
    if a.op == 'agg' and len(a.args[2]) > 0 and b.op in ('load', 'field', 'in', 'elem', 'pick', 'get'):
        v = a.args[1] or None
        if v and a.args[0] in core.ENUMS and not core.B.implies(c, variant(b, v)):
            return False
        en = a.args[0] in core.ENUMS
        return all(same(c, field(b, n, v if en else None), x) for n, x in zip(a.args[2], a.args[3]))
    if b.op == 'agg' and len(b.args[2]) > 0 and a.op in ('load', 'field', 'in', 'elem', 'pick', 'get'):
        return same1(c, b, a)
    if a.op == b.op and a.op in ('list', 'cat') and len(a.args[0]) == len(b.args[0]):
        return all(same(c, x, y) for x, y in zip(a.args[0], b.args[0]))
    if a.op == b.op and a.op == 'comp' and a.args[0] is b.args[0]:
        return core.B.and_(c, core.B.not_(eqg(a.args[1], b.args[1]))) == 0 and \
            same(core.B.and_(c, a.args[1]) or c, a.args[2], b.args[2])
    if a.op == b.op and a.op not in ('phi', 'comp', 'b', 'agg', 'elem', 'int', 'strc', 'load', 'in', 'pick', 'forall') and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) and isinstance(y, Term):
                if not same(c, x, y):
                    return False
            elif x != y:
                return False
        return True
    if a.op == 'b' and b.op == 'b':
        return core.B.implies(c, eqg(a.args[0], b.args[0]))
    return False


def eqg(a, b):
    return core.B.not_(core.B.ite(a, core.B.not_(b), b))


def trim(s, n=1500):
    return s if len(s) <= n else s[:n] + ' …'


def provenance(t, pred):
    """does some leaf in the data dependencies of t satisfy pred"""
    return any(isinstance(x, Term) and pred(x) for x in leaves(t))


# ---------------------------------------------------------------- recognisers shared by several rules

def atoms_of(g):
    return [core.W.atom_of[v] for v in core.B.support(g)]


def atom_terms(g, pred):
    """subterms of the atoms of g that satisfy pred"""
    out = []
    seen = set()
    for a in atoms_of(g):
        for t in subterms(a, seen):
            if isinstance(t, Term) and pred(t) and t not in out:
                out.append(t)
    return sorted(out, key=lambda t: t.id)


def all_terms(R, pred):
    out = []
    seen = set()
    roots = [R.okval] + atoms_of(R.okg)
    for e in R.effs:
        roots += atoms_of(e.local)
        if e.val is not None:
            roots.append(e.val)
        if e.key is not None:
            roots.append(e.key)
    for r in roots:
        for t in subterms(r, seen):
            if isinstance(t, Term) and pred(t):
                out.append(t)
    return sorted(set(out), key=lambda t: t.id)


def is_input(t, name):
    return t.op == 'in' and t.args[0] == name


def coll_all(t, base, keyf=None):
    """t is exactly [keyf(x) for x in base] (no filter)"""
    b, g, e = iterate(t)
    if unalias(b) is not base or g != 1:
        return False
    want = elem(b) if keyf is None else keyf(elem(b))
    return e is want


def distinct(g, base, keyf):
    """the condition g guarantees that keyf is injective on the collection base"""
    cov = 0
    for a in atoms_of(g):
        var = core.W.var_of[a]
        if a.op == 'empty' and a.args[0].op == 'duplicates':
            if coll_all(a.args[0].args[0], base, keyf):
                cov = core.B.or_(cov, var)
        if a.op == 'true' and a.args[0].op == 'all_unique':
            if coll_all(a.args[0].args[0], base, keyf):
                cov = core.B.or_(cov, var)
        if a.op in ('eq', 'lt'):
            x, y = a.args
            for x, y in ((x, y), (y, x)):
                if x.op == 'len' and y.op == 'len' and x.args[0].op in ('setof', 'unique', 'mapof'):
                    c = x.args[0].args[0]
                    if x.args[0].op == 'mapof':
                        b, gg, e = iterate(c)
                        okc = unalias(b) is base and gg == 1 and field(e, '0') is keyf(elem(b))
                    else:
                        okc = coll_all(c, base, keyf)
                    if okc and same_len(y.args[0], base):
                        if a.op == 'eq':
                            cov = core.B.or_(cov, var)
                        elif a.args[0] is x:
                            cov = core.B.or_(cov, core.B.not_(var))
        if a.op == 'forall' and counted(a.args[0], base, keyf) and \
                core.B.implies(a.args[1], core.B.not_(core.atom('lt', core.cint(1), field(elem(a.args[0]), '1')))):
            cov = core.B.or_(cov, var)
        if a.op == 'forall' and unalias(a.args[0]) is base:
            # every insertion of the key into the running set found it absent
            p = a.args[1]
            for v in core.B.support(p):
                b = core.W.atom_of[v]
                if b.op == 'in' and b.args[0].op == 'lv' and b.args[1] is keyf(elem(a.args[0])) and \
                        core.B.implies(p, core.B.not_(core.W.var_of[b])):
                    cov = core.B.or_(cov, var)
    return core.B.implies(g, cov)


def counted(l, base, keyf):
    """a map from the key of each element of base to the number of elements with that key"""
    ts = [x for x in l.args if isinstance(x, Term)] if l.op == 'loopout' else []
    if len(ts) < 3 or not any(unalias(x) is base for x in ts):
        return False
    for p in ts:
        if p.op == 'put' and p.args[2].op == 'add':
            k = p.args[1]
            c = [x for x in p.args[2].args if x.op == 'get']
            if any(k is keyf(elem(x)) for x in ts if unalias(x) is base) and core.cint(1) in p.args[2].args and len(c) == 1 and c[0].args[1] is k \
                    and all(x.op == 'lv' or x.op == 'put' and x.args[0].op == 'lv' and x.args[1] is k and x.args[2] is core.cint(0) for _, x in alts(c[0].args[0])):
                return True
    return False


def same_len(c, base):
    if c is base:
        return True
    b, g, e = iterate(c)
    return g == 1 and unalias(b) is base


def covers(c, guard, base, pred):
    """every element x of base with pred(x) is (as itself) an element of collection c, whenever guard:
    c must contain a family that ranges over base, yields the element unchanged and is filtered by
    nothing beyond pred"""
    tot = 0
    for g, bs, v in walk_coll(c, 1):
        for b in [elem(base), elem(again(base))]:
            if v is b or core.B.implies(close(core.B.and_(guard, g)), eq(v, b)):
                p = g if b is elem(base) else core.rename_base(g, again(base), base)
                tot = core.B.or_(tot, p)
    need = close(core.B.and_(guard, pred))
    return core.B.implies(need, tot) or close(core.B.and_(need, core.B.not_(tot)), True) == 0


def persist(R, ns, g):
    """g plus: a record of ns present at the start is still present later in the execution (valid when
    the execution removes nothing from ns)"""
    if any(e.kind == 'remove' and e.ns == ns for e in R.effs):
        return g
    for t in atom_terms(g, lambda t: t.op == 'cell' and t.args[0] == ns and t.args[2] != 0):
        g = core.B.and_(g, core.B.ite(has(ns, t.args[1]), core.atom('has', t), 1))
    return close(g)


ARITH = ('add', 'sub', 'satsub', 'mul', 'div', 'min', 'max', 'rem')


def resolve(t, c):
    """[(condition, value)] of t under c, with the case splits inside arithmetic pulled out"""
    c = close(c)
    if c == 0:
        return
    t = under(t, c)
    if t.op == 'phi':
        for g, l in t.args[0]:
            yield from resolve(l, core.B.and_(c, g))
    elif t.op in ARITH:
        for c1, a in resolve(t.args[0], c):
            for c2, b in resolve(t.args[1], c1):
                yield c2, core.arith(t.op, a, b)
    else:
        yield c, t


def addends(t):
    """multiset of summands of a resolved sum, zero constants dropped"""
    if t.op == 'add':
        return addends(t.args[0]) + addends(t.args[1])
    if t.op == 'int' and t.args[0] == 0:
        return []
    if t.op == 'b' and t.args[0] == 0:
        return []
    return [t]


def minus(l, x):
    """l without one occurrence of x, or None"""
    if x in l:
        l = list(l)
        l.remove(x)
        return l
    return None


def json_of(t):
    return t.args[0] if t.op == 'json' else t


def answer(C, crate, variant):
    Q = C.run(crate, 'query', variant)
    return Q, json_of(Q.okval)


def fund_amount(t, c, denom):
    """t is the attached amount of the given denomination, whenever c"""
    if t.op == 'field' and t.args[1] == 'amount':
        m = t.args[0]
        if m.op in ('pick', 'first', 'last', 'elem', 'idx', 'get') and unalias(m.args[0]) is funds():
            return core.B.implies(close(c), eq(F(m, 'denom'), denom))
    if t.op == 'sum':
        b, g, e = iterate(t.args[0])
        return unalias(b) is funds() and e is F(elem(b), 'amount') and core.B.implies(close(core.B.and_(c, g)), eq(F(elem(b), 'denom'), denom))
    return False


def only_denom(c, denom):
    """under c nothing but coins of the denomination is attached"""
    c = close(c)
    if core.B.implies(c, eq(cint(1), length(funds()))):
        return True
    return core.B.implies(c, forall(funds(), eq(F(elem(funds()), 'denom'), denom)))
