"""addresses given by a message are validated before they are kept, called or paid"""
from rules.lib import *
from rules.inject import Inj, root_types


def addr_ok(x):
    return core.atom('addr_ok', x)


def X05(C):
    n = 0
    for crate in CRATES:
        Fx = C.crate(crate)
        for R in C.all_runs(crate):
            inj = Inj(C, Fx, root_types(R))
            uses = []
            for e in R.effs:
                if e.kind == 'save':
                    uses.append((e.guard, e.key, 'kept as a key of %s' % e.ns, e.loc()))
                    uses.append((e.guard, e.val, 'kept in %s' % e.ns, e.loc()))
            for x in C.msgs(R):
                for a in ('contract', 'to'):
                    t = getattr(x, a, None)
                    if isinstance(t, Term):
                        uses.append((x.guard, t, 'called' if a == 'contract' else 'paid', ''))
            for g, t, how, loc in uses:
                for c, s in addresses(Fx, inj, t, g, how in ('called', 'paid')):
                    n += 1
                    x = s.args[0] if s.op in ('addr', 'unchecked') else s
                    if not from_message(x):
                        continue
                    okk = holds(c, addr_ok(x))
                    if not okk and x.op in ('elem', 'field'):
                        okk = each_ok(c, x)
                    C.check(okk, 'validated', R.name, 'an address that the message gives is %s without having been validated: %s' % (how, show(x)), loc)
    C.floor('addresses kept, called or paid', n, 15)


def each_ok(c, x):
    """every element of the collection that x belongs to was validated"""
    b = x
    while b.op == 'field':
        b = b.args[0]
    if b.op != 'elem':
        return False
    for a in atoms_of(c):
        if a.op == 'forall' and a.args[0] is b.args[0] and core.B.implies(c, core.W.var_of[a]):
            p = a.args[1].args[0] if isinstance(a.args[1], Term) else a.args[1]
            if core.B.implies(p, addr_ok(x)):
                return True
    return False


def addresses(Fx, inj, t, g, whole):
    """(condition, address) for every address inside t; whole: t itself is one, as text or not"""
    for c, x in split(t, g):
        if whole:
            yield c, x
        for s in subterms(x):
            if not isinstance(s, Term):
                continue
            i = inj.ty(s) if s.op in ('in', 'field', 'elem') else None
            if s.op in ('addr', 'unchecked') or i is not None and Fx.ty(i).get('p') == 'cosmwasm_std::Addr':
                yield c, s


def from_message(t):
    while t.op in ('field', 'elem', 'get') and t.args:
        t = t.args[0]
    return t.op == 'in' and t.args[0].split('.')[0] == 'msg'
