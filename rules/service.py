"""service-registry"""
from rules.lib import *

SR = 'service_registry'
STATES = ('Bonded', 'RequestedUnbonding', 'Unbonding', 'Unbonded')


def gov():
    return eq(F(ld('config'), 'governance'), sender())


def wkey(e):
    return field(e.key, '0'), field(e.key, '1')


def worker_writes(C):
    return [(R, e) for R in C.all_runs(SR) for e in C.writes(R, 'workers')]


def S01(C):
    n = 0
    g = gov()
    for R in C.all_runs(SR, ('execute', 'reply')):
        for e in C.writes(R, 'config'):
            C.check(False, 'config-fixed', R.name, 'the governance account changes after instantiation', e.loc())
        for e in C.writes(R, 'services'):
            n += 1
            C.implies(e.guard, g, 'services', '%s: %s' % (R.name, e.site()), 'a service is written for a caller other than governance', e.loc())
        for e in C.writes(R, 'workers_per_chain'):
            n += 1
            site = '%s: %s' % (R.name, e.site())
            C.same(e.guard, field(e.key, '2'), sender(), 'own-support', site, 'chain support is declared or withdrawn for a worker other than the caller', e.loc())
            C.implies(e.guard, has('workers', tup(field(e.key, '0'), sender())), 'known-worker', site, 'chain support is recorded for someone who is no worker of the service', e.loc())
            C.implies(e.guard, has('services', field(e.key, '0')), 'known-service', site, 'chain support is recorded for an unknown service', e.loc())
    for R, e in worker_writes(C):
        n += 1
        site = '%s: %s' % (R.name, e.site())
        svc, w = wkey(e)
        if not C.check(e.kind == 'save', 'no-removal', site, 'a worker record is deleted', e.loc()):
            continue
        C.implies(e.guard, has('services', svc), 'known-service', site, 'a worker record is written for an unknown service', e.loc())
        old, ex = stored(e)
        if core.B.implies(e.guard, g):
            # governance: authorisation only
            C.same(And(e.guard, ex), F(e.val, 'bonding_state'), F(old, 'bonding_state'), 'gov-bond', site, 'governance changes the bonding state of a worker', e.loc())
            for c, l in split(F(e.val, 'bonding_state'), And(e.guard, Not(ex))):
                C.check(close(c) == 0 or l.op == 'agg' and l.args[1] == 'Unbonded', 'gov-new-unbonded', site, 'a worker authorised before bonding does not start unbonded', e.loc())
        else:
            C.implies(e.guard, eq(w, sender()), 'own-record', site, 'a worker record is written by a caller who is neither governance nor that worker', e.loc())
            C.same(And(e.guard, ex), F(e.val, 'authorization_state'), F(old, 'authorization_state'), 'worker-auth', site, 'a worker changes its own authorisation', e.loc())
            for c, l in split(F(e.val, 'authorization_state'), And(e.guard, Not(ex))):
                C.check(close(c) == 0 or l.op == 'agg' and l.args[1] == 'NotAuthorized', 'worker-new-unauthorised', site, 'a new worker record created by the worker starts authorised', e.loc())
        C.kept(And(e.guard, ex), F(e.val, 'address'), (F(old, 'address'), w), 'address', site, 'the address inside a worker record changes', e.loc())
        C.same(And(e.guard, Not(ex)), F(e.val, 'address'), w, 'address', site, 'a worker record carries an address other than the one it is stored under', e.loc())
        C.kept(And(e.guard, ex), F(e.val, 'service_name'), (F(old, 'service_name'), field(e.key, '0')), 'service', site, 'the service inside a worker record changes', e.loc())
        C.same(And(e.guard, Not(ex)), F(e.val, 'service_name'), svc, 'service', site, 'a worker record carries a service other than the one it is stored under', e.loc())
    # the two governance messages do what they say, for every listed worker
    for v, st in (('AuthorizeWorkers', 'Authorized'), ('UnauthorizeWorkers', 'NotAuthorized')):
        R = C.run(SR, 'execute', v)
        C.implies(R.okg, g, 'role', R.name, 'accepted from a caller other than governance')
        ws = inp('msg.%s.workers' % v)
        tot = 0
        for e in C.saves(R, 'workers'):
            a = F(e.val, 'authorization_state')
            good = all(l.op == 'agg' and l.args[1] == st for c, l in split(a, e.guard) if close(c) != 0)
            C.check(good, 'authorisation', R.name, 'the authorisation stored by %s is %s' % (v, show(a)), e.loc())
            if good and e.loops and unalias(e.loops[-1]) is ws and same(e.guard, field(e.key, '1'), addr(elem(e.loops[-1]))) and field(e.key, '0') is inp('msg.%s.service_name' % v):
                tot = Or(tot, core.rename_base(e.guard, e.loops[-1], ws) if e.loops[-1] is not ws else e.guard)
        C.implies(And(R.okg, Not(empty(ws))), tot, 'every-worker', R.name, 'a listed worker may be left unchanged although the call succeeds')
    C.implies(C.run(SR, 'execute', 'RegisterService').okg, g, 'role', 'RegisterService', 'accepted from a caller other than governance')
    declared(C)
    C.floor('guarded registry writes', n, 7)


def declared(C):
    """declared chains are all recorded"""
    R = C.run(SR, 'execute', 'DeclareChainSupport')
    ch = inp('msg.DeclareChainSupport.chains')
    tot = 0
    for e in C.saves(R, 'workers_per_chain'):
        if e.loops and unalias(e.loops[-1]) is ch and field(e.key, '1') is elem(e.loops[-1]) and field(e.key, '0') is inp('msg.DeclareChainSupport.service_name'):
            tot = Or(tot, core.rename_base(e.guard, e.loops[-1], ch) if e.loops[-1] is not ch else e.guard)
    # or recorded already
    tot = Or(tot, has('workers_per_chain', tup(inp('msg.DeclareChainSupport.service_name'), elem(ch), sender())))
    C.implies(And(R.okg, Not(empty(ch))), tot, 'every-chain', R.name, 'a declared chain may be left unrecorded although the call succeeds')


def support_is_declared(C):
    """chain support is what was declared: each record by its worker, for the service and a chain named in the declaration"""
    n = 0
    for R in C.all_runs(SR, ('execute', 'reply')):
        for e in C.writes(R, 'workers_per_chain'):
            n += 1
            site = '%s: %s' % (R.name, e.site())
            if not C.check(e.kind == 'save', 'declared', site, 'declared chain support disappears', e.loc()):
                continue
            g = close(e.guard)
            svc, ch, w = (field(e.key, str(i)) for i in range(3))
            own = all(close(c) == 0 or l.op == 'in' and l.args[0].endswith('.service_name') for c, l in split(svc, g))
            C.check(own, 'declared', site, 'chain support is recorded for a service other than the one named in the declaration: ' + show(svc), e.loc())
            named = e.loops and unalias(e.loops[-1]).op == 'in' and ch is elem(e.loops[-1])
            C.check(bool(named), 'declared', site, 'chain support is recorded for a chain that is not named in the declaration: ' + show(ch), e.loc())
            C.same(g, w, sender(), 'declared', site, 'chain support is recorded for a worker other than the one declaring it', e.loc())
    declared(C)
    C.floor('declarations of chain support', n, 1)


def stored(e):
    """the worker record under the write's key just before it, whatever version the loop reads"""
    for t in core.subterms(e.val):
        if isinstance(t, Term) and t.op == 'load' and t.args[0] == 'workers' and t.args[1] is e.key:
            return t, core.atom('has', mk('cell', 'workers', e.key, t.args[2]))
    return ld('workers', e.key), has('workers', e.key)


def held_cases(e):
    """the possible bonding states stored before the write: (name, condition, amount held)"""
    old, ex = stored(e)
    bs = F(old, 'bonding_state')
    out = [('no record', Not(ex), cint(0))]
    for s in STATES:
        out.append((s, And(ex, variant(bs, s)), cint(0) if s == 'Unbonded' else field(bs, 'amount', s)))
    return out


def bonded_amount(l):
    if l.op != 'agg' or l.args[1] not in STATES:
        return None
    return cint(0) if l.args[1] == 'Unbonded' else field(l, 'amount', l.args[1])


def sends(C, R):
    return [x for x in C.msgs(R) if x.kind == 'send']


def S02(C):
    n = 0
    npay = 0
    for R, e in worker_writes(C):
        if e.kind != 'save':
            continue
        site = '%s: %s' % (R.name, e.site())
        svc, w = wkey(e)
        denom = F(ld('services', svc), 'bond_denom')
        old, ex = stored(e)
        bs = F(old, 'bonding_state')
        for name, cond, held in held_cases(e):
            cc = close(And(e.guard, cond))
            if cc == 0:
                continue
            for c, l in resolve(F(e.val, 'bonding_state'), cc):
                if l is bs:
                    continue
                n += 1
                new = bonded_amount(l)
                s2 = '%s (%s)' % (site, name)
                if new is None:
                    # the record keeps its old state under another name?
                    C.check(same(c, l, bs), 'state', s2, 'the new bonding state is not understood: ' + show(l), e.loc())
                    continue
                st = l.args[1]
                for c2, amt in resolve(new, c):
                    ads = addends(amt)
                    h = addends(held)
                    rest = ads
                    for x in h:
                        rest = minus(rest, x) if rest is not None else None
                    if rest is None:
                        # bond given up: only by paying it out in full
                        pay = 0
                        for x in sends(C, R):
                            if same(And(c2, x.guard), x.to, w) and pays(x, And(c2, x.guard), denom, held):
                                pay = Or(pay, x.guard)
                        C.check(not ads and name == 'Unbonding' and core.B.implies(c2, pay), 'released-is-paid', s2, 'bond of a worker disappears from its record without being sent to it in full: held %s, now %s' % (show(held), show(amt)), e.loc())
                    elif rest:
                        good = len(rest) == 1 and fund_amount(rest[0], c2, denom)
                        C.check(good, 'credit', s2, 'the bond grows by something other than the amount attached in the bond denomination: ' + ' + '.join(show(x) for x in rest), e.loc())
                        C.check(only_denom(c2, denom), 'no-swallow', s2, 'coins of another denomination attached to a bonding call are kept without credit', e.loc())
                        C.check(w is sender(), 'credit-sender', s2, 'attached funds are credited to someone other than the caller', e.loc())
                        C.check(st == 'Bonded', 'credit-bonded', s2, 'attached funds lead to a state other than bonded: ' + st, e.loc())
                    else:
                        if R.name.endswith('BondWorker'):
                            C.check(core.B.implies(c2, empty(funds())), 'credit', s2, 'funds attached to a bonding call are not credited', e.loc())
                        # unpaid: state may not become Unbonded unless nothing was held
                        C.check(not (st == 'Unbonded' and h), 'released-is-paid', s2, 'bond disappears', e.loc())
                    if st == 'Bonded' and name in ('no record', 'Unbonded'):
                        C.implies(c2, Not(eq(amt, cint(0))), 'positive', s2, 'a worker becomes bonded without any bond', e.loc())
                    if st == 'Unbonding':
                        at = field(l, 'unbonded_at', 'Unbonding')
                        if name == 'Unbonding':
                            good = at is field(bs, 'unbonded_at', 'Unbonding') or at is now()
                        else:
                            good = at is now() and name in ('Bonded', 'RequestedUnbonding')
                        C.check(good, 'unbonding-clock', s2, 'the unbonding period does not start at the time of the request: ' + show(at), e.loc())
                    if st == 'Unbonded' and h:
                        C.check(matured(c2, bs, svc), 'period', s2, 'bond is released before the unbonding period of the service has passed', e.loc())
    # payouts happen only against a release
    for R in C.all_runs(SR):
        for x in C.msgs(R):
            if not C.check(x.kind == 'send', 'messages', R.name, 'the registry sends a message other than a payout'):
                continue
            npay += 1
            C.same(x.guard, x.to, sender(), 'payee', R.name, 'a payout goes to someone other than the caller')
            tot = 0
            for e in C.saves(R, 'workers'):
                svc, w = wkey(e)
                old, ex = stored(e)
                bs = F(old, 'bonding_state')
                rel = all(l.op == 'agg' and l.args[1] == 'Unbonded' for c, l in split(F(e.val, 'bonding_state'), e.guard) if close(c) != 0)
                if rel and w is sender() and not e.loops and not x.bases and core.B.implies(e.guard, And(ex, variant(bs, 'Unbonding'))) and \
                        pays(x, And(x.guard, e.guard), F(ld('services', svc), 'bond_denom'), field(bs, 'amount', 'Unbonding')):
                    tot = Or(tot, e.guard)
            C.implies(x.guard, tot, 'pay-is-released', R.name, 'a payout is sent without the same amount leaving the caller\'s record')
        if len([x for x in C.msgs(R) if x.kind == 'send']) > 1:
            ms = C.msgs(R)
            for i in range(len(ms)):
                for j in range(i):
                    C.check(close(And(ms[i].guard, ms[j].guard)) == 0, 'pay-once', R.name, 'one call sends two payouts')
    for v, want in (('BondWorker', 'Bonded'), ('UnbondWorker', 'Unbonding'), ('ClaimStake', 'Unbonded')):
        R = C.run(SR, 'execute', v)
        tot = 0
        for e in C.saves(R, 'workers'):
            if field(e.key, '0') is inp('msg.%s.service_name' % v) and field(e.key, '1') is sender():
                for c, l in split(F(e.val, 'bonding_state'), e.guard):
                    if l.op == 'agg' and l.args[1] in (want, 'RequestedUnbonding' if want == 'Unbonding' else want):
                        tot = Or(tot, c)
        C.implies(R.okg, tot, 'effective', R.name, 'the call succeeds without moving the caller\'s record to %s' % want)
    C.floor('bonding state transitions', n, 5)
    C.floor('payout sites', npay, 1)


def pays(x, c, denom, amount):
    coins = [v for g, bs, v in walk_coll(x.amount, 1)]
    if len(coins) != 1:
        return False
    return same(c, F(coins[0], 'denom'), denom) and same(c, F(coins[0], 'amount'), amount)


def matured(c, bs, svc):
    """c implies block time >= unbonded_at + unbonding period of the service"""
    at = field(bs, 'unbonded_at', 'Unbonding')
    days = F(ld('services', svc), 'unbonding_period_days')

    def due(t):
        if t.op == 'plus_days':
            return t.args[0] is at and t.args[1] is days
        if t.op == 'plus_seconds' and t.args[0] is at and t.args[1].op == 'mul':
            return set(t.args[1].args) == {days, cint(86400)}
        return False
    for t in atom_terms(c, due):
        if core.B.implies(c, Not(lt(now(), t))):
            return True
    return False


def S03(C):
    support_is_declared(C)
    Q, v = answer(C, SR, 'GetActiveWorkers')
    svc = inp('msg.GetActiveWorkers.service_name')
    chain = inp('msg.GetActiveWorkers.chain_name')
    n = 0
    cov = 0
    rng = None
    for g, bs, w in walk_coll(v, Q.okg):
        g = close(g)
        if g == 0:
            continue
        n += 1
        site = Q.name
        rng = unalias(bs[-1]) if bs else None
        okr = rng is not None and rng.op == 'range' and rng.args[0] == 'workers_per_chain' and rng.args[1] is tup(svc, chain) and all(a.op == 'agg' and a.args[1] == 'None' for a in rng.args[3:5])
        if not C.check(okr, 'supporting', site, 'the active workers are not drawn from the workers that declared support for the requested chain and service: ' + show(rng) if rng is not None else '-'):
            continue
        key = tup(svc, field(elem_key(bs[-1]), '0'))
        rec = ld('workers', key)
        C.same(g, w, rec, 'record', site, 'an entry of the answer is not the stored record of a supporting worker')
        want = active(rec, svc)
        C.implies(g, want, 'active-only', site, 'a worker is reported active although it is not authorised and bonded with at least the minimum')
        C.implies(g, has('workers', key), 'present', site, 'a worker without a record is reported')
        tot = core.rename_base(g, bs[-1], rng) if bs[-1] is not rng else g
        cov = Or(cov, tot)
    if rng is not None and rng.op == 'range':
        key = tup(svc, field(elem_key(rng), '0'))
        rec = ld('workers', key)
        okel = variant(elem(rng), 'Ok')
        C.implies(And(Q.okg, Not(empty(rng)), active(rec, svc), okel, has('workers', key)), cov, 'complete', Q.name, 'an authorised, sufficiently bonded worker supporting the chain is left out')
    C.implies(Q.okg, has('services', svc), 'known-service', Q.name, 'answered for an unknown service')
    Q, v = answer(C, SR, 'GetWorker')
    k = tup(inp('msg.GetWorker.service_name'), addr(inp('msg.GetWorker.worker')))
    C.check(same(Q.ok, v, ld('workers', k)), 'worker-query', Q.name, 'the worker query returns %s, not the record of the requested worker in the requested service' % show(v))
    C.implies(Q.okg, has('workers', k), 'worker-query', Q.name, 'the worker query succeeds although the requested worker has no record')
    Q, v = answer(C, SR, 'GetService')
    k = inp('msg.GetService.service_name')
    C.check(same(Q.ok, v, ld('services', k)), 'service-query', Q.name, 'the service query returns %s, not the requested service' % show(v))
    C.implies(Q.okg, has('services', k), 'service-query', Q.name, 'the service query succeeds for an unknown service')
    C.floor('active worker families', n, 1)


def elem_key(b):
    return field(elem(b), '0', 'Ok')


def active(rec, svc):
    bs = F(rec, 'bonding_state')
    return And(variant(bs, 'Bonded'), Not(lt(field(bs, 'amount', 'Bonded'), F(ld('services', svc), 'min_worker_bond'))), variant(F(rec, 'authorization_state'), 'Authorized'))


SERVICE_FIELDS = ('service_contract', 'min_num_workers', 'max_num_workers', 'min_worker_bond', 'bond_denom', 'unbonding_period_days', 'description')


def S04(C):
    n = 0
    for R in C.all_runs(SR):
        for e in C.writes(R, 'services'):
            n += 1
            site = '%s: %s' % (R.name, e.site())
            C.check(e.kind == 'save', 'no-removal', site, 'a service is removed', e.loc())
            C.implies(e.guard, Not(has('services', e.key)), 'immutable', site, 'an existing service is overwritten', e.loc())
            if e.kind == 'save':
                C.same(e.guard, F(e.val, 'name'), e.key, 'name', site, 'a service is stored under a name that is not its own', e.loc())
    R = C.run(SR, 'execute', 'RegisterService')
    nm = inp('msg.RegisterService.service_name')
    tot = 0
    for e in C.saves(R, 'services'):
        if e.key is nm:
            tot = Or(tot, e.guard)
            for f in SERVICE_FIELDS:
                n += 1
                x = F(e.val, f)
                m = inp('msg.RegisterService.' + f)
                C.check(same(e.guard, x, m) or x is addr(m), 'as-requested', R.name + ' ' + f, 'field %s of the stored service is %s' % (f, show(x)), e.loc())
    C.implies(R.okg, tot, 'effective', R.name, 'registration succeeds without storing the service')
    C.floor('service writes', n, 8)
