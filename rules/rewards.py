"""rewards"""
from rules.lib import *

RW = 'rewards'


def gov():
    return eq(F(ld('config'), 'governance'), sender())


def start_of(R):
    return F(ld('params'), 'last_updated')


def epoch_parts():
    """(epochs elapsed, duration, stored last update)"""
    p = ld('params')
    lu = F(p, 'last_updated')
    dur = F(p, 'params', 'epoch_duration')
    d0 = field(dur, '0')
    el = [core.arith('div', core.arith('sub', height(), F(lu, 'block_height_started')), d) for d in (d0, dur)]
    return el, (d0, dur), lu


def is_current_epoch(t, c):
    """t is the number of the epoch the current block is in"""
    el, durs, lu = epoch_parts()
    for cc, x in resolve(t, c):
        a = addends(x)
        rest = minus(a, F(lu, 'epoch_num'))
        if not (rest is not None and len(rest) == 1 and rest[0] in el):
            return False
    return True


def W01(C):
    n = 0
    g = gov()
    for R in C.all_runs(RW, ('execute', 'reply')):
        for e in C.writes(R, 'config'):
            C.check(False, 'config-fixed', R.name, 'governance or reward denomination changes after instantiation', e.loc())
        for e in C.writes(R, 'params'):
            n += 1
            site = '%s: %s' % (R.name, e.site())
            C.implies(e.guard, g, 'params', site, 'reward parameters are changed by a caller other than governance', e.loc())
            if not C.check(e.kind == 'save', 'no-removal', site, 'the parameters are removed', e.loc()):
                continue
            C.check(same(e.guard, F(e.val, 'params'), inp('msg.UpdateParams.params')), 'as-requested', site, 'the stored parameters are not the requested ones: ' + show(F(e.val, 'params')), e.loc())
            # the checkpoint: current epoch, or a new one starting now
            el, durs, lu = epoch_parts()
            lue = F(e.val, 'last_updated')
            for c, num in resolve(F(lue, 'epoch_num'), e.guard):
                for c2, st in resolve(F(lue, 'block_height_started'), c):
                    a = addends(num)
                    rest = minus(a, F(lu, 'epoch_num'))
                    rest = [x for x in rest if x not in el] if rest is not None and len([x for x in rest if x in el]) == 1 else None
                    sa = addends(st)
                    begun = [x for x in sa if x.op == 'mul' and any(set(x.args) == {d, k} for d in durs for k in el)]
                    same_start = len(sa) == 2 and F(lu, 'block_height_started') in sa and len(begun) == 1
                    if rest == []:
                        C.check(same_start, 'checkpoint', site, 'the current epoch keeps its number but not its start: ' + show(st), e.loc())
                        nd = F(e.val, 'params', 'epoch_duration')
                        C.check(any(holds(c2, Not(lt(core.arith('add', st, d), height()))) for d in (nd, field(nd, '0'))), 'checkpoint-jump', site,
                                'a shorter epoch duration can make the epoch number jump by more than one', e.loc())
                    elif rest == [cint(1)]:
                        C.check(st is height(), 'checkpoint', site, 'a new epoch does not start at the current block: ' + show(st), e.loc())
                        nd = F(e.val, 'params', 'epoch_duration')
                        ends = [core.arith('add', core.arith('add', F(lu, 'block_height_started'), core.arith('mul', d, k)), x)
                                for d in durs for k in el for x in (nd, field(nd, '0'))]
                        C.check(any(holds(c2, Or(lt(x, height()), Not(lt(height(), x)), eq(x, height()))) for x in ends), 'checkpoint-ended', site,
                                'a new epoch is started although the new duration would not have ended the current one', e.loc())
                    else:
                        C.check(False, 'checkpoint', site, 'a parameter change moves the epoch number to something other than the current or the next one: ' + show(num), e.loc())
    R = C.run(RW, 'execute', 'UpdateParams')
    C.implies(R.okg, g, 'role', R.name, 'accepted from a caller other than governance')
    tot = 0
    for e in C.saves(R, 'params'):
        tot = Or(tot, e.guard)
    C.implies(R.okg, tot, 'effective', R.name, 'succeeds without storing the parameters')
    C.floor('parameter writes', n, 1)


def wm_contract():
    return addr(inp('msg.DistributeRewards.contract_address'))


def W02(C):
    n = 0
    runs = C.all_runs(RW)
    for R in runs:
        for e in C.writes(R, 'rewards_watermarks'):
            n += 1
            site = '%s: %s' % (R.name, e.site())
            if not C.check(e.kind == 'save', 'no-removal', site, 'a payout watermark is removed', e.loc()):
                continue
            wm = ld('rewards_watermarks', e.key)
            ex = has('rewards_watermarks', e.key)
            # strictly beyond the previous one
            for c, old in ((ex, core.arith('add', cint(1), wm)),):
                C.check(at_least(And(e.guard, c), e.val, old), 'forward', site, 'the payout watermark may be stored without moving forward: ' + show(e.val), e.loc())
            # at least two epochs behind the current one
            C.check(all(old_enough(c, x) for c, x in resolve(e.val, e.guard)), 'delay', site, 'an epoch may be paid before two further epochs have begun: ' + show(e.val), e.loc())
        # what is paid: tallies of this contract in (watermark, new watermark]
        sends = [x for x in C.msgs(R)]
        used = [t for t in all_terms(R, lambda t: t.op == 'load' and t.args[0] == 'tallies')] if sends else []
        paid = set()
        for x in sends:
            for t in subterms(x.amount if x.amount is not None else unit()):
                if isinstance(t, Term) and t.op == 'load' and t.args[0] == 'tallies':
                    paid.add(t)
            for b in x.bases:
                for t in subterms(b):
                    if isinstance(t, Term) and t.op == 'load' and t.args[0] == 'tallies':
                        paid.add(t)
        for t in sorted(paid, key=lambda t: t.id):
            n += 1
            con, ep = field(t.args[1], '0'), field(t.args[1], '1')
            okc = False
            for e in C.saves(R, 'rewards_watermarks'):
                for x in sends:
                    if not core.B.implies(x.guard, e.guard):
                        continue
                wm = ld('rewards_watermarks', e.key)
                ex = has('rewards_watermarks', e.key)
                if con is not e.key or ep.op != 'elem':
                    continue
                rg = unalias(ep.args[0])
                okc = okc or epoch_range(C, R, rg, e, ex, wm)
            C.check(okc, 'range', R.name, 'the epochs paid are not exactly those after the previous watermark up to the new one: ' + show(ep))
        if sends:
            C.check(bool(paid), 'range', R.name, 'payouts are sent that do not come from epoch tallies')
            tot = 0
            for e in C.saves(R, 'rewards_watermarks'):
                tot = Or(tot, e.guard)
            for x in sends:
                C.implies(x.guard, tot, 'marked', R.name, 'rewards are sent without storing the new watermark')
    C.floor('watermark writes and paid tallies', n, 2)


def at_least(c, v, low):
    """v >= low whenever c (from an explicit comparison that c decides)"""
    if holds(c, Not(lt(v, low))):
        return True
    for cc, x in resolve(v, c):
        okk = holds(cc, Not(lt(x, low)))
        if not okk and x.op == 'min':
            okk = all(holds(cc, Not(lt(y, low))) for y in x.args)
        if not okk:
            return False
    return True


def sub1(t):
    a = addends(t)
    r = minus(a, cint(1))
    return r[0] if r is not None and len(r) == 1 else None


def behind(y, x):
    """k with y = x + k, or a negative number"""
    a = addends(y)
    k = sum(z.args[0] for z in a if z.op == 'int')
    return k if [z for z in a if z.op != 'int'] == addends(x) else -9


def old_enough(c, x, depth=0):
    """x <= current epoch - 2 whenever c"""
    if x.op == 'min':
        return any(old_enough(c, y, depth) for y in x.args)
    if x.op in ('sub', 'satsub'):
        a, b = x.args
        if b.op == 'int' and b.args[0] >= 2 and is_current_epoch(a, c):
            # saturation at zero: only when the current epoch is below the delay
            return holds(c, Not(lt(a, b))) if x.op == 'satsub' else True
    if depth:
        return False
    # bounded by something old enough through a comparison that was made
    for a in atoms_of(c):
        if a.op != 'lt':
            continue
        l, r = a.args
        v = core.W.var_of[a]
        for low, high, g, strict in ((l, r, v, 1), (r, l, Not(v), 0)):
            if not core.B.implies(c, g):
                continue
            if all(y is x for _, y in resolve(low, c)) and all(old_enough(c2, y, 1) for c2, y in resolve(high, c)):
                return True
            # x + k <= current epoch
            if all(behind(y, x) + strict >= 2 for _, y in resolve(low, c)) and \
                    all(is_current_epoch(y, c2) for c2, y in resolve(high, c)):
                return True
    return False


def epoch_range(C, R, rg, e, ex, wm):
    """rg = [watermark + 1 or 0 ..= the stored new watermark]"""
    g = e.guard
    incl = rg.op == 'agg' and rg.args[0].endswith('RangeInclusive')
    excl = rg.op == 'agg' and rg.args[0].endswith('ops::Range')
    if not (incl or excl):
        return False
    st, en = field(rg, 'start'), field(rg, 'end')
    if not same(And(g, ex), st, core.arith('add', cint(1), wm)):
        return False
    for c, x in resolve(st, And(g, Not(ex))):
        if not (x.op == 'int' and x.args[0] == 0):
            return False
    if incl:
        return same(g, en, e.val)
    return same(g, en, core.arith('add', cint(1), e.val))


def pool_delta(c, e):
    """(added terms, subtracted terms) of a pool write under c"""
    old = F(ld('pools', e.key), 'balance')
    ex = has('pools', e.key)
    for c1, nb in resolve(F(e.val, 'balance'), c):
        base = old if core.B.implies(c1, ex) else cint(0) if core.B.implies(c1, Not(ex)) else None
        subs = []
        x = nb
        while x.op == 'sub':
            subs += addends(x.args[1])
            x = x.args[0]
        ads = addends(x)
        if base is old:
            ads = minus(ads, old)
        yield c1, base, nb, ads, subs


def W03(C):
    n = 0
    for R in C.all_runs(RW):
        ms = C.msgs(R)
        for x in ms:
            C.check(x.kind == 'send', 'messages', R.name, 'a message other than a payout is sent')
        pw = C.writes(R, 'pools')
        for e in pw:
            n += 1
            site = '%s: %s' % (R.name, e.site())
            if not C.check(e.kind == 'save', 'no-removal', site, 'a rewards pool is removed', e.loc()):
                continue
            C.check(not e.loops, 'once', site, 'a pool is written repeatedly within a loop', e.loc())
            key = e.key
            if key.op == 'phi':
                # the key is the contract recorded in the pool (which is the key it was loaded under)
                key = canon_pool(key)
                C.check(key is not None, 'own-pool', site, 'the pool is stored under a key that is not the one it was loaded from: ' + show(e.key), e.loc())
            e2 = FakeEff(e, key if key is not None else e.key)
            C.same(And(e.guard, Not(has('pools', e2.key))), F(e.val, 'contract'), e2.key, 'pool-key', site, 'a new pool names a contract other than its key', e.loc())
            C.kept(And(e.guard, has('pools', e2.key)), F(e.val, 'contract'), [F(ld('pools', e2.key), 'contract'), e2.key], 'pool-key', site, 'the contract of a pool changes', e.loc())
            for c, base, nb, ads, subs in pool_delta(e.guard, e2):
                if not C.check(base is not None and ads is not None, 'delta', site, 'the new pool balance does not build on the stored one: ' + show(nb), e.loc()):
                    continue
                for a in ads:
                    C.check(fund_amount(a, c, F(ld('config'), 'rewards_denom')) and len(ads) == 1, 'credit', site, 'the pool grows by something other than the attached amount of the reward denomination: ' + show(a), e.loc())
                    C.check(only_denom(c, F(ld('config'), 'rewards_denom')), 'no-swallow', site, 'coins of another denomination are accepted without credit', e.loc())
                for s in subs:
                    C.check(len(subs) == 1 and total_sent(s, ms, c), 'debit', site, 'the pool shrinks by something other than the sum of the payouts: ' + show(s), e.loc())
                    C.check(holds(c, Not(lt(base, s))), 'covered', site, 'a payout may exceed the balance of the pool', e.loc())
                if not subs:
                    for x in ms:
                        C.check(close(And(c, x.guard)) == 0, 'debit', site, 'payouts are sent without being taken from the pool', e.loc())
        for x in ms:
            n += 1
            tot = 0
            for e in pw:
                k = canon_pool(e.key) if e.key.op == 'phi' else e.key
                if k is not None:
                    for c, base, nb, ads, subs in pool_delta(e.guard, FakeEff(e, k)):
                        if subs:
                            tot = Or(tot, c)
                    C.check(paid_from(x, k), 'right-pool', R.name, 'rewards earned with one contract are taken from the pool of another')
            C.implies(x.guard, tot, 'debit', R.name, 'a payout is sent without being taken from a pool')
            coins = [v for g, bs, v in walk_coll(x.amount, 1)]
            C.check(len(coins) == 1 and same(x.guard, F(coins[0], 'denom'), F(ld('config'), 'rewards_denom')), 'denom', R.name, 'a payout is not made in the reward denomination')
    R = C.run(RW, 'execute', 'AddRewards')
    want = addr(inp('msg.AddRewards.contract_address'))
    tot = 0
    for e in C.saves(R, 'pools'):
        k = canon_pool(e.key) if e.key.op == 'phi' else e.key
        C.check(k is want, 'named-pool', R.name, 'funds are credited to the pool of %s' % show(e.key))
        for c, base, nb, ads, subs in pool_delta(e.guard, FakeEff(e, k if k is not None else e.key)):
            if ads and not subs:
                tot = Or(tot, c)
    C.implies(R.okg, tot, 'effective', R.name, 'rewards are accepted without being credited to a pool')
    C.floor('pool writes and payouts', n, 3)


class FakeEff:
    def __init__(self, e, key):
        self.key = key
        self.val = e.val
        self.guard = e.guard


def canon_pool(key):
    """the key a pool was loaded under, when the write key is `pool.contract` of that pool or the key of a fresh one"""
    ks = set()
    for g, l in alts(key):
        if l.op == 'field' and l.args[1] == 'contract' and l.args[0].op == 'load' and l.args[0].args[0] == 'pools':
            ks.add(l.args[0].args[1])
        else:
            ks.add(l)
    return ks.pop() if len(ks) == 1 else None


def total_sent(s, ms, c):
    """s is the sum of the amounts of the (single) payout family"""
    if s.op != 'sum' or len(ms) != 1:
        return False
    x = ms[0]
    if len(x.bases) != 1:
        return False
    b, g, e = iterate(s.args[0])
    if unalias(strip_sort(b)) is not unalias(strip_sort(x.bases[0])):
        return False
    if core.B.implies(close(And(c, Not(empty(b)))), g) is False:
        return False
    coins = [v for g_, bs, v in walk_coll(x.amount, 1)]
    if len(coins) != 1:
        return False
    amt = F(coins[0], 'amount')
    amt = core.rename_base(amt, x.bases[0], b) if x.bases[0] is not b else amt
    # the family itself must not be filtered further
    return amt is e and core.B.implies(close(And(c, x.R.okg, Not(empty(b)))), core.rename_base(x._raw, x.bases[0], b) if x.bases[0] is not b else x._raw)


def strip_sort(b):
    while b.op == 'sorted':
        b = b.args[0]
    return b


def paid_from(x, k):
    cons = set()
    for b in x.bases:
        for t in subterms(b):
            if isinstance(t, Term) and t.op == 'load' and t.args[0] == 'tallies':
                cons.add(field(t.args[1], '0'))
    return cons == {k}


def W04(C):
    """participation is credited once per call, to the caller's own tally, in the epoch of the event"""
    n = 0
    R = C.run(RW, 'execute', 'RecordParticipation')
    worker = addr(inp('msg.RecordParticipation.worker_address'))
    evid = inp('msg.RecordParticipation.event_id')
    for R2 in C.all_runs(RW):
        for e in C.writes(R2, 'events') + C.writes(R2, 'tallies'):
            if R2 is R and e.kind == 'save':
                continue
            C.check(False, 'only-recording', '%s: %s' % (R2.name, e.site()), 'participation records are changed by another message or removed', e.loc())
    evkeys = []
    evw = 0
    for e in C.saves(R, 'events'):
        n += 1
        site = '%s: %s' % (R.name, e.site())
        k0, k1 = field(e.key, '0'), field(e.key, '1')
        C.check(k0 in (evid, field(evid, '0')) and k1 is sender(), 'event-key', site, 'an event is not recorded under its id and the calling contract: ' + show(e.key), e.loc())
        C.implies(e.guard, Not(has('events', e.key)), 'event-once', site, 'the epoch of a known event is overwritten', e.loc())
        C.check(is_current_epoch(F(e.val, 'epoch_num'), e.guard), 'event-epoch', site, 'a new event is not assigned to the current epoch: ' + show(F(e.val, 'epoch_num')), e.loc())
        C.same(e.guard, F(e.val, 'contract'), sender(), 'event-contract', site, 'a new event names another contract', e.loc())
        evkeys.append(e.key)
        evw = Or(evw, e.guard)
    if not C.check(len(set(evkeys)) == 1, 'event', R.name, 'events are not recorded'):
        return
    ek = evkeys[0]
    known = has('events', ek)
    C.implies(And(R.okg, Not(known)), evw, 'event-recorded', R.name, 'a new event is not recorded')
    tot = 0
    for e in C.saves(R, 'tallies'):
        n += 1
        site = '%s: %s' % (R.name, e.site())
        loads = [t for t in subterms(e.val) if isinstance(t, Term) and t.op == 'load' and t.args[0] == 'tallies']
        lk = sorted({t.args[1] for t in loads}, key=lambda t: t.id)
        if not C.check(len(lk) == 1, 'tally-key', site, 'the tally is not built from exactly one stored tally', e.loc()):
            continue
        lk = lk[0]
        con, ep = field(lk, '0'), field(lk, '1')
        C.check(con is sender(), 'tally-own', site, 'participation is recorded for a contract other than the caller: ' + show(con), e.loc())
        C.same(And(e.guard, known), ep, F(ld('events', ek), 'epoch_num'), 'tally-epoch', site, 'participation in a known event is not recorded in the epoch of the event', e.loc())
        C.check(is_current_epoch(under(ep, And(e.guard, Not(known))), And(e.guard, Not(known))), 'tally-epoch', site, 'participation in a new event is not recorded in the current epoch', e.loc())
        old = ld('tallies', lk)
        ex = has('tallies', lk)
        # written back under the key it was loaded from (stored tallies carry their own key)
        k0, k1 = field(e.key, '0'), field(e.key, '1')
        C.check(all(x is con or x is F(old, 'contract') for c, x in split(k0, e.guard)), 'tally-back', site, 'the tally is stored under another contract: ' + show(k0), e.loc())
        C.check(all(x is F(old, 'epoch', 'epoch_num') or same(And(c, Not(known)), x, under(ep, And(c, Not(known)))) for c, x in split(k1, e.guard)), 'tally-back', site, 'the tally is stored under another epoch: ' + show(k1), e.loc())
        for f in (('contract',), ('epoch',), ('params',)):
            C.same(And(e.guard, ex), F(e.val, *f), F(old, *f), 'tally-fixed', site + ' ' + f[0], 'field %s of an existing tally changes' % f[0], e.loc())
        C.same(And(e.guard, Not(ex)), F(e.val, 'contract'), sender(), 'tally-new', site, 'a new tally names another contract', e.loc())
        C.same(And(e.guard, Not(ex)), F(e.val, 'params'), F(ld('params'), 'params'), 'tally-new', site + ' params', 'a new tally does not use the parameters in force', e.loc())
        nep = F(e.val, 'epoch', 'epoch_num')
        C.check(is_current_epoch(nep, And(e.guard, Not(ex))), 'tally-new', site + ' epoch', 'a new tally does not name the current epoch', e.loc())
        # counts
        for c, x in resolve(F(e.val, 'event_count'), And(e.guard, ex, Not(known))):
            C.check(minus(addends(x), cint(1)) == [F(old, 'event_count')], 'event-count', site, 'a new event does not raise the event count by one: ' + show(x), e.loc())
        for c, x in resolve(F(e.val, 'event_count'), And(e.guard, ex, known)):
            C.check(x is F(old, 'event_count'), 'event-count', site, 'a known event changes the event count: ' + show(x), e.loc())
        for c, x in resolve(F(e.val, 'event_count'), And(e.guard, Not(ex), Not(known))):
            C.check(x.op == 'int' and x.args[0] == 1, 'event-count', site, 'the first event of a tally does not set the event count to one: ' + show(x), e.loc())
        part = F(e.val, 'participation')
        op = F(old, 'participation')
        for c, x in split(part, e.guard):
            c = close(c)
            if c == 0:
                continue
            C.check(one_more(x, c, op, ex, worker), 'participation', site, 'the call does not raise exactly the named worker\'s participation by one: ' + show(x), e.loc())
        tot = Or(tot, e.guard)
    C.implies(R.okg, tot, 'effective', R.name, 'participation is accepted without being recorded')
    C.floor('event and tally writes', n, 2)


def one_more(x, c, op, ex, w):
    """x = op (or an empty map when no tally exists) with the count of w raised by one"""
    if x.op != 'put':
        return False
    m, k, v = x.args
    if k is not w:
        return False
    # the map written to: the stored participation, or empty; possibly after inserting a zero for w
    for c1, b in split(m, c):
        c1 = close(c1)
        if c1 == 0:
            continue
        while b.op == 'put' and b.args[1] is w:
            b = b.args[0]
        if b is op or core.B.implies(c1, Not(ex)):
            continue
        return False
    pres = core.atom('has', op, w)
    for c1, n in resolve(v, c):
        if n.op == 'int':
            # one: only when there was no entry
            if n.args[0] == 1 and core.B.implies(c1, Or(Not(ex), Not(pres))):
                continue
            return False
        r = minus(addends(n), cint(1))
        if r is None or len(r) != 1 or r[0].op not in ('get', 'mapget') or r[0].args[1] is not w:
            return False
    return True


def W05(C):
    """equal shares of the tally's own reward among those at or above its own threshold"""
    R = C.run(RW, 'execute', 'DistributeRewards')
    n = 0
    for x in C.msgs(R):
        if x.kind != 'send':
            continue
        site = R.name
        bases = list(x.bases)
        C.check(len(bases) == 1, 'per-worker', site, 'payouts are not one per entry of the accumulated rewards')
        comps = [t for b in bases for t in subterms(b) if isinstance(t, Term) and t.op == 'comp']
        shares = []
        for t in comps:
            b, g, e = iterate(t)
            bb = unalias(b)
            if bb.op == 'field' and bb.args[1] == 'participation' and bb.args[0].op == 'load' and e.op == 'agg' and len(e.args[3]) == 2:
                shares.append((t, b, g, e))
        C.check(len(shares) >= 1, 'shares', site, 'the payouts do not derive from the participation of an epoch tally')
        for t, b, g, e in shares:
            n += 1
            tally = unalias(b).args[0]
            who, amt = field(e, '0'), field(e, '1')
            pk = field(elem(b), '0')
            C.check(strip_addr(who) is pk, 'payee', site, 'the reward of a worker is assigned to %s' % show(who))
            C.check(eligible(g, b, tally), 'threshold', site, 'the rewarded workers are not exactly those whose participation reaches the threshold of the tally: ' + trim(showb(g)))
            good = False
            for c, a in resolve(amt, g):
                total = F(tally, 'params', 'rewards_per_epoch')
                good = a.op == 'div' and a.args[0] in (total, field(total, '0')) and a.args[1].op == 'len' and same_members(a.args[1].args[0], b, g)
            C.check(good, 'equal-share', site, 'a share is not the reward per epoch of the tally divided by the number of rewarded workers: ' + show(amt))
        # accumulation over epochs and workers only ever adds
        for b in bases:
            bb = unalias(strip_sort(b))
            C.check(accumulates(bb), 'accumulate', site, 'rewards of several epochs are not added up per worker: ' + trim(show(bb)))
        C.check(x.to is field(elem(bases[0]), '0'), 'receiver', site, 'a payout is sent to %s' % show(x.to))
    C.floor('reward shares', n, 1)


def strip_addr(t):
    while t.op in ('unchecked', 'addr') or t.op == 'call' and len(t.args) == 2 and isinstance(t.args[1], Term):
        t = t.args[-1]
    return t


def same_members(c, b, g):
    b2, g2, e2 = iterate(c)
    if unalias(b2) is not unalias(b):
        return False
    g2 = core.rename_base(g2, b2, b) if b2 is not b else g2
    return g2 == g


def eligible(g, b, tally):
    cnt = field(elem(b), '1')
    evc = F(tally, 'event_count')
    thr = F(tally, 'params', 'participation_threshold')
    # participations / events, both positive and not above one, is not below the threshold of the tally
    num, den = F(thr, 'numerator'), F(thr, 'denominator')
    z = cint(0)
    harmless = [eq(z, cnt), eq(z, evc), lt(evc, cnt)]
    core_ = None
    rest = g
    for a in atoms_of(g):
        v = core.W.var_of[a]
        if a.op == 'lt' and [sorted(x.id for x in factors(y)) for y in a.args] == [sorted(x.id for x in l) for l in ([cnt, bare(den)], [bare(num), evc])]:
            core_ = v
        elif a.op == 'lt' and a.args[1] is thr and list(ratio(a.args[0])) == [cnt, evc]:
            core_ = v
        elif v not in harmless:
            return False
    return core_ is not None and g in wanted(core_, harmless)


def wanted(c, harmless):
    out = []
    for k in range(8):
        x = core.B.not_(c)
        for i in range(3):
            if k >> i & 1:
                x = core.B.and_(x, core.B.not_(harmless[i]))
        out.append(x)
    return out


def bare(t):
    while t.op == 'field' and t.args[1] == '0':
        t = t.args[0]
    return t


def factors(t):
    if t.op == 'mul':
        return factors(t.args[0]) + factors(t.args[1])
    return [bare(t)]


def ratio(t):
    out = []

    def go(x):
        if x.op == 'call':
            for y in x.args:
                if isinstance(y, Term):
                    go(y)
        elif x.op == 'agg':
            for y in x.args[3]:
                go(y)
        else:
            out.append(x)
    go(t)
    return out


def accumulates(t, depth=0):
    """t is built from an empty map by adding amounts to entries, nothing else"""
    if t.op == 'loopout':
        base, init, step = t.args[:3]
        return (is_empty_map(init) or init.op == 'lv' or accumulates(init, depth + 1)) and accumulates(step, depth + 1)
    if t.op == 'phi':
        return all(l.op == 'lv' or accumulates(l, depth + 1) for g, l in t.args[0])
    if t.op == 'put':
        m, k, v = t.args
        okv = (v.op == 'int' and v.args[0] == 0)
        if not okv:
            a = addends(v)
            gets = [x for x in a if x.op in ('get', 'mapget')]
            okv = len(a) == 2 and len(gets) == 1 and gets[0].args[1] is k
            if not okv and len(a) == 1:
                # first amount of a key
                okv = v.op == 'field' and k.op == 'field' and v.args[0] is k.args[0]
        return okv and (m.op == 'lv' or is_empty_map(m) or accumulates(m, depth + 1))
    if t.op == 'mapacc':
        init, base, bg, k, v = t.args
        if not (is_empty_map(init) or init.op == 'lv' or accumulates(init, depth + 1)):
            return False
        for c, x in resolve(v, 1):
            a = addends(x)
            gets = [y for y in a if y.op in ('get', 'mapget') and y.args[1] is k]
            if len(a) == 2 and len(gets) == 1:
                continue
            # first amount of a key
            seen = [y for y in atoms_of(c) if y.op == 'has' and y.args[-1] is k] or [y for y in atoms_of(c) if any(z is k for z in subterms(y))]
            if len(a) == 1 and not gets and any(core.B.implies(c, core.B.not_(core.W.var_of[y])) for y in seen):
                continue
            return False
        return True
    if t.op == 'lv':
        return True
    return is_empty_map(t)


def is_empty_map(t):
    return t.op == 'list' and not t.args[0] or t.op in ('mapof', 'setof') and is_empty_map(t.args[0])
