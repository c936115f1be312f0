"""multisig-prover: worker sets, batches, signing sessions, proofs"""
from rules.lib import *
from rules.multisig import content_hash, KT
from rules.voting import bare, strip
import core

PR = 'multisig_prover'
CUR = lambda: ld('current_worker_set')
NXT = lambda: ld('next_worker_set')


def cfg(*n):
    return F(ld('config'), *n)


def is_abi(t):
    return variant(t, 'Abi')


def pname(t):
    """last path segment of an uninterpreted call"""
    return t.args[0].split('::')[-1] if t.op == 'call' else None


def num(t):
    """a number behind its conversions (parse(to_string(x)), from_be(to_be(x)), newtypes)"""
    while True:
        if t.op == 'call' and pname(t) in ('parse', 'from_str') and t.args[1].op == 'str':
            t = t.args[1].args[0]
        elif t.op == 'call' and pname(t) == 'parse' and t.args[1].op == 'strc' and t.args[1].args[0].isdigit():
            return cint(int(t.args[1].args[0]))
        elif t.op == 'call' and pname(t) == 'from_big_endian' and len(t.args) == 2 and pname(t.args[1]) == 'to_be_bytes':
            t = t.args[1].args[1]
        elif t.op == 'call' and pname(t) in ('try_from', 'try_into', 'from', 'into') and len(t.args) == 2:
            t = t.args[1]
        elif t.op == 'field' and t.args[1] in ('0', 'Ok.0') and t.args[0].op in ('call', 'field'):
            t = t.args[0]
        else:
            b = bare(t)
            if b is t:
                return t
            t = b


def queries_of(R, var):
    """query terms with the given message variant anywhere in the analysed values"""
    out = []
    for e in R.effs:
        if e.kind == 'query' and e.val.op == 'query':
            m = e.val.args[2]
            if m.op == 'agg' and m.args[1] == var and e.val not in out:
                out.append(e.val)
    return out


def qmsg(q, name):
    return field(q.args[2], name, q.args[2].args[1])


def new_tokens(t):
    return t


# ---------------------------------------------------------------- worker sets

def source_of(t):
    """the collection behind reorderings"""
    return unalias(t)


def workers_of(v):
    s = F(v, 'signers')
    b, g, e = iterate(s.args[0] if s.op == 'mapof' else s)
    return unalias(b), b, g, e


def fresh(C, R, e, g, v, site):
    """v is a worker set made from the registry's and the multisig's present answers"""
    if not C.check(v.op == 'agg' and 'signers' in v.args[2], 'made', site, 'the worker set is not made from the current workers: ' + trim(show(v)), e.loc()):
        return None
    W, b, gg, x = workers_of(v)
    okq = W.op == 'query' and W.args[2].op == 'agg' and W.args[2].args[1] == 'GetActiveWorkers'
    if not C.check(okq, 'workers', site, 'the signers do not come from the registry\'s active workers: ' + trim(show(W)), e.loc()):
        return None
    C.check(W.args[1] is cfg('service_registry'), 'workers', site + ' registry', 'the workers are asked from %s' % show(W.args[1]), e.loc())
    C.check(strip(qmsg(W, 'service_name')) is cfg('service_name') and strip(qmsg(W, 'chain_name')) is cfg('chain_name'), 'workers', site + ' service', 'the workers of another service or chain are asked for: ' + show(W.args[2]), e.loc())
    C.implies(g, Not(gg) if False else forall(W, core.rename_base(gg, b, W) if b is not W else gg), 'all', site, 'some active workers are left out of the set', e.loc())
    w = elem(b)
    who = F(w, 'address')
    C.check(F(v, 'signers').op == 'mapof' and strip(field(x, '0')) is who, 'key', site, 'a signer is stored under ' + show(field(x, '0')), e.loc())
    s = field(x, '1')
    C.check(strip(F(s, 'address')) is who, 'address', site, 'the signer\'s address is ' + show(F(s, 'address')), e.loc())
    pk = F(s, 'pub_key')
    okk = pk.op == 'query' and pk.args[2].op == 'agg' and pk.args[2].args[1] == 'GetPublicKey'
    C.check(okk and pk.args[1] is cfg('multisig') and strip(qmsg(pk, 'worker_address')) is who and qmsg(pk, 'key_type') is cfg('key_type'),
            'pubkey', site, 'the key of a signer is not the one the multisig reports for its address and the configured type: ' + trim(show(pk)), e.loc())
    wt = core.rename_base(bare(F(s, 'weight')), b, W) if b is not W else bare(F(s, 'weight'))
    q = bare(F(v, 'threshold'))
    good = q.op == 'mul_ceil' and strip0(q.args[1]) is cfg('signing_threshold') and q.args[0].op == 'sum'
    if good:
        b2, g2, x2 = iterate(q.args[0].args[0])
        x2 = core.rename_base(bare(x2), b2, W) if b2 is not W else bare(x2)
        good = unalias(b2) is W and g2 == 1 and x2 is wt
    C.check(good, 'threshold', site, 'the threshold is not the signing threshold applied (rounding up) to the total weight: ' + trim(show(q)), e.loc())
    C.same(g, F(v, 'created_at'), height(), 'created', site, 'the set is not dated to the present block', e.loc())
    return W, s, b


def strip0(t):
    while t.op == 'field' and t.args[1] == '0':
        t = t.args[0]
    return bare(t)


def set_writes(C, ns):
    for R in C.all_runs(PR):
        for e in C.writes(R, ns):
            if e.kind == 'remove':
                yield R, e, e.guard, None
                continue
            for g, v in split(e.val, e.guard):
                g = close(g)
                if g != 0:
                    yield R, e, g, v


def is_fresh(v):
    return v.op == 'agg' and 'signers' in v.args[2]


def confirmed(R):
    """condition that the voting verifier confirms the pending set"""
    c = 0
    for q in queries_of(R, 'IsWorkerSetVerified'):
        if q.args[1] is cfg('voting_verifier'):
            c = Or(c, And(core.atom('qok', q), truth(q)))
    return c


def P01(C):
    n = m = 0
    for R, e, g, v in set_writes(C, 'current_worker_set'):
        site = e.site() + ' ' + R.name
        n += 1
        if not C.check(v is not None, 'removed', site, 'the current worker set is removed', e.loc()):
            continue
        if is_fresh(v):
            C.implies(g, Not(has('current_worker_set')), 'first', site, 'an existing worker set is replaced by one that was not confirmed', e.loc())
        else:
            C.same(g, v, NXT(), 'pending', site, 'the new worker set is not the pending one', e.loc())
            C.implies(g, has('next_worker_set'), 'pending-exists', site, 'a worker set is confirmed although none is pending', e.loc())
            C.implies(g, confirmed(R), 'confirmed', site, 'the current worker set is replaced without confirmation of the pending one by the voting verifier', e.loc())
            rem = Or(*[x.guard for x in C.writes(R, 'next_worker_set') if x.kind == 'remove'])
            C.implies(g, rem, 'cleared', site, 'the confirmed set stays pending', e.loc())
            for q in queries_of(R, 'IsWorkerSetVerified'):
                operators(C, g, qmsg(q, 'new_operators'), NXT(), site)
        reg = 0
        for x in C.msgs(R):
            if x.kind == 'execute' and x.variant() == 'RegisterWorkerSet':
                m += 1
                C.same(x.guard, x.to, cfg('multisig'), 'registered-at', site, 'the worker set is registered at %s' % show(x.to), e.loc())
                if same(close(And(x.guard, g)), field(x.body, 'worker_set', 'RegisterWorkerSet'), v):
                    reg = Or(reg, x.guard)
        C.implies(g, reg, 'registered', site, 'the new current worker set is not registered with the multisig', e.loc())
    for R, e, g, v in set_writes(C, 'next_worker_set'):
        if v is None:
            n += 1
            saved = Or(*[x.guard for x in C.saves(R, 'current_worker_set')])
            C.implies(g, And(confirmed(R), saved), 'dropped', e.site() + ' ' + R.name, 'a pending worker set is dropped without taking its place', e.loc())
    for R in C.all_runs(PR):
        for x in C.msgs(R):
            if x.variant() == 'RegisterWorkerSet':
                saved = Or(*[y.guard for y in C.saves(R, 'current_worker_set')])
                C.implies(x.guard, saved, 'only-current', '%s %s' % (R.name, x.site()), 'a worker set is registered that does not become the current one')
    R = C.run(PR, 'execute', 'ConfirmWorkerSet')
    C.implies(R.ok, Or(*[x.guard for x in C.saves(R, 'current_worker_set')]), 'effect', R.name, 'the confirmation succeeds without effect')
    C.floor('worker set changes', n, 3)
    C.floor('registrations', m, 2)


def pkbytes(pk):
    ec = variant(pk, 'Ecdsa', KT)
    return phi([(ec, field(pk, '0', 'Ecdsa')), (Not(ec), field(pk, '0', 'Ed25519'))])


def is_evm_address(t, pk, g):
    """t = last 20 bytes of keccak(uncompressed point without its tag) of the key"""
    if pname(t) in ('from_slice', 'from') and len(t.args) == 2 and 'H160' in t.args[0] or t.op == 'call' and 'Address' in str(t.args[0]):
        t = t.args[1]
    ok1 = t.op == 'idx' and rng(t.args[1]) == (12, None) and t.args[0].op == 'digest' and 'Keccak256' in t.args[0].args[0]
    if not ok1:
        return False
    p = t.args[0].args[1]
    p = p.args[0][0] if p.op == 'list' and len(p.args[0]) == 1 else p
    if not (p.op == 'idx' and rng(p.args[1]) == (1, None) and pname(p.args[0]) == 'as_bytes'):
        return False
    q = p.args[0].args[1]
    if not (pname(q) == 'to_encoded_point' and q.args[2].op == 'b' and q.args[2].args[0] == 0):
        return False
    k = q.args[1]
    while k.op == 'field':
        k = k.args[0]
    return pname(k) == 'from_sec1_bytes' and same(g, k.args[1], pkbytes(pk))


def rng(t):
    """(start, end) of a literal range"""
    if t.op == 'agg' and 'Range' in t.args[0]:
        f = dict(zip(t.args[2], t.args[3]))
        v = lambda n: f[n].args[0] if n in f and f[n].op == 'int' else None
        if any(x.op != 'int' for x in t.args[3]):
            return None
        return (v('start') if 'start' in f else 0, v('end'))
    return None


def sorted_by(b, key, way='asc'):
    """the traversal b is sorted by key first"""
    while b.op == 'again' and len(b.args) == 1:
        b = b.args[0]
    if not (b.op == 'again' and b.args[1] == 'sort' and b.args[2].op == way):
        return False
    k = b.args[2].args[0]
    inner = b.args[0]
    if k.op == 'agg' and k.args[0] == 'tuple' and k.args[3]:
        k = k.args[3][0]
    k = core.rename_base(k, inner, b)
    return k is key or same(1, k, key)


def operator_lists(C, g, base, coll_addr, coll_w, pk, weight, abi, rule, site, addr_term=lambda t: t, w_term=lambda t: t):
    """coll_addr and coll_w list, in one ascending order of address, address and weight of every member of base"""
    b, gg, x = iterate(coll_addr)
    a = addr_term(x)
    ok_ = unalias(b) is base and holds(g, forall(b, gg))
    C.check(ok_, rule, site + ' members', 'the operators listed are not exactly the signers: ' + trim(show(coll_addr)))
    if not ok_ or a is None:
        C.check(a is not None, rule, site + ' address form', 'unexpected form of an operator address')
        return None
    el = elem(b)
    key = pk(el)
    good = is_evm_address(a, key, 1) if abi else same(1, strip(a), pkbytes(key))
    C.check(good, rule, site + ' address', 'the operator address is not derived from the signer\'s key: ' + trim(show(a)))
    b2, gg2, y = iterate(coll_w)
    y = w_term(y)
    C.check(b2 is b and holds(g, forall(b2, gg2)), rule, site + ' weights', 'the weights are not listed for the same operators in the same order')
    if y is not None:
        C.check(num(y) is num(weight(elem(b2))), rule, site + ' weight', 'the weight listed for an operator is ' + trim(show(y)))
    raw = a
    if abi and pname(raw) in ('from_slice', 'from') and len(raw.args) == 2:
        raw = raw.args[1]
    C.check(sorted_by(b, raw) or sorted_by(b, a), rule, site + ' order', 'the operators are not in ascending order of address')
    return b


def set_members(v):
    """(base, signer of a base element) of a worker set"""
    s = F(v, 'signers')
    if s.op == 'mapof':
        b, g, e = iterate(s.args[0])
        return unalias(b), lambda el: (lambda x: x)(core.rename_base(field(e, '1'), b, unwrap_elem(el)))
    return s, lambda el: field(el, '1')


def unwrap_elem(el):
    return el.args[0]


def operators(C, g, ops, st, site):
    """ops = the operators of worker set st in the configured encoding"""
    base, signer = set_members(st)
    w = F(ops, 'weights_by_addresses')
    for abi in (True, False):
        c = close(And(g, is_abi(cfg('encoder')) if abi else Not(is_abi(cfg('encoder')))))
        if c == 0:
            continue
        t = under(w, c)
        b, gg, x = iterate(t)
        operator_lists(C, c, base, core.comp(b, gg, field(x, '0')), core.comp(b, gg, field(x, '1')),
                       lambda el: F(signer(el), 'pub_key'), lambda el: F(signer(el), 'weight'), abi, 'operators', '%s %s' % (site, 'abi' if abi else 'bcs'))
    C.check(num(F(ops, 'threshold')) is num(F(st, 'threshold')), 'operators', site + ' threshold', 'the threshold asked about is ' + show(F(ops, 'threshold')))


def count_of(t):
    """(base, condition) counted by t"""
    if t.op == 'castnum':
        t = t.args[1]
    if t.op == 'len':
        b, g, e = iterate(t.args[0])
        return b, g
    if t.op == 'sum':
        b, g, e = iterate(t.args[0])
        if e is cint(1):
            return b, g
    return None, None


def changed(C, g, v):
    """the condition (found in g) that more signers than tolerated differ between v and the current set"""
    W, b, gg, x = workers_of(v)
    s = core.rename_base(field(x, '1'), b, W) if b is not W else field(x, '1')
    cs = F(CUR(), 'signers')
    eqn = eq(s, F(elem(cs), '1'))
    gone = 0
    for a in atoms_of(g):
        if a.op != 'lt':
            continue
        lo, hi = a.args
        if num2(lo) is not cfg('worker_set_diff_threshold'):
            continue
        ps = addends(hi)
        if len(ps) != 2:
            continue
        got = set()
        for p in ps:
            bb, pg = count_of(p)
            if bb is None:
                continue
            if unalias(bb) is W and (core.rename_base(pg, bb, W) if bb is not W else pg) == forall(cs, Not(eqn)):
                got.add('new')
            if unalias(bb) is cs and (core.rename_base(pg, bb, cs) if bb is not cs else pg) == forall(W, Not(eqn)):
                got.add('old')
        if got == {'new', 'old'}:
            gone = Or(gone, core.W.var_of[a])
    return gone


def num2(t):
    return t.args[1] if t.op == 'castnum' else t


def P02(C):
    n = 0
    for R, e, g, v in set_writes(C, 'next_worker_set'):
        if v is None:
            C.check(R.name.endswith('ConfirmWorkerSet'), 'dropped', e.site() + ' ' + R.name, 'a pending worker set is dropped', e.loc())
            continue
        n += 1
        site = e.site() + ' ' + R.name
        if not C.check(is_fresh(v), 'made', site, 'the pending worker set is not made from the current workers: ' + trim(show(v)), e.loc()):
            continue
        C.implies(g, has('current_worker_set'), 'current', site, 'a next worker set is set up although there is no current one', e.loc())
        C.implies(g, changed(C, g, v), 'changed', site, 'a next worker set is set up although no more signers than tolerated differ', e.loc())
        same_set = And(eq(F(v, 'signers'), F(NXT(), 'signers')), eq(F(v, 'threshold'), F(NXT(), 'threshold')))
        C.implies(g, Or(Not(has('next_worker_set')), same_set), 'pending', site, 'a pending worker set is replaced by a different one', e.loc())
        # the set that becomes pending is the one being handed over to
        bs = [x for x in C.saves(R, 'command_batch')]
        tot = 0
        for x in bs:
            for gg, bt in split(x.val, x.guard):
                for g2, bs2, c in walk_coll(F(bt, 'data', 'commands'), gg):
                    if is_transfer(c) and content_hash(F(c, 'id'), v):
                        tot = Or(tot, g2)
        # ... in a new batch, or in the one already stored under the id that batch would get
        for cg, cb, x in reused(C, R):
            for gg, bt in split(x.val, x.guard):
                for g2, bs2, c in walk_coll(F(bt, 'data', 'commands'), gg):
                    if is_transfer(c) and content_hash(F(c, 'id'), v):
                        tot = Or(tot, And(core.B.restrict(g2, close(x.guard)), cg))
        C.implies(g, tot, 'handover', site, 'a set becomes pending without being handed over to in the batch', e.loc())
    C.floor('pending set writes', n, 2)


def P03(C):
    n = 0
    for ns in ('current_worker_set', 'next_worker_set'):
        for R, e, g, v in set_writes(C, ns):
            if v is not None and is_fresh(v):
                n += 1
                fresh(C, R, e, g, v, e.site() + ' ' + R.name)
    C.floor('worker sets made', n, 3)


# ---------------------------------------------------------------- batches

def is_transfer(c):
    ty = F(c, 'ty')
    return ty.op == 'agg' and ty.args[1] == 'TransferOperatorship'


def is_approve(c):
    ty = F(c, 'ty')
    return ty.op == 'agg' and ty.args[1] == 'ApproveContractCall'


def batches(C):
    """[(R, eff, guard, batch)]"""
    out = []
    for R in C.all_runs(PR):
        for e in C.writes(R, 'command_batch'):
            if e.kind == 'remove':
                C.check(False, 'removed', e.site() + ' ' + R.name, 'a batch is removed', e.loc())
                continue
            for g, v in split(e.val, e.guard):
                g = close(g)
                if g != 0:
                    out.append((R, e, g, v))
    return out


def P04(C):
    n = k = 0
    R = C.run(PR, 'execute', 'ConstructProof')
    ids = inp('msg.ConstructProof.message_ids')
    ms = queries_of(R, 'GetMessages')
    C.floor('message queries', len(ms), 1)
    for M in ms:
        C.check(M.args[1] is cfg('gateway'), 'gateway', R.name, 'the messages are asked from %s' % show(M.args[1]))
        C.check(coll_all(qmsg(M, 'message_ids'), ids), 'requested', R.name, 'the messages asked for are not the requested ones: ' + trim(show(M.args[2])))
        C.implies(R.ok, eq(length(M), length(ids)), 'complete', R.name, 'the number of messages proven may differ from the number requested')
        C.implies(R.ok, forall(M, eq(F(elem(M), 'destination_chain'), cfg('chain_name'))), 'chain', R.name, 'a message for another chain may be proven')
    for R, e, g, bt in batches(C):
        n += 1
        site = e.site() + ' ' + R.name
        C.same(g, e.key, F(bt, 'id'), 'own-id', site, 'a batch is stored under an id other than its own', e.loc())
        C.same(g, F(bt, 'encoder'), cfg('encoder'), 'encoder', site, 'the encoding of the batch is not the configured one', e.loc())
        C.same(g, F(bt, 'data', 'destination_chain_id'), cfg('destination_chain_id'), 'chain-id', site, 'the batch is for another chain id', e.loc())
        M = queries_of(R, 'GetMessages')
        mid = under(F(bt, 'message_ids'), g)
        if M:
            C.check(coll_all(mid, M[0], lambda x: F(x, 'cc_id')), 'ids', site, 'the batch does not name exactly the messages it contains: ' + trim(show(mid)), e.loc())
        else:
            C.check(mid.op == 'list' and not mid.args[0], 'ids', site, 'the batch names messages it does not contain', e.loc())
        appr = 0
        cnt = 0
        tcount = []
        for g2, bs, c in walk_coll(F(bt, 'data', 'commands'), g):
            g2 = close(g2)
            if g2 == 0:
                continue
            k += 1
            if is_transfer(c):
                tcount.append(g2)
                saved = 0
                for x in C.saves(R, 'next_worker_set'):
                    for gg, v in split(x.val, x.guard):
                        if content_hash(F(c, 'id'), v):
                            saved = Or(saved, gg)
                C.implies(g2, saved, 'transfer', site, 'the batch hands over to a worker set that does not become pending', e.loc())
            else:
                C.check(is_approve(c), 'command-type', site, 'unexpected command: ' + trim(show(F(c, 'ty'))), e.loc())
                okb = len(bs) == 1 and M and unalias(bs[0]) is M[0]
                C.check(okb, 'command-source', site, 'a command is not for a message of the gateway', e.loc())
                if okb:
                    cnt += 1
                    gel = g2 if bs[0] is M[0] else core.rename_base(g2, bs[0], M[0])
                    appr = Or(appr, gel)
        for a in range(len(tcount)):
            for b in range(a):
                C.check(And(tcount[a], tcount[b]) == 0, 'one-transfer', site, 'a batch hands over twice', e.loc())
        if M:
            C.implies(g, forall(M[0], core.B.restrict(appr, close(g))), 'every-message', site, 'a message of the batch has no command', e.loc())
            C.check(cnt == 1, 'once', site, '%d families of commands for the messages' % cnt, e.loc())
    C.floor('batches', n, 2)
    C.floor('commands', k, 3)


def one(p):
    return p.args[0][0] if p.op == 'list' and len(p.args[0]) == 1 else p


def keccak(t):
    """the hashed value, or None"""
    while t.op in ('hex',):
        t = t.args[0]
    if t.op == 'digest' and 'Keccak256' in t.args[0]:
        return one(t.args[1])
    return None


def addr_str(t):
    """the string inside an Address"""
    return F(t, '0', '0')


def is_token(t, kind):
    return t.op == 'agg' and t.args[0].endswith('Token') and t.args[1] == kind


def tok(t, kind):
    return t.args[3][0] if is_token(t, kind) else mk('bot')


def P05(C):
    """content of commands"""
    n = m = 0
    for R, e, g, bt in batches(C):
        for g2, bs, c in walk_coll(F(bt, 'data', 'commands'), g):
            site = e.site() + ' ' + R.name
            if is_transfer(c):
                m += 1
                v = None
                for x in C.saves(R, 'next_worker_set'):
                    for gg, vv in split(x.val, x.guard):
                        if content_hash(F(c, 'id'), vv):
                            v = vv
                if not C.check(v is not None, 'transfer-id', site, 'the command that hands over does not identify the set: ' + trim(show(F(c, 'id'))), e.loc()):
                    continue
                base, signer = set_members(v)
                pk = lambda el: F(signer(el), 'pub_key')
                wt = lambda el: F(signer(el), 'weight')
                for abi in (True, False):
                    cc = close(And(g2, is_abi(cfg('encoder')) if abi else Not(is_abi(cfg('encoder')))))
                    if cc == 0:
                        continue
                    p = under(F(c, 'params'), cc)
                    s2 = '%s %s' % (site, 'abi' if abi else 'bcs')
                    parts = enc_abi(p) if abi else enc_bcs(p)
                    if not C.check(parts is not None and len(parts) == 3, 'transfer', s2, 'unexpected form of the handover parameters: ' + trim(show(p)), e.loc()):
                        continue
                    if abi:
                        parts = (tok(parts[0], 'Array'), tok(parts[1], 'Array'), tok(parts[2], 'Uint'))
                    operator_lists(C, cc, base, parts[0], parts[1], pk, wt, abi, 'transfer', s2,
                                   (lambda t: tok(t, 'Address')) if abi else (lambda t: t), (lambda t: tok(t, 'Uint')) if abi else (lambda t: t))
                    C.check(num(parts[2]) is num(F(v, 'threshold')), 'transfer', s2 + ' threshold', 'the handover threshold is ' + trim(show(parts[2])), e.loc())
                continue
            if len(bs) != 1:
                continue
            x = elem(bs[0])
            n += 1
            h = keccak(F(c, 'id'))
            C.check(h is not None and h is mk('str', F(x, 'cc_id')), 'command-id', site, 'the command id is not the hash of the message id: ' + trim(show(F(c, 'id'))), e.loc())
            for abi in (True, False):
                cc = close(And(g2, is_abi(cfg('encoder')) if abi else Not(is_abi(cfg('encoder')))))
                if cc == 0:
                    continue
                s2 = '%s %s' % (site, 'abi' if abi else 'bcs')
                p = under(F(c, 'params'), cc)
                parts = enc_abi(p) if abi else enc_bcs(p)
                if not C.check(parts is not None and len(parts) >= 4, 'params', s2, 'unexpected form of the command parameters: ' + trim(show(p)), e.loc()):
                    continue
                if abi:
                    kinds = ('String', 'String', 'Address', 'FixedBytes')
                    parts = tuple(tok(t, kd) for t, kd in zip(parts, kinds))
                chain, src, dst, ph = parts[:4]
                C.check(strip(chain) is F(x, 'cc_id', 'chain'), 'params', s2 + ' chain', 'the source chain given is ' + trim(show(chain)), e.loc())
                C.check(strip(src) is addr_str(F(x, 'source_address')) or strip(src) is F(x, 'source_address'), 'params', s2 + ' source', 'the source address given is ' + trim(show(src)), e.loc())
                C.check(ph is F(x, 'payload_hash'), 'params', s2 + ' payload', 'the payload hash given is ' + trim(show(ph)), e.loc())
                C.check(decoded(dst, addr_str(F(x, 'destination_address'))), 'params', s2 + ' destination', 'the destination given is ' + trim(show(dst)), e.loc())
    C.floor('message commands', n, 1)
    C.floor('handover commands', m, 2)


DECODERS = ('parse', 'from_str', 'from_hex', 'try_from', 'try_into', 'to_vec', 'strip_prefix', 'trim_start_matches', 'as_slice', 'to_array', 'decode', 'unwrap_or', 'from')


def decoded(t, s):
    """t is obtained from string s only by decoding"""
    if t is s:
        return True
    if t.op == 'phi':
        return all(decoded(l, s) for _, l in t.args[0])
    if t.op == 'field' and t.args[1] in ('Ok.0', 'Some.0', '0'):
        return decoded(t.args[0], s)
    if t.op in ('parsed', 'str'):
        return decoded(t.args[-1], s)
    if t.op == 'call' and pname(t) in DECODERS and len(t.args) >= 2:
        return decoded(t.args[1], s) and all(x.op == 'strc' for x in t.args[2:] if isinstance(x, Term))
    return False


def enc_abi(t):
    if t.op == 'call' and t.args[0].endswith('ethabi::encode') and len(t.args) == 2 and t.args[1].op == 'list':
        return t.args[1].args[0]
    return None


def enc_bcs(t):
    if t.op == 'call' and t.args[0].endswith('bcs::to_bytes') and len(t.args) == 2:
        x = t.args[1]
        if x.op == 'agg' and x.args[0] == 'tuple':
            return x.args[3]
    return None


def is_data(C, t, data, abi, c, rule, site):
    """t is the encoding of the batch data"""
    parts = enc_abi(t) if abi else enc_bcs(t)
    if not C.check(parts is not None and len(parts) == 4, rule, site + ' data', 'not an encoding of the data of the batch: ' + trim(show(t))):
        return
    if abi:
        parts = (tok(parts[0], 'Uint'),) + tuple(tok(x, 'Array') for x in parts[1:])
    C.check(same(c, num(under(parts[0], c)), F(data, 'destination_chain_id')), rule, site + ' chain id', 'the chain id encoded is ' + trim(show(parts[0])))
    cmds = under(F(data, 'commands'), c)
    b, g, e = iterate(cmds)
    names = (('id', 'FixedBytes'), ('ty', 'String'), ('params', 'Bytes'))
    for (nm, kd), coll in zip(names, parts[1:]):
        coll = under(coll, c)
        b2, g2, e2 = iterate(coll)
        if b2 is not b and b2.op == 'phi':
            b2 = under(b2, c)
        if abi:
            e2 = tok(e2, kd)
        want = F(e, nm)
        if b2 is not b and unalias(b2) is not unalias(b):
            # the encoder ran over the not yet simplified collection
            C.check(False, rule, site + ' ' + nm, 'the %ss encoded are not those of the commands: %s' % (nm, trim(show(coll))))
            continue
        bb = iterate(coll)[0]
        el0, el1 = elem(bb), elem(b)
        e2 = core.subst(e2, el0, el1) if el0 is not el1 else e2
        C.check(b2 is b and (g2 == g or holds(c, forall(b, eqg(g2, g)))), rule, site + ' %s all' % nm, 'some commands are not encoded, or in another order')
        C.check(plain(under(e2, c)) is plain(under(want, c)), rule, site + ' ' + nm, 'the %s encoded is %s' % (nm, trim(show(e2))))


def plain(t):
    while True:
        if t.op == 'call' and pname(t) in ('try_from', 'try_into', 'to_vec', 'into', 'from') and len(t.args) == 2:
            t = t.args[1]
        elif t.op in ('str',) and t.args[0].op != 'agg':
            t = t.args[0]
        elif t.op == 'field' and t.args[1] == 'Ok.0':
            t = t.args[0]
        elif t.op == 'str':
            return t.args[0]
        else:
            return t


def prefixed(t):
    """(prefix, rest) of a hashed concatenation"""
    t = one(t)
    if t.op == 'concat':
        l = t.args[0]
        if l.op == 'list' and len(l.args[0]) == 2 and l.args[0][0].op == 'strc':
            return l.args[0][0].args[0], l.args[0][1]
    if t.op == 'cat' and len(t.args[0]) == 2 and t.args[0][0].op == 'strc':
        return t.args[0][0].args[0], t.args[0][1]
    if t.op == 'list' and len(t.args[0]) == 2 and t.args[0][0].op == 'strc':
        return t.args[0][0].args[0], t.args[0][1]
    return None, None


PREFIX = {True: '\x19Ethereum Signed Message:\n32', False: '\x19Sui Signed Message:\n'}


def is_digest(C, t, data, abi, c, rule, site):
    h = keccak(t)
    pre, rest = prefixed(h) if h is not None else (None, None)
    if not C.check(pre == PREFIX[abi], rule, site + ' digest', 'the hash to sign is not the hash of the prefixed data: ' + trim(show(t))):
        return
    if abi:
        rest = keccak(rest)
        if not C.check(rest is not None, rule, site + ' digest', 'the data is not hashed before it is prefixed'):
            return
    is_data(C, rest, data, abi, c, rule, site)


def chosen(C, R):
    """[(guard, batch)] whose id is left for the reply"""
    out = []
    for e in C.writes(R, 'reply_tracker'):
        if e.kind != 'save':
            C.check(False, 'tracker', e.site() + ' ' + R.name, 'the batch in progress is forgotten', e.loc())
            continue
        for g, idv in split(e.val, e.guard):
            g = close(g)
            if g == 0:
                continue
            bt = None
            if idv.op == 'field' and idv.args[1] == 'id' and idv.args[0].op == 'load' and idv.args[0].args[0] == 'command_batch':
                bt = idv.args[0]
                C.implies(g, has('command_batch', bt.args[1]), 'stored', e.site() + ' ' + R.name, 'the batch to sign is not stored', e.loc())
            else:
                for x in C.saves(R, 'command_batch'):
                    for gg, v in split(x.val, x.guard):
                        if same(g, F(v, 'id'), idv) and holds(g, gg):
                            bt = v
            C.check(bt is not None, 'tracker', e.site() + ' ' + R.name, 'the id kept is not that of a stored batch: ' + trim(show(idv)), e.loc())
            if bt is not None:
                out.append((g, bt, e))
    return out


def reused(C, R):
    """[(guard, stored batch, save)] stored batches found under the id of a batch that this call would otherwise store"""
    out = []
    for g, bt, e in chosen(C, R):
        if bt.op != 'load':
            continue
        for x in C.saves(R, 'command_batch'):
            if x.key is bt.args[1] or same(1, x.key, bt.args[1]):
                out.append((g, bt, x))
                break
    return out


def P10(C):
    """stored batches never change"""
    n = 0
    for R, e, g, bt in batches(C):
        n += 1
        if B_implies(g, Not(has('command_batch', e.key))):
            C.check(True, 'unchanged', e.site() + ' ' + R.name, '')
            continue
        # otherwise the content must follow from the id and the configuration alone
        fixed = lambda t: t.op == 'load' and t.args[0] == 'config'
        def src(t):
            return {(x.op, x.args[0], show(x.args[1]), x.args[2].args[1] if x.args[2].op == 'agg' else x.args[2]) if x.op == 'query' else x
                    for x in leaves(t) if isinstance(x, Term) and x.op in ('in', 'load', 'query') and not fixed(x)}
        cmds = F(bt, 'data', 'commands')
        fam = [bs for g2, bs, c in walk_coll(cmds, g) if close(g2) != 0 and bs]
        extra = src(bt) - src(e.key)
        C.check(not extra and not fam, 'unchanged', e.site() + ' ' + R.name,
                'a batch that may be being signed is replaced by another one: nothing keeps a stored batch with this id, and its content is not fixed by the id: ' + trim(', '.join(sorted(show(x) if isinstance(x, Term) else str(x) for x in extra)) or 'order of the commands'), e.loc())
    C.floor('batches', n, 2)


def B_implies(g, p):
    c = close(g)
    return c == 0 or core.B.implies(c, p)


def P06(C):
    """signing sessions"""
    n = m = 0
    for R in C.all_runs(PR):
        starts = [x for x in C.msgs(R) if x.variant() == 'StartSigningSession']
        for x in C.msgs(R):
            C.check(x.kind == 'execute' and x.variant() in ('StartSigningSession', 'RegisterWorkerSet'), 'message', '%s %s' % (R.name, x.site()), 'unexpected message')
        ch = chosen(C, R)
        tot = 0
        for x in starts:
            n += 1
            site = '%s %s' % (R.name, x.site())
            f = lambda nm: field(x.body, nm, 'StartSigningSession')
            C.same(x.guard, x.to, cfg('multisig'), 'multisig', site, 'signatures are requested from %s' % show(x.to))
            C.check(x.funds is not None and x.funds.op == 'list' and not x.funds.args[0], 'funds', site, 'funds are sent along')
            wid = under(f('worker_set_id'), x.guard)
            C.check(content_hash(wid, CUR()), 'worker-set', site, 'the session is not for the current worker set: ' + trim(show(wid)))
            C.implies(x.guard, has('current_worker_set'), 'worker-set', site + ' exists', 'a session is started without a current worker set')
            C.same(x.guard, f('chain_name'), cfg('chain_name'), 'chain', site, 'the session is for chain ' + show(f('chain_name')))
            C.check(x.reply_on in ('Success', 'Always') and x.id is cint(1), 'reply', site, 'the session id is not awaited')
            tot = Or(tot, x.guard)
            cov = 0
            for g, bt, e in ch:
                c0 = close(And(g, x.guard))
                cov = Or(cov, g)
                if c0 == 0:
                    continue
                for abi in (True, False):
                    ea = is_abi(F(bt, 'encoder'))
                    c = close(And(c0, ea if abi else Not(ea)))
                    if c == 0:
                        continue
                    m += 1
                    is_digest(C, under(f('msg'), c), F(bt, 'data'), abi, c, 'digest', '%s %s %s' % (site, 'stored' if bt.op == 'load' else 'new', 'abi' if abi else 'bcs'))
            C.implies(x.guard, cov, 'tracked', site, 'a session is started without recording its batch')
        if R.name.split()[-1] == 'ConstructProof':
            C.implies(R.ok, tot, 'started', R.name, 'the request succeeds without starting a session')
        for i, x in enumerate(starts):
            for y in starts[:i]:
                C.check(And(x.guard, y.guard) == 0, 'once', R.name, 'two sessions are started')
    # the answer of the multisig
    R = C.run(PR, 'reply')
    k = 0
    for e in C.writes(R, 'multisig_session_batch'):
        k += 1
        C.check(e.kind == 'save' and e.val is ld('reply_tracker'), 'bind', e.site(), 'the session is bound to %s' % show(e.val), e.loc())
        C.implies(e.guard, eq(F(inp('reply'), 'id'), cint(1)), 'bind', e.site() + ' reply', 'a session is bound on another reply', e.loc())
        src = e.key
        okd = src.op == 'parsed' and provenance(src, lambda t: t.op == 'call' and 'parse_reply_execute_data' in t.args[0]) or \
            any(isinstance(t, Term) and t.op == 'call' and 'parse_reply_execute_data' in str(t.args[0]) for t in subterms(src))
        C.check(okd, 'bind', e.site() + ' session', 'the session id is not the one returned by the multisig: ' + trim(show(src)), e.loc())
    C.implies(R.ok, Or(*[e.guard for e in C.writes(R, 'multisig_session_batch')]), 'bind', R.name, 'the answer of the multisig is dropped')
    for R2 in C.all_runs(PR):
        if R2 is R:
            continue
        for e in C.writes(R2, 'multisig_session_batch'):
            C.check(False, 'bind', '%s %s' % (R2.name, e.site()), 'a session is bound outside of the reply', e.loc())
    C.floor('sessions requested', n, 2)
    C.floor('digests', m, 4)
    C.floor('bindings', k, 1)


def unify(a, b, base1, f1, base2):
    """a and b are the same expression, with f1(element of base1) in place of the element of base2"""
    if a is b:
        return True
    if a.op == 'comp' and b.op == 'comp':
        return a.args[1] == 1 and b.args[1] == 1 and ubase(a.args[0], b.args[0], base1, f1, base2) and unify(a.args[2], b.args[2], base1, f1, base2)
    if b.op == 'elem' and unalias(b.args[0]) is base2:
        for x in subterms(a):
            if isinstance(x, Term) and x.op == 'elem' and unalias(x.args[0]) is base1:
                if a is f1(x) and ubase(x.args[0], b.args[0], base1, f1, base2):
                    return True
        return False
    if a.op == b.op and len(a.args) == len(b.args):
        return all(uarg(x, y, base1, f1, base2) for x, y in zip(a.args, b.args))
    return False


def uarg(x, y, *k):
    if isinstance(x, Term) and isinstance(y, Term):
        return unify(x, y, *k)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(uarg(p, q, *k) for p, q in zip(x, y))
    return x == y


def ubase(a, b, base1, f1, base2):
    if a is base1 and b is base2:
        return True
    if a.op == 'again' and b.op == 'again' and len(a.args) == len(b.args):
        if not ubase(a.args[0], b.args[0], base1, f1, base2):
            return False
        return all(uarg(x, y, base1, f1, base2) for x, y in zip(a.args[1:], b.args[1:]))
    return False


def deep_cases(t, c, depth=0):
    """[(condition, t without case distinctions)]"""
    ph = next((x for x in sorted(own(t), key=lambda x: x.id) if x.op == 'phi'), None)
    if ph is None or depth > 6:
        return [(c, t)]
    out = []
    for g, l in ph.args[0]:
        c2 = close(And(c, g))
        if c2 != 0:
            out += deep_cases(core.subst(t, ph, l), c2, depth + 1)
    return out


def P07(C):
    """reuse of stored batches"""
    from rules import cross
    R = C.run(PR, 'execute', 'ConstructProof')
    ids = inp('msg.ConstructProof.message_ids')
    n = k = 0
    look = []
    again_ = [bt for g, bt, x in reused(C, R)]
    for g, bt, e in chosen(C, R):
        if bt.op == 'load' and bt not in again_:
            n += 1
            key = bt.args[1]
            if key not in look:
                look.append(key)
            J = cross.injective(C, R)
            C.check(cross.whole_ids(J, J.determined(key)[0]), 'whole-ids', R.name, 'requests for different messages can find the same batch: the id looked up does not determine every requested message id', e.loc())
            loose = [t for t in own(key) if t.op == 'elem' and not (t.args[0].op == 'again' and 'sort' in t.args[0].args) and t.args[0].op != 'mapof']
            C.check(not loose, 'any-order', R.name, 'the same messages requested in another order get another id', e.loc())
            dep = [t for t in leaves(key) if isinstance(t, Term) and t.op in ('in', 'load', 'query')]
            C.check(dep and all(t is ids for t in dep), 'lookup', R.name, 'a stored batch is looked up by something other than the requested messages: ' + trim(show(key)), e.loc())
    for R2, e, g, bt in batches(C):
        if R2 is not R:
            continue
        M = queries_of(R, 'GetMessages')[0]
        bare_ = Or(*[gg for gg, _, c in walk_coll(F(bt, 'data', 'commands'), g) if is_transfer(c)])
        c = close(And(g, Not(bare_)))
        if c != 0:
            k += 1
            idv = core.assume(under(F(bt, 'id'), c), c)
            for key in look:
                C.check(unify(idv, key, M, lambda x: F(x, 'cc_id'), ids), 'same-id', e.site(), 'a batch of the same messages gets another id than the one looked up', e.loc())
        c = close(And(g, bare_))
        if c != 0:
            k += 1
            idv = core.assume(under(F(bt, 'id'), c), c)
            for cc, idl in deep_cases(idv, c):
                okw = False
                for x in C.saves(R, 'next_worker_set'):
                    for gg, v in split(x.val, x.guard):
                        for t in own(idl):
                            if t.op in ('digest', 'hex') and content_hash(t, v):
                                okw = True
                C.check(okw, 'set-in-id', e.site(), 'the id of a batch with a handover does not depend on the set handed over to: ' + trim(show(idl)), e.loc())
                C.check(any(t.op == 'elem' and unalias(t.args[0]) is M for t in own(idl)), 'ids-in-id', e.site(), 'the id of a batch does not depend on its messages', e.loc())
    C.floor('stored batches reused', n, 1)
    C.floor('ids', k, 2)


# ---------------------------------------------------------------- proofs

def P08(C):
    Q, v = answer(C, PR, 'GetProof')
    sid = inp('msg.GetProof.multisig_session_id')
    bt = ld('command_batch', ld('multisig_session_batch', sid))
    C.implies(Q.ok, has('multisig_session_batch', sid), 'session', Q.name, 'a proof is reported for an unknown session')
    C.check(F(v, 'multisig_session_id') is sid, 'session', Q.name + ' id', 'the session reported is ' + show(F(v, 'multisig_session_id')))
    C.same(Q.ok, F(v, 'message_ids'), F(bt, 'message_ids'), 'content', Q.name + ' ids', 'the messages reported are not those of the batch')
    C.same(Q.ok, F(v, 'data'), F(bt, 'data'), 'content', Q.name + ' data', 'the data reported is not that of the batch')
    qs = queries_of(Q, 'GetMultisig')
    C.floor('session queries', len(qs), 1)
    n = 0
    for q in qs:
        C.check(q.args[1] is cfg('multisig') and qmsg(q, 'session_id') is sid, 'session', Q.name + ' query', 'another session or contract is asked: ' + show(q))
    q = qs[0]
    pend = variant(F(q, 'state'), 'Pending', ('Pending', 'Completed'))
    for g, s in split(F(v, 'status'), Q.ok):
        g = close(g)
        if g == 0:
            continue
        if s.op == 'agg' and s.args[1] == 'Pending':
            C.implies(g, pend, 'status', Q.name + ' pending', 'a completed session is reported as pending')
            continue
        if not C.check(s.op == 'agg' and s.args[1] == 'Completed', 'status', Q.name, 'unexpected status ' + trim(show(s))):
            continue
        C.implies(g, Not(pend), 'status', Q.name + ' completed', 'a proof is handed out for a session that is not completed')
        x = field(s, 'execute_data', 'Completed')
        for abi in (True, False):
            ea = is_abi(F(bt, 'encoder'))
            c = close(And(g, ea if abi else Not(ea)))
            if c == 0:
                continue
            n += 1
            proof(C, under(x, c), bt, q, abi, c, '%s %s' % (Q.name, 'abi' if abi else 'bcs'))
    C.floor('proof encodings', n, 2)
    Q2, v2 = answer(C, PR, 'GetWorkerSet')
    C.check(same(Q2.ok, v2, CUR()), 'worker-set', Q2.name, 'the worker set reported is not the current one')


def parts_of(t):
    return t.args[0] if t.op in ('cat', 'list') else (t,)


def own(t, seen=None):
    """the terms a value is made of, without those that only order or select the traversal"""
    seen = {} if seen is None else seen
    if isinstance(t, tuple):
        for x in t:
            own(x, seen)
    elif isinstance(t, Term) and t not in seen:
        seen[t] = 1
        if t.op != 'elem':
            own(t.args[:1] if t.op == 'again' else t.args, seen)
    return seen


def proof(C, t, bt, q, abi, c, site):
    data = F(bt, 'data')
    if abi:
        ps = parts_of(t)
        okf = len(ps) == 2 and pname(ps[0]) == 'short_signature' and ps[0].args[1].op == 'strc' and ps[0].args[1].args[0] == 'execute'
        if not C.check(okf, 'calldata', site, 'the call is not to execute(bytes): ' + trim(show(t))):
            return
        outer = enc_abi(ps[1])
        inner = enc_abi(tok(outer[0], 'Bytes')) if outer and len(outer) == 1 else None
        if not C.check(inner is not None and len(inner) == 2, 'calldata', site, 'unexpected form of the call data: ' + trim(show(ps[1]))):
            return
        d, p = tok(inner[0], 'Bytes'), tok(inner[1], 'Bytes')
        pp = enc_abi(p)
    else:
        inner = enc_bcs(t)
        if not C.check(inner is not None and len(inner) == 2, 'calldata', site, 'unexpected form of the execute data: ' + trim(show(t))):
            return
        d, p = inner
        pp = enc_bcs(p)
    is_data(C, d, data, abi, c, 'signed-data', site)
    if not C.check(pp is not None and len(pp) == 4, 'proof', site, 'unexpected form of the proof: ' + trim(show(p))):
        return
    addrs, weights, quorum, sigs = pp
    if abi:
        addrs, weights, quorum, sigs = tok(addrs, 'Array'), tok(weights, 'Array'), tok(quorum, 'Uint'), tok(sigs, 'Array')
    C.check(num(quorum) is F(q, 'quorum'), 'quorum', site, 'the quorum given is ' + trim(show(quorum)))
    S = F(q, 'signers')
    pk = lambda el: F(el, '0', 'pub_key')
    wt = lambda el: F(el, '0', 'weight')
    b = operator_lists(C, c, S, addrs, weights, pk, wt, abi, 'operators', site,
                       (lambda t: tok(t, 'Address')) if abi else (lambda t: t), (lambda t: tok(t, 'Uint')) if abi else (lambda t: t))
    b2, g, e = iterate(sigs)
    if not C.check(b is not None and b2 is b, 'signatures', site, 'the signatures are not listed in the order of the operators'):
        return
    el = elem(b2)
    sig = F(el, '1')
    C.implies(g, variant(sig, 'Some'), 'signatures', site + ' own', 'a signature is listed for a signer without one')
    leaf = field(sig, '0', 'Some')
    if abi:
        e = tok(e, 'Bytes') if e.op == 'agg' else phi([(gg, tok(l, 'Bytes')) for gg, l in alts(e)])
    ec = variant(leaf, 'Ecdsa', ('Ecdsa', 'EcdsaRecoverable', 'Ed25519'))
    for gg, l in split(e, g):
        gg = close(gg)
        if gg == 0:
            continue
        deps = [t for t in subterms(l) if isinstance(t, Term) and t.op == 'field']
        mine = any(t is leaf or (t.op == 'field' and t.args[0] is leaf) for t in deps)
        C.check(mine, 'signatures', site + ' value', 'the signature listed is not the one of the signer: ' + trim(show(l)))
        if core.B.implies(gg, ec):
            rec = [t for t in own(l) if t.op == 'call' and pname(t) == 'trial_recovery_from_prehash']
            C.check(len(rec) == 1, 'signatures', site + ' recovery', 'no recovery id is attached to an ECDSA signature: ' + trim(show(l)))
            for r in rec:
                key = r.args[1]
                while key.op == 'field':
                    key = key.args[0]
                C.check(pname(key) == 'from_sec1_bytes' and same(1, key.args[1], pkbytes(pk(el))), 'signatures', site + ' recovery key', 'the recovery id is computed for another key')
                is_digest(C, under(r.args[2], c), data, abi, c, 'signatures', site + ' recovery')
            adds = [t for t in own(l) if t.op == 'add']
            want27 = any(cint(27) in t.args for t in adds)
            C.check(want27 == abi, 'signatures', site + ' recovery offset', 'the recovery id is not in the form of the destination chain')
    # which signatures are left out: only beyond the quorum, or impossible to convert
    conv = Or(*[Not(core.W.var_of[a]) for a in atoms_of(g) if a.op == 'is' and a.args[0].op == 'call'])
    enough = 0
    for a in atoms_of(g):
        if a.op == 'lt' and a.args[0].op == 'lv' and a.args[1] is F(q, 'quorum'):
            lp = core.W.loops.get(a.args[0])
            if not C.check(lp is not None, 'selection', site, 'the running weight is not understood'):
                continue
            enough = Or(enough, Not(core.W.var_of[a]))
            lv = a.args[0]
            v0, v1, lb = lp
            C.check(sorted_by(lb, F(elem(lb), '0', 'weight'), 'desc'), 'selection', site + ' heaviest', 'the signatures kept are not those of the heaviest signers')
            C.check(v0 is cint(0), 'selection', site + ' start', 'the running weight does not start from zero')
            C.check(unalias(lb) is S, 'selection', site + ' over', 'the running weight does not range over the signers')
            keep = And(variant(F(elem(lb), '1'), 'Some'), lt(lv, F(q, 'quorum')))
            good = True
            for cc, x in resolve(v1, keep):
                ad = addends(x)
                good = good and sorted(t.id for t in ad) == sorted(t.id for t in (lv, F(elem(lb), '0', 'weight')))
            for cc, x in resolve(v1, Not(keep)):
                good = good and x is lv
            C.check(good, 'selection', site + ' sum', 'the running weight is not the weight of the signatures kept so far: ' + trim(show(v1)))
    C.implies(And(variant(sig, 'Some'), Not(g)), Or(enough, conv), 'selection', site + ' dropped', 'a signature is left out although the quorum is not reached yet')


def P09(C):
    """configuration"""
    n = 0
    for R in C.all_runs(PR):
        for e in C.writes(R, 'config'):
            inst = R.name.split()[1] == 'instantiate'
            C.check(inst and e.kind == 'save', 'config', '%s %s' % (R.name, e.site()), 'the configuration changes after instantiation', e.loc())
            if not inst:
                continue
            n += 1
            for f in ('admin', 'gateway', 'multisig', 'service_registry', 'voting_verifier'):
                x = F(inp('msg'), f + '_address')
                C.check(F(e.val, f) is mk('addr', x), 'address', f, 'the %s stored is not the validated one requested: %s' % (f, show(F(e.val, f))), e.loc())
            for f in ('destination_chain_id', 'signing_threshold', 'service_name', 'worker_set_diff_threshold', 'encoder', 'key_type'):
                C.same(e.guard, F(e.val, f), F(inp('msg'), f), 'value', f, 'the %s stored is not the one requested' % f, e.loc())
            cn = F(e.val, 'chain_name')
            C.check(any(t is F(inp('msg'), 'chain_name') for t in leaves(cn)) or decoded(bare(cn), F(inp('msg'), 'chain_name')), 'value', 'chain_name', 'the chain name stored is not the one requested: ' + show(cn), e.loc())
    C.floor('configuration writes', n, 1)
