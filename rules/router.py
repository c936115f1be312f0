"""connection-router, gateway, nexus-gateway, aggregate-verifier"""
import core
from rules.lib import *
from rules.inject import Inj, root_types

CR = 'connection_router'


def cfg(n):
    return F(ld('config'), n)


def chains_handle_ok(C, e, rule):
    """the write goes through the indexed map whose gateway index is the gateway address"""
    h = e.e.get('handle')
    good = h is not None and h.op == 'store' and h.args[0] == 'IndexedMap'
    C.check(good, rule, '%s %s' % (e.R.name, e.site()), 'chain registry written without maintaining its gateway index', e.loc())
    return h


def registry_writes(C):
    out = []
    for R in C.all_runs(CR):
        for e in C.writes(R, 'chains'):
            out.append((R, e))
    return out


def R01(C):
    """registry only changed by governance (any change) or admin (frozen status only)"""
    n = 0
    gov = eq(cfg('governance'), sender())
    adm = eq(cfg('admin'), sender())
    for R, e in registry_writes(C):
        n += 1
        old = ld('chains', e.key)
        site = '%s: %s' % (R.name, e.site())
        C.implies(e.guard, Or(gov, adm), 'authorised', site, 'chain registry written for a caller that is neither governance nor admin', e.loc())
        if e.kind == 'remove' or e.val is None:
            C.implies(e.guard, gov, 'governance', site, 'chain entry removed by a caller other than governance', e.loc())
            continue
        g = And(e.guard, Not(gov))
        if close(g) != 0:
            # the admin may only touch the frozen status of an existing chain
            C.implies(g, has('chains', e.key), 'admin-existing', site, 'a caller other than governance creates a chain entry', e.loc())
            for n_ in ('name', 'gateway'):
                C.same(g, F(e.val, n_), F(old, n_), 'admin-frozen-only', site + ' ' + n_,
                       'a caller other than governance changes the %s of a registered chain' % n_, e.loc())
        if close(And(e.guard, Not(adm))) != 0:
            C.same(And(e.guard, Not(adm), has('chains', e.key)), F(e.val, 'frozen_status'), F(old, 'frozen_status'), 'governance-not-frozen', site,
                   'the frozen status of a registered chain is changed by a caller other than the admin', e.loc())
    for R in C.all_runs(CR, ('execute', 'reply')):
        for e in C.writes(R, 'config'):
            C.check(False, 'config-fixed', '%s: %s' % (R.name, e.site()), 'router configuration (governance/admin/nexus gateway) changed after instantiation', e.loc())
    # intended callers are not locked out of the guard: the check is on exactly these roles
    for v in ('RegisterChain', 'UpgradeGateway'):
        R = C.run(CR, 'execute', v)
        C.implies(R.okg, gov, 'role', R.name, 'message accepted from a caller that is not governance')
    for v in ('FreezeChain', 'UnfreezeChain'):
        R = C.run(CR, 'execute', v)
        C.implies(R.okg, adm, 'role', R.name, 'message accepted from a caller that is not the admin')
    C.floor('writes of the chain registry', n, 4)


def member_of_sender_chain(g):
    """terms that denote the registered chain whose gateway is the sender"""
    out = []

    def pred(t):
        if t.op == 'field' and t.args[1] == '1':
            m = t.args[0]
            if m.op == 'field' and m.args[1] == 'Ok.0':
                m = m.args[0]
            return m.op in ('first', 'last', 'pick', 'elem', 'idx') and unalias(m.args[0]).op == 'range'
        return False
    for t in atom_terms(g, pred):
        m = t.args[0]
        if m.op == 'field':
            m = m.args[0]
        rg = unalias(m.args[0])
        out.append((t, rg))
    return out


def by_gateway(rg, who):
    """rg ranges over the chains whose gateway is `who`, through the gateway index, unbounded"""
    return rg.args[0] == show(rg.args[0]) and rg.args[0].startswith('midx(') and '"gateways"' in rg.args[0] and rg.args[1] is who


def R02(C):
    R = C.run(CR, 'execute', 'RouteMessages')
    msgs = inp('msg.RouteMessages.0')
    m = elem(msgs)
    nexus = eq(sender(), cfg('nexus_gateway'))
    g = close(And(R.okg, Not(nexus)))
    cands = []
    for t, rg in member_of_sender_chain(g):
        if by_gateway(rg, sender()) or (rg.args[0] == 'chains' and core.B.implies(g, eq(F(t, 'gateway', 'address'), sender()))):
            if core.B.implies(g, Not(empty(rg))) or t.args[0].op == 'pick':
                cands.append(t)
    C.check(bool(cands), 'sender-gateway', R.name, 'messages from a sender other than the nexus gateway are accepted without looking up the chain whose gateway the sender is')
    C.check(any(close(And(g, Not(empty(msgs)), Not(eq(F(t, 'name'), F(m, 'cc_id', 'chain')))), True) == 0 for t in cands),
            'source-chain', R.name, 'a routed message may claim a source chain other than the chain registered for the sending gateway')
    C.check(any(core.B.implies(g, Not(core.atom('true', mk('flagcontains', F(t, 'frozen_status', '0'), direction('Incoming'))))) for t in cands),
            'incoming-frozen', R.name, 'messages accepted from a chain that is frozen for incoming traffic')
    # nothing is sent, and nothing is stored, unless accepted
    ms = C.msgs(R)
    C.floor('outgoing message families of RouteMessages', len(ms), 1)
    C.floor('lookups of the sending chain', len(cands), 1)


def direction(n):
    return mk('agg', 'connection_router::state::GatewayDirection', n, (), ())


def R03(C):
    R = C.run(CR, 'execute', 'RouteMessages')
    msgs = inp('msg.RouteMessages.0')
    nexus = eq(sender(), cfg('nexus_gateway'))
    ms = C.msgs(R)
    n = 0
    covered = 0
    for x in ms:
        site = '%s: %s' % (R.name, x.site())
        if not C.check(x.kind == 'execute' and x.variant() == 'RouteMessages', 'kind', site, 'the router emits a message other than RouteMessages to a gateway'):
            continue
        C.check(x.funds is not None and x.funds.op == 'list' and not x.funds.args[0], 'funds', site, 'funds attached to a routed message')
        content = field(x.body, '0', 'RouteMessages')
        for g, bs, v in walk_coll(content, x.guard):
            g = close(g)
            if g == 0:
                continue
            n += 1
            dst = F(v, 'destination_chain')
            end = ld('chains', dst)
            known = has('chains', dst)
            # the target was computed from the group's key; relate it to the member's own destination
            base_ok = False
            for b in (bs[-1],) if bs else ():
                base_ok = unalias(b) is msgs
            C.check(base_ok and v.op == 'elem', 'unchanged', site, 'a forwarded message is not one of the submitted messages, unchanged: ' + show(v))
            gk = And(g, alias_facts(g, x, v))
            tgt = x.to
            keyt = key_of_target(tgt)
            if keyt is not None and keyt is not dst:
                C.implies(gk, eq(keyt, dst), 'own-destination', site, 'a message is sent to the gateway looked up for a chain that is not its own destination chain')
                tgt = subst(tgt, keyt, dst)
                gk = close(And(gk, subst_guard(x.guard, keyt, dst)))
            C.same(And(gk, known), tgt, F(end, 'gateway', 'address'), 'target', site, 'a message for a registered chain is not sent to that chain\'s gateway')
            C.same(And(gk, Not(known)), tgt, cfg('nexus_gateway'), 'unknown-to-nexus', site, 'a message for an unregistered chain is not sent to the nexus gateway')
            C.implies(And(gk, Not(known)), Not(nexus), 'no-bounce', site, 'a message from the nexus gateway for an unknown chain is sent back instead of being refused')
            C.implies(And(gk, known), Not(core.atom('true', mk('flagcontains', F(end, 'frozen_status', '0'), direction('Outgoing')))),
                      'outgoing-frozen', site, 'a message is sent to a chain that is frozen for outgoing traffic')
        # completeness: the family ranges over every submitted message and each message is in its own group
        fam = 0
        if x.bases and unalias(x.bases[-1]) is msgs:
            m = elem(x.bases[-1])
            if member_self(content, m):
                fam = x.guard
        elif covers(content, x.guard, msgs, 1):
            fam = x.guard
        covered = Or(covered, fam)
    C.implies(And(R.okg, Not(empty(msgs))), covered, 'complete', R.name, 'a successfully routed batch may leave out some of its messages')
    C.check(not C.writes(R), 'no-state', R.name, 'routing writes router state')
    C.floor('families of forwarded messages', n, 1)


def subst_guard(g, a, b):
    return core.subst(g, a, b)


def alias_facts(g, x, v):
    return 1


def key_of_target(t):
    """the chain name used to look the target gateway up"""
    ks = []
    for y in leaves(t):
        if y.op == 'load' and y.args[0] == 'chains' and y.args[1] not in ks:
            ks.append(y.args[1])
    return ks[0] if len(ks) == 1 else None


def member_self(content, m):
    if content.op == 'group':
        b, g, e = iterate(content.args[0])
        if g != 1 or unalias(b) is not unalias(m.args[0]):
            return False
        e = core.rename_base(e, b, m.args[0]) if b is not m.args[0] else e
        return field(e, '0') is content.args[1] and field(e, '1') is m
    if content.op == 'list':
        return any(y is m for y in content.args[0])
    b, g, e = iterate(content)
    # a filter over all messages that keeps those equal in destination
    if unalias(b) is unalias(m.args[0]) and e.op == 'elem':
        b2 = again(m.args[0]) if b is m.args[0] else b
        gg = core.subst(g, elem(b), m) if g > 1 else g
        return gg == 1
    return False


def R04(C):
    """one gateway per chain, one chain per gateway, stable entries"""
    n = 0
    for R, e in registry_writes(C):
        n += 1
        site = '%s: %s' % (R.name, e.site())
        if e.kind == 'remove':
            C.check(False, 'no-removal', site, 'a registered chain is removed', e.loc())
            continue
        h = chains_handle_ok(C, e, 'indexed')
        old = ld('chains', e.key)
        ex = has('chains', e.key)
        # name is the key
        C.same(And(e.guard, ex), F(e.val, 'name'), F(old, 'name'), 'name-stable', site, 'the name inside a chain entry changes', e.loc())
        C.same(And(e.guard, Not(ex)), F(e.val, 'name'), e.key, 'name-is-key', site, 'a chain is stored under a key that is not its name', e.loc())
        if close(And(e.guard, Not(ex))) != 0:
            fs = F(e.val, 'frozen_status')
            C.check(all(is_zero_flags(l) for g_, l in split(fs, And(e.guard, Not(ex)))), 'new-unfrozen', site, 'a newly registered chain does not start unfrozen: ' + show(fs), e.loc())
        # a gateway address that is (re)assigned was not any chain's gateway before
        newa = F(e.val, 'gateway', 'address')
        for g_, a in split(newa, e.guard):
            if a is F(old, 'gateway', 'address'):
                continue
            g2 = close(And(e.guard, g_))
            free = False
            for rg in atom_terms(g2, lambda t: t.op == 'range'):
                if by_gateway(rg, a) and rg.args[3].args[1:2] != ('Some',) and core.B.implies(g2, empty(rg)):
                    free = unbounded(rg)
                elif rg.args[0] == 'chains' and unbounded(rg):
                    v = F(elem(rg), 'Ok.0', '1')
                    if core.B.implies(g2, forall(rg, Not(eq(F(v, 'gateway', 'address'), a)))):
                        free = True
            C.check(free, 'gateway-unique', site, 'a gateway address is assigned to a chain without establishing that no chain uses it yet', e.loc())
            C.check(a.op == 'addr', 'gateway-valid', site, 'a gateway address is stored without validation', e.loc())
        if h is not None and h.op == 'store' and h.args[0] == 'IndexedMap':
            check_index(C, R, h, site)
    for v in ('RegisterChain',):
        R = C.run(CR, 'execute', v)
        ch = inp('msg.%s.chain' % v)
        C.implies(R.okg, Not(has('chains', ch)), 'new-name', R.name, 'registration succeeds for a chain name that is already registered')
    for v in ('UpgradeGateway', 'FreezeChain', 'UnfreezeChain'):
        R = C.run(CR, 'execute', v)
        C.implies(R.okg, has('chains', inp('msg.%s.chain' % v)), 'known-name', R.name, 'an unregistered chain is changed (and thereby created)')
    # success means the entry was written
    for v, f in (('RegisterChain', 'gateway_address'), ('UpgradeGateway', 'contract_address')):
        R = C.run(CR, 'execute', v)
        ch = inp('msg.%s.chain' % v)
        tot = 0
        for e in C.saves(R, 'chains'):
            if e.key is ch and same(e.guard, F(e.val, 'gateway', 'address'), addr(inp('msg.%s.%s' % (v, f)))):
                tot = Or(tot, e.guard)
        C.implies(R.okg, tot, 'effective', R.name, 'success is reported although the requested gateway was not stored for the requested chain')
    C.floor('writes of the chain registry', n, 4)


def unbounded(rg):
    return all(a.op == 'agg' and a.args[1] == 'None' for a in rg.args[3:5])


def is_zero_flags(t):
    if t.op == 'agg' and len(t.args[3]) == 1:
        t = t.args[3][0]
    if t.op == 'flags' and t.args[0].op == 'int':
        return t.args[0].args[0] == 0
    if t.op == 'agg' and t.args[1] == 'None':
        return True
    if t.op == 'default':
        return True
    return t.op == 'conv' and is_zero_flags(t.args[1])


def check_index(C, R, h, site):
    """the gateway index of the handle maps an entry to its gateway address, over the same primary namespace"""
    mids = [t for t in subterms(h) if isinstance(t, Term) and t.op == 'midx']
    C.check(len(mids) >= 1, 'index', site, 'the chain registry has no gateway index')
    for mi in mids:
        fn = mi.args[0]
        pk = mi.args[1]
        C.check(pk.op == 'strc' and pk.args[0] == h.args[1], 'index-ns', site, 'the gateway index refers to primary namespace %s, the map to "%s"' % (show(pk), h.args[1]))
        st = interp.St(1, {}, {})
        v, _ = R.I.call_value(fn, [inp('pk'), inp('entry')], st)
        C.check(v is F(inp('entry'), 'gateway', 'address'), 'index-key', site, 'the gateway index is keyed by %s, not by the gateway address' % show(v))


def R05(C):
    for v, op in (('FreezeChain', 'set'), ('UnfreezeChain', 'clear')):
        R = C.run(CR, 'execute', v)
        ch = inp('msg.%s.chain' % v)
        d = inp('msg.%s.direction' % v)
        old = F(ld('chains', ch), 'frozen_status')
        tot = 0
        for e in C.saves(R, 'chains'):
            new = F(e.val, 'frozen_status')
            bits = F(new, '0') if new.op in ('upd', 'agg') else new
            ob = F(old, '0')
            site = '%s: %s' % (R.name, e.site())
            if op == 'set':
                good = bits.op == 'bitor' and set(bits.args) == {ob, d}
            else:
                good = bits.op == 'sub' and bits.args == (ob, d) or \
                    bits.op == 'bitand' and ob in bits.args and any(x.op == 'not' and x.args[0] is d for x in bits.args)
            C.check(good, op, site, 'the frozen directions after %s are %s, not the old directions %s the requested one' % (v, show(bits), 'plus' if op == 'set' else 'minus'), e.loc())
            C.check(e.key is ch, 'chain', site, 'the status of a chain other than the requested one is changed', e.loc())
            tot = Or(tot, e.guard)
        C.implies(R.okg, tot, 'effective', R.name, 'success reported without updating the chain')
    # instantiation stores the three roles it was given
    # the flags that gate traffic are read from the same field the admin writes (R02/R03 use frozen_status)
    Fx = C.crate(CR)
    vals = [t for t in Fx.types if t['k'] == 'adt' and t['p'].endswith('GatewayDirection')]
    C.check(bool(vals), 'directions', 'GatewayDirection', 'the direction type is gone')
    bits = {}
    for t in vals[:1]:
        for x in t['v']:
            bits[x['n']] = int(x['d'])
    inc, out = bits.get('Incoming', 0), bits.get('Outgoing', 0)
    C.check(bits.get('None') == 0 and inc and out and inc & out == 0 and bits.get('Bidirectional') == inc | out, 'bits', 'GatewayDirection',
            'direction bits do not satisfy None=0, Incoming and Outgoing disjoint, Bidirectional=both: %s' % bits)
    C.floor('freeze/unfreeze writes', 2, 2)


ROUTED = {'id': ('cc_id', 'id'), 'source_chain': ('cc_id', 'chain'), 'source_addresses': ('source_address',),
          'destination_chain': ('destination_chain',), 'destination_addresses': ('destination_address',), 'payload_hash': ('payload_hash',)}


def strip(t):
    """remove newtype projections and string/hex conversions"""
    while True:
        if t.op in ('hex', 'str', 'unchecked') or (t.op == 'conv'):
            t = t.args[-1]
        elif t.op == 'field' and t.args[1] == '0':
            t = t.args[0]
        elif t.op == 'fmt' and len(t.args) == 2 and t.args[1].op == 'list' and len(t.args[1].args[0]) == 1:
            t = t.args[1].args[0][0]
        elif t.op == 'call' and len(t.args) == 2 and t.args[0] in ('serde_json::to_string', 'try_from'):
            t = t.args[1]
        elif t.op == 'agg' and t.args[2] == ('0',) and t.args[0] != RES and t.args[0] != OPT:
            t = t.args[3][0]
        else:
            return t


def message_event(at, m):
    """the attributes of a routed-message event describe message m"""
    bad = []
    for k, path in ROUTED.items():
        if k not in at:
            bad.append('%s missing' % k)
        elif strip(at[k]) is not strip(F(m, *path)):
            bad.append('%s = %s' % (k, show(at[k])))
    return bad


def one_event_per(C, R, ty, base, guard, pred, rule, keys=None):
    """for every element of base with pred, an event of this type describing it is emitted; and no other"""
    tot = 0
    n = 0
    for g, bs, t, at in C.events(R):
        if t != ty:
            continue
        n += 1
        b = bs[-1] if bs else None
        okb = b is not None and unalias(b) is base
        C.check(okb, rule + '-source', R.name, 'event %s is not emitted for the messages concerned' % ty)
        if okb:
            m = elem(b)
            bad = message_event(at, m)
            C.check(not bad, rule + '-fields', R.name, 'event %s misreports its message: %s' % (ty, '; '.join(bad)))
            p = pred if b is base else core.rename_base(pred, base, b)
            C.implies(And(g, guard), p, rule + '-only', R.name, 'event %s is emitted for a message it does not apply to' % ty)
            tot = Or(tot, g if b is base else core.rename_base(g, b, base))
    C.implies(And(R.okg, guard, Not(empty(base)), pred), tot, rule + '-all', R.name, 'event %s is not emitted for some message it applies to' % ty)
    return n


def R06(C):
    """events"""
    exp = {'RegisterChain': ('chain_registered', {'name': inp('msg.RegisterChain.chain'), 'gateway': addr(inp('msg.RegisterChain.gateway_address'))}),
           'UpgradeGateway': ('gateway_upgraded', {'chain': inp('msg.UpgradeGateway.chain'), 'gateway_address': addr(inp('msg.UpgradeGateway.contract_address'))}),
           'FreezeChain': ('chain_frozen', {'name': inp('msg.FreezeChain.chain')}),
           'UnfreezeChain': ('chain_unfrozen', {'name': inp('msg.UnfreezeChain.chain')})}
    n = 0
    for v, (ty, at) in exp.items():
        R = C.run(CR, 'execute', v)
        evs = C.events(R)
        tot = 0
        for g, bs, t, a in evs:
            C.check(t == ty, 'event-type', R.name, 'a successful %s emits event "%s" instead of "%s"' % (v, t, ty))
            if t == ty:
                n += 1
                for k, x in at.items():
                    C.check(k in a and strip(a[k]) is strip(x), 'event-field', R.name + ' ' + k, 'event "%s" reports %s = %s' % (ty, k, show(a[k]) if k in a else 'nothing'))
                tot = Or(tot, g)
        if any(t == ty for _, _, t, _ in evs) or not evs:
            C.implies(R.okg, tot, 'event-emitted', R.name, 'a successful %s does not emit its event' % v)
    R = C.run(CR, 'execute', 'RouteMessages')
    n += one_event_per(C, R, 'message_routed', inp('msg.RouteMessages.0'), 1, 1, 'routed')
    R = C.run(CR, 'instantiate')
    for g, bs, t, a in C.events(R):
        if t == 'router_instantiated':
            for k, f in (('admin_address', 'admin_address'), ('governance_address', 'governance_address')):
                C.check(k in a and strip(a[k]) is addr(inp('msg')) or (k in a and strip(a[k]) is addr(F(inp('msg'), f))), 'event-field', R.name + ' ' + k, 'instantiation event misreports %s' % k)
    C.floor('router event sites', n, 5)


# ---------------------------------------------------------------- gateway

GW = 'gateway'


def verdict_pred(q, m):
    """the query answer q marks message m verified: some entry (id, true) with m's id"""
    b = q
    e = elem(b)
    if contains(m, e):
        b = again(q)
        e = elem(b)
    return b, And(eq(F(e, '0'), F(m, 'cc_id')), truth(F(e, '1')))


def is_verified_query(C, e, msgs):
    """a query for the verification status of (at least) all of msgs at the configured verifier"""
    m = e.e.get('msg')
    return e.e.get('contract') is cfg('verifier') and m is not None and m.op == 'agg' and m.args[1] == 'IsVerified' and \
        coll_all(field(m, 'messages', 'IsVerified'), msgs)


def verified_cond(C, R, msgs, m):
    """bdd: m is marked verified by the verifier contract"""
    tot = 0
    for e in C.queries(R):
        if is_verified_query(C, e, msgs):
            # one verdict per id (the voting verifier answers element-wise: V03)
            if e.e['val'] not in core.W.functional:
                core.W.functional.append(e.e['val'])
            b, p = verdict_pred(e.e['val'], m)
            tot = Or(tot, Not(forall(b, Not(p))))
    return tot


def G01(C):
    R = C.run(GW, 'execute', 'RouteMessages')
    msgs = inp('msg.RouteMessages.0')
    router = eq(sender(), cfg('router'))
    n = 0
    cov = 0
    for x in C.msgs(R):
        site = '%s: %s' % (R.name, x.site())
        if not C.check(x.kind == 'execute' and x.variant() == 'RouteMessages', 'kind', site, 'unexpected message emitted while routing'):
            continue
        n += 1
        C.same(x.guard, x.to, cfg('router'), 'to-router', site, 'messages are forwarded to a contract other than the router')
        C.implies(x.guard, Not(router), 'not-back', site, 'messages received from the router are sent back to it')
        content = field(x.body, '0', 'RouteMessages')
        for g, bs, v in walk_coll(content, x.guard):
            g = close(g)
            okm = bs and unalias(bs[-1]) is msgs and v is elem(bs[-1])
            C.check(okm, 'unchanged', site, 'a forwarded message is not one of the submitted messages, unchanged: ' + show(v))
            C.implies(g, verified_cond(C, R, msgs, v), 'verified', site, 'a message is forwarded to the router although the verifier did not report it verified')
        ver = verified_cond(C, R, msgs, elem(msgs))
        C.check(covers(content, And(x.guard, Not(empty(msgs))), msgs, ver), 'complete', site, 'a verified message may be left out of the batch forwarded to the router')
        cov = Or(cov, x.guard)
    ver = verified_cond(C, R, msgs, elem(msgs))
    C.implies(And(R.okg, Not(router), Not(forall(msgs, Not(ver)))), cov, 'sent', R.name, 'some submitted message is verified, yet nothing is forwarded to the router')
    C.floor('forwarding sites', n, 1)
    C.floor('verification queries', len([e for e in C.queries(R) if is_verified_query(C, e, msgs)]), 1)


def G02(C):
    router = eq(sender(), cfg('router'))
    n = 0
    for R in C.all_runs(GW):
        for e in C.writes(R, 'outgoing_messages'):
            n += 1
            site = '%s: %s' % (R.name, e.site())
            C.implies(e.guard, router, 'router-only', site, 'an outgoing message is stored for a caller other than the router', e.loc())
            if not C.check(e.kind == 'save', 'no-removal', site, 'a stored outgoing message is removed', e.loc()):
                continue
            msgs = inp('msg.RouteMessages.0')
            okv = e.loops and unalias(e.loops[-1]) is msgs and e.val is elem(e.loops[-1])
            C.check(okv, 'unchanged', site, 'the stored message is not a submitted message, unchanged: ' + show(e.val), e.loc())
            C.same(e.guard, e.key, F(e.val, 'cc_id'), 'own-id', site, 'an outgoing message is stored under an id that is not its own', e.loc())
    R = C.run(GW, 'execute', 'RouteMessages')
    msgs = inp('msg.RouteMessages.0')
    tot = 0
    for e in C.saves(R, 'outgoing_messages'):
        if e.loops and unalias(e.loops[-1]) is msgs and e.val is elem(e.loops[-1]):
            tot = Or(tot, e.guard)
    C.implies(And(R.okg, router, Not(empty(msgs))), tot, 'stored', R.name, 'the router is told success although a message was not stored')
    # the query returns exactly what is stored, in request order, or fails
    Q = C.run(GW, 'query', 'GetMessages')
    ids = inp('msg.GetMessages.message_ids')
    v = Q.okval.args[0] if Q.okval.op == 'json' else Q.okval
    b, g, e = iterate(v)
    C.check(unalias(b) is ids and g == 1 and e is ld('outgoing_messages', elem(b)), 'query', Q.name, 'the message query does not return, for every requested id, the message stored under it: ' + show(v))
    C.implies(Q.okg, forall(ids, has('outgoing_messages', elem(ids))), 'query-missing', Q.name, 'the message query succeeds although a requested message is not stored')
    C.floor('writes of outgoing messages', n, 1)


def G03(C):
    n = 0
    for v in ('VerifyMessages', 'RouteMessages'):
        R = C.run(GW, 'execute', v)
        msgs = inp('msg.%s.0' % v)
        C.check(distinct(close(And(R.okg, Not(empty(msgs)))), msgs, lambda m: F(m, 'cc_id')), 'distinct', R.name, 'a batch with two messages of the same id is accepted')
        n += 1
    C.floor('gateway entry points', n, 2)


def G04(C):
    R = C.run(GW, 'execute', 'VerifyMessages')
    msgs = inp('msg.VerifyMessages.0')
    n = 0
    cov = 0
    nver = lambda m: Not(verified_cond(C, R, msgs, m))
    for x in C.msgs(R):
        site = '%s: %s' % (R.name, x.site())
        if not C.check(x.kind == 'execute' and x.variant() == 'VerifyMessages', 'kind', site, 'unexpected message emitted while verifying'):
            continue
        n += 1
        C.same(x.guard, x.to, cfg('verifier'), 'to-verifier', site, 'messages are sent for verification to a contract other than the configured verifier')
        content = field(x.body, 'messages', 'VerifyMessages')
        for g, bs, v in walk_coll(content, x.guard):
            g = close(g)
            okm = bs and unalias(bs[-1]) is msgs and v is elem(bs[-1])
            C.check(okm, 'unchanged', site, 'a message sent for verification is not one of the submitted messages, unchanged: ' + show(v))
            C.implies(g, nver(v), 'unverified-only', site, 'an already verified message is sent for verification again')
        C.check(covers(content, And(x.guard, Not(empty(msgs))), msgs, nver(elem(msgs))), 'complete', site, 'a message that is not verified may be left out of the verification request')
        cov = Or(cov, x.guard)
    C.implies(And(R.okg, Not(forall(msgs, Not(nver(elem(msgs)))))), cov, 'sent', R.name, 'some message is not verified, yet no verification is requested')
    C.check(not C.writes(R), 'stateless', R.name, 'verification request changes gateway state')
    C.floor('verification request sites', n, 1)


def G05(C):
    R = C.run(GW, 'execute', 'RouteMessages')
    msgs = inp('msg.RouteMessages.0')
    router = eq(sender(), cfg('router'))
    ver = verified_cond(C, R, msgs, elem(msgs))
    n = one_event_per(C, R, 'message_routed', msgs, 1, Or(router, ver), 'routed')
    n += one_event_per(C, R, 'message_routing_failed', msgs, 1, And(Not(router), Not(ver)), 'failed')
    C.floor('gateway event sites', n, 2)


# ---------------------------------------------------------------- nexus gateway

NG = 'nexus_gateway'


def N01(C):
    n = 0
    for v, role, tgt in (('RouteMessages', 'router', None), ('RouteMessagesFromNexus', 'nexus', 'router')):
        R = C.run(NG, 'execute', v)
        C.implies(R.okg, eq(sender(), cfg(role)), 'caller', R.name, 'accepted from a caller other than the %s' % role)
        n += 1
        for x in C.msgs(R):
            if tgt:
                C.check(x.kind == 'execute', 'kind', R.name, 'unexpected kind of message')
                C.same(x.guard, x.to, cfg(tgt), 'target', R.name, 'messages from nexus are sent to a contract other than the router')
            else:
                C.check(x.kind == 'other', 'kind', R.name, 'messages for nexus are not emitted as nexus messages')
    for v in C.variants(NG):
        C.check(v in ('RouteMessages', 'RouteMessagesFromNexus') or not C.msgs(C.run(NG, 'execute', v)), 'no-other', v, 'another entry point emits messages')
    for R in C.all_runs(NG, ('execute', 'reply')):
        for e in C.writes(R, 'config'):
            C.check(False, 'config-fixed', R.name, 'configuration changed after instantiation', e.loc())
    C.floor('entry points', n, 2)


def N02(C):
    R = C.run(NG, 'execute', 'RouteMessages')
    msgs = inp('msg.RouteMessages.0')
    ns = 'routed_message_ids'
    n = 0
    for x in C.msgs(R):
        site = '%s: %s' % (R.name, x.site())
        n += 1
        okb = len(x.bases) == 1 and unalias(x.bases[0]) is msgs
        if not C.check(okb, 'per-message', site, 'nexus messages are not emitted one per submitted message'):
            continue
        m = elem(x.bases[0])
        key = F(m, 'cc_id')
        fresh = has(ns, key)
        C.implies(persist(R, ns, x.guard), Not(fresh), 'not-before', site, 'a message that was already routed is routed again')
        # within one batch
        loopver = [t for t in atom_terms(x.guard, lambda t: t.op == 'cell' and t.args[0] == ns and t.args[1] is key and t.args[2] != 0)]
        inb = any(core.B.implies(x.guard, Not(core.atom('has', t))) for t in loopver) or \
            distinct(x.guard, msgs, lambda y: F(y, 'cc_id')) or dedup_base(x, key)
        C.check(inb, 'not-twice-in-batch', site, 'two entries of one batch with the same id are both routed: the already-routed check does not see the ids marked by the same call')
        # marked
        tot = 0
        for e in C.saves(R, ns):
            if e.loops and unalias(e.loops[-1]) is msgs and e.key is F(elem(e.loops[-1]), 'cc_id'):
                tot = Or(tot, core.rename_base(e.guard, e.loops[-1], x.bases[0]) if e.loops[-1] is not x.bases[0] else e.guard)
        C.implies(x.guard, tot, 'marked', site, 'a message is routed to nexus without being recorded as routed')
    for R2 in C.all_runs(NG):
        for e in C.writes(R2, ns):
            C.check(e.kind == 'save', 'never-cleared', R2.name, 'a routed-message record is deleted', e.loc())
    cov = 0
    for x in C.msgs(R):
        if len(x.bases) == 1 and unalias(x.bases[0]) is msgs:
            cov = Or(cov, core.rename_base(x.guard, x.bases[0], msgs) if x.bases[0] is not msgs else x.guard)
    unseen = And(*[Not(core.atom('has', t)) for t in all_terms(R, lambda t: t.op == 'cell' and t.args[0] == ns)])
    C.implies(And(R.okg, Not(empty(msgs)), Not(has(ns, F(elem(msgs), 'cc_id'))), unseen), cov, 'delivered', R.name, 'a message that was never routed is dropped')
    C.floor('nexus message sites', n, 1)


def dedup_base(x, key):
    return False


SPLITS = ('std::str::split',)
CHAINNAME = 'connection_router::state::ChainName'


def split_id(C, R, guard, body, whole):
    """transaction id and index together account for the whole message id"""
    idc = split_wrapped(F(body, 'source_tx_id'), guard)
    nc = split_wrapped(F(body, 'source_tx_index'), guard)
    site = R.name + ' id'
    sw = strip(whole)
    for g, t in idc:
        if strip(t) is sw:
            continue
        deps = leaves(t)
        C.check(sw in deps or whole in deps, 'tx-id', site, 'the transaction id does not come from the message id: ' + trim(show(t), 300))
        for h, n in nc:
            gh = close(And(g, h))
            if gh == 0:
                continue
            dn = leaves(n)
            C.check(sw in dn or whole in dn, 'tx-index', site, 'the index is not taken from the message id although the transaction id is only a part of it: ' + trim(show(n), 200))
            parts = {}
            for x in core.subterms(t) | core.subterms(n):
                if x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] in SPLITS:
                    parts.setdefault(x.args[0], set()).add(x.args[1])
            counted = [x for x in atom_terms(gh, lambda x: x.op == 'call' and x.args[0].startswith('std::str::') and x.args[0] not in SPLITS and (sw in leaves(x) or whole in leaves(x)) and not any(y.op == 'idx' for y in subterms(x)))]
            for sp, ks in parts.items():
                if counted:
                    continue            # the parts are counted in a way not understood here
                C.check(any(core.B.implies(gh, eq(core.length(sp), core.cint(k))) for k in (len(ks),)), 'whole-id', site,
                        'a message id with further parts is cut down to its first parts')


def split_wrapped(t, g):
    if t.op == 'agg' and len(t.args[3]) == 1:
        return split_wrapped(t.args[3][0], g)
    r = []
    for h, x in split(t, g):
        if x is not t and x.op == 'agg' and len(x.args[3]) == 1:
            r += split_wrapped(x.args[3][0], h)
        else:
            r.append((h, x))
    return r


def N03(C):
    R = C.run(NG, 'execute', 'RouteMessages')
    n = 0
    for x in C.msgs(R):
        m = elem(x.bases[0]) if x.bases else None
        if m is None:
            continue
        n += 1
        body = x.msg
        while body.op == 'agg' and body.args[1] == 'Custom':
            body = body.args[3][0]
        for f, path in (('source_chain', ('cc_id', 'chain')), ('source_address', ('source_address',)), ('destination_chain', ('destination_chain',)),
                        ('destination_address', ('destination_address',)), ('payload_hash', ('payload_hash',))):
            C.check(strip(F(body, f)) is strip(F(m, *path)), 'to-nexus', R.name + ' ' + f, 'field %s of the nexus message is %s' % (f, show(F(body, f))))
        split_id(C, R, x.guard, body, F(m, 'cc_id', 'id'))
    R = C.run(NG, 'execute', 'RouteMessagesFromNexus')
    src = inp('msg.RouteMessagesFromNexus.0')
    for x in C.msgs(R):
        content = field(x.body, '0', 'RouteMessages')
        k = 0
        for g, bs, v in walk_coll(content, x.guard):
            if not (bs and unalias(bs[-1]) is src):
                C.check(False, 'from-nexus', R.name, 'a message sent to the router is not derived from a submitted one')
                continue
            m = elem(bs[-1])
            n += 1
            k += 1
            for path, f in ((('cc_id', 'chain'), 'source_chain'), (('source_address',), 'source_address'), (('destination_chain',), 'destination_chain'),
                            (('destination_address',), 'destination_address'), (('payload_hash',), 'payload_hash')):
                C.check(strip(F(v, *path)) is strip(F(m, f)), 'from-nexus', R.name + ' ' + f, 'field %s of the routed message is %s' % ('.'.join(path), show(F(v, *path))))
            i = F(v, 'cc_id', 'id')
            deps = leaves(i)
            C.check(F(m, 'source_tx_id') in deps or F(m, 'source_tx_id', '0') in deps, 'id-tx', R.name, 'the id of a message from nexus does not depend on its transaction id')
            C.check(F(m, 'source_tx_index') in deps, 'id-index', R.name, 'the id of a message from nexus does not depend on its index in the transaction')
            J = Inj(C, R.F, root_types(R), {CHAINNAME: ':'})
            out, bad = J.determined(i)
            for f, w in (('source_tx_id', 'transaction id'), ('source_tx_index', 'index')):
                C.check(J.covers(out, F(m, f)) or J.covers(out, strip(F(m, f))), 'id-distinct', R.name + ' ' + f, 'messages from nexus that differ in their %s can get the same message id: %s%s' % (w, trim(show(i), 300), '; ' + bad[0] if bad else ''))
            b, gg, e = iterate(content)
            C.check(unalias(b) is src and gg == 1, 'complete', R.name, 'a message from nexus may be left out')
        C.implies(And(R.okg, Not(empty(src))), x.guard, 'sent', R.name, 'messages from nexus are accepted but not forwarded')
    C.floor('converted messages', n, 2)


# ---------------------------------------------------------------- aggregate verifier

AV = 'aggregate_verifier'


def A01(C):
    R = C.run(AV, 'execute', 'VerifyMessages')
    n = 0
    cov = 0
    for x in C.msgs(R):
        n += 1
        site = '%s: %s' % (R.name, x.site())
        C.check(x.kind == 'execute' and x.variant() == 'VerifyMessages', 'kind', site, 'unexpected message')
        C.same(x.guard, x.to, cfg('verifier'), 'target', site, 'verification is requested from a contract other than the configured verifier')
        if x.body.op == 'agg' and x.variant() == 'VerifyMessages':
            C.check(coll_all(field(x.body, 'messages', 'VerifyMessages'), inp('msg.VerifyMessages.messages')), 'content', site, 'the messages passed on are not exactly the submitted ones')
        C.check(x.reply_on in ('Success', 'Always'), 'reply', site, 'the answer of the verifier is not awaited')
        cov = Or(cov, x.guard)
    C.implies(R.okg, cov, 'sent', R.name, 'accepted without asking the verifier')
    Q = C.run(AV, 'query', 'IsVerified')
    v = Q.okval.args[0] if Q.okval.op == 'json' else Q.okval
    qs = [t for t in ([v] if v.op == 'query' else atom_terms(Q.okg, lambda t: t.op == 'query'))]
    C.check(len(qs) >= 1, 'query', Q.name, 'the verification query is not passed on')
    for q in qs:
        n += 1
        C.check(q.args[1] is cfg('verifier'), 'query-target', Q.name, 'verification status is asked from a contract other than the configured verifier')
        m = q.args[2]
        C.check(m.op == 'agg' and m.args[1] == 'IsVerified' and coll_all(field(m, 'messages', 'IsVerified'), inp('msg.IsVerified.messages')), 'query-content', Q.name, 'the status query is not about exactly the submitted messages')
    C.check(bool(qs) and (v is qs[0]), 'query-answer', Q.name, 'the answer is not the verifier\'s answer: ' + show(v))
    C.floor('pass-through sites', n, 2)
