"""multisig: authorised callers, signing sessions, signatures, worker sets, keys"""
from rules.lib import *
from rules.voting import counter_next, above_counter, bare, strip, unalias
import core

MS = 'multisig'
STATE = ('Pending', 'Completed')
KT = ('Ecdsa', 'Ed25519')


def config(*n):
    return F(ld('config'), *n)


def gov():
    return eq(sender(), config('governance'))


def pending(s):
    return variant(F(s, 'state'), 'Pending', STATE)


def ecdsa(pk):
    return variant(pk, 'Ecdsa', KT)


def session_of(t):
    for x in leaves(t):
        if x.op == 'load' and x.args[0] == 'signing_sessions':
            return x
    return None


def session_writes(C):
    """[(R, eff, guard, stored session or None, value)]"""
    out = []
    for R in C.all_runs(MS):
        for e in C.writes(R, 'signing_sessions'):
            if e.kind == 'remove':
                C.check(False, 'removed', e.site(), 'a signing session is removed', e.loc())
                continue
            for g, v in split(e.val, e.guard):
                g = close(g)
                if g == 0:
                    continue
                st = v
                while st.op == 'upd':
                    st = st.args[0]
                if not (st.op == 'load' and st.args[0] == 'signing_sessions'):
                    idv = F(v, 'id')
                    st = session_of(idv)
                out.append((R, e, g, st, v))
    return out


def M01(C):
    n = m = k = 0
    for R, e, g, st, v in session_writes(C):
        if st is None:
            n += 1
            C.implies(g, has('authorized_callers', sender()), 'start', e.site(), 'a signing session can be started by someone who is not authorised', e.loc())
    for R in C.all_runs(MS):
        for e in C.writes(R, 'authorized_callers'):
            m += 1
            C.implies(e.guard, gov(), 'governance', e.site(), 'authorisations can be changed by someone other than governance', e.loc())
            keys = [t for t in subterms(e.key) if isinstance(t, Term) and t.op == 'in']
            ok_ = len(keys) == 1 and keys[0].args[0].startswith('msg.') and strip(e.key) is keys[0]
            C.check(ok_, 'subject', e.site(), 'the caller whose authorisation changes is not the one named: ' + show(e.key), e.loc())
            want = {'AuthorizeCaller': 'save', 'UnauthorizeCaller': 'remove'}.get(R.name.split()[-1])
            C.check(e.kind == want, 'direction', '%s %s' % (R.name, e.site()), 'the wrong change of authorisation is made (%s)' % e.kind, e.loc())
        v = R.name.split()[-1]
        if v in ('AuthorizeCaller', 'UnauthorizeCaller'):
            k += 1
            tot = Or(*[e.guard for e in C.writes(R, 'authorized_callers')])
            C.implies(R.ok, tot, 'effect', R.name, 'the call succeeds without changing the authorisation')
            C.implies(R.ok, gov(), 'governance', R.name + ' success', 'the call succeeds for someone other than governance')
        for e in C.writes(R, 'config'):
            C.check(R.name.split()[1] == 'instantiate', 'config', '%s %s' % (R.name, e.site()), 'the configuration changes after instantiation', e.loc())
            if R.name.split()[1] == 'instantiate':
                for f, i in (('governance', 'governance_address'), ('rewards_contract', 'rewards_address')):
                    x = F(inp('msg'), i)
                    C.check(F(e.val, f) is mk('addr', x), 'config', f, 'the %s stored is not the validated one requested: %s' % (f, show(F(e.val, f))), e.loc())
                C.same(e.guard, F(e.val, 'grace_period'), F(inp('msg'), 'grace_period'), 'config', 'grace', 'the grace period stored is not the requested one', e.loc())
    C.floor('sessions started', n, 1)
    C.floor('authorisation writes', m, 2)
    C.floor('authorisation messages', k, 2)


def raw(t):
    """the bytes inside a signature value"""
    return bare_enum(t)


def bare_enum(t):
    while t.op == 'agg' and len(t.args[3]) == 1:
        t = t.args[3][0]
    return t


def verified(g, S, pk, sig):
    """the condition that the signature bytes verify under pk for the session's message"""
    msg = {F(S, 'msg'), F(S, 'msg', '0')}
    good = {True: 0, False: 0}
    for a in atoms_of(g):
        if a.op != 'true' or a.args[0].op != 'call':
            continue
        c = a.args[0]
        name = c.args[0]
        args = c.args[1:]
        if len(args) != 3 or args[0] not in msg:
            continue
        if name.endswith('secp256k1_verify') and args[2] is field(pk, '0', 'Ecdsa') and args[1] is sig:
            good[True] = Or(good[True], core.W.var_of[a])
        if name.endswith('ed25519_verify') and args[2] is field(pk, '0', 'Ed25519'):
            whole = args[1] is sig
            if args[1].op == 'idx' and args[1].args[0] is sig and holds(And(g, Not(ecdsa(pk))), eq(length(sig), cint(64))):
                r = args[1].args[1]
                if r.op == 'agg' and 'Range' in r.args[0]:
                    lo = F(r, 'start') if 'start' in r.args[2] else cint(0)
                    hi = F(r, 'end') if 'end' in r.args[2] else cint(64)
                    whole = lo is cint(0) and hi is cint(64)
            if whole:
                good[False] = Or(good[False], core.W.var_of[a])
    return core.B.ite(ecdsa(pk), good[True], good[False])


def signature_saves(C):
    out = []
    for R in C.all_runs(MS):
        for e in C.writes(R, 'signatures'):
            out.append((R, e))
    return out


def M02(C):
    n = 0
    for R, e in signature_saves(C):
        site = e.site()
        if not C.check(e.kind == 'save', 'removed', site, 'a signature is removed', e.loc()):
            continue
        n += 1
        g = e.guard
        okk = e.key.op == 'agg' and len(e.key.args[3]) == 2
        if not C.check(okk, 'key', site, 'a signature is not stored by session and signer: ' + show(e.key), e.loc()):
            continue
        sid, who = e.key.args[3]
        C.check(strip(who) is sender(), 'signer', site, 'a signature is stored for someone other than the sender: ' + show(who), e.loc())
        C.implies(g, has('signing_sessions', sid), 'session', site, 'a signature is stored for a session that need not exist', e.loc())
        S = ld('signing_sessions', sid)
        W = ld('worker_sets', F(S, 'worker_set_id'))
        C.implies(g, core.atom('has', F(W, 'signers'), sender()), 'member', site, 'a signature is accepted from someone outside the worker set of the session', e.loc())
        C.implies(g, Not(has('signatures', e.key)), 'once', site, 'a stored signature can be replaced', e.loc())
        done = F(S, 'state', 'Completed.completed_at')
        late = And(Not(pending(S)), lt(core.arith('add', done, config('grace_period')), height()))
        C.implies(g, Not(late), 'grace', site, 'a signature is accepted after the grace period of a completed session', e.loc())
        sigs = [bare_enum(v) for c, v in split(e.val, g) if close(c) != 0]
        if not C.check(len(set(sigs)) == 1 and sigs[0].op == 'in' and sigs[0].args[0].startswith('msg.'), 'submitted', site, 'the stored signature is not the submitted one: ' + trim(show(e.val)), e.loc()):
            continue
        sig = sigs[0]
        pk = F(mk('get', F(W, 'signers'), sender()), 'pub_key')
        C.implies(g, verified(g, S, pk, sig), 'verified', site,
                  'a signature is stored that was not verified with the signer\'s key in the worker set against the session\'s message', e.loc())
        for c, v in split(e.val, g):
            c = close(c)
            if c == 0:
                continue
            kind = v.args[1] if v.op == 'agg' else None
            if not C.check(kind is not None and bare_enum(v) is sig, 'stored', site + ' %s' % kind, 'the stored signature is not the submitted one: ' + trim(show(v)), e.loc()):
                continue
            C.implies(c, ecdsa(pk) if kind.startswith('Ecdsa') else Not(ecdsa(pk)), 'type', site + ' ' + kind, 'the signature is stored as a kind that does not fit the key', e.loc())
            want = 65 if kind == 'EcdsaRecoverable' else 64
            C.implies(c, eq(length(sig), cint(want)), 'length', site + ' ' + kind, 'a %s signature of another length than %d is accepted' % (kind, want), e.loc())
    C.floor('signature writes', n, 1)


def weights(R, sid, S, W):
    """terms that are the total weight in W of the signers whose signatures are stored now"""
    out = []
    for t in all_terms(R, lambda t: t.op == 'sum'):
        b, g, e = iterate(t.args[0])
        ub = unalias(b)
        if ub.op == 'range' and ub.args[0] == 'signatures' and ub.args[1] in sid and ub.args[2] is mk('v', 'True') and \
                all(a.op == 'agg' and a.args[1] == 'None' for a in ub.args[3:5]):
            okel = variant(elem(b), 'Ok')
            who = field(field(elem(b), '0', 'Ok'), '0')
            w = F(mk('get', F(W, 'signers'), who), 'weight')
            if (core.B.implies(okel, g) or holds(R.ok, forall(b, Or(Not(okel), g)))) and same(okel, e, w):
                out.append(t)
        elif ub is F(W, 'signers') and same(1, e, F(elem(b), '1', 'weight')):
            for a in atoms_of(g):
                if a.op == 'forall' and g == Not(core.W.var_of[a]):
                    r = unalias(a.args[0])
                    who = field(field(elem(a.args[0]), '0', 'Ok'), '0')
                    if r.op == 'range' and r.args[0] == 'signatures' and r.args[1] in sid and r.args[2] is mk('v', 'True') and \
                            a.args[1] == Not(eq(who, F(elem(b), '0'))):
                        out.append(t)
    return out


def completion(R, S, W):
    """conditions under which the session reaches its threshold in this call"""
    sid = {S.args[1], F(S, 'id')}
    return [And(pending(S), Not(lt(t, F(W, 'threshold')))) for t in weights(R, sid, S, W)]


def M03(C):
    n = m = 0
    done_of = {}
    for R, e, g, S, v in session_writes(C):
        site = e.site()
        if S is None:
            continue
        n += 1
        W = ld('worker_sets', F(S, 'worker_set_id'))
        C.check(e.key is S.args[1] or e.key is F(S, 'id'), 'same-session', site, 'a session is stored under another id: ' + show(e.key), e.loc())
        for f in ('id', 'worker_set_id', 'msg'):
            C.same(g, F(v, f), F(S, f), 'fixed', site + ' ' + f, 'the %s of an existing session changes' % f, e.loc())
        dones = completion(R, S, W)
        if not C.check(dones, 'weight', site, 'the state of a session changes without the weight of its stored signatures being summed', e.loc()):
            continue
        done_of.setdefault(R, (S, dones, []))[2].append((e, v))
        d = dones[0]
        nv = F(v, 'state')
        fin = And(g, d)
        if close(fin) != 0:
            C.check(all(x.op == 'agg' and x.args[1] == 'Completed' and same(And(fin, c), field(x, 'completed_at', 'Completed'), height())
                        for c, x in split(nv, close(fin)) if close(c) != 0), 'completed', site,
                    'a pending session whose signatures reach the threshold is not completed at this height: ' + trim(show(under(nv, close(fin)))), e.loc())
        C.same(And(g, Not(d)), nv, F(S, 'state'), 'state', site, 'the state of a session changes although it is not newly completed', e.loc())
    for R, e in signature_saves(C):
        m += 1
        S, dones, ws = done_of.get(R, (None, [], []))
        if not C.check(dones, 'recount', e.site(), 'a signature is stored without the state of its session being recomputed', e.loc()):
            continue
        C.check(e.key.op == 'agg' and e.key.args[3][0] in (S.args[1], F(S, 'id')), 'recount', e.site() + ' session', 'the recomputed session is not the signed one', e.loc())
        C.implies(And(e.guard, dones[0]), Or(*[x.guard for x, v in ws]), 'recount', e.site() + ' stored', 'a session can reach its threshold without its completion being stored', e.loc())
        # announcement
        evs = [x for x in C.events(R) if x[2] == 'signing_completed']
        g = And(e.guard, dones[0])
        C.implies(g, Or(*[x[0] for x in evs]), 'announce', e.site(), 'the completion of a session is not announced', e.loc())
        for gg, bs, ty, at in evs:
            C.implies(gg, dones[0], 'announce', e.site() + ' only', 'a completion is announced for a session that is not newly completed', e.loc())
            C.check(strip(at.get('session_id', mk('none'))) in (S.args[1], F(S, 'id')), 'announce', e.site() + ' id', 'the announced session is another one', e.loc())
            C.same(gg, strip(at.get('completed_at', mk('none'))), height(), 'announce', e.site() + ' height', 'the announced height is another one', e.loc())
    C.floor('session updates', n, 1)
    C.floor('signature writes', m, 1)


def M04(C):
    n = 0
    for R, e, g, st, v in session_writes(C):
        if st is not None:
            continue
        n += 1
        site = e.site()
        C.check(counter_next(C, R, 'signing_session_counter', e.key, g), 'fresh-id', site, 'the id of a new session may have been used before: ' + show(e.key), e.loc())
        C.same(g, F(v, 'id'), e.key, 'own-id', site, 'a session is stored under an id other than its own', e.loc())
        s = F(v, 'state')
        C.check(s.op == 'agg' and s.args[1] == 'Pending', 'pending', site, 'a new session is not pending: ' + show(s), e.loc())
        wid = F(v, 'worker_set_id')
        C.check(wid is inp('msg.StartSigningSession.worker_set_id'), 'worker-set', site, 'the session is for another worker set than requested: ' + show(wid), e.loc())
        C.implies(g, has('worker_sets', wid), 'worker-set', site + ' known', 'a session is started for a worker set that is not registered', e.loc())
        m = bare(F(v, 'msg'))
        C.check(m is inp('msg.StartSigningSession.msg'), 'message', site, 'the message to sign is not the requested one: ' + show(m), e.loc())
        C.implies(g, eq(length(inp('msg.StartSigningSession.msg')), cint(32)), 'hash-size', site, 'a message that is not a 32 byte hash can be signed', e.loc())
        for c, val in split(R.okval, R.okg):
            d = field(val, 'data')
            good = d.op == 'agg' and d.args[1] == 'Some' and d.args[3][0].op == 'json' and same(g, d.args[3][0].args[0], e.key)
            C.check(good, 'returned', site, 'the id returned is not the id of the new session: ' + show(d), e.loc())
        evs = [x for x in C.events(R) if x[2] == 'signing_started']
        C.check(len(evs) == 1, 'announce', site, 'a new session is not announced exactly once', e.loc())
        W = ld('worker_sets', wid)
        for gg, bs, ty, at in evs:
            C.implies(g, gg, 'announce', site + ' always', 'a new session is not always announced', e.loc())
            C.check(not bs and strip(at.get('session_id', mk('none'))) is e.key, 'announce', site + ' id', 'another session is announced', e.loc())
            C.check(strip(at.get('worker_set_id', mk('none'))) is wid, 'announce', site + ' worker set', 'another worker set is announced', e.loc())
            mm = at.get('msg', mk('none'))
            C.check(mm.op == 'hex' and bare(mm.args[0]) is m, 'announce', site + ' message', 'another message is announced: ' + show(mm), e.loc())
            pks = at.get('pub_keys', mk('none'))
            pks = pks.args[1] if pks.op == 'call' and len(pks.args) == 2 else json_of(pks)
            b, gk, x = iterate(pks.args[0] if pks.op == 'mapof' else pks)
            C.check(gk == 1 and unalias(b) is F(W, 'signers') and same(1, field(x, '0'), F(elem(b), '0')) and same(1, field(x, '1'), F(elem(b), '1', 'pub_key')),
                    'announce', site + ' keys', 'the announced keys are not those of the worker set: ' + trim(show(pks)), e.loc())
            C.check(strip(at.get('chain', mk('none'))) is inp('msg.StartSigningSession.chain_name'), 'announce', site + ' chain', 'another chain is announced', e.loc())
    C.floor('sessions started', n, 1)
    k = 0
    for R in C.all_runs(MS):
        for e in C.writes(R, 'signing_session_counter'):
            k += 1
            if R.name.split()[1] == 'instantiate':
                C.check(e.kind == 'save' and bare(e.val) is cint(0), 'counter', e.site() + ' start', 'the counter does not start at zero', e.loc())
            else:
                C.check(e.kind == 'save' and above_counter('signing_session_counter', e.val, e.guard), 'counter', e.site(), 'the session counter does not strictly increase: ' + show(e.val), e.loc())
    C.floor('counter writes', k, 2)


def content_hash(key, val):
    """key is (an encoding of) a digest of the serialised value"""
    t = key
    while t.op in ('hex', 'str'):
        t = t.args[0]
    if t.op != 'digest':
        return False
    parts = t.args[1].args[0] if t.args[1].op == 'list' else ()
    if len(parts) != 1:
        return False
    p = parts[0]
    if p.op == 'call' and 'serde' in p.args[0] and len(p.args) == 2:
        p = p.args[1]
    elif p.op == 'json':
        p = p.args[0]
    else:
        return False
    return p is val


def M05(C):
    n = 0
    for R in C.all_runs(MS):
        for e in C.writes(R, 'worker_sets'):
            n += 1
            if not C.check(e.kind == 'save', 'removed', e.site(), 'a registered worker set is removed', e.loc()):
                continue
            C.check(content_hash(e.key, e.val), 'content', e.site(), 'a worker set is not stored under the hash of its whole content: key %s' % trim(show(e.key)), e.loc())
        if R.name.endswith('RegisterWorkerSet'):
            want = inp('msg.RegisterWorkerSet.worker_set')
            ws = C.writes(R, 'worker_sets')
            C.implies(R.ok, Or(*[e.guard for e in ws if e.val is want]), 'registered', R.name, 'registering a worker set succeeds without storing it')
    C.floor('worker set writes', n, 1)
    Q, v = answer(C, MS, 'GetWorkerSet')
    C.same(Q.ok, v, ld('worker_sets', inp('msg.GetWorkerSet.worker_set_id')), 'query', 'GetWorkerSet', 'the answer is not the worker set of this id')
    C.implies(Q.ok, has('worker_sets', inp('msg.GetWorkerSet.worker_set_id')), 'query', 'GetWorkerSet known', 'an unknown worker set is reported')


LENGTHS = {'Ecdsa': (33, 65), 'Ed25519': (32,)}


def key_ok(C, where, g, v, data, loc=''):
    """v, a key value built under g from the bytes data, has a length that fits its type"""
    for c, x in split(v, g):
        c = close(c)
        if c == 0:
            continue
        if not C.check(x.op == 'agg' and x.args[1] in LENGTHS and bare_enum(x) is data, 'key-shape', where, 'a key is not built from the given bytes: ' + trim(show(x)), loc):
            continue
        C.implies(c, Or(*[eq(length(data), cint(k)) for k in LENGTHS[x.args[1]]]), 'key-length', '%s %s' % (where, x.args[1]), 'an %s key of another length than %s is accepted' % (x.args[1], ' or '.join(map(str, LENGTHS[x.args[1]]))), loc)
        yield c, x


def M06(C):
    n = 0
    for R in C.all_runs(MS):
        for e in C.writes(R, 'registered_pub_keys'):
            n += 1
            site = e.site()
            if not C.check(e.kind == 'save', 'removed', site, 'a registered key is removed', e.loc()):
                continue
            pk = inp('msg.RegisterPublicKey.public_key')
            okk = e.key.op == 'agg' and len(e.key.args[3]) == 2
            if not C.check(okk, 'key', site, 'a public key is not stored by owner and type', e.loc()):
                continue
            who, kt = e.key.args[3]
            C.check(strip(who) is sender(), 'owner', site, 'a public key is stored for someone other than the sender: ' + show(who), e.loc())
            for v in KT:
                c = And(e.guard, ecdsa(pk) if v == 'Ecdsa' else Not(ecdsa(pk)))
                k = under(kt, close(c))
                C.check(k.op == 'agg' and k.args[1] == v, 'type', site + ' ' + v, 'an %s key is stored as type %s' % (v, show(k)), e.loc())
                C.same(c, e.val, field(pk, '0', v), 'bytes', site + ' ' + v, 'the stored key is not the registered one', e.loc())
    C.floor('public key writes', n, 1)
    # what the queries return
    Q, v = answer(C, MS, 'GetPublicKey')
    who, kt = mk('addr', inp('msg.GetPublicKey.worker_address')), inp('msg.GetPublicKey.key_type')
    data = ld('registered_pub_keys', tup(who, kt))
    C.implies(Q.ok, has('registered_pub_keys', tup(who, kt)), 'query', 'GetPublicKey known', 'a key is reported that was not registered')
    for c, x in key_ok(C, 'GetPublicKey', Q.ok, v, data):
        C.implies(c, variant(kt, x.args[1], KT), 'query', 'GetPublicKey type', 'a key is reported as another type than the one requested')
    # the gate through which keys enter: decoding of messages
    Fx = C.crate(MS)
    conv = [k for k in Fx.bodies if k.startswith('<key::PublicKey as std::convert::TryFrom<(key::KeyType') and k.endswith('::try_from')]
    if C.check(len(conv) == 1, 'decode', 'conversion', 'the checked conversion to public keys is not found'):
        R = C.body(MS, conv[0])
        a = inp(api.args_for(Fx, conv[0])[0][0])
        b = Fx.bodies[conv[0]]
        for c, x in key_ok(C, 'conversion', R.ok, R.okval, field(a, '1') if a.op == 'in' else a):
            C.implies(c, variant(field(a, '0'), x.args[1], KT), 'decode', 'conversion ' + x.args[1], 'the conversion yields a key of another type than asked for')
    gates = generic_calls(Fx)
    deser = [p for p in gates if 'Deserialize' in p and 'PublicKey' in p and '__DeserializeWith' in p and p.split('#')[0].endswith('::deserialize')]
    kinds = set()
    for p in deser:
        hit = reach_checked(gates, p)
        C.check(hit is not None, 'decode', 'variant %d' % len(kinds), 'a public key can be decoded from a message without its length being checked')
        if hit:
            kinds |= hit
    C.floor('decoded key variants', len(deser), 2)
    C.check(kinds == set(KT), 'decode', 'types', 'decoding public keys checks for types %s' % sorted(kinds))


def generic_calls(Fx):
    out = {}
    for b in Fx.generic:
        n = len([p for p in out if p.split('#')[0] == b['p']])
        out[b['p'] if not n else '%s#%d' % (b['p'], n)] = b
    return out


def reach_checked(gates, p):
    """key types for which a decoder reaches the checked conversion"""
    seen, todo = set(), [p]
    kinds = set()
    found = False
    while todo:
        q = todo.pop()
        if q in seen or q not in gates:
            continue
        seen.add(q)
        for d, args in gates[q]['calls']:
            if d.endswith('TryFrom::try_from') and args and args[0].endswith('PublicKey'):
                found = True
                kinds |= {x.split('::')[-1] for x in gates[q]['built'] if 'KeyType::' in x}
            todo.append(d)
    return kinds if found else None


def M07(C):
    n = 0
    for R, e in signature_saves(C):
        ms = C.msgs(R)
        n += 1
        sid = e.key.args[3][0] if e.key.op == 'agg' else mk('none')
        tot = 0
        for x in ms:
            site = '%s in %s' % (x.site(), R.name)
            if not C.check(x.kind == 'execute' and x.variant() == 'RecordParticipation', 'kind', site, 'an unexpected message is sent'):
                continue
            C.check(x.to is config('rewards_contract') or strip(x.to) is config('rewards_contract'), 'to', site, 'participation is reported to %s' % show(x.to))
            b = x.body
            ev = bare(F(b, 'event_id', ) if 'event_id' in b.args[2] else mk('none'))
            C.check(strip(ev) is sid, 'event', site, 'the reported event is not the session: ' + show(ev))
            C.check(strip(field(b, 'worker_address', b.args[1])) is sender(), 'worker', site, 'participation is reported for someone else')
            C.check(not x.bases, 'single', site, 'participation is reported repeatedly')
            C.check(x.funds.op == 'list' and not x.funds.args[0], 'funds', site, 'funds are attached')
            tot = Or(tot, x.guard)
        C.check(len(ms) == 1, 'single', e.site(), '%d messages are sent for one signature' % len(ms))
        C.implies(e.guard, tot, 'reported', e.site(), 'a signature can be accepted without participation being reported', e.loc())
    C.floor('signature writes', n, 1)
    for R in C.all_runs(MS):
        if not any(r is R for r, e in signature_saves(C)):
            C.check(not C.msgs(R), 'silent', R.name, 'a message is sent although no signature was submitted')


def M08(C):
    Q, v = answer(C, MS, 'GetMultisig')
    sid = inp('msg.GetMultisig.session_id')
    S = ld('signing_sessions', sid)
    W = ld('worker_sets', F(S, 'worker_set_id'))
    C.implies(Q.ok, has('signing_sessions', sid), 'known', 'GetMultisig', 'an unknown session is reported')
    C.same(Q.ok, F(v, 'state'), F(S, 'state'), 'state', 'GetMultisig', 'the reported state is not that of the session')
    C.same(Q.ok, F(v, 'quorum'), F(W, 'threshold'), 'quorum', 'GetMultisig', 'the reported quorum is not that of the worker set of the session')
    sg = under(F(v, 'signers'), Q.ok)
    b, g, e = iterate(sg)
    if not C.check(unalias(b) is F(W, 'signers') and g == 1, 'signers', 'GetMultisig', 'the reported signers are not all those of the worker set: ' + trim(show(sg))):
        return
    C.same(Q.ok, field(e, '0'), F(elem(b), '1'), 'signer', 'GetMultisig', 'a reported signer is not the one of the worker set')
    who = F(elem(b), '0')
    sig = field(e, '1')
    for t in core.subterms(sig):
        # taken out of the map signer by signer: the addresses differ, so each finds what was there at first
        if isinstance(t, Term) and t.op == 'lv' and t in core.W.loops:
            v0, v1, lb = core.W.loops[t]
            if lb is b and v1.op == 'del' and v1.args[0] is t and v1.args[1] is who:
                sig = core.subst(sig, mk('get', t, who), interp.mapget(v0, who))
                a = core.W.var_of.get(mk('has', t, who))
                if sig.op == 'phi' and a is not None:
                    x = next(iter(core.B.support(a)))
                    h = interp.haskey(v0, who)
                    sig = core.phi([(Or(And(h, core.B.cofactor(gg, x, 1)), And(Not(h), core.B.cofactor(gg, x, 0))), l) for gg, l in sig.args[0]])
    found = n = 0
    for c, x in split(sig, Q.ok):
        if x.op == 'agg' and x.args[1] == 'Some':
            y = x.args[3][0]
            n += 1
            good, cond = False, 0
            if y.op == 'field' and y.args[1] == '1':
                r = y.args[0]
                while r.op == 'field':
                    r = r.args[0]
                if r.op == 'pick':
                    rg = unalias(r.args[0])
                    key = field(field(r, '0', 'Ok'), '0')
                    good = rg.op == 'range' and rg.args[0] == 'signatures' and rg.args[1] in (sid, F(S, 'id')) and holds(And(c, variant(r, 'Ok')), eq(key, who)) and y is field(field(r, '0', 'Ok'), '1')
                    q = r.args[0]
                    cond = Not(forall(q, Not(eq(field(field(elem(q), '0', 'Ok'), '0'), who))))
            if y.op == 'load' and y.args[0] == 'signatures' and y.args[1] in (tup(sid, who), tup(F(S, 'id'), who)):
                good, cond = True, has('signatures', y.args[1])
            C.check(good, 'signature', 'GetMultisig', 'a reported signature is not the one this signer stored for the session: ' + trim(show(y)))
            found = Or(found, cond)
        else:
            none_ = x.op == 'agg' and x.args[1] == 'None'
            C.check(none_, 'signature', 'GetMultisig shape', 'a reported signature is of unknown origin: ' + trim(show(x)))
    for c, x in split(sig, Q.ok):
        if x.op == 'agg' and x.args[1] == 'None':
            C.implies(c, Not(found), 'complete', 'GetMultisig', 'a stored signature can be left out of the answer')
    C.check(n > 0, 'signature', 'GetMultisig none', 'no signature is ever reported')

