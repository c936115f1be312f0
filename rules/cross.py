"""properties that concern every contract"""
from rules.lib import *
from rules.inject import Inj, root_types
from rules.router import CHAINNAME, strip
from rules.voting import json_str
import core

ALL = ('connection_router', 'gateway', 'nexus_gateway', 'voting_verifier', 'multisig', 'multisig_prover',
       'service_registry', 'rewards', 'aggregate_verifier', 'batching')


def entries(C, crates=ALL, kinds=('instantiate', 'execute', 'reply', 'query')):
    for c in crates:
        for R in C.all_runs(c, kinds):
            yield R


def always(e, p):
    """p holds at every occurrence of the construct e"""
    p = Or(Not(e.local), p)
    for b in reversed(e.loops):
        p = forall(b, p)
    return p


def X01(C):
    """storage cells with different meanings do not overlap"""
    n = 0
    for c in ALL:
        defs = {}
        for R in entries(C, (c,)):
            for ns, where, kind, span in R.I.stores:
                defs.setdefault(ns, {}).setdefault((where, kind), span)
        for ns, ds in sorted(defs.items()):
            n += 1
            # an index also names the primary namespace of its map
            own = {(w, k) for (w, k) in ds if k != 'index-of'}
            C.check(len(own) == 1, 'namespace', '%s "%s"' % (c, ns),
                    'the namespace is used by %s' % ', '.join(sorted('%s (%s)' % (short(w), k) for w, k in ds)), loc_of(sorted(ds.values())[0]))
            C.check('"' not in ns and all(32 < ord(x) < 127 for x in ns) and ns, 'literal', '%s "%s"' % (c, ns), 'the namespace is not a plain constant')
    C.floor('namespaces', n, 30)


def X03(C):
    """failed reads and queries are not mistaken for answers"""
    n = q = 0
    for R in entries(C):
        for e in R.effs:
            site = '%s %s' % (R.name, e.site())
            if e.kind == 'load' and e.e.get('how') != 'has':
                n += 1
                if e.key.op == 'allkeys':
                    bad = variant(elem(e.val), 'Err', ('Ok', 'Err'))
                    C.implies(R.ok, always(e, forall(e.val, Not(bad))), 'read', site, 'the operation succeeds although a stored value could not be read', e.loc())
                    continue
                C.implies(R.ok, always(e, Not(core.atom('ioerr', mk('cell', e.ns, e.key, 0)))), 'read', site, 'the operation succeeds although a stored value could not be read', e.loc())
            if e.kind == 'query':
                q += 1
                C.implies(R.ok, always(e, core.atom('qok', e.val)), 'query', '%s query in %s' % (R.name, short(e.fn)), 'the operation succeeds although a query failed', e.loc())
    C.floor('reads', n, 60)
    C.floor('queries', q, 8)


# ---------------------------------------------------------------- wire types

TEXT = ('String', 'str', 'Addr')


def shape(Fx, i, seen=()):
    """what a type looks like on the wire: names of variants and fields and the shapes inside"""
    t = Fx.ty(i)
    k = t['k']
    if k in ('ref', 'ptr'):
        return shape(Fx, t['t'], seen)
    if k == 'tuple':
        return ('tuple',) + tuple(shape(Fx, x, seen) for x in t.get('a', t.get('ts', ())))
    if k in ('array', 'slice'):
        return ('seq', shape(Fx, t['t'], seen))
    if k != 'adt':
        return (k, 'text' if t['s'] in TEXT else t['s'])
    name = t['p'].split('::')[-1]
    args = [x for x in t['a'] if 'Global' not in Fx.ty(x)['s']]
    if name in TEXT:
        return ('prim', 'text')
    if name in ('Vec', 'VecDeque', 'HashSet', 'BTreeSet'):
        return ('seq', shape(Fx, args[0], seen))
    if name in ('Box', 'Rc', 'Arc', 'Cow'):
        return shape(Fx, args[-1], seen)
    if name == 'Option':
        return ('option', shape(Fx, args[0], seen))
    if name in ('BTreeMap', 'HashMap'):
        return ('map', shape(Fx, args[0], seen), shape(Fx, args[1], seen))
    if t['p'].split('::')[0] in ('cosmwasm_std', 'std', 'core', 'alloc'):
        return ('lib', name) + tuple(shape(Fx, a, seen) for a in args)
    if t['p'] in seen:
        return ('again', name)
    s2 = seen + (t['p'],)
    if t['e']:
        return ('enum', name) + tuple((v['n'],) + tuple((f[0], shape(Fx, f[1], s2)) for f in v['f']) for v in t['v'])
    return ('struct', name) + tuple((f[0], shape(Fx, f[1], s2)) for v in t['v'] for f in v['f'])


def msg_type(C, crate, entry):
    Fx = C.crate(crate)
    key = '%s::contract::%s' % (crate, entry)
    if key not in Fx.bodies:
        return None
    for (nm, ty), i in zip(api.args_for(Fx, key), Fx.bodies[key]['locals'][1:]):
        if ty['k'] == 'adt' and ty.get('e') and nm == 'msg':
            return Fx, i
    return None


def target(C, R, agg, entry):
    """the contract whose messages have this type"""
    root = agg.args[0].split('::')[0]
    for c in ALL:
        if root in (c, c + '_api'):
            mt = msg_type(C, c, entry)
            if mt and agg.args[1] in C.variants(c, entry):
                return c
    return None


def answers(C, crate, variant_):
    """types that the contract answers this query with"""
    Q = C.run(crate, 'query', variant_)
    out = []
    for e in Q.effs:
        if e.kind == 'encode' and e.guard != 0:
            for g, x in split(Q.okval, Q.okg):
                v = e.val
                if x.op == 'json' and (x.args[0] is v or same(And(g, e.local), x.args[0], v)):
                    out.append((Q, e))
                    break
    return out


def X02(C):
    """sender and receiver agree on the form of messages, answers and replies"""
    nq = nm = nr = 0
    for R in entries(C):
        for e in R.effs:
            if e.kind != 'query' or e.val.args[2].op != 'agg':
                if e.kind == 'query':
                    for l in [x for _, x in alts(e.val.args[2])]:
                        C.check(l.op == 'agg', 'query-form', '%s query in %s' % (R.name, short(e.fn)), 'the query is not understood: ' + trim(show(l)), e.loc())
                continue
            q = e.val.args[2]
            site = '%s asks %s' % (R.name, q.args[1])
            c = target(C, R, q, 'query')
            if not C.check(c is not None, 'query-target', site, 'no contract answers this query: ' + show(q), e.loc()):
                continue
            want = shape(R.F, e.e['rty'])
            got = answers(C, c, q.args[1])
            C.check(got, 'answer', site, 'the answer of %s to %s is not understood' % (c, q.args[1]), e.loc())
            for Q, a in got:
                nq += 1
                have = shape(Q.F, a.e['ty'])
                C.check(have == want, 'answer', site, '%s answers with %s but %s is expected' % (c, Q.F.ty(a.e['ty'])['s'], R.F.ty(e.e['rty'])['s']), e.loc())
    sent = {}
    for R in entries(C, kinds=('instantiate', 'execute', 'reply')):
        for x in C.msgs(R):
            if x.kind != 'execute' or x.body is None:
                continue
            if x.body.op != 'agg':
                continue
            site = '%s sends %s' % (R.name, x.body.args[1])
            c = target(C, R, x.body, 'execute')
            if not C.check(c is not None, 'message-target', site, 'no contract takes this message: ' + trim(show(x.body))):
                continue
            nm += 1
            sent.setdefault(R.crate, []).append((R, x, c))
    for crate in ALL:
        Fx = C.crate(crate)
        if crate + '::contract::reply' not in Fx.bodies:
            continue
        R = C.run(crate, 'reply')
        for e in R.effs:
            if e.kind != 'decode' or e.guard == 0:
                continue
            ids = [x for _, x in alts(e.val)]
            for S, x, c in sent.get(crate, ()):
                if x.reply_on in ('Never', None):
                    continue
                T = C.run(c, 'execute', x.body.args[1])
                site = '%s reply to %s' % (crate, x.body.args[1])
                found = 0
                for t in T.effs:
                    if t.kind == 'encode' and t.guard != 0 and is_data_of(T, t):
                        found += 1
                        nr += 1
                        have, want = shape(T.F, t.e['ty']), shape(R.F, e.e['ty'])
                        C.check(have == want, 'reply', site, '%s answers with %s but the reply is read as %s' % (c, T.F.ty(t.e['ty'])['s'], R.F.ty(e.e['ty'])['s']), e.loc())
                C.check(found, 'reply', site + ' data', '%s returns no data' % c, e.loc())
    C.floor('answers', nq, 8)
    C.floor('messages', nm, 8)
    C.floor('replies', nr, 2)


def is_data_of(T, t):
    for g, val in split(T.okval, T.okg):
        d = field(val, 'data')
        for _, x in alts(d):
            if x.op == 'agg' and x.args[1] == 'Some':
                for _, y in alts(x.args[3][0]):
                    if y.op == 'json' and y.args[0] is t.val:
                        return True
    return False


# ---------------------------------------------------------------- identifiers computed from content

KEYED = {('voting_verifier', 'poll_messages'): lambda v: F(v, 'content'),
         ('voting_verifier', 'poll_worker_sets'): lambda v: F(v, 'content'),
         ('multisig', 'worker_sets'): lambda v: v}


def hashed(t):
    return any(x.op == 'digest' for x in subterms(t) if isinstance(x, Term))


def whole_ids(J, o):
    """the determined terms o include every requested (or returned) message id as a whole"""
    ids = inp('msg.ConstructProof.message_ids')
    bases = {x.args[0] for t in o for x in subterms(t) if isinstance(x, Term) and x.op == 'elem'}
    return any(J.covers(o, elem(b)) if core.unalias(b) is ids else (core.unalias(b).op == 'query' and J.covers(o, F(elem(b), 'cc_id'))) for b in bases)


def injective(C, R):
    return Inj(C, R.F, root_types(R), {CHAINNAME: ':'}, {q.val: q.e['rty'] for q in R.effs if q.kind == 'query'})


def X07(C):
    """records stored under a digest of their content: the digest determines the content"""
    n = 0
    for R in entries(C, ('voting_verifier', 'multisig', 'multisig_prover'), ('execute',)):
        for e in C.writes(R):
            if e.kind != 'save' or e.key is None or not hashed(e.key):
                continue
            what = KEYED.get((R.crate, e.ns))
            J = injective(C, R)
            site = '%s %s' % (R.crate, e.ns)
            out, bad = set(), []
            if e.key.op == 'digest' or what:
                for g, k in split(e.key):
                    o, b = J.determined(k)
                    C.check(not b, 'key', site, 'two different records can get the same key: %s' % (b and b[0]), e.loc())
                    J.loose = True
                    o, _ = J.determined(k)
                    J.loose = False
                    for h, v in split(e.val, g):
                        n += 1
                        for hh, x in split(what(v), h) if what else ():
                            C.check(J.covers(o, x), 'content', site, 'records that differ in %s can get the same key: %s' % (', '.join(J.missing(o, x)), trim(show(k), 300)), e.loc())
                continue
            o, bad = J.determined(e.key)
            n += 1
            C.check(not bad, 'key', site, 'two different records can get the same key: %s' % (bad[0] if bad else ''), e.loc())
            if (R.crate, e.ns, R.variant) == ('multisig_prover', 'command_batch', 'ConstructProof'):
                C.check(whole_ids(J, o), 'batch', site, 'the id of a batch does not determine its messages', e.loc())
            if (R.crate, e.ns, R.variant) == ('multisig_prover', 'command_batch', 'UpdateWorkerSet'):
                sets = [x for x in all_terms(R, lambda t: t.op == 'agg' and t.args[0].endswith('WorkerSet') and not t.args[1])]
                C.check(any(x in o for x in sets), 'batch', site, 'the id of a batch does not determine its worker set', e.loc())
    C.floor('records stored under a digest', n, 4)


def text_of(t):
    """the value a text stands for: undoes serialisation and number formatting"""
    while True:
        n = strip(json_str(t))
        if n is t:
            return t
        t = n


def payload(t):
    """the bytes inside a tagged or plain value"""
    t = text_of(t)
    if t.op == 'agg' and t.args[1] and len(t.args[3]) == 1:
        t = text_of(t.args[3][0])
    return t


def X10(C):
    """events state what is stored"""
    n = 0

    def told(R, ty, attrs, when=None):
        nonlocal n
        evs = [x for x in C.events(R) if x[2] == ty]
        tot, twice = 0, 0
        for g, bs, t, at in evs:
            n += 1
            C.check(not bs, 'once', '%s %s' % (R.name, ty), 'the event is emitted in a loop')
            twice = Or(twice, And(tot, g))
            tot = Or(tot, g)
            for k, want in attrs.items():
                if not C.check(k in at, 'fact', '%s %s %s' % (R.name, ty, k), 'the event does not state %s' % k):
                    continue
                want(g, at[k], '%s %s %s' % (R.name, ty, k))
        need = R.okg if when is None else And(R.okg, when)
        C.implies(need, tot, 'announced', '%s %s' % (R.name, ty), 'the operation can succeed without announcing what it recorded')
        C.check(close(twice) == 0, 'once', '%s %s twice' % (R.name, ty), 'the event can be emitted twice')

    def equals(v, how=text_of):
        def f(g, x, site):
            a, b = how(x), how(v)
            for h, y in split(a, g):
                for h2, z in split(b, h):
                    if close(h2) == 0:
                        continue
                    C.check(same(h2, how(y), how(z)) or same(h2, addr(how(y)), how(z)), 'fact', site, 'the event states %s instead of %s' % (trim(show(y), 160), trim(show(z), 160)))
        return f

    R = C.run('multisig', 'execute', 'RegisterPublicKey')
    for e in one_save(C, R, 'registered_pub_keys'):
        def key(g, x, site, e=e):
            x = text_of(x)
            for h, y in split(x, g):
                for h2, z in split(e.val, h):
                    if close(h2) == 0:
                        continue
                    tags = [a for a in ('Ecdsa', 'Ed25519') if close(And(h2, core.variant(y, a, ('Ecdsa', 'Ed25519')))) != 0] if y.op != 'agg' else [y.args[1]]
                    good = len(tags) == 1 and same(h2, payload(field(y, '0', tags[0])), payload(z))
                    C.check(good, 'fact', site, 'the event states %s instead of %s' % (trim(show(y), 160), trim(show(z), 160)))
        told(R, 'public_key_registered', {'worker': equals(field(e.key, '0')), 'public_key': key})
    R = C.run('multisig', 'execute', 'SubmitSignature')
    for e in one_save(C, R, 'signatures'):
        told(R, 'signature_submitted', {'session_id': equals(field(e.key, '0')), 'participant': equals(field(e.key, '1')), 'signature': equals(e.val, payload)})
    for v, ty, kind in (('AuthorizeCaller', 'caller_authorized', 'save'), ('UnauthorizeCaller', 'caller_unauthorized', 'remove')):
        R = C.run('multisig', 'execute', v)
        for e in one_save(C, R, 'authorized_callers', kind):
            told(R, ty, {'contract_address': equals(e.key)})
    R = C.run('multisig_prover', 'reply')
    for e in one_save(C, R, 'multisig_session_batch'):
        told(R, 'proof_under_construction', {'command_batch_id': equals(e.val), 'multisig_session_id': equals(e.key)})
    R = C.run('voting_verifier', 'instantiate')
    for e in one_save(C, R, 'config'):
        told(R, 'instantiated', {k: equals(F(e.val, f)) for k, f in (
            ('service_name', 'service_name'), ('service_registry_contract', 'service_registry_contract'), ('source_gateway_address', 'source_gateway_address'),
            ('voting_threshold', 'voting_threshold'), ('block_expiry', 'block_expiry'), ('confirmation_height', 'confirmation_height'))})
    C.floor('announcements', n, 6)


def one_save(C, R, ns, kind='save'):
    es = [e for e in C.writes(R, ns) if e.kind == kind]
    C.check(len(es) >= 1, 'recorded', '%s %s' % (R.name, ns), 'the operation no longer records this fact')
    return es[:1]
