"""voting-verifier: polls, tallies, verification status"""
from rules.lib import *
import core

VV = 'voting_verifier'


def unalias(c):
    """the collection c traverses, in the same order"""
    while c.op == 'again' and len(c.args) == 1:
        c = c.args[0]
    return c


KINDS = ('Messages', 'ConfirmWorkerSet')


def polls_base(t):
    """the stored poll a poll value was derived from: load('polls', key, 0), else None"""
    for x in leaves(t):
        if x.op == 'load' and x.args[0] == 'polls':
            return x
    return None


def kinds(stored, g):
    """(variant, condition, payload) of the stored poll"""
    for v in KINDS:
        c = close(And(g, variant(stored, v) if v == KINDS[0] else Not(variant(stored, KINDS[0]))))
        if c != 0:
            yield v, c, field(stored, '0', v)


def spec(t, stored, v):
    """t specialised to the stored poll being of kind v"""
    m = variant(stored, KINDS[0])
    t = core.assume(t, m if v == KINDS[0] else Not(m))
    return t


def pfield(t, n):
    return F(t, n)


def poll_writes(C):
    """[(R, eff, kind, guard, stored poll or None, value of the written payload)]"""
    out = []
    for R in C.all_runs(VV):
        for e in C.writes(R, 'polls'):
            if e.kind == 'remove':
                C.check(False, 'removed', e.site(), 'a poll is removed', e.loc())
                continue
            for g, leaf in split(e.val, e.guard):
                if leaf.op != 'agg':
                    # the stored poll itself, unchanged
                    st = polls_base(leaf)
                    C.check(leaf is st, 'shape', e.site(), 'a poll is stored whose origin is not understood: ' + show(leaf), e.loc())
                    continue
                kind = leaf.args[1]
                st = polls_base(leaf.args[3][0])
                out.append((R, e, kind, close(g), st, leaf.args[3][0]))
    return out


def flow(t, st, kind):
    return core.assume(t, variant(st, KINDS[0]) if kind == KINDS[0] else Not(variant(st, KINDS[0])))


FIELDS = ('poll_id', 'quorum', 'expires_at', 'poll_size', 'status', 'participation', 'tallies')


def changes(g, p, P):
    return [f for f in FIELDS if not same(g, F(p, f), F(P, f))]


def V01(C):
    n = 0
    for R, e, kind, g, st, p in poll_writes(C):
        if st is None:
            continue
        site = e.site()
        C.check(st.args[1] is e.key, 'same-poll', site, 'a poll is stored under another poll\'s id', e.loc())
        C.implies(g, has('polls', e.key), 'known', site, 'a poll is stored without having been there', e.loc())
        C.implies(g, variant(st, KINDS[0]) if kind == KINDS[0] else Not(variant(st, KINDS[0])), 'kind', site, 'a poll of one kind is stored as the other kind', e.loc())
        P = field(st, '0', kind)
        p = flow(p, st, kind)
        ch = changes(g, p, P)
        for f in ('poll_id', 'quorum', 'expires_at', 'poll_size'):
            C.check(f not in ch, 'fixed', site + ' ' + f, 'the %s of an existing poll changes' % f, e.loc())
        if not set(ch) & {'participation', 'tallies'}:
            continue
        n += 1
        C.check('status' not in ch, 'fixed', site + ' status', 'casting a vote changes the status of the poll', e.loc())
        vs = votes_of(R)
        votes = vs[0] if vs else None
        C.check(votes is not None, 'votes', site, 'participation or tallies change without votes being submitted', e.loc())
        if votes is None:
            continue
        g = assume_guard(g, st, kind)
        part = F(P, 'participation')
        who = sender()
        C.implies(g, core.atom('has', part, who), 'participant', site, 'a vote is accepted from someone who is not a participant of the poll', e.loc())
        C.implies(g, lt(height(), F(P, 'expires_at')), 'not-expired', site, 'a vote is accepted after the poll has expired', e.loc())
        C.implies(g, eq(length(votes), F(P, 'poll_size')), 'vote-size', site, 'the number of votes accepted need not be the size of the poll', e.loc())
        mine = mk('get', part, who)
        C.implies(g, Not(variant(F(mine, 'vote'), 'Some')), 'once', site, 'a participant can vote again', e.loc())
        # the participant's record
        pp = under(F(p, 'participation'), g)
        good = pp.op == 'put' and pp.args[0] is part and pp.args[1] is who
        C.check(good, 'record', site, 'the vote is not recorded for exactly the sender: ' + trim(show(pp)), e.loc())
        if good:
            C.same(g, F(pp.args[2], 'weight'), F(mine, 'weight'), 'weight', site, 'the weight of the participant changes', e.loc())
            C.same(g, F(pp.args[2], 'vote'), some(votes), 'record-votes', site, 'the recorded votes are not the submitted ones', e.loc())
        # the tallies
        tt = under(F(p, 'tallies'), g)
        C.check(tally_ok(tt, g, F(P, 'tallies'), votes, F(mine, 'weight')), 'tally', site,
                'the tallies are not the old ones with the weight of the voter added once to the voted outcome of each item: ' + trim(show(tt)), e.loc())
    C.floor('votes cast', n, 2)


def assume_guard(g, st, kind):
    return close(core.assume(g, variant(st, KINDS[0]) if kind == KINDS[0] else Not(variant(st, KINDS[0]))))


def votes_of(R):
    """the submitted votes: a message field holding a list"""
    ts = all_terms(R, lambda t: t.op == 'in' and t.args[0].startswith('msg.') and t.args[0].endswith('.votes'))
    return ts


def tally_ok(tt, g, T, votes, weight):
    b, gg, e = iterate(tt)
    if gg != 1:
        return False
    ub = unalias(b)
    if ub is T:
        old, vote = elem(b), mk('idx', votes, mk('idxof', b))
    elif ub.op == 'zip' and [unalias(x) for x in ub.args] == [T, votes]:
        old, vote = field(elem(b), '0'), field(elem(b), '1')
    elif ub.op == 'zip' and [unalias(x) for x in ub.args] == [votes, T]:
        old, vote = field(elem(b), '1'), field(elem(b), '0')
    else:
        return False
    m = field(e, '0')
    key = mk('str', vote)
    om = field(old, '0')
    present = core.atom('has', om, key)
    w = {weight, field(weight, '0')}
    for c, x in split(core.assume(m, present), And(g, present)):
        if x.op != 'put' or core.under(x.args[0], c) is not om or x.args[1] is not key:
            return False
        for c2, v in resolve(x.args[2], c):
            a = addends(v)
            if sorted(y.id for y in a) not in [sorted([mk('get', om, key).id, y.id]) for y in w]:
                return False
    return True


def counter_next(C, R, ns, key, g):
    """key is a number that the counter ns has never handed out: old value plus one, saved back"""
    cand = [e for e in C.saves(R, ns) if same(And(g, e.guard), e.val, key)]
    if not any(core.B.implies(g, e.guard) for e in cand):
        return False
    return above_counter(ns, key, g)


def above_counter(ns, v, g):
    old = ld(ns)
    n = 0
    for x in (v, field(v, '0')):
        good = False
        for c, y in resolve(x, g):
            good = True
            a = addends(y)
            ints = [t for t in a if t.op == 'int']
            rest = [t for t in a if t.op != 'int']
            pos = sum(t.args[0] for t in ints) >= 1
            if core.B.implies(c, has(ns)):
                if not (pos and len(rest) == 1 and rest[0] in (old, field(old, '0'))):
                    good = False
                    break
            elif core.B.implies(c, Not(has(ns))):
                if not (pos and not rest):
                    good = False
                    break
            else:
                good = False
                break
        if good:
            return True
    return False


def registry_query(C, R):
    """worker lists asked from the service registry"""
    return [e.val for e in C.queries(R)]


def config(*n):
    return F(ld('config'), *n)


def threshold_eq(t):
    return t is config('voting_threshold') or t is field(config('voting_threshold'), '0')


def V02(C):
    n = 0
    for R, e, kind, g, st, p in poll_writes(C):
        if st is not None:
            continue
        n += 1
        site = e.site() + ' ' + kind
        C.check(counter_next(C, R, 'poll_id', e.key, g), 'fresh-id', site, 'the id of a new poll may have been used before: ' + show(e.key), e.loc())
        C.same(g, F(p, 'poll_id'), e.key, 'own-id', site, 'a poll is stored under an id other than its own', e.loc())
        C.same(g, F(p, 'expires_at'), core.arith('add', height(), config('block_expiry')), 'expiry', site, 'the poll does not expire block_expiry blocks from now', e.loc())
        C.check(F(p, 'status').op == 'agg' and F(p, 'status').args[1] == 'InProgress', 'status', site, 'a new poll is not in progress', e.loc())
        # participation
        pa = F(p, 'participation')
        b, gg, x = iterate(pa.args[0] if pa.op == 'mapof' else pa)
        okp = pa.op in ('mapof', 'comp') and gg == 1 and unalias(b).op == 'query'
        C.check(okp, 'participants', site, 'the participants are not exactly the active workers reported by the registry: ' + trim(show(pa)), e.loc())
        if not okp:
            continue
        Q = unalias(b)
        C.check(Q in registry_query(C, R), 'participants', site + ' query', 'the participants do not come from a registry query', e.loc())
        C.check(strip(field(x, '0')) is F(elem(b), 'address'), 'participant-key', site, 'a participant is registered under %s' % show(field(x, '0')), e.loc())
        rec = field(x, '1')
        vt = F(rec, 'vote')
        C.check(vt.op == 'agg' and vt.args[1] == 'None', 'no-vote', site, 'a participant of a new poll has already voted', e.loc())
        w = core.rename_base(bare(F(rec, 'weight')), b, Q)
        # quorum
        q = bare(F(p, 'quorum'))
        good = q.op == 'mul_ceil' and threshold_eq(q.args[1]) and q.args[0].op == 'sum'
        if good:
            b2, g2, x2 = iterate(q.args[0].args[0])
            good = unalias(b2) is Q and g2 == 1 and core.rename_base(bare(x2), b2, Q) is w
        C.check(good, 'quorum', site, 'the quorum is not the voting threshold applied (rounding up) to the total weight of all participants: ' + trim(show(q)), e.loc())
        # tallies
        ta = F(p, 'tallies')
        good = ta.op == 'repeat' and all_labels(C, field(ta.args[0], '0'))
        C.check(good, 'tallies', site, 'the tallies of a new poll are not zero for every outcome of every item: ' + trim(show(ta)), e.loc())
        if ta.op == 'repeat':
            C.same(g, ta.args[1], F(p, 'poll_size'), 'size', site, 'the number of tallies is not the size of the poll', e.loc())
    C.floor('polls created', n, 2)
    m = 0
    for R in C.all_runs(VV):
        for e in C.writes(R, 'poll_id'):
            m += 1
            C.check(e.kind == 'save' and above_counter('poll_id', e.val, e.guard), 'counter', e.site(), 'the poll counter does not strictly increase: ' + show(e.val), e.loc())
    C.floor('counter writes', m, 2)


def bare(t):
    """strip validated newtypes"""
    while True:
        if t.op == 'agg' and t.args[2] == ('0',) and not t.args[1]:
            t = t.args[3][0]
        elif t.op == 'agg' and t.args[2] == ('0',) and t.args[1] == t.args[0].split('::')[-1]:
            t = t.args[3][0]
        elif t.op == 'field' and t.args[1] == '0':
            t = t.args[0]
        else:
            return t


def strip(t):
    while t.op in ('unchecked', 'addr', 'str'):
        t = t.args[0]
    return t


def outcomes(C):
    Fx = C.crate('axelar_wasm_std')
    for t in Fx.types:
        if t.get('k') == 'adt' and t.get('p') == 'axelar_wasm_std::voting::Vote':
            return [v for v in api.variants(t)]
    return []


def all_labels(C, m):
    """a map with a zero entry for every outcome"""
    c = m.args[0] if m.op == 'mapof' else m
    b, g, x = iterate(c)
    if g != 1:
        return False
    if c.op == 'list':
        ks = [field(y, '0') for y in c.args[0]]
        if not all(field(y, '1') is cint(0) for y in c.args[0]):
            return False
        lab = set()
        for k in ks:
            if k.op == 'strc':
                lab.add(k.args[0])
            elif k.op == 'str' and k.args[0].op == 'agg':
                lab.add(k.args[0].args[1])
        return lab == set(outcomes(C))
    if not (field(x, '1') is cint(0) or bare(field(x, '1')) is cint(0)):
        return False
    k = field(x, '0')
    ub = unalias(b)
    return k is mk('str', elem(b)) and ub.op == 'agg' and ub.args[0].endswith('VoteIter') and \
        all(v.op != 'int' or v.args[0] == 0 for v in ub.args[3])


# ---------------------------------------------------------------- verification status

class Status:
    """what is known about a content stored under ns[h], for each kind of its poll"""

    def __init__(self, ns, h):
        self.ns = ns
        self.h = h
        self.M = ld(ns, h)
        self.key = F(self.M, 'poll_id')
        self.poll = ld('polls', self.key)
        self.known = has(ns, h)

    def kinds(self):
        for v in KINDS:
            P = field(self.poll, '0', v)
            yield v, (variant(self.poll, KINDS[0]) if v == KINDS[0] else Not(variant(self.poll, KINDS[0]))), P

    def verified(self, P):
        T = field(mk('idx', F(P, 'tallies'), F(self.M, 'index_in_poll')), '0')
        return won(T, F(P, 'quorum', '0'), 'SucceededOnChain')

    def finished(self, P):
        return variant(F(P, 'status'), 'Finished')


def below(T, q):
    return lt(field(elem(T), '1'), q)


def no_consensus(T, q):
    return forall(T, below(T, q))


def winner(T, q):
    return mk('call', 'parse', field(core.pick(T, Not(below(T, q))), '0'))


def won(T, q, outcome):
    return And(Not(no_consensus(T, q)), variant(winner(T, q), outcome))


def lookups(C, R, ns):
    return [t.args[1] for t in all_terms(R, lambda t: t.op == 'cell' and t.args[0] == ns)]


def truth_equal(C, g, b, S, rule, site, what):
    """the answer b says exactly: a poll on this content has reached consensus that it happened"""
    for v, m, P in S.kinds():
        gg = close(core.assume(And(g, m), m))
        bb = core.assume(b, m)
        want = And(S.known, S.verified(P))
        care = gg
        d = core.B.and_(care, core.B.not_(eqg(bb, want)))
        okk = d == 0 or close(And(d, m), True) == 0
        C.check(okk, rule, site + ' ' + v, what + '\n    answer: ' + trim(showb(bb)) + '\n    expected: ' + trim(showb(want)))


def V03(C):
    n = 0
    # the key a content is recorded under when it is put to a vote
    keys = {}
    for R, ns, subj in ((C.run(VV, 'execute', 'VerifyMessages'), 'poll_messages', None), (C.run(VV, 'execute', 'VerifyWorkerSet'), 'poll_worker_sets', None)):
        for e in C.saves(R, ns):
            keys[ns] = (e.key, F(e.val, 'content'))
    hole = inp('CONTENT')
    tmpl = {}
    for ns, (k, c) in keys.items():
        tmpl[ns] = subst(k, c, hole)
        C.check(not any(t is c for t in subterms(tmpl[ns])) and contains(tmpl[ns], hole), 'key', ns, 'contents are not recorded under a function of the content alone: ' + trim(show(k)))
    for entry, var, ns in (('query', 'IsVerified', 'poll_messages'), ('execute', 'VerifyMessages', 'poll_messages'), ('query', 'IsWorkerSetVerified', 'poll_worker_sets')):
        R = C.run(VV, entry, var)
        C.check(R.okval.op != 'bot', 'answers', R.name, 'the request can never succeed')
        if ns not in tmpl:
            C.check(False, 'anchor', ns, 'nothing is ever put to a vote under ' + ns)
            continue
        for g, val in split(R.okval, R.okg):
            if entry == 'query':
                ans = json_of(val)
            else:
                d = field(val, 'data')
                C.check(d.op == 'agg' and d.args[1] == 'Some', 'data', R.name, 'no verification statuses are returned')
                if d.op != 'agg' or d.args[1] != 'Some':
                    continue
                ans = F(json_of(d.args[3][0]), 'verification_statuses')
            if var == 'IsWorkerSetVerified':
                ct = inp('msg.IsWorkerSetVerified.new_operators')
                h = subst(tmpl[ns], hole, ct)
                S = Status(ns, h)
                n += 1
                truth_equal(C, g, truth(ans), S, 'truth', R.name, 'the answer is not exactly whether the worker set was voted for by a quorum')
                C.implies(And(g, S.known), eq(ct, F(S.M, 'content')), 'exact-content', R.name, 'the answer may be about a different worker set with the same key')
                continue
            b, gg, x = iterate(ans)
            ms = inp('msg.' + var + '.messages')
            C.check(unalias(b) is ms and gg == 1, 'one-each', R.name, 'not exactly one answer per requested message: ' + trim(show(ans)))
            if unalias(b) is not ms:
                continue
            m = elem(b)
            n += 1
            C.same(g, field(x, '0'), F(m, 'cc_id'), 'whose', R.name, 'an answer is labelled with another message\'s id')
            h = subst(tmpl[ns], hole, m)
            S = Status(ns, h)
            truth_equal(C, g, truth(field(x, '1')), S, 'truth', R.name, 'the answer is not exactly whether the message was voted for by a quorum')
            C.implies(And(g, S.known), eq(m, F(S.M, 'content')), 'exact-content', R.name, 'the answer may be about a different message with the same key')
    C.floor('verification answers', n, 3)


def V05(C):
    n = 0
    for R in C.all_runs(VV):
        for ns in ('poll_messages', 'poll_worker_sets'):
            for e in C.writes(R, ns):
                n += 1
                site = e.site()
                if not C.check(e.kind == 'save', 'kept', site, 'what was put to a vote is forgotten', e.loc()):
                    continue
                g = e.guard
                S = Status(ns, e.key)
                ct = F(e.val, 'content')
                for v, m, P in S.kinds():
                    gg = close(core.assume(And(g, And(S.known, m)), m))
                    if gg == 0:
                        continue
                    need = Not(S.verified(P))
                    if ns == 'poll_messages':
                        need = And(need, S.finished(P))
                    C.implies(gg, need, 'not-again', site + ' ' + v, 'a content is put to a vote again although it is verified or its poll is still in progress', e.loc())
                # recorded with the new poll created in this very call
                new = [w for w in poll_writes_of(C, R) if w[4] is None]
                C.check(len(new) >= 1, 'new-poll', site, 'no poll is created for the recorded content', e.loc())
                for _, pe, kind, pg, _, p in new:
                    C.implies(g, pg_free(pe), 'new-poll', site + ' exists', 'a content is recorded without a poll being created', e.loc())
                    C.same(g, F(e.val, 'poll_id'), pe.key, 'poll-of', site, 'a content is recorded for another poll than the one created', e.loc())
                    want = 'Messages' if ns == 'poll_messages' else 'ConfirmWorkerSet'
                    C.check(kind == want, 'poll-kind', site, 'the poll created is of the wrong kind', e.loc())
                    ix = inner(F(e.val, 'index_in_poll'))
                    size = F(p, 'poll_size')
                    if ns == 'poll_worker_sets':
                        C.check(ix is cint(0), 'index', site, 'the worker set is recorded at %s' % show(ix), e.loc())
                        C.same(g, size, cint(1), 'size', site, 'the poll on a worker set does not have exactly one item', e.loc())
                        C.check(ct is inp('msg.VerifyWorkerSet.new_operators'), 'content', site, 'the recorded worker set is not the requested one', e.loc())
                        continue
                    okk = ix.op == 'idxof' and size is length(ix.args[0])
                    C.check(okk, 'index', site, 'the items of a poll are not numbered within its size: index %s, size %s' % (trim(show(ix), 300), trim(show(size), 300)), e.loc())
                    if not okk:
                        continue
                    L = ix.args[0]
                    b, lg, le = iterate(L)
                    ms = inp('msg.VerifyMessages.messages')
                    C.check(unalias(b) is ms, 'content', site, 'what is put to a vote is not among the submitted messages', e.loc())
                    C.check(same(g, ct, core.rename_base(le, b, e.loops[-1]) if e.loops else le) or ct is le, 'content', site + ' message', 'the recorded message is not the one at its index of the poll: ' + show(ct), e.loc())
                    # everything in the poll is recorded: the write happens for every element of L
                    need = close(And(R.okg, And(pe.guard, lg)))
                    got = e.local
                    free = [core.W.var_of[a] for a in atoms_of(got) if a.op in ('okcall', 'qok') and contains(a, mk('idxof', L))]
                    for f in free:
                        need = And(need, f)
                    C.implies(need, got, 'all-recorded', site, 'a message counted in the poll is not recorded in it', e.loc())
                    # everything neither verified nor in progress is put to a vote
                    for v, m, P in S.kinds():
                        c = close(And(R.okg, And(S.known, And(m, And(S.finished(P), Not(S.verified(P)))))))
                        C.implies(core.assume(c, m), core.assume(lg, m), 'retry', site + ' ' + v, 'a message whose poll ended without success cannot be put to a vote again', e.loc())
                    C.implies(close(And(R.okg, Not(S.known))), lg, 'unseen', site, 'a message never voted on is not put to a vote', e.loc())
    C.floor('contents put to a vote', n, 2)
    R = C.run(VV, 'execute', 'VerifyMessages')
    ms = inp('msg.VerifyMessages.messages')
    C.implies(R.ok, Not(empty(ms)), 'nonempty', R.name, 'an empty request is accepted')


def pg_free(e):
    return e.local


def poll_writes_of(C, R):
    return [w for w in poll_writes(C) if w[0] is R]


def inner(t):
    """strip a checked integer conversion"""
    while True:
        if t.op == 'call' and t.args[0] == 'try_from' and len(t.args) == 2:
            t = t.args[1]
        elif t.op == 'field' and t.args[1] == 'Ok.0' and t.args[0].op == 'call':
            t = t.args[0]
        elif t.op in ('cast', 'conv'):
            t = t.args[-1]
        else:
            return t


def V04(C):
    n = 0
    for R, e, kind, g, st, p in poll_writes(C):
        if st is None:
            continue
        P = field(st, '0', kind)
        p = flow(p, st, kind)
        ch = changes(g, p, P)
        g = assume_guard(g, st, kind)
        if 'status' not in ch:
            continue
        n += 1
        site = e.site() + ' ' + kind
        C.check(ch == ['status'], 'only-status', site, 'ending a poll also changes ' + ', '.join(ch), e.loc())
        s = F(p, 'status')
        C.check(s.op == 'agg' and s.args[1] == 'Finished', 'finished', site, 'a poll that is ended is left %s' % show(s), e.loc())
        C.implies(g, Not(variant(F(P, 'status'), 'Finished')), 'once', site, 'a poll can be ended twice', e.loc())
        C.implies(g, Not(lt(height(), F(P, 'expires_at'))), 'expired', site, 'a poll can be ended before it expires', e.loc())
        # participation reports
        T = F(P, 'tallies')
        q = F(P, 'quorum', '0')
        part = F(P, 'participation')
        sent = 0
        for x in C.msgs(R):
            m = variant(st, KINDS[0]) if kind == KINDS[0] else Not(variant(st, KINDS[0]))
            if close(And(x.guard, m)) == 0:
                continue
            xb, body, raw = [], x.body, x._raw
            for b in x.bases:
                # one message per element of a list that is itself made from another collection
                fb = flow(b, st, kind)
                ib, ig, ie = iterate(fb)
                if fb.op == 'comp':
                    old = elem(b)
                    body = core.subst(body, old, ie) if body is not None else None
                    raw = And(core.subst(raw, old, ie), ig)
                    fb = ib
                elif fb is not b:
                    body = core.rename_base(body, b, fb) if body is not None else None
                    raw = core.rename_base(raw, b, fb)
                xb.append(fb)
            body = flow(body, st, kind) if body is not None else None
            sent += 1
            C.check(x.kind == 'execute' and x.variant() == 'RecordParticipation', 'report', site, 'ending a poll sends an unexpected message (%s)' % x.site())
            if body is None or x.variant() != 'RecordParticipation':
                continue
            C.same(x.guard, x.to, config('rewards_contract'), 'receiver', site, 'participation is reported to another contract than the rewards contract')
            C.check(len(xb) == 1 and unalias(xb[0]) is part, 'who', site, 'reports are not made per participant of the poll')
            if not (len(xb) == 1 and unalias(xb[0]) is part):
                continue
            b = xb[0]
            C.check(strip(F(body, 'RecordParticipation.worker_address')) is field(elem(b), '0'), 'who', site + ' address', 'the reported worker is not the participant: %s' % show(F(body, 'RecordParticipation.worker_address')))
            C.check(strip(bare(F(body, 'RecordParticipation.event_id'))) in (e.key, F(P, 'poll_id')), 'event', site, 'the reported event is not the poll: %s' % show(F(body, 'RecordParticipation.event_id')))
            gm = core.assume(raw, m)
            vt = F(elem(b), '1', 'vote')
            want = And(variant(vt, 'Some'), agreed(field(vt, '0', 'Some'), T, q))
            base = core.assume(R.okg, m)
            want = And(base, want)
            okk = gm == want or (holds(gm, want) and holds(want, gm))
            C.check(okk, 'agreed', site, 'reported are not exactly the participants that voted with the outcome of every item on which the poll reached consensus'
                    + '\n    found: ' + trim(showb(gm)) + '\n    expected: ' + trim(showb(want)))
        C.check(sent >= 1, 'report', site + ' sent', 'no participation is reported when a poll ends')
        # outcome reported
        for gv, val in split(R.okval, R.okg):
            d = field(val, 'data')
            if close(And(gv, m)) == 0:
                continue
            C.check(d.op == 'agg' and d.args[1] == 'Some', 'outcome', site + ' data', 'the outcome of the poll is not returned')
            if d.op == 'agg' and d.args[1] == 'Some':
                ps = flow(F(json_of(d.args[3][0]), 'poll_result'), st, kind)
                outcome_list(C, F(ps, 'results'), T, q, site + ' data')
                C.same(And(gv, m), F(ps, 'poll_id'), F(P, 'poll_id'), 'outcome-of', site, 'the outcome is returned for another poll')
        found = 0
        for ge, bs, ty, at in C.events(R):
            if ty == 'poll_ended' and 'results' in at:
                found += 1
                r = flow(at['results'], st, kind)
                outcome_list(C, r.args[-1] if r.op == 'call' else json_of(r), T, q, site + ' event')
        C.check(found >= 1, 'outcome', site + ' event', 'the outcome of the poll is not announced')
    C.floor('polls ended', n, 2)


def outcome_list(C, l, T, q, site):
    b, g, x = iterate(l)
    good = unalias(b) is T and g == 1
    if good:
        t = field(elem(b), '0')
        nc = no_consensus(t, q)
        good = same(Not(nc), x, some(winner(t, q))) and same(nc, x, none())
    C.check(good, 'outcome', site, 'the announced results are not the consensus of each item in order: ' + trim(show(l)))


def agreed(votes, T, q):
    """every item without consensus or voted with it"""
    z = mk('zip', votes, T)
    x = elem(z)
    t = field(field(x, '1'), '0')
    p = Or(no_consensus(t, q), eq(field(x, '0'), winner(t, q)))
    return forall(z, p)


def V06(C):
    n = 0
    for R in C.all_runs(VV):
        for e in C.queries(R):
            q = e.val
            n += 1
            site = R.name
            C.check(len(q.args) == 3, 'query', site, 'query not understood: ' + show(q))
            if len(q.args) != 3:
                continue
            C.same(e.guard, q.args[1], config('service_registry_contract'), 'registry', site, 'workers are asked from another contract than the configured registry', e.loc())
            m = q.args[2]
            C.check(m.op == 'agg' and m.args[1] == 'GetActiveWorkers', 'question', site, 'the registry is not asked for active workers: ' + show(m), e.loc())
            if not (m.op == 'agg' and m.args[1] == 'GetActiveWorkers'):
                continue
            C.check(bare(F(m, 'GetActiveWorkers.service_name')) is config('service_name'), 'service', site, 'workers of another service are asked for: ' + show(F(m, 'GetActiveWorkers.service_name')), e.loc())
            ch = F(m, 'GetActiveWorkers.chain_name')
            g = close(e.guard)
            okk = same(g, ch, config('source_chain'))
            if not okk and R.name.endswith('VerifyMessages'):
                # the chain of some submitted message, all of which have the configured source chain
                ms = inp('msg.VerifyMessages.messages')
                for a in atoms_of(g):
                    if a.op == 'forall' and unalias(a.args[0]) is ms and core.B.implies(g, core.W.var_of[a]) and \
                            core.B.implies(a.args[1], eq(F(elem(a.args[0]), 'cc_id', 'chain'), config('source_chain'))):
                        okk = ch.op == 'field' and ch.args[1] == 'chain' and from_messages(ch.args[0].args[0], ms)
            C.check(okk, 'chain', site, 'workers are not asked for the chain the verifier is configured for: ' + trim(show(ch)), e.loc())
    C.floor('registry queries', n, 2)
    R = C.run(VV, 'execute', 'VerifyMessages')
    ms = inp('msg.VerifyMessages.messages')
    C.implies(R.ok, forall(ms, eq(F(elem(ms), 'cc_id', 'chain'), config('source_chain'))), 'source', R.name, 'a message of another source chain is accepted for verification')
    # the configuration is fixed
    m = 0
    for R in C.all_runs(VV):
        for e in C.writes(R, 'config'):
            m += 1
            C.check(R.name.startswith(VV + ' instantiate'), 'fixed', e.site(), 'the configuration changes after instantiation', e.loc())
            for f, x in (('source_chain', F(inp('msg'), 'source_chain')), ('voting_threshold', F(inp('msg'), 'voting_threshold')),
                         ('service_name', F(inp('msg'), 'service_name')), ('block_expiry', F(inp('msg'), 'block_expiry')),
                         ('confirmation_height', F(inp('msg'), 'confirmation_height')), ('source_gateway_address', F(inp('msg'), 'source_gateway_address'))):
                C.same(e.guard, F(e.val, f), x, 'configured', e.site() + ' ' + f, 'the stored %s is not the requested one' % f, e.loc())
            for f, x in (('service_registry_contract', F(inp('msg'), 'service_registry_address', '0')), ('rewards_contract', F(inp('msg'), 'rewards_address'))):
                C.same(e.guard, F(e.val, f), addr(x), 'configured', e.site() + ' ' + f, 'the stored %s is not the validated requested address' % f, e.loc())
    C.floor('configuration writes', m, 1)


def from_messages(t, ms):
    """t is (the cc_id of) some element of the submitted messages"""
    if t.op == 'field' and t.args[1] == 'cc_id':
        t = t.args[0]
    while t.op in ('idx', 'first', 'pick', 'last', 'elem', 'field'):
        if t.op == 'field':
            return False
        c = t.args[0]
        b, g, e = iterate(c)
        if unalias(b) is ms and (e is elem(b)):
            return True
        if unalias(c) is ms:
            return True
        t = c
    return False


def json_str(t):
    """argument of a serialisation to a string"""
    if t.op == 'call' and 'to_string' in t.args[0]:
        return t.args[-1]
    return json_of(t)


def V07(C):
    n = 0
    for var, ty in (('VerifyMessages', 'messages_poll_started'), ('VerifyWorkerSet', 'worker_set_poll_started')):
        R = C.run(VV, 'execute', var)
        new = [w for w in poll_writes_of(C, R) if w[4] is None]
        evs = [x for x in C.events(R) if x[2] == ty]
        C.check(len(evs) >= 1, 'announced', R.name, 'no %s event is emitted' % ty)
        tot = 0
        for g, bs, t, at in evs:
            n += 1
            tot = Or(tot, g)
            site = '%s %s' % (R.name, ty)
            C.check(not bs, 'one', site, 'the event is emitted several times')
            for w in new:
                pe, p = w[1], w[5]
                C.implies(g, pe.local, 'poll', site, 'a poll is announced that is not created')
                C.check('poll_id' in at and same(g, strip(json_str(at['poll_id'])), pe.key), 'poll_id', site, 'the announced poll id is not the id of the created poll')
                C.check('expires_at' in at and same(g, strip(at['expires_at']), F(p, 'expires_at')), 'expires_at', site, 'the announced expiry is not the expiry of the poll')
                # participants
                pa = F(p, 'participation')
                b, gg, x = iterate(pa.args[0] if pa.op == 'mapof' else pa)
                good = False
                if 'participants' in at:
                    l = json_str(at['participants'])
                    b2, g2, x2 = iterate(l)
                    good = unalias(b2) is unalias(b) and g2 == gg and strip(core.rename_base(x2, b2, b)) is strip(field(x, '0'))
                C.check(good, 'participants', site, 'the announced participants are not those of the poll')
            for k, v in (('source_chain', config('source_chain')), ('confirmation_height', config('confirmation_height'))):
                C.check(k in at and same(g, strip(at[k]), v), k, site, 'the announced %s is not the configured one' % k)
            C.check('source_gateway_address' in at and bare(at['source_gateway_address']) is config('source_gateway_address'), 'gateway', site, 'the announced source gateway is not the configured one')
            if var == 'VerifyMessages':
                l = json_str(at.get('messages', unit()))
                b, lg, x = iterate(l)
                for w in new:
                    size = F(w[5], 'poll_size')
                    L = size.args[0] if size.op == 'len' else None
                    good = False
                    if L is not None:
                        b2, g2, x2 = iterate(L)
                        if x2 is elem(b2) and unalias(b) is unalias(b2) and b.args[1:] == b2.args[1:]:
                            good = core.rename_base(g2, b2, b) == lg if b is not b2 else g2 == lg
                    C.check(good, 'items', site, 'the announced items are not the items of the poll in their order')
                m = elem(b)
                for f, want in (('destination_address', F(m, 'destination_address')), ('destination_chain', F(m, 'destination_chain')),
                                ('source_address', F(m, 'source_address')), ('payload_hash', F(m, 'payload_hash'))):
                    C.same(g, F(x, f), want, 'item-' + f, site, 'the announced %s is not the one of the message' % f)
                tx_index(C, And(R.okg, g, lg), x, F(m, 'cc_id', 'id'), site)
            else:
                x = json_str(at.get('worker_set', unit()))
                C.same(g, F(x, 'operators'), inp('msg.VerifyWorkerSet.new_operators'), 'operators', site, 'the announced worker set is not the requested one')
                tx_index(C, And(R.okg, g), x, inp('msg.VerifyWorkerSet.message_id'), site)
        for w in new:
            C.implies(And(R.okg, w[1].local), tot, 'announced', R.name + ' always', 'a poll is created without being announced')
    # votes
    R = C.run(VV, 'execute', 'Vote')
    for g, bs, t, at in C.events(R):
        if t == 'voted':
            n += 1
            C.check(strip(json_str(at.get('poll_id', unit()))) is inp('msg.Vote.poll_id'), 'voted', R.name + ' poll', 'the announced vote names another poll')
            C.check(strip(at.get('voter', unit())) is sender(), 'voted', R.name + ' voter', 'the announced vote names another voter')
    C.floor('announcements', n, 3)


def tx_index(C, g, x, mid, site):
    """transaction id and event index are the two parts of the message id, which has exactly two"""
    mid0 = field(mid, '0')
    tx, ix = F(x, 'tx_id'), F(x, 'event_index')
    c, n = part(bare(tx))
    if c is None and tx.op == 'agg' and tx.args[3]:
        c, n = part(tx.args[3][0])
    if c is None and tx.op in ('field', 'call'):
        c, n = part(tx) if tx.op == 'field' else part(tx.args[1])
    good = c is not None and n == 0 and contains(c, mid0)
    C.check(good, 'tx', site, 'the announced transaction is not the first part of the message id: ' + trim(show(tx)))
    c2, n2 = part(ix.args[1]) if ix.op == 'call' and ix.args[0] == 'parse' else (None, None)
    C.check(good and c2 is c and n2 == 1, 'event-index', site, 'the announced event index is not the number after the separator of the message id: ' + trim(show(ix)))
    if good:
        # a message id with further separators is refused, not cut short (split_once: what follows has to be a number)
        if not pcall(c, 'split_once'):
            r = mk('rest', c)
            two = Or(eq(length(c), cint(2)), And(Not(empty(c)), Not(empty(r)), empty(mk('rest', r))))
            C.implies(g, two, 'tx', site + ' parts', 'a message id that has not exactly two parts is accepted')
        C.counts['message ids parsed'] = C.counts.get('message ids parsed', 0) + 1


def pcall(t, name):
    return t.op == 'call' and t.args[0].split('::')[-1] == name


def part(t):
    """(split text, position) of a piece of a text split at a separator"""
    if t.op == 'idx' and t.args[1].op == 'int' and pcall(t.args[0], 'split'):
        return t.args[0], t.args[1].args[0]
    if t.op == 'first':
        c, n = t.args[0], 0
        while c.op == 'rest':
            c, n = c.args[0], n + 1
        if pcall(c, 'split'):
            return c, n
    if t.op == 'field' and t.args[1] in ('0', '1'):
        c = t.args[0]
        while c.op == 'field':
            c = c.args[0]
        if pcall(c, 'split_once'):
            return c, int(t.args[1])
    return None, None
