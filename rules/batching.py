"""batching: a list of calls that must succeed and a list of calls that may fail"""
from rules.lib import *
import core

BC = 'batching'


def family(C, R, name, always_reply):
    """the family of messages made from one of the two lists"""
    src = field(inp('msg.Batch.0'), name)
    mine = [x for x in C.msgs(R) if x.bases and core.unalias(x.bases[0]) is src]
    if not C.check(mine, 'sent', name, 'no call of this list is made'):
        return
    val = R.okval
    tot = 0
    for x in mine:
        site = name
        C.check(len(x.bases) == 1 and x.bases[0] is src, 'each', site, 'the calls are not made one by one in the given order: %s' % trim(show(x.bases[-1])))
        e = elem(src)
        C.check(field(x.sub, 'msg') is e, 'unchanged', site, 'the call made is %s' % trim(show(field(x.sub, 'msg'))))
        C.check(same(x.guard, field(x.sub, 'gas_limit'), none()), 'gas', site, 'the call is made with limited gas')
        if always_reply:
            C.check(x.reply_on == 'Always', 'isolated', site, 'a failing call of this list fails the batch, or its outcome is not reported (%s)' % x.reply_on)
            C.check(same(x.guard, x.id, mk('idxof', src)), 'id', site, 'the call is identified by %s, not by its position' % trim(show(x.id)))
        else:
            C.check(x.reply_on == 'Never', 'atomic', site, 'a failing call of this list does not fail the batch (%s)' % x.reply_on)
        tot = core.B.or_(tot, x._raw)
    C.implies(R.ok, close(tot), 'all', name, 'not every call of the list is made')
    C.check(len(mine) == 1, 'once', name, 'calls of the list are made in %d places' % len(mine))


def none():
    return mk('agg', OPT, 'None', (), ())


def B01(C):
    """execution of a batch"""
    R = C.run(BC, 'execute', 'Batch')
    MUST, CAN = [field(inp('msg.Batch.0'), n) for n in ('must_succeed_msgs', 'can_fail_msgs')]
    C.check(C.variants(BC, 'execute') == ['Batch'], 'messages', 'execute', 'the contract takes other messages: %s' % C.variants(BC, 'execute'))
    family(C, R, 'must_succeed_msgs', False)
    family(C, R, 'can_fail_msgs', True)
    ms = C.msgs(R)
    for x in ms:
        C.check(x.bases and core.unalias(x.bases[0]) in (MUST, CAN), 'only', x.site(), 'a call is made that was not submitted')
    order = [core.unalias(x.bases[0]) for x in ms if x.bases]
    C.check(order == [MUST, CAN], 'order', 'execute', 'the calls that must succeed are not made first')
    C.check(R.ok == 1, 'accept', 'execute', 'some batches are refused')
    C.check(not C.writes(R), 'stateless', 'execute', 'the batch changes stored state')

    Q = C.run(BC, 'reply')
    C.check(Q.ok == 1, 'reply', 'never fails', 'a reply can fail, which fails the batch')
    C.check(not C.msgs(Q) and not C.writes(Q), 'reply', 'silent', 'a reply makes calls or changes stored state')
    res = field(inp('reply'), 'result')
    okc = variant(res, 'Ok', ('Ok', 'Err'))
    seen = [0, 0]
    for g, val in split(Q.okval, Q.okg):
        ev = field(val, 'events')
        for g2, l in split(ev, g):
            if close(g2) == 0:
                continue
            if core.B.implies(close(g2), okc):
                seen[0] = core.B.or_(seen[0], g2)
                src = field(field(res, '0', 'Ok'), 'events')
                C.check(coll_all(l, src) or l is src, 'reply', 'success', 'the events of a successful call are not passed on unchanged: ' + trim(show(l)))
                continue
            C.check(core.B.implies(close(g2), Not(okc)), 'reply', 'outcome', 'success and failure are reported alike: ' + trim(show(l)))
            seen[1] = core.B.or_(seen[1], g2)
            evs = list(walk_coll(l, 1))
            good = False
            for g3, bs, e in evs:
                if e.op != 'agg' or bs or g3 != 1:
                    continue
                if show(field(e, 'ty')) != '"failed_msg"':
                    continue
                for g4, bs4, a in walk_coll(field(e, 'attributes'), 1):
                    k = field(a, '0') if a.args[0] == 'tuple' else field(a, 'key')
                    v = field(a, '1') if a.args[0] == 'tuple' else field(a, 'value')
                    if g4 == 1 and not bs4 and k is mk('str', field(inp('reply'), 'id')) and v is field(res, '0', 'Err'):
                        good = True
            C.check(good and len(evs) == 1, 'reply', 'failure', 'a failed call is not reported with its position and error: ' + trim(show(l)))
    C.implies(okc, close(seen[0]), 'reply', 'success', 'a successful call is not reported')
    C.implies(Not(okc), close(seen[1]), 'reply', 'failure', 'a failed call is not reported')
