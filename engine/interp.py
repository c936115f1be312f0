"""Interprocedural guarded value-flow over the MIR facts of one crate."""
import json
import re
import core
from core import *   # noqa


class Facts:
    def __init__(self, path):
        j = json.load(open(path))
        self.crate = j['crate']
        self.types = j['types']
        self.bodies = j['bodies']
        self.generic = j.get('generic', [])
        for t in self.types:
            if t['k'] == 'adt' and t.get('e'):
                ENUMS.add(norm_path(t['p']))
                core.note_enum(norm_path(t['p']), [v['n'] for v in t.get('v', [])])

    def ty(self, i):
        return self.types[i]


# comparisons of a counter (first or second operand) with the number of elements: 1 as long as there are more
DRIVES = {'Lt': (1, None), 'Ge': (0, None), 'Gt': (None, 1), 'Le': (None, 0), 'Ne': (1, 1), 'Eq': (0, 0)}


def norm_path(p):
    p = p.replace('core::', 'std::') if p.startswith('core::') else p
    p = p.replace('alloc::', 'std::') if p.startswith('alloc::') else p
    return p


_nd_memo = {}


def norm_d(d):
    r = _nd_memo.get(d)
    if r is None:
        s = d
        # strip generic segments ::<...>
        out = []
        i = 0
        n = len(s)
        while i < n:
            if s.startswith('::<', i):
                depth = 0
                j = i + 2
                while j < n:
                    if s[j] == '<':
                        depth += 1
                    elif s[j] == '>' and s[j - 1] != '-':
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                i = j + 1
                continue
            out.append(s[i])
            i += 1
        r = norm_path(''.join(out))
        _nd_memo[d] = r
    return r


class St:
    __slots__ = ('reach', 'mem', 'store')

    def __init__(self, reach, mem, store):
        self.reach = reach
        self.mem = mem
        self.store = store

    def copy(self):
        return St(self.reach, dict(self.mem), dict(self.store))


class Frame:
    __slots__ = ('id', 'key', 'body', 'facts', 'name')

    def __init__(self, i, key, body):
        self.id = i
        self.key = key
        self.body = body


class Loop:
    __slots__ = ('id', 'entry', 'base', 'guard', 'val', 'fid', 'coll', 'force', 'test', 'body')

    def __init__(self, i, entry):
        self.id = i
        self.entry = entry
        self.base = None
        self.guard = 1
        self.val = None
        self.coll = None
        self.test = None        # the comparison of the counter that drives the loop
        self.force = None       # the next element, while a loop over a few given elements is unrolled


class Effect(dict):
    pass


def merge_states(sts):
    sts = [s for s in sts if s.reach != 0]
    if not sts:
        return None
    if len(sts) == 1:
        return sts[0]
    reach = B_().ors([s.reach for s in sts])
    keys = {}
    for s in sts:
        for k in s.mem:
            keys[k] = 1
    mem = {}
    for k in keys:
        v0 = None
        same = True
        pairs = []
        for s in sts:
            v = s.mem.get(k)
            if v is None:
                continue
            if v0 is None:
                v0 = v
            elif v is not v0:
                same = False
            pairs.append((s.reach, v))
        mem[k] = v0 if same else phi(pairs, reach)
    skeys = {}
    for s in sts:
        for k in s.store:
            skeys[k] = 1
    store = {}
    for k in skeys:
        vs = [s.store.get(k, ()) for s in sts]
        if all(v == vs[0] for v in vs):
            store[k] = vs[0]
        else:
            out = []
            for v in vs:
                for w in v:
                    if w not in out:
                        out.append(w)
            store[k] = tuple(out)
    return St(reach, mem, store)


def B_():
    return core.B


class Interp:
    def __init__(self, facts):
        self.facts = facts
        self.nframes = 0
        self.nloops = 0
        self.loops = []          # active loop stack
        self.eachstack = []      # bases being traversed by closures
        self.effects = []
        self.watch = frozenset()
        self.built = []          # (aggregate, condition) of the watched types
        self.stores = set()       # (namespace, definition, kind, span) of the storage handles used
        self.quiet = 0           # >0: do not log effects
        self.stack = []
        self.const_memo = {}
        self.cfg_memo = {}
        self.unknown = {}
        self.inlined = {}
        self.panics = 0
        self.wid = 0
        self.ncalls = 0
        self.notes = []
        self.span = ''
        self.nstmts = 0

    def active(self):
        return [lp.base for lp in self.loops if lp.base is not None] + self.eachstack

    # ------------------------------------------------------------ CFG helpers
    def cfg(self, key):
        c = self.cfg_memo.get(key)
        if c is not None:
            return c
        body = self.facts.bodies[key]
        blocks = body['blocks']
        succ = []
        for b in blocks:
            if b is None:
                succ.append([])
                continue
            t = b['t']
            k = t['t']
            if k == 'goto':
                s = [t['b']]
            elif k == 'switch':
                s = [x[1] for x in t['c']] + [t['e']]
            elif k == 'call':
                s = [t['b']] if t['b'] >= 0 else []
            elif k == 'assert':
                s = [t['b']]
            else:
                s = []
            s = [x for x in s if blocks[x] is not None]
            succ.append(s)
        # iterative DFS for RPO and back edges
        order = []
        state = {}
        back = []
        st = [(0, iter(succ[0]))]
        state[0] = 1
        while st:
            n, it = st[-1]
            adv = False
            for m in it:
                if state.get(m) is None:
                    state[m] = 1
                    st.append((m, iter(succ[m])))
                    adv = True
                    break
                elif state[m] == 1:
                    back.append((n, m))
            if not adv:
                state[n] = 2
                order.append(n)
                st.pop()
        order.reverse()
        pred = {n: [] for n in order}
        for n in order:
            for m in succ[n]:
                pred[m].append(n)
        loops = {}
        for n, h in back:
            bodyset = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in bodyset:
                    continue
                bodyset.add(x)
                work.extend(pred[x])
        rpo = {n: i for i, n in enumerate(order)}
        c = (succ, order, rpo, loops)
        self.cfg_memo[key] = c
        return c

    # ------------------------------------------------------------ running bodies
    def call_body(self, key, args, st, self_ty=None):
        """inline one body; returns (value, state) or (None, None) if it never returns"""
        body = self.facts.bodies[key]
        if len(self.stack) > 60 or sum(1 for k in self.stack if k == key) > 1:
            self.notes.append('recursion cut at %s' % key)
            return mk('call', 'rec:' + body['p'], *args), st
        self.inlined[key] = self.inlined.get(key, 0) + 1
        fid = self.nframes
        self.nframes += 1
        fr = Frame(fid, key, body)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        self.stack.append(key)
        rets, _, _ = self.run(fr, None, 0, st, None)
        self.stack.pop()
        st2 = merge_states(rets)
        if st2 is None:
            return None, None
        v = st2.mem.get((fid, 0))
        if v is None:
            v = unit()
        v = under(v, st2.reach)
        st2 = st2.copy() if len(rets) == 1 else st2
        for k in [k for k in st2.mem if k[0] == fid]:
            del st2.mem[k]
        return v, st2

    def run(self, fr, subset, start, st0, header):
        """run blocks (subset of the CFG or all) from `start`; edges to `header` are back edges.
        returns (return states, back-edge states, exits [(target, state)])"""
        succ, order, rpo, loops = self.cfg(fr.key)
        pending = {start: [st0]}
        rets, backs, exits = [], [], []
        for bb in order:
            if bb not in pending:
                continue
            if subset is not None and bb not in subset:
                continue
            sts = pending.pop(bb)
            st = merge_states(sts)
            if st is None:
                continue
            if bb in loops and bb != header:
                outs, r2 = self.run_loop(fr, bb, loops[bb], st)
                rets.extend(r2)
            else:
                st = st.copy()
                outs = self.exec_block(fr, bb, st)
                if outs == 'ret':
                    rets.append(st)
                    continue
            for tgt, s in outs:
                if s.reach == 0:
                    continue
                if tgt == header:
                    backs.append(s)
                elif subset is not None and tgt not in subset:
                    exits.append((tgt, s))
                else:
                    pending.setdefault(tgt, []).append(s)
        return rets, backs, exits

    def run_loop(self, fr, h, bodyset, st):
        B = core.B
        self.nloops += 1
        lid = self.nloops
        R0 = st.reach
        havoc = {}       # loc -> set of paths / True
        hstore = set()
        for it in range(6):
            loop = Loop(lid, dict(st.mem))
            loop.fid = fr.id
            s = st.copy()
            for loc, paths in havoc.items():
                s.mem[loc] = havoc_value(st.mem[loc], paths, ('L', lid, loc))
            for ns in hstore:
                s.store[ns] = (('loop', lid),)
            s0 = dict(s.mem)
            self.loops.append(loop)
            self.quiet += 1
            rets, backs, exits = self.run(fr, bodyset, h, s, h)
            self.quiet -= 1
            self.loops.pop()
            bst = merge_states(backs)
            new = {}
            newst = set(hstore)
            if bst is not None:
                for loc, v0 in st.mem.items():
                    v1 = bst.mem.get(loc)
                    if v1 is None:
                        continue
                    ent = s.mem[loc]
                    if v1 is not ent and not only_elem(v1, ent):
                        new[loc] = diff_paths(ent, v1)
                for ns, v in bst.store.items():
                    if v != s.store.get(ns, ()):
                        newst.add(ns)
            changed = False
            for loc, p in new.items():
                q = havoc.get(loc)
                if q is None:
                    havoc[loc] = p
                    changed = True
                elif not q.covers(p):
                    havoc[loc] = q.union(p)
                    changed = True
            if newst - hstore:
                hstore |= newst
                changed = True
            if not changed:
                break
        if loop.coll is not None and loop.coll.op == 'list' and 0 < len(loop.coll.args[0]) <= 8:
            return self.unroll(fr, h, bodyset, st, loop.coll.args[0], lid)
        # counters: start at a value, plus one in every iteration
        counters = {}
        if loop.base is None and bst is not None:
            self.counted(loop, st, s0, s.store, bst, havoc, exits)
        if loop.base is not None and bst is not None:
            for loc in havoc:
                ent, v1 = s0.get(loc), bst.mem.get(loc)
                if ent is not None and ent.op == 'lv' and v1 is not None:
                    v1 = under(v1, bst.reach)
                    if v1.op == 'add' and sorted((v1.args[0].id, v1.args[1].id)) == sorted((ent.id, cint(1).id)):
                        counters[loc] = st.mem[loc]
        # final pass, logging effects
        loop0, loop = loop, Loop(lid, dict(st.mem))
        loop.fid = fr.id
        if loop0.test is not None:
            loop.base, loop.guard, loop.coll, loop.test, loop.body = loop0.base, loop0.guard, loop0.coll, loop0.test, bodyset
        s = st.copy()
        lvs = {}
        for loc, paths in havoc.items():
            if loc in counters:
                i = mk('idxof', loop0.base if loop0.guard == 1 else loop0.coll)
                s.mem[loc] = i if counters[loc] is cint(0) else arith('add', counters[loc], i)
                continue
            s.mem[loc] = havoc_value(st.mem[loc], paths, ('L', lid, loc))
            lvs[loc] = s.mem[loc]
        for ns in hstore:
            s.store[ns] = (('loop', lid),)
        self.loops.append(loop)
        mark = len(self.effects)
        rets, backs, exits = self.run(fr, bodyset, h, s, h)
        self.loops.pop()
        base = loop.base
        if base is not None:
            for e in self.effects[mark:]:
                e['loops'] = (base,) + tuple(e['loops'])
        bst = merge_states(backs)
        outs = []
        early = 0
        normal = []
        for tgt, s2 in exits:
            if getattr_norm(s2):
                normal.append((tgt, s2))
            else:
                early = B.or_(early, s2.reach)
                outs.append((tgt, s2))
        for r in rets:
            early = B.or_(early, r.reach)
        if base is not None:
            # panics inside the body also leave the loop
            care = R0
            cont = B.ors([b.reach for b in backs])
            g = B.restrict(cont, R0)
            allok = forall(base, B.restrict(B.or_(B.not_(B.and_(R0, loop.guard)), cont), R0))
            for i, (tgt, s2) in enumerate(outs):
                s2.reach = B.and_(s2.reach, B.not_(allok))
            for s2 in rets:
                s2.reach = B.and_(s2.reach, B.not_(allok))
        else:
            g = 1
            allok = 1
        res = []
        for tgt, s2 in normal:
            s2 = s2.copy()
            s2.reach = B.and_(R0, allok)
            if bst is not None:
                for loc, lv in lvs.items():
                    v1 = bst.mem.get(loc)
                    if v1 is None:
                        continue
                    # past the loop no element left it early: what was pushed is for every element
                    gl = B.restrict(loop.guard, R0) if base is not None else B.restrict(bst.reach, R0)
                    s2.mem[loc] = loopout(st.mem[loc], under(v1, bst.reach), lv, base, gl, lid, bst.reach)
                    core.W.loops[lv] = (st.mem[loc], under(v1, bst.reach), base)
                for loc, v0 in st.mem.items():
                    v1 = bst.mem.get(loc)
                    if loc not in lvs and v1 is not None and v1 is not v0 and only_elem(v1, v0):
                        s2.mem[loc] = elem_out(v1, v0, bst.reach)
            else:
                for loc in lvs:
                    s2.mem[loc] = st.mem[loc]
            for loc, v0 in counters.items():
                n = core.length(loop.base if loop.guard == 1 else loop.coll)
                s2.mem[loc] = n if v0 is cint(0) else arith('add', v0, n)
            for ns in hstore:
                s2.store[ns] = (('loopdone', lid),)
            res.append((tgt, s2))
        if base is None:
            for tgt, s2 in outs:
                pass
        for tgt, s2 in outs:
            for ns in hstore:
                if s2.store.get(ns) == (('loop', lid),):
                    s2.store[ns] = (('loopdone', lid),)
            res.append((tgt, s2))
        return [(t, s2) for t, s2 in res], rets

    def counted(self, loop, st, s0, s_store, bst, havoc, exits):
        """a loop driven by a counter that runs over the positions of a collection"""
        B = core.B
        for loc in havoc:
            ent, v1 = s0.get(loc), bst.mem.get(loc)
            if ent is None or ent.op != 'lv' or v1 is None or st.mem[loc] is not cint(0):
                continue
            v1 = under(v1, bst.reach)
            if not (v1.op == 'add' and sorted((v1.args[0].id, v1.args[1].id)) == sorted((ent.id, cint(1).id))):
                continue
            for tgt, s2 in exits:
                if any(s2.mem.get(l) is not s0.get(l) for l in havoc) or s2.store != s_store:
                    continue        # something happens before the test
                for v in B.support(s2.reach):
                    a = core.W.atom_of[v]
                    if a.op not in ('lt', 'eq') or ent not in a.args or a.op == 'lt' and a.args[0] is not ent:
                        continue
                    n = a.args[1] if a.args[0] is ent else a.args[0]
                    x = core.W.var_of[a]
                    cont = x if a.op == 'lt' else B.not_(x)
                    # left exactly when the counter has reached the number of elements
                    if n.op != 'len' or B.and_(s2.reach, cont) != 0 or any(isinstance(t, Term) and t.op == 'lv' and t.args[0].startswith(str(('L', loop.id))[:-1]) for t in core.subterms(n)):
                        continue
                    c = n.args[0]
                    b, g, e = iterate(c)
                    loop.base, loop.guard, loop.coll = b, g, c
                    loop.test = (mk('idxof', b if g == 1 else c), n)
                    return

    def unroll(self, fr, h, bodyset, st, xs, lid):
        """a loop over a few given elements, one after the other"""
        res, rets = [], []
        s = st.copy()
        for x in list(xs) + [None]:
            loop = Loop(lid, dict(s.mem))
            loop.fid = fr.id
            loop.force = none() if x is None else some(x)
            self.loops.append(loop)
            r, backs, exits = self.run(fr, bodyset, h, s, h)
            self.loops.pop()
            rets += r
            res += exits
            s = merge_states(backs)
            if s is None or not s.reach:
                break
            s = s.copy()
        return res, rets

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, bb, st):
        B = core.B
        blk = fr.body['blocks'][bb]
        for s in blk['s']:
            self.nstmts += 1
            if 'sd' in s:
                loc = self.read(fr, s['sd'], st)
                if loc.op != 'agg' or loc.args[1] != s['var']:
                    self.write(fr, s['sd'], mk('agg', 'set', s['var'], (), ()), st)
                continue
            v = self.rvalue(fr, s['v'], st, s['d'])
            self.write(fr, s['d'], v, st)
        t = blk['t']
        k = t['t']
        if k == 'goto':
            return [(t['b'], st)]
        if k == 'ret':
            return 'ret'
        if k == 'unreach':
            return []
        if k == 'assert':
            c = truth(self.operand(fr, t['o'], st))
            if not t['x']:
                c = B.not_(c)
            st.reach = B.and_(st.reach, c)
            return [(t['b'], st)] if st.reach else []
        if k == 'switch':
            return self.switch(fr, t, st)
        if k == 'call':
            self.ncalls += 1
            old = self.span
            self.span = t['l']
            args = [under(self.operand(fr, a, st), st.reach) for a in t['a']]
            v, st2 = self.call(fr, t['f'], args, t['at'], t['dty'], st)
            self.span = old
            if v is None or t['b'] < 0:
                return []
            self.write(fr, t['d'], v, st2)
            return [(t['b'], st2)]
        raise Exception('terminator ' + k)

    def switch(self, fr, t, st):
        B = core.B
        v = under(self.operand(fr, t['o'], st), st.reach)
        out = []
        if v.op == 'discr':
            base, tyi = v.args
            ty = self.facts.ty(int(tyi.split('#')[1]))
            dmap = {str(x['d']): x['n'] for x in ty.get('v', [])}
            if base.op == 'nextopt':
                # loop driver: one generic iteration, and the exit after the last one
                for c, tgt in t['c'] + [['else', t['e']]]:
                    s2 = st.copy()
                    nm = dmap.get(c)
                    if c == 'else':
                        listed = [dmap.get(x[0]) for x in t['c']]
                        rest = [n for n in dmap.values() if n not in listed]
                        if len(rest) != 1:
                            continue
                        nm = rest[0]
                    if nm == 'Some':
                        s2.reach = B.and_(s2.reach, base.args[2])
                        if s2.reach:
                            out.append((tgt, s2))
                    else:
                        s2.mem[('norm', base.args[0])] = mk('int', 1)
                        out.append((tgt, s2))
                return out
            rest = 1
            cases = [(c, tgt) for c, tgt in t['c']]
            listed = [dmap.get(c) for c, _ in cases]
            others = [n for n in dmap.values() if n not in listed]
            exhaustive = bool(dmap) and not others
            for i, (c, tgt) in enumerate(cases):
                nm = dmap.get(c)
                if nm is None:
                    cond = atom('is', base, 'd' + c)
                elif exhaustive and i == len(cases) - 1:
                    cond = 1
                else:
                    cond = variant(base, nm, list(dmap.values()))
                cc = B.and_(rest, cond)
                rest = B.and_(rest, B.not_(cond))
                s2 = st.copy()
                s2.reach = B.and_(st.reach, cc)
                if s2.reach:
                    out.append((tgt, s2))
            if not exhaustive:
                if len(others) == 1 and len(dmap) > 1:
                    rest2 = rest
                else:
                    rest2 = rest
                s2 = st.copy()
                s2.reach = B.and_(st.reach, rest2)
                if s2.reach:
                    out.append((t['e'], s2))
            return out
        ty = self.facts.ty(t['ty'])
        if v.op == 'looptest':
            lp = [l for l in self.loops if cint(l.id) is v.args[0]]
            more = str(v.args[1].args[0])
            tg = dict(t['c'])
            go = tg.get(more, t['e'])
            leave = tg.get('0' if more == '1' else '1', t['e'])
            if lp and go in lp[0].body and leave not in lp[0].body:
                s2 = st.copy()
                s2.mem[('norm', v.args[0])] = mk('int', 1)
                s3 = st.copy()
                s3.reach = B.and_(st.reach, lp[0].guard)
                return [(go, s3), (leave, s2)]
        if ty['s'] == 'bool':
            c = truth(v)
            for val, tgt in t['c']:
                cc = c if val == '1' else B.not_(c)
                s2 = st.copy()
                s2.reach = B.and_(st.reach, cc)
                if s2.reach:
                    out.append((tgt, s2))
            rest = B.not_(c) if any(x[0] == '1' for x in t['c']) else c
            s2 = st.copy()
            s2.reach = B.and_(st.reach, rest)
            if s2.reach:
                out.append((t['e'], s2))
            return out
        rest = 1
        for val, tgt in t['c']:
            cond = eq(v, cint(val))
            s2 = st.copy()
            s2.reach = B.and_(st.reach, B.and_(rest, cond))
            rest = B.and_(rest, B.not_(cond))
            if s2.reach:
                out.append((tgt, s2))
        s2 = st.copy()
        s2.reach = B.and_(st.reach, rest)
        if s2.reach:
            out.append((t['e'], s2))
        return out

    # ------------------------------------------------------------ places
    def resolve(self, fr, pl, st):
        """place -> (kind, ...): ('loc', loc, path) or ('val', term, path)"""
        cur = ('loc', (fr.id, pl[0]), ())
        for e in pl[1:]:
            if e == '*':
                v = self.read_res(cur, st)
                cur = self.deref(v)
            elif e[0] == 'f':
                cur = (cur[0], cur[1], cur[2] + (('f', e[2], e[3] if len(e) > 3 else None),))
            elif e[0] == 'd':
                pass
            elif e[0] == 'i':
                idx = self.read_res(('loc', (fr.id, e[1]), ()), st)
                cur = (cur[0], cur[1], cur[2] + (('i', idx),))
            elif e[0] == 'ci':
                idx = cint(e[1]) if not e[2] else mk('fromend', cint(e[1]))
                cur = (cur[0], cur[1], cur[2] + (('i', idx),))
            elif e[0] == 'ss':
                cur = (cur[0], cur[1], cur[2] + (('ss', e[1], e[2], e[3]),))
        return cur

    def deref(self, v):
        if v.op == 'ref':
            return ('loc', v.args[0], v.args[1])
        if v.op == 'phi' and any(l.op == 'ref' for _, l in v.args[0]):
            return ('phi', v, ())
        return ('val', v, ())

    def project(self, v, path):
        for p in path:
            if p[0] == 'f':
                v = field(v, p[1], p[2])
            elif p[0] == 'i':
                v = index(v, p[1])
            elif p[0] == 'k':
                v = mapget(v, p[1])
            elif p[0] == 'e':
                v = iterate(v)[2]
            elif p[0] == 'ss':
                v = mk('slice', v, cint(p[1]), cint(p[2]))
        return v

    def read_res(self, r, st):
        if r[0] == 'loc':
            v = st.mem.get(r[1])
            if v is None:
                v = mk('undef', str(r[1]))
            return self.project(v, r[2])
        if r[0] == 'phi':
            out = []
            for g, l in r[1].args[0]:
                d = self.deref(l)
                out.append((g, self.read_res((d[0], d[1], d[2] + r[2]), st)))
            return phi(out)
        return self.project(r[1], r[2])

    def read(self, fr, pl, st):
        if len(pl) == 1:
            v = st.mem.get((fr.id, pl[0]))
            return v if v is not None else mk('undef', '%s_%d' % (fr.key, pl[0]))
        return self.read_res(self.resolve(fr, pl, st), st)

    def setpath(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == 'f':
            n, var = p[1], p[2]
            sub = self.setpath(field(v, n, var), path[1:], new)
            if v.op == 'agg' and n in v.args[2] and (not var or v.args[1] == var):
                i = v.args[2].index(n)
                vals = v.args[3][:i] + (sub,) + v.args[3][i + 1:]
                return mk('agg', v.args[0], v.args[1], v.args[2], vals)
            if v.op == 'phi':
                return phi([(g, self.setpath(l, path, new)) for g, l in v.args[0]])
            if sub is field(v, n, var):
                return v
            if v.op == 'undef':
                return mk('agg', 'part', '', (n,), (sub,))
            # drop a previous update of the same field
            return setupd(v, fname(n, var), sub)
        if p[0] == 'i':
            sub = self.setpath(index(v, p[1]), path[1:], new)
            return mk('setidx', v, p[1], sub)
        if p[0] == 'k':
            sub = self.setpath(mapget(v, p[1]), path[1:], new)
            if v.op == 'put' and v.args[1] is p[1]:
                v = v.args[0]
            return mk('put', v, p[1], sub)
        if p[0] == 'e':
            b, g, e = iterate(v)
            sub = self.setpath(e, path[1:], new)
            return mk('elemw', v, sub)
        return mk('setother', v, new)

    def write_res(self, r, val, st):
        B = core.B
        if r[0] == 'loc':
            loc, path = r[1], r[2]
            if not path:
                st.mem[loc] = val
            else:
                old = st.mem.get(loc)
                if old is None:
                    old = mk('undef', str(loc))
                st.mem[loc] = self.setpath(old, path, val)
        elif r[0] == 'phi':
            for g, l in r[1].args[0]:
                d = self.deref(l)
                rr = (d[0], d[1], d[2] + r[2])
                old = self.read_res(rr, st)
                self.write_res(rr, phi([(g, val), (B.not_(g), old)]), st)
        else:
            if r[1].op not in ('in',):
                self.notes.append('write through opaque %s' % show(r[1])[:80])

    def write(self, fr, pl, val, st):
        if len(pl) == 1:
            st.mem[(fr.id, pl[0])] = val
            return
        self.write_res(self.resolve(fr, pl, st), val, st)

    def readref(self, t, st):
        """value behind a (possible) &mut reference"""
        d = self.deref(t)
        return self.read_res(d, st)

    def writeref(self, t, val, st):
        d = self.deref(t)
        self.write_res(d, val, st)

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, fr, o, st):
        if 'p' in o and 'c' not in o:
            return self.read(fr, o['p'], st)
        return self.const(o)

    def const(self, o):
        c = o['c']
        if c == 'int':
            ty = self.facts.ty(o['ty'])
            return cint(o['v'])
        if c == 'bool':
            return cbool(o['v'])
        if c == 'str':
            return cstr(o['v'])
        if c == 'bytes':
            return mk('bytes', tuple(o['v']))
        if c == 'zst':
            ty = self.facts.ty(o['ty'])
            if ty['k'] == 'closure':
                return mk('agg', 'closure:' + ty['n'], '', (), ())
            if ty['k'] == 'tuple':
                return unit()
            if ty['k'] == 'adt' and len(ty['v']) == 1 and not ty['v'][0]['f']:
                return mk('agg', norm_path(ty['p']), ty['v'][0]['n'] if ty.get('e') else '', (), ())
            return mk('zst', ty['s'])
        if c == 'fn':
            f = o['f']
            name = 'fn:' + self.facts.crate + ':' + (f.get('n') or f.get('r') or f['d']) + ('#%s' % f['ctor'][1] if 'ctor' in f else '')
            core.W.fns[name] = f
            return mk('fn', name)
        if c in ('promoted', 'const'):
            k = o['n']
            if k in self.const_memo:
                return self.const_memo[k]
            if k not in self.facts.bodies:
                return mk('constx', k)
            st = St(1, {}, {})
            self.quiet += 1
            sl, self.loops = self.loops, []
            v, _ = self.call_body(k, [], st)
            self.loops = sl
            self.quiet -= 1
            if v is None:
                v = mk('constx', k)
            if c == 'const' and v.op in ('call', 'agg') and v.op == 'call':
                pass
            self.const_memo[k] = v
            return v
        if c == 'extern':
            return mk('constx', o['p'])
        if c == 'raw':
            ty = self.facts.ty(o['ty'])
            if ty['k'] == 'adt' and ty.get('e'):
                for x in ty['v']:
                    if str(x['d']) == o['v'] and not x['f']:
                        return mk('agg', norm_path(ty['p']), x['n'], (), ())
            return mk('raw', ty['s'], o['v'])
        return mk('constx', o.get('s', '?'))

    def rvalue(self, fr, r, st, dst):
        k = r['r']
        if k == 'use':
            return self.operand(fr, r['o'], st)
        if k == 'ref':
            if r['m']:
                res = self.resolve(fr, r['pl'], st)
                if res[0] == 'loc':
                    return mk('ref', res[1], res[2])
                if res[0] == 'phi':
                    out = []
                    for g, l in res[1].args[0]:
                        d = self.deref(l)
                        if d[0] == 'loc':
                            out.append((g, mk('ref', d[1], d[2] + res[2])))
                        else:
                            out.append((g, self.project(d[1], d[2] + res[2])))
                    return phi(out)
                return self.project(res[1], res[2])
            return under(self.read(fr, r['pl'], st), st.reach)
        if k == 'bin':
            a = self.operand(fr, r['a'], st)
            b = self.operand(fr, r['b'], st)
            return self.binop(r['op'], a, b)
        if k == 'un':
            a = self.operand(fr, r['a'], st)
            if r['op'] == 'Not' and a.op == 'looptest':
                return mk('looptest', a.args[0], cint(1 - a.args[1].args[0]))
            if r['op'] == 'Not':
                if a.op == 'b' or a.op == 'phi' or a.op in ('field', 'call', 'in', 'load', 'elem', 'lv'):
                    # booleans and integers share Not; decide by the type of the destination
                    if self.is_bool_place(fr, dst):
                        return bterm(core.B.not_(truth(a)))
                return mk('not', a)
            if r['op'] == 'PtrMetadata':
                return length(a)
            return mk('neg', a)
        if k == 'discr':
            v = under(self.read(fr, r['pl'], st), st.reach)
            tk = '%s#%d' % (self.facts.crate, r['ty'])
            if tk not in core.W.discr:
                core.W.discr[tk] = {str(x['d']): x['n'] for x in self.facts.ty(r['ty']).get('v', [])}
            return mk('discr', v, tk)
        if k == 'agg':
            vals = [under(self.operand(fr, o, st), st.reach) for o in r['o']]
            if r['k'] == 'array':
                return mk('list', tuple(vals))
            if r['k'] == 'tuple':
                return tup(*vals)
            ty = self.facts.ty(r['ty'])
            if r['k'] == 'closure':
                return mk('agg', 'closure:' + ty['n'], '', tuple(str(i) for i in range(len(vals))), tuple(vals))
            if r['k'] == 'adt':
                t = mk('agg', norm_path(ty['p']), r['v'] if ty.get('e') else '', tuple(r['n']), tuple(vals))
                if norm_path(ty['p']) in self.watch:
                    self.built.append((t, st.reach))
                return t
            if r['k'] == 'rawptr':
                return vals[0]
            return mk('aggx', r['k'], *vals)
        if k == 'cast':
            return intcast(self.operand(fr, r['o'], st), r.get('k', ''), r.get('from'), r.get('to'))
        if k == 'repeat':
            return mk('repeat', self.operand(fr, r['o'], st), cint(r['n']))
        return mk('rv', r.get('s', k)[:60])

    def is_bool_place(self, fr, pl):
        if len(pl) == 1:
            return self.facts.ty(fr.body['locals'][pl[0]])['s'] == 'bool'
        return True

    def binop(self, op, a, b):
        B = core.B
        if op in DRIVES:
            for lp in reversed(self.loops):
                if lp.test is not None:
                    for x, y, w in ((a, b, 0), (b, a, 1)):
                        if (x, y) == lp.test and DRIVES[op][w] is not None:
                            return mk('looptest', cint(lp.id), cint(DRIVES[op][w]))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return bterm(compare(op, a, b))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('BitAnd', 'BitOr', 'BitXor') and a.op == 'b' and b.op == 'b':
            x, y = a.args[0], b.args[0]
            if base == 'BitAnd':
                return bterm(B.and_(x, y))
            if base == 'BitOr':
                return bterm(B.or_(x, y))
            return bterm(B.not_(eq(a, b)))
        r = arith(base.lower(), a, b)
        if 'WithOverflow' in op:
            return tup(r, cbool(0))
        if op == 'Cmp':
            return mk('cmp', a, b)
        return r

    # ------------------------------------------------------------ effects
    def log(self, kind, st, **kw):
        if self.quiet:
            return
        e = Effect(kind=kind, guard=st.reach, loops=(), fn=self.where(), span=self.span, seq=len(self.effects), **kw)
        self.effects.append(e)

    def where(self):
        for k in reversed(self.stack):
            b = self.facts.bodies[k]
            if not b.get('promoted') and not b.get('const') and not b['p'].startswith(('core::', 'std::', 'alloc::')):
                return b['p']
        return '?'

    # ------------------------------------------------------------ calls
    def call_value(self, f, args, st):
        """call a closure / fn-item value; returns (value, state)"""
        f = self.readref(f, st) if f.op == 'ref' else f
        if f.op == 'agg' and f.args[0].startswith('closure:'):
            key = f.args[0][8:]
            if key in self.facts.bodies:
                return self.call_body(key, [f] + list(args), st)
            return mk('call', 'closure?', f, *args), st
        if f.op == 'fn':
            cal = core.W.fns[f.args[0]]
            return self.call(None, cal, list(args), [], None, st)
        if f.op == 'phi':
            outs = []
            sts = []
            for g, l in f.args[0]:
                s2 = st.copy()
                s2.reach = core.B.and_(st.reach, g)
                if not s2.reach:
                    continue
                v, s3 = self.call_value(l, args, s2)
                if v is not None:
                    outs.append((s3.reach, v))
                    sts.append(s3)
            if not outs:
                return None, None
            m = merge_states(sts)
            return phi(outs, m.reach), m
        return mk('call', 'dyncall', f, *args), st

    def call(self, fr, f, args, aty, dty, st):
        import models
        if 'ptr' in f:
            v = self.operand(fr, f['ptr'], st) if fr is not None else mk('ptr?')
            return self.call_value(v, args, st)
        if 'ctor' in f:
            adt, var, ti = f['ctor']
            ty = self.facts.ty(ti)
            names = [x[0] for v in ty['v'] if v['n'] == var for x in v['f']]
            if not names:
                names = [str(i) for i in range(len(args))]
            t = mk('agg', norm_path(adt), var if ty.get('e') else '', tuple(names[:len(args)]), tuple(args))
            if norm_path(adt) in self.watch:
                self.built.append((t, st.reach))
            return t, st
        if 'via' in f:
            # FnOnce::call_once(fnitem, (args,)) through a fn-pointer shim
            targs = untuple(args[1]) if len(args) > 1 else []
            return self.call(fr, f['via'], targs, [], dty, st)
        r = models.try_model(self, fr, f, args, aty, dty, st)
        if r is not NotImplemented:
            return r
        if 'n' in f and f['n'] in self.facts.bodies:
            body = self.facts.bodies[f['n']]
            a = list(args)
            if f.get('clo') and len(a) == 2 and body['args'] != 2 or (f.get('clo') and f['m'] in ('call', 'call_mut', 'call_once')):
                if f['m'] in ('call', 'call_mut', 'call_once'):
                    clo = self.readref(a[0], st) if a[0].op == 'ref' else a[0]
                    a = [clo] + untuple(a[1])
            return self.call_body(f['n'], a, st)
        if f['m'] in ('call', 'call_mut', 'call_once') and f['tr'].startswith(('std::ops', 'core::ops')) and len(args) == 2:
            return self.call_value(args[0], untuple(args[1]), st)
        return self.opaque(f, args, st)

    def opaque(self, f, args, st, name=None):
        name = name or norm_d(f.get('r') if f.get('r') and not f.get('tr') else f['d'])
        self.unknown[name] = self.unknown.get(name, 0) + 1
        ra = []
        refs = []
        for a in args:
            if a.op == 'ref' or (a.op == 'phi' and any(l.op == 'ref' for _, l in a.args[0])):
                refs.append(a)
                ra.append(self.readref(a, st))
            else:
                ra.append(a)
        v = mk('call', name, *ra)
        if refs:
            st = st.copy()
            for i, a in enumerate(refs):
                self.writeref(a, mk('mut', name, cint(i), *ra), st)
        return v, st


def untuple(t):
    if t.op == 'agg' and t.args[0] == 'tuple':
        return list(t.args[3])
    return [t]


def compare(op, a, b):
    B = core.B
    if op not in ('Eq', 'Ne'):
        # Ordering as a signed discriminant
        if a.op == 'discr' and b.op == 'int' and b.args[0] == 0:
            less, more = core.variant(a.args[0], 'Less'), core.variant(a.args[0], 'Greater')
            return {'Lt': less, 'Ge': B.not_(less), 'Gt': more, 'Le': B.not_(more)}[op]
        if a.op == 'discr' or b.op == 'discr':
            return core.atom('true', mk('cmpdiscr', op, a, b))
    if op == 'Eq':
        return eq(a, b)
    if op == 'Ne':
        return B.not_(eq(a, b))
    if op == 'Lt':
        return lt(a, b)
    if op == 'Ge':
        return B.not_(lt(a, b))
    if op == 'Gt':
        return lt(b, a)
    if op == 'Le':
        return B.not_(lt(b, a))


def setupd(v, n, sub):
    chain = []
    x = v
    while x.op == 'upd':
        if x.args[1] != n:
            chain.append((x.args[1], x.args[2]))
        x = x.args[0]
    chain.append((n, sub))
    chain.sort(key=lambda c: c[0])
    for n2, s2 in chain:
        x = mk('upd', x, n2, s2)
    return x


def index(v, i):
    if i.op == 'agg' and i.args[0].endswith('RangeFull'):
        return v
    if v.op == 'list' and i.op == 'int':
        if 0 <= i.args[0] < len(v.args[0]):
            return v.args[0][i.args[0]]
    if v.op == 'phi':
        return phi([(g, index(l, i)) for g, l in v.args[0]])
    if v.op == 'comp' and v.args[1] == 1 and i.op == 'int' and i.args[0] == 0:
        return first_of(v)
    if i.op == 'int' and i.args[0] == 0 and v.op not in ('list', 'cat', 'comp', 'call', 'concat', 'repeat', 'bytes'):
        return first_of(v)
    if v.op == 'setidx' and v.args[1] is i:
        return v.args[2]
    if i.op == 'idxof':
        b, g, e = iterate(v)
        if b is i.args[0] and g == 1 or v is i.args[0]:
            return e
    return mk('idx', v, i)


def mapget(m, k):
    if m.op == 'put':
        if m.args[1] is k:
            return m.args[2]
        if m.args[1].op == 'strc' and k.op == 'strc':
            return mapget(m.args[0], k)
    if m.op == 'mapof':
        b, p, v = map_lookup(m, k)
        if b is not None:
            w = core.pick(b, p)
            return subst(subst(v, elem(b), w), mk('idxof', b), mk('idxof', b, w))
    return mk('get', m, k)


def map_lookup(m, k):
    """look key k up in a map collected from pairs: (base, element predicate, value)"""
    c = m.args[0]
    b, g, e = iterate(c)
    if e.op == 'agg' and e.args[0] == 'tuple' and e.args[3][0] is k and g == 1:
        return None, None, None
    if k is field(e, '0') and g == 1:
        return None, None, None
    if contains(k, elem(b)) or contains(k, mk('idxof', b)):
        b, g, e = iterate(core.again(c))
        if contains(k, elem(b)):
            return None, None, None
    return b, core.B.and_(g, eq(field(e, '0'), k)), field(e, '1')


def haskey(m, k):
    if m.op == 'put':
        return core.B.or_(eq(m.args[1], k), haskey(m.args[0], k))
    if m.op == 'phi':
        return core.B.ors([core.B.and_(g, haskey(l, k)) for g, l in m.args[0]])
    if m.op in ('list',) and not m.args[0]:
        return 0
    if m.op == 'mapof':
        b, p, v = map_lookup(m, k)
        if b is not None:
            return core.B.not_(forall(b, core.B.not_(p)))
    # key drawn from the map itself
    b, g, e = iterate(m)
    if g == 1:
        if e.op == 'agg' and e.args[0] == 'tuple' and e.args[3][0] is k:
            return 1
    if k.op == 'field' and k.args[1] == '0' and k.args[0].op == 'elem' and k.args[0].args[0] is m:
        return 1
    return atom('has', m, k)


def first_of(c):
    """first element of a collection known to be non-empty"""
    if c.op == 'list' and c.args[0]:
        return c.args[0][0]
    if c.op == 'cat' and c.args[0][0].op == 'list':
        return c.args[0][0].args[0][0]
    b, g, e = iterate(c)
    if c.op == 'comp':
        w = mk('first', b) if g == 1 else core.pick(b, g)
        return subst(subst(e, elem(b), w), mk('idxof', b), cint(0) if g == 1 else mk('idxof', b, w))
    return mk('first', c)


BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}


def intcast(x, kind, a, b):
    """a numeric conversion; one that can change the value stays visible"""
    if 'Float' in kind:
        return mk('castnum', str(b), x)
    if a not in BITS or b not in BITS or x.op in ('discr', 'b'):
        return x
    keeps = BITS[b] > BITS[a] and (a[0] == 'u' or b[0] == 'i') or BITS[b] == BITS[a] and a[0] == b[0]
    if keeps:
        return x
    if x.op == 'int':
        top = 2 ** (BITS[b] - (1 if b[0] == 'i' else 0))
        if 0 <= x.args[0] < top:
            return x
    if x.op == 'phi':
        return phi([(g, intcast(l, kind, a, b)) for g, l in x.args[0]])
    return mk('castnum', b, x)


class Paths:
    """set of field paths that a loop modifies; () = whole value"""

    def __init__(self, ps):
        self.ps = set(ps)

    def covers(self, o):
        return all(any(p[:len(q)] == q for q in self.ps) for p in o.ps)

    def union(self, o):
        return Paths(self.ps | o.ps)


def diff_paths(a, b, pre=()):
    if a is b:
        return Paths([])
    if a.op == 'agg' and b.op == 'agg' and a.args[:3] == b.args[:3]:
        r = []
        for n, x, y in zip(a.args[2], a.args[3], b.args[3]):
            r.extend(diff_paths(x, y, pre + (n,)).ps)
        return Paths(r)
    return Paths([pre])


def havoc_value(v, paths, tag):
    if () in paths.ps:
        return mk('lv', str(tag))
    return _havoc(v, paths.ps, tag, ())


def _havoc(v, ps, tag, pre):
    if pre in ps:
        return mk('lv', str(tag) + '.' + '.'.join(pre))
    if not any(p[:len(pre)] == pre for p in ps):
        return v
    if v.op == 'agg':
        return mk('agg', v.args[0], v.args[1], v.args[2],
                  tuple(_havoc(x, ps, tag, pre + (n,)) for n, x in zip(v.args[2], v.args[3])))
    return mk('lv', str(tag) + '.' + '.'.join(pre))


def getattr_norm(s):
    for k in list(s.mem):
        if k[0] == 'norm':
            del s.mem[k]
            return True
    return False


def loopout(v0, v1, lv, base, g, lid, care=1):
    """value after the loop, given entry value v0, end-of-iteration value v1 in terms of lv"""
    B = core.B
    if v1 is lv:
        return v0
    if v1 is v0:
        return v0
    if lv.op == 'agg':
        if v1.op == 'agg' and v1.args[:3] == lv.args[:3]:
            vals = []
            for i, n in enumerate(lv.args[2]):
                vals.append(loopout(field(v0, n, lv.args[1] or None), v1.args[3][i], lv.args[3][i], base, g, lid, care))
            return mk('agg', lv.args[0], lv.args[1], lv.args[2], tuple(vals))
        return mk('loopout', base or mk('none'), v0, v1)
    if base is None:
        return mk('loopout', mk('none'), v0, v1)
    # accumulation patterns
    if v1.op == 'agg' and lv.op == 'lv' and not v1.args[0].startswith('closure') and len(v1.args[2]) > 0 and \
            (v0.op != 'agg' or v0.args[:3] == v1.args[:3]):
        okv = True
        vals = []
        for i, n in enumerate(v1.args[2]):
            var = v1.args[1] or None
            l2 = field(lv, n, var)
            vals.append(loopout(field(v0, n, var), v1.args[3][i], l2, base, g, lid, care))
        return mk('agg', v1.args[0], v1.args[1], v1.args[2], tuple(vals))
    if v1.op == 'upd':
        x = v0
        y = v1
        ups = []
        while y.op == 'upd':
            ups.append((y.args[1], y.args[2]))
            y = y.args[0]
        if y is lv:
            for n, val in reversed(ups):
                var, nn = n.split('.', 1) if '.' in n else (None, n)
                val = untouched(val, lv, v0, [u for u, _ in ups])
                x = setupd(x, n, loopout(field(v0, nn, var), val, field(lv, nn, var), base, g, lid, care))
            return x
    parts = []      # (guard, kind, payload)
    def classify(t, gd):
        if t is lv:
            return True
        if t.op == 'cat' and t.args[0][0] is lv and not any(contains(x, lv) for x in t.args[0][1:]):
            for x in t.args[0][1:]:
                if x.op == 'list':
                    for y in x.args[0]:
                        parts.append((gd, 'push', y))
                else:
                    parts.append((gd, 'ext', x))
            return True
        if t.op == 'add':
            for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                if x is lv and not contains(y, lv):
                    parts.append((gd, 'add', y))
                    return True
        if t.op == 'put' and t.args[0] is lv and not contains(t.args[1], lv):
            parts.append((gd, 'put', (t.args[1], t.args[2])))
            return True
        if t.op == 'elemw':
            return False
        if t.op == 'phi':
            return all(classify(l, B.and_(gd, gg)) for gg, l in t.args[0])
        return False
    if classify(v1, 1) and parts:
        # past the loop every iteration ran to its end: conditions implied by that are no filter
        parts = [(B.and_(g, B.restrict(gd, care) if care > 1 else gd), kd, x) for gd, kd, x in parts]
        kinds = set(p[1] for p in parts)
        if kinds == {'push'} and len(parts) > 1 and all(B.and_(parts[i][0], parts[j][0]) == 0 for i in range(len(parts)) for j in range(i)):
            # one element at most per iteration
            allg = 0
            for gd, _, _ in parts:
                allg = B.or_(allg, gd)
            return cat(v0, comp(base, allg, phi([(gd, x) for gd, _, x in parts])))
        if kinds <= {'push', 'ext'}:
            out = [v0]
            for gd, kd, x in parts:
                if kd == 'push':
                    out.append(comp(base, gd, x))
                else:
                    out.append(mk('flat', comp(base, gd, x)))
            return cat(*out)
        if kinds == {'add'}:
            r = v0
            for gd, kd, x in parts:
                r = arith('add', r, mk('sum', comp(base, gd, x)))
            return r
        if kinds == {'put'} and len(parts) == 1:
            gd, kd, (kk, vv) = parts[0]
            if not contains(vv, lv):
                m = mk('mapof', comp(base, gd, tup(kk, vv)))
                if v0.op == 'list' and not v0.args[0]:
                    return m
                return mk('mapext', v0, m)
            return mk('mapacc', v0, base, bterm(gd), kk, subst(vv, lv, mk('acc', base)))
    if v1.op == 'b':
        x = v1.args[0]
        lvv = truth(lv)
        if lvv > 1:
            v = B.var[lvv]
            c0, c1 = B.cofactor(x, v, 0), B.cofactor(x, v, 1)
            if not bdd_mentions(c0, lv) and not bdd_mentions(c1, lv):
                if c1 == 1:
                    return bterm(B.or_(truth(v0), B.not_(forall(base, B.not_(B.and_(g, c0))))))
                if c0 == 0:
                    return bterm(B.and_(truth(v0), forall(base, B.or_(B.not_(g), c1))))
    if v1.op == 'phi':
        # conditional overwrite / element write
        ews = [(gg, l) for gg, l in v1.args[0] if l.op == 'elemw']
        if ews:
            pass
    if v1.op == 'phi':
        # a field of a structure, or one position of a list, is written under a condition
        ls = [l for _, l in v1.args[0]]
        if any(l.op == 'upd' for l in ls) and all(updates(l)[0] is lv for l in ls):
            names = []
            for l in ls:
                names += [n for n in updates(l)[1] if n not in names]
            x = v0
            for n in names:
                nn, var = updname(n)
                val = untouched(phi([(gg, field(l, nn, var)) for gg, l in v1.args[0]]), lv, v0, names)
                x = setupd(x, n, loopout(field(v0, nn, var), val, field(lv, nn, var), base, g, lid, care))
            return x
        ws = [(gg, l) for gg, l in v1.args[0] if l is not lv]
        if len(ws) == 1 and ws[0][1].op == 'setidx' and ws[0][0] == lt(mk('idxof', base), length(lv)):
            # the positions that exist are those the list has before the loop
            v1 = ws[0][1]
    if v1.op == 'setidx' and v1.args[0] is lv and v1.args[1] is mk('idxof', base) and g == 1:
        # every position is written once, from what was there before the loop
        b2, g2, e2 = iterate(v0)
        if g2 == 1:
            i = mk('idxof', b2)
            val = subst(v1.args[2], mk('idx', lv, v1.args[1]), e2)
            val = subst(subst(val, elem(base), mk('idx', base, i)), mk('idxof', base), i)
            if not contains(val, lv):
                return comp(b2, 1, val)
    w = elemwrite(v1, lv)
    if w is not None:
        b2, g2, e2 = iterate(v0)
        if b2 is base or True:
            return comp(b2, g2, subst(w, mk('elem', lv), e2)) if contains(w, lv) else comp(b2, g2, w)
    return mk('loopout', base, v0, v1)


def untouched(val, lv, v0, names):
    """val with the fields of the loop variable that no iteration writes read from before the loop"""
    fs = sorted((t for t in core.subterms(val) if t.op == 'field' and t.args[0] is lv), key=lambda t: t.id)
    for t in fs:
        n = t.args[1]
        if not any(n == u or u.startswith(n + '.') or n.startswith(u + '.') for u in names):
            nn, var = updname(n)
            val = subst(val, t, field(v0, nn, var))
    return val


def only_elem(v1, v0):
    """v1 is v0 with (at most) its generic element replaced, possibly inside struct fields"""
    if v1 is v0:
        return True
    if v1.op == 'elemw':
        return only_elem(v1.args[0], v0)
    if v1.op == 'phi':
        return all(only_elem(l, v0) for _, l in v1.args[0])
    if v1.op == 'agg' and v0.op == 'agg' and v1.args[:3] == v0.args[:3]:
        return all(only_elem(x, y) for x, y in zip(v1.args[3], v0.args[3]))
    if v1.op == 'upd':
        (r1, u1), (r0, u0) = updates(v1), updates(v0)
        return r1 is r0 and set(u0) <= set(u1) and all(u0.get(n) is x or only_elem(x, field(v0, *updname(n))) for n, x in u1.items())
    return False


def updates(v):
    """(root, {field: value}) of a chain of field updates"""
    u = {}
    while v.op == 'upd':
        u.setdefault(v.args[1], v.args[2])
        v = v.args[0]
    return v, u


def updname(n):
    var, nn = n.split('.', 1) if '.' in n else (None, n)
    return nn, var


def elem_out(v1, v0, reach):
    if v1 is v0:
        return v0
    if v1.op == 'agg' and v0.op == 'agg' and v1.args[:3] == v0.args[:3]:
        return mk('agg', v1.args[0], v1.args[1], v1.args[2], tuple(elem_out(x, y, reach) for x, y in zip(v1.args[3], v0.args[3])))
    if v1.op == 'upd':
        r = v0
        u0 = updates(v0)[1]
        for n, s in updates(v1)[1].items():
            if u0.get(n) is not s:
                r = setupd(r, n, elem_out(s, field(v0, *updname(n)), reach))
        return r
    if v1.op == 'phi':
        ls = [under(l, reach) for _, l in v1.args[0]]
        if any(l.op == 'upd' for l in ls):
            names = []
            for l in ls:
                u0 = updates(v0)[1]
                for n, s in updates(l)[1].items():
                    if u0.get(n) is not s and n not in names:
                        names.append(n)
            r = v0
            for n in names:
                s0 = field(v0, *updname(n))
                s = phi([(g, field(l, *updname(n))) for (g, _), l in zip(v1.args[0], ls)])
                r = setupd(r, n, elem_out(s, s0, reach))
            return r
        if v0.op == 'agg' and all(l.op == 'agg' and l.args[:3] == v0.args[:3] for l in ls):
            return mk('agg', v0.args[0], v0.args[1], v0.args[2],
                      tuple(elem_out(phi([(g, l.args[3][i]) for (g, _), l in zip(v1.args[0], ls)]), v0.args[3][i], reach) for i in range(len(v0.args[2]))))
    b, g, e = iterate(v0)

    def val(t):
        if t is v0:
            return e
        if t.op == 'elemw':
            return t.args[1]
        if t.op == 'phi':
            return phi([(gg, val(l)) for gg, l in t.args[0]])
        return mk('loopout', b, v0, t)
    return comp(b, g, val(under(v1, reach)))


def elemwrite(v1, lv):
    """v1 = lv with its generic element replaced: return the new element (in terms of elem(lv))"""
    if v1 is lv:
        return mk('elem', lv)
    if v1.op == 'elemw':
        inner = elemwrite(v1.args[0], lv)
        if inner is None:
            return None
        return v1.args[1]
    if v1.op == 'phi':
        ps = []
        for g, l in v1.args[0]:
            x = elemwrite(l, lv)
            if x is None:
                return None
            ps.append((g, x))
        return phi(ps)
    return None
