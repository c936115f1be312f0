"""what a text, key or hash preimage determines

determined(t) is a set of terms whose values can be recovered from the value of t.  Concatenations are
read from both ends: a piece is delimited if its length is fixed or if the literal next to it cannot
occur in it.  Digests count as injective (collision resistance)."""
from rules.lib import *
import api
import core

HEX = frozenset('0123456789abcdef')
DIG = frozenset('0123456789')
INT = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'cosmwasm_std::Uint64', 'cosmwasm_std::Uint128', 'cosmwasm_std::Uint256')


def root_types(R):
    """type ids of the inputs of an analysed function"""
    b = R.F.bodies[R.key]
    return {n.lstrip('_'): b['locals'][i + 1] for i, (n, _) in enumerate(api.args_for(R.F, R.key))}


class Inj:
    def __init__(self, C, Fx, roots, invariants=None, answers=None):
        self.loose = False              # take every boundary between pieces as given
        self.answers = answers or {}    # query -> type id of its answer
        self.C = C
        self.F = Fx
        self.memo = {}
        self.roots = roots              # name of an input -> type id
        self.inv = invariants or {}     # type path -> characters that its text never contains

    # ---- types of terms
    def ty(self, t):
        if t.op == 'in':
            p = t.args[0].split('.')
            i = self.roots.get(p[0])
            if i is None:
                return None
            i = self.strip(i)
            k = 1
            while k < len(p) and i is not None:
                d = self.F.ty(i)
                if d['k'] == 'adt' and d['e']:
                    vs = [v for v in d['v'] if v['n'] == p[k]]
                    if not vs or k + 1 >= len(p):
                        return None
                    i = self.pick(vs[0]['f'], p[k + 1])
                    k += 2
                else:
                    i = self.member(i, p[k])
                    k += 1
            return i
        if t.op == 'query':
            i = self.answers.get(t)
            return self.strip(i) if i is not None else None
        if t.op == 'field':
            i = self.ty(t.args[0])
            return self.member(i, t.args[1]) if i is not None else None
        if t.op == 'elem':
            i = self.ty(unalias(t.args[0]))
            if i is None:
                return None
            d = self.F.ty(i)
            if d['k'] in ('array', 'slice'):
                return self.strip(d['t'])
            if d['k'] == 'adt' and d['a'] and d['p'].split('::')[-1] in ('Vec', 'VecDeque'):
                return self.strip(d['a'][0])
            return None
        return None

    def strip(self, i):
        d = self.F.ty(i)
        while d['k'] in ('ref', 'ptr'):
            i = d['t']
            d = self.F.ty(i)
        return i

    def pick(self, fs, n):
        for f in fs:
            if f[0] == n:
                return self.strip(f[1])
        return None

    def member(self, i, n):
        d = self.F.ty(i)
        var = None
        if isinstance(n, str) and '.' in n:
            var, n = n.split('.', 1)
        if d['k'] == 'tuple':
            ts = d.get('a', d.get('ts', ()))
            return self.strip(ts[int(n)]) if n.isdigit() and int(n) < len(ts) else None
        if d['k'] != 'adt':
            return None
        if d['p'].endswith('option::Option') and n in ('0', 'Some'):
            return self.strip(d['a'][0])
        for v in d['v']:
            if var is None or v['n'] == var:
                r = self.pick(v['f'], n)
                if r is not None:
                    return r
        return None

    # ---- texts
    def fixed(self, t):
        """length in bytes, if constant"""
        if t.op == 'strc':
            return len(t.args[0].encode())
        if t.op == 'digest':
            return 32
        if t.op == 'hex':
            n = self.fixed(t.args[0])
            return None if n is None else 2 * n
        if t.op == 'call' and t.args[0].endswith('_be_bytes') or t.op == 'call' and t.args[0].endswith('_le_bytes'):
            return 32
        i = self.ty(t)
        if i is not None:
            d = self.F.ty(i)
            if d['k'] == 'array':
                return d['l'] if d['l'] > 0 else None
        return None

    def lacks(self, t):
        """function: can this character not occur in the text t"""
        if t.op == 'hex':
            return lambda c: c not in HEX
        if t.op == 'digest':
            return lambda c: False
        if t.op == 'strc':
            return lambda c: c not in t.args[0]
        if t.op == 'str' and self.integer(t.args[0]):
            return lambda c: c not in DIG
        for x in (t, t.args[0] if t.op in ('field', 'str') else t):
            if not isinstance(x, core.Term):
                continue
            i = self.ty(x)
            if i is not None:
                p = self.F.ty(i).get('p')
                if p in self.inv:
                    return lambda c: c in self.inv[p]
        return lambda c: False

    def integer(self, t):
        if t.op in ('idxof', 'len') or t in core.W.numeric:
            return True
        i = self.ty(t)
        return i is not None and self.F.ty(i)['s'] in INT

    def pieces(self, t):
        """a text as a concatenation"""
        if t.op == 'fmt' and len(t.args) == 1:
            return [p for x in t.args[0].args[0] for p in self.pieces(x)]
        if t.op == 'concat':
            return [p for x in t.args for p in self.pieces(x)]
        if t.op == 'str':
            d = self.shown(t.args[0])
            if d is not None:
                return [p for x in d for p in self.pieces(x)]
        return [t]

    def shown(self, x):
        """pieces of the text of a value whose Display is defined in this repository"""
        i = self.ty(x)
        if i is None:
            return None
        d = self.F.ty(i)
        if d['k'] != 'adt':
            return None
        if x not in self.memo:
            self.memo[x] = self.shown1(x, d)
        return self.memo[x]

    def shown1(self, x, d):
        crate, name = d['p'].split('::', 1)
        key = '<%s as std::fmt::Display>::fmt' % name
        try:
            R = self.C.body(crate, key)
        except Missing:
            return None
        ws = [e for e in R.effects if e['kind'] == 'write']
        if len(ws) != 1 or ws[0]['loops'] or ws[0]['guard'] != 1:
            return None
        return [core.subst(ws[0]['val'], inp('self'), x)]

    def delimited(self, ps):
        ps = list(ps)
        while ps and not self.loose:
            if self.fixed(ps[0]) is not None:
                ps.pop(0)
            elif len(ps) > 1 and ps[1].op == 'strc' and ps[1].args[0] and self.lacks(ps[0])(ps[1].args[0][0]):
                ps.pop(0)
            elif self.fixed(ps[-1]) is not None:
                ps.pop()
            elif len(ps) > 1 and ps[-2].op == 'strc' and ps[-2].args[0] and self.lacks(ps[-1])(ps[-2].args[0][-1]):
                ps.pop()
            else:
                break
        return self.loose or len(ps) <= 1

    def why(self, ps):
        return ' then '.join(trim(show(p), 80) for p in ps)

    def determined(self, t, out=None, bad=None):
        out = set() if out is None else out
        bad = [] if bad is None else bad
        if t in out:
            return out, bad
        out.add(t)
        go = lambda x: self.determined(x, out, bad)
        if t.op == 'agg':
            for x in t.args[3]:
                go(x)
        elif t.op == 'json' and t.args[-1].op in ('phi', 'list', 'cat', 'comp'):
            self.sequence(t.args[-1], go, out, bad)
        elif t.op in ('hex', 'json', 'conv', 'unchecked', 'addr'):
            go(t.args[-1])
        elif t.op == 'digest':
            ps = [p for x in t.args[1].args[0] for p in self.pieces(x)] if t.args[1].op == 'list' else None
            if ps is None:
                bad.append('the hashed pieces are not understood: ' + trim(show(t.args[1])))
            elif self.delimited(ps):
                for p in ps:
                    go(p)
            else:
                bad.append('the boundary between the hashed pieces is lost: ' + self.why(ps))
        elif t.op == 'fmt' or t.op == 'concat' or (t.op == 'str' and self.shown(t.args[0]) is not None):
            ps = self.pieces(t)
            if ps == [t]:
                bad.append('the text is not understood: ' + trim(show(t)))
            elif self.delimited(ps):
                for p in ps:
                    go(p)
            else:
                bad.append('the boundary between the pieces of text is lost: ' + self.why(ps))
        elif t.op == 'str':
            if self.integer(t.args[0]):
                go(t.args[0])
        elif t.op == 'call' and len(t.args) == 2 and t.args[0] in ('serde_json::to_vec', 'serde_json::to_string', 'bcs::to_bytes', 'try_from'):
            go(t.args[1])
        elif t.op == 'call' and len(t.args) == 2 and (t.args[0].endswith('_be_bytes') or t.args[0].endswith('_le_bytes')):
            go(t.args[1])
        elif t.op == 'field' and t.args[1] in ('Ok.0', '0'):
            # payload of a fallible conversion, or of a one field wrapper
            if t.args[0].op == 'call':
                go(t.args[0])
            i = self.ty(t.args[0])
            if i is not None:
                d = self.F.ty(i)
                if d['k'] == 'adt' and not d['e'] and d['v'] and len(d['v'][0]['f']) == 1:
                    go(t.args[0])
        # a value all of whose fields are determined is determined
        return out, bad

    def segments(self, t):
        if t.op == 'list':
            return [('one', x) for x in t.args[0]]
        if t.op == 'cat':
            return [y for x in t.args[0] for y in self.segments(x)]
        b, g, e = core.iterate(t)
        return [('each', b, g, e)]

    def sequence(self, t, go, out, bad):
        """a serialized list: some number of texts of one kind, then at most one of another kind per alternative"""
        for g, l in core.alts(t):
            segs = self.segments(l)
            each = [x for x in segs if x[0] == 'each' and not (core.unalias(x[1]).op == 'list' and not core.unalias(x[1]).args[0])]
            ones = [x for x in segs if x[0] == 'one']
            if len(each) > 1 or any(x[2] != 1 for x in each):
                bad.append('the list of identifiers is not understood: ' + trim(show(l), 300))
                continue
            if each and ones and not self.apart(each[0][3], [x[1] for x in ones]):
                bad.append('an item of the list can be mistaken for one of another kind: ' + trim(show(l), 300))
                continue
            for x in each:
                sub, sb = self.determined(x[3])
                bad.extend(sb)
                out |= sub
            for x in ones:
                go(x[1])

    def apart(self, e, ones):
        """no text of the form e equals one of the others: it contains a character that they lack"""
        for p in self.pieces(e):
            if p.op == 'strc':
                for c in p.args[0]:
                    if all(self.lacks(o)(c) or (o.op == 'digest' and c not in HEX) for o in ones):
                        return True
        return False

    def covers(self, out, t, depth=0):
        """is t determined, as a whole or field by field"""
        if t in out:
            return True
        if t.op == 'agg':
            return all(self.covers(out, x, depth + 1) for x in t.args[3])
        i = self.ty(t)
        if i is None or depth > 6:
            return False
        d = self.F.ty(i)
        if d['k'] == 'adt' and not d['e'] and d['v'] and d['v'][0]['f']:
            return all(self.covers(out, field(t, f[0]), depth + 1) for f in d['v'][0]['f'])
        if d['k'] == 'tuple':
            ts = d.get('a', d.get('ts', ()))
            return bool(ts) and all(self.covers(out, field(t, str(k)), depth + 1) for k in range(len(ts)))
        return False

    def missing(self, out, t):
        """the fields of t that are not determined"""
        i = self.ty(t)
        d = self.F.ty(i) if i is not None else None
        if d and d['k'] == 'adt' and not d['e'] and d['v']:
            return [f[0] for f in d['v'][0]['f'] if not self.covers(out, field(t, f[0]))] or [trim(show(t), 100)]
        return [trim(show(t), 100)]
