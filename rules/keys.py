"""types used as storage keys: distinct values have distinct keys"""
from rules.lib import *
from rules.determinism import PKGS
import api
import core

SAME = ('to_be_bytes', 'to_le_bytes', 'to_cw_bytes', 'try_from', 'as_bytes', 'into_bytes', 'to_vec', 'to_string', 'to_owned', 'into', 'from', 'clone',
        'PrimaryKey::key', 'Prefixer::prefix', 'as_ref', 'as_slice', 'to_array', 'joined_key', 'key', 'prefix')


CONST = ('int', 'strc', 'bytes')


def whole(t):
    """(sub-value of self that t determines, number of key elements or None if it is no list of keys), or None"""
    while True:
        if t.op in ('str', 'hex', 'unchecked', 'addr', 'conv', 'json'):
            t = t.args[-1]
        elif t.op == 'agg' and len(t.args[3]) == 1 and t.args[0] not in (RES,):
            t = t.args[3][0]
        elif t.op == 'list' and len(t.args[0]) == 1:
            t = t.args[0][0]
        elif t.op == 'field' and t.args[1] == '0' and len(t.args) > 2 and t.args[2] in ('Ok', 'Some'):
            t = t.args[0]
        elif t.op == 'call' and len(t.args) == 2 and any(t.args[0] == s or t.args[0].endswith('::' + s) for s in SAME):
            t = t.args[1]
        else:
            return t


def elements(t):
    """the key elements of a list of keys, in order; None where unknown"""
    while t.op == 'field' and t.args[1] == '0' and len(t.args) > 2 and t.args[2] in ('Ok', 'Some'):
        t = t.args[0]
    if t.op == 'list':
        return list(t.args[0])
    if t.op in ('cat', 'concat', 'chain', '++'):
        out = []
        for a in (t.args[0] if isinstance(t.args[0], tuple) else t.args):
            e = elements(a)
            if e is None:
                return None
            out += e
        return out
    if t.op == 'call' and (t.args[0].endswith('PrimaryKey::key') or t.args[0].endswith('Prefixer::prefix')):
        return [t]
    return None


def leaves_of(Fx, ty, path=()):
    """paths of the parts of a value of this type"""
    while ty['k'] in ('ref', 'ptr'):
        ty = Fx.ty(ty['t'])
    if ty['k'] == 'adt' and not ty['e'] and ty['p'].split('::')[0] in CRATES + PKGS or ty['k'] == 'adt' and not ty['e'] and ty.get('ws'):
        out = []
        for f in ty['v'][0]['f']:
            out += leaves_of(Fx, Fx.ty(f[1]), path + (f[0],))
        return out or [path]
    return [path]


def path_of(t):
    p = []
    while t.op == 'field':
        p.append(t.args[1])
        t = t.args[0]
    if t.op == 'in':
        q = t.args[0].split('.')
        return tuple(q) + tuple(reversed(p))
    return None


def X08(C):
    n = q = 0
    seen = set()
    for crate in CRATES + PKGS:
        Fx = C.crate(crate)
        for key, b in sorted(Fx.bodies.items()):
            if b['p'] in seen or b.get('cr') not in CRATES + PKGS:
                continue
            m = [x for x in ('cw_storage_plus::PrimaryKey', 'cw_storage_plus::Prefixer') if ' as ' + x in key]
            if not m or not (key.endswith('>::key') or key.endswith('>::prefix')):
                if derivable(key) and not b.get('der') and '__mock' not in key and has_key(Fx, key):
                    seen.add(b['p'])
                    q += equality(C, crate, Fx, key, b)
                continue
            seen.add(b['p'])
            R = C.body(crate, key)
            R.name = short(key)
            ty = Fx.ty(b['locals'][1])
            while ty['k'] in ('ref', 'ptr'):
                ty = Fx.ty(ty['t'])
            site = '%s as %s' % (short(ty.get('p', ty.get('s'))), short(m[0]))
            n += 1
            C.check(not R.effs, 'pure', site, 'the key depends on more than the value')
            if ty['k'] == 'adt' and ty['e']:
                tags(C, Fx, R, ty, site)
                continue
            need = set(leaves_of(Fx, ty))
            for g, v in split(R.ret, 1):
                if close(g) == 0:
                    continue
                es = elements(v)
                if not C.check(es is not None, 'key', site, 'the parts of the key cannot be told: ' + trim(show(v), 300)):
                    continue
                got = set()
                for e in es:
                    p = path_of(whole(e))
                    if p is not None:
                        got.add(p[1:])
                miss = [x for x in need if not any(x[:len(k)] == k for k in got)]
                C.check(not miss, 'key', site, 'different values have the same key: %s is not part of %s' % (', '.join('.'.join(x) or 'the value' for x in sorted(miss)), trim(show(v), 300)))
    C.floor('key types', n, 5)
    C.floor('types compared in their own way', q, 0)


def tags(C, Fx, R, ty, site):
    vs = api_variants(ty)
    plain = all(not v['f'] for v in ty['v'])
    if not C.check(plain, 'key', site, 'the key of a tagged value is not understood'):
        return
    got = {}
    for v in vs:
        for g, x in split(R.ret, 1):
            c = And(g, core.variant(mk('in', 'self'), v, tuple(vs)))
            if close(c) == 0:
                continue
            es = elements(x)
            if not C.check(es is not None and len(es) == 1, 'key', site, 'the parts of the key cannot be told: ' + trim(show(x), 300)):
                return
            for h, t in split(whole(es[0]), c):
                if close(h) == 0:
                    continue
                t = whole(t)
                if t.op == 'discr' and t.args[0].op == 'in':
                    t = mk('tag', v)
                elif not C.check(t.op in CONST, 'key', site, 'the key of a variant is not a constant: ' + trim(show(t), 300)):
                    return
                got.setdefault(v, []).append(t)
    C.check(set(got) == set(vs), 'key', site + ' total', 'there are variants without a key')
    every = [x for l in got.values() for x in set(l)]
    C.check(len(set(every)) == len(every) and all(len(set(l)) == 1 for l in got.values()), 'key', site, 'two variants have the same key')


def api_variants(ty):
    return [v['n'] for v in ty['v']]


def derivable(key):
    i = key.find(' as ')
    return i >= 0 and key[i + 4:].startswith('std::cmp::PartialEq') and key.endswith('::eq') and '<' not in key[i + 4:].replace('PartialEq>', '')


def has_key(Fx, key):
    me = key[1:key.find(' as ')]
    return any(k.startswith('<%s as cw_storage_plus::PrimaryKey' % me) for k in Fx.bodies)


def equality(C, crate, Fx, key, b):
    """a hand-written equality of a type with itself tells apart values that differ"""
    a, o = Fx.ty(b['locals'][1]), Fx.ty(b['locals'][2])
    while a['k'] == 'ref':
        a = Fx.ty(a['t'])
    while o['k'] == 'ref':
        o = Fx.ty(o['t'])
    if a.get('p') != o.get('p') or a['k'] != 'adt' or a['e']:
        return 0
    R = C.body(crate, key)
    names = [n.lstrip('_') for n, _ in api.args_for(Fx, key)]
    me, you = mk('in', names[0]), mk('in', names[1])
    site = '%s equality' % short(a['p'])
    g = close(truth(R.ret))
    for f in a['v'][0]['f']:
        alike = [eq(field(me, f[0]), field(you, f[0]))]
        parts = 1
        for p in leaves_of(Fx, Fx.ty(f[1])):
            x, y = field(me, f[0]), field(you, f[0])
            for k in p:
                x, y = field(x, k), field(y, k)
            parts = And(parts, eq(x, y))
        alike.append(parts)
        C.check(any(core.B.implies(g, x) for x in alike), 'equal', site, 'values that differ in %s count as equal' % f[0])
    return 1
