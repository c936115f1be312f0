"""values of checked types: every construction establishes what the type promises"""
from rules.lib import *
from rules.inject import Inj, root_types
import api


STD = 'axelar_wasm_std::'


def bare(t):
    while t.op == 'field' and t.args[1] == '0' or t.op == 'agg' and len(t.args[3]) == 1:
        t = t.args[0] if t.op == 'field' else t.args[3][0]
    return t


def cond(g, test):
    """g decides, through one of its comparisons, what test asks of (kind, args, truth)"""
    for a in atoms_of(g):
        v = core.W.var_of[a]
        for truth, h in ((True, v), (False, Not(v))):
            if core.B.implies(g, h) and test(a, truth):
                return True
    return False


def positive(g, v):
    x = bare(v)

    def test(a, truth):
        if a.op == 'eq':
            return not truth and any(is_zero(p) and bare(q) is x for p, q in (a.args, a.args[::-1]))
        if a.op == 'lt':
            p, q = a.args
            return truth and bare(q) is x or not truth and bare(p) is x and q.op == 'int' and q.args[0] >= 1
        return False
    return x.op == 'int' and x.args[0] > 0 or cond(g, test)


def is_zero(t):
    t = bare(t)
    return t.op == 'int' and t.args[0] == 0


def filled(g, v):
    x = bare(v)
    if x.op == 'strc' and x.args[0]:
        return True

    def test(a, truth):
        return a.op == 'empty' and not truth and bare(a.args[0]) is x or matched(a, truth, x, lambda cs, least: least > 0)
    return cond(g, test) or x.op == 'call' and 'case' in x.args[0] and filled(g, x.args[-1])


def matched(a, truth, x, pred):
    """a says that x matches a pattern whose (characters, least length) satisfy pred"""
    if not (truth and a.op in ('true', 'is_match') or a.op == 'call'):
        pass
    t = a.args[0] if a.op == 'true' else a
    if not (truth and t.op == 'call' and str(t.args[0]).endswith('Regex::is_match') and bare(t.args[-1]) is x):
        return False
    pats = [y.args[0] for y in subterms(t.args[1]) if isinstance(y, Term) and y.op == 'strc']
    return len(pats) == 1 and (lambda r: r is not None and pred(*r))(language(pats[0]))


def language(pat):
    """(characters that a matching text can contain, least length) of an anchored pattern, or None"""
    import re
    try:
        import re._parser as sre
    except ImportError:
        import sre_parse as sre
    if not (pat.startswith('^') and pat.endswith('$')) or '|' in pat or '(?' in pat:
        return None
    try:
        p = sre.parse(pat)
        # every character a text can contain matches one of the parts: try each of them alone
        least = p.getwidth()[0]
        single = re.compile('[' + ''.join(chars(p)) + ']')
    except Exception:
        return None
    return single, least


def chars(p):
    out = []
    for op, av in p:
        n = str(op)
        if n == 'LITERAL':
            out.append('\\x%02x' % av if av < 128 else chr(av))
        elif n == 'IN':
            for o, w in av:
                m = str(o)
                if m == 'LITERAL':
                    out.append('\\x%02x' % w)
                elif m == 'RANGE':
                    out.append('\\x%02x-\\x%02x' % w)
                elif m == 'CATEGORY':
                    out.append({'CATEGORY_DIGIT': '\\d', 'CATEGORY_WORD': '\\w'}[str(w)])
                else:
                    raise ValueError(m)
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
            out += chars(av[2])
        elif n == 'SUBPATTERN':
            out += chars(av[3])
        elif n == 'AT':
            pass
        else:
            raise ValueError(n)
    return out


def no_colon(g, v):
    x = bare(v)
    if x.op == 'strc':
        return ':' not in x.args[0]

    def test(a, truth):
        t = a.args[0] if a.op == 'true' else a
        if t.op == 'call' and str(t.args[0]).endswith('str::contains') and not truth and bare(t.args[1]) is x:
            return is_colon(t.args[2])
        if a.op == 'is' and a.args[1] in ('Some', 'None') and t.args[0].op == 'call':
            f = t.args[0]
            return f.args[0].endswith(('str::find', 'str::split_once', 'str::rfind')) and truth == (a.args[1] == 'None') and bare(f.args[1]) is x and is_colon(f.args[2])
        if a.op == 'forall' and truth and bare(a.args[0]) is x:
            p = a.args[1].args[0] if isinstance(a.args[1], Term) else a.args[1]
            return any(core.B.implies(p, Not(eq(core.mk('elem', a.args[0]), c))) for c in (cint(58),))
        return matched(a, truth, x, lambda cs, least: not cs.match(':'))
    return cond(g, test) or x.op == 'call' and 'case' in x.args[0] and no_colon(g, x.args[-1])


def is_colon(t):
    if t.op == 'agg' and len(t.args[3]) == 1:
        t = t.args[3][0]
    return t.op == 'int' and t.args[0] == 58 or t.op in ('strc', 'charc') and t.args[0] == ':'


def lowered(g, v):
    x = bare(v)
    return x.op == 'call' and x.args[0].endswith('to_lowercase') or x.op == 'strc' and x.args[0] == x.args[0].lower()


def at_most_one(g, v):
    num, den = bare(field(v, 'numerator')), bare(field(v, 'denominator'))

    def test(a, truth):
        if a.op != 'lt':
            return False
        p, q = bare(a.args[0]), bare(a.args[1])
        return truth and p is num and q is den or not truth and p is den and q is num
    return cond(g, test)


def majority(g, v):
    num, den = bare(field(v, 'numerator')), bare(field(v, 'denominator'))

    def twice(t):
        return t.op == 'mul' and sorted(y.id for y in map(bare, t.args)) == sorted([num.id, cint(2).id]) or \
            t.op == 'add' and all(bare(y) is num for y in t.args)

    def half(t):
        return t.op == 'div' and bare(t.args[0]) is den and bare(t.args[1]) is cint(2)

    def test(a, truth):
        if a.op != 'lt' or not truth:
            return False
        p, q = bare(a.args[0]), bare(a.args[1])
        return half(p) and q is num or p is den and twice(q)
    return cond(g, test)


TYPES = {
    STD + 'nonempty::uint::Uint64': [('zero', positive)],
    STD + 'nonempty::uint::Uint128': [('zero', positive)],
    STD + 'nonempty::uint::Uint256': [('zero', positive)],
    STD + 'nonempty::timestamp::Timestamp': [('zero', positive)],
    STD + 'nonempty::string::String': [('empty', filled)],
    STD + 'nonempty::vec::Vec': [('empty', filled)],
    STD + 'threshold::Threshold': [('above one', at_most_one)],
    STD + 'threshold::MajorityThreshold': [('at most one half', majority)],
    'connection_router::state::ChainName': [('empty', filled), ('containing the separator', no_colon), ('not in lower case', lowered)],
    'connection_router_api::primitives::ChainName': [('empty', filled), ('containing the separator', no_colon)],
}
# a value taken over whole from another checked value
STRONGER = {STD + 'threshold::Threshold': (STD + 'threshold::MajorityThreshold',),
            STD + 'threshold::MajorityThreshold': ()}


def X04(C):
    n = 0
    for crate in ('axelar_wasm_std', 'connection_router', 'connection_router_api'):
        Fx = C.crate(crate)
        mine = {p for p in TYPES if p.startswith(crate + '::')}
        defs = {t['p']: t for t in Fx.types if t and t.get('k') == 'adt' and t.get('p') in mine}
        for p in sorted(mine):
            if C.check(p in defs, 'type', p, 'the type is gone'):
                for f in defs[p]['v'][0]['f']:
                    C.check(not f[2], 'private', p, 'the content of the type can be set from outside its module, around its check')
        done = set()
        for key, b in sorted(Fx.bodies.items()):
            if b.get('cr') != crate:
                continue
            for site, what in writes_into(Fx, b, mine):
                C.check(False, 'frozen', short(key), 'a checked value is %s after it was checked' % what, site)
            if not builds(Fx, b, TYPES):
                continue
            done.add(b['p'])
            if b.get('tr') == 'cosmwasm_std::Fraction' and b.get('nm') == 'inv':
                continue        # an intermediate of cosmwasm's division; see the call check below
            R = C.body(crate, key, TYPES)
            inj = Inj(C, Fx, root_types(R))
            ret = Fx.ty(b['locals'][0])
            okg = R.okg if (ret or {}).get('p', '').endswith('Result') else R.reach
            for t, g in R.I.built:
                g = close(And(g, okg))
                if g == 0 or taken_over(inj, Fx, t, g):
                    n += 1
                    continue
                for what, inv in TYPES[t.args[0]]:
                    n += 1
                    ok = all(inv(c, x) for c, x in cases(t, g))
                    C.check(ok, 'checked', '%s %s' % (crate, short(key)), 'a %s that is %s can come to exist: %s when %s' % (t.args[0].split('::')[-1], what, show(t), trim(showb(g), 400)), b.get('span', ''))
        for gf in Fx.generic:
            for x in gf['built']:
                if x.rsplit('::', 1)[0] in TYPES and gf['p'] not in done:
                    if gf.get('tr') == 'std::clone::Clone' and all(c[0] == 'std::clone::Clone::clone' for c in gf['calls']):
                        continue
                    n += 1
                    C.check(False, 'checked', '%s %s' % (crate, short(gf['p'])), 'a %s is made without going through its check' % x.rsplit('::', 1)[0].split('::')[-1])
    for crate in CRATES + ['axelar_wasm_std', 'connection_router_api', 'gateway_api']:
        Fx = C.crate(crate)
        for key, b in Fx.bodies.items():
            for bl in b.get('blocks') or ():
                f = ((bl or {}).get('t') or {}).get('f') if ((bl or {}).get('t') or {}).get('t') == 'call' else None
                if f and f.get('tr') == 'cosmwasm_std::Fraction' and f.get('m') == 'inv':
                    C.check(False, 'inverse', '%s %s' % (crate, short(key)), 'the unchecked inverse of a threshold is used')
    C.floor('constructions of checked values', n, 20)


def cases(t, g):
    """the alternatives of the fields of t under g"""
    out = [(g, ())]
    for v in t.args[3]:
        out = [(And(c, h), vs + (x,)) for c, vs in out for h, x in split(under(v, c), c) if And(c, h) != 0]
    for c, vs in out:
        yield close(c), core.mk('agg', t.args[0], t.args[1], t.args[2], vs)


def taken_over(inj, Fx, t, g):
    """every field is that of one existing checked value of the same or a stronger type"""
    owners = set()
    for n, v in zip(t.args[2], t.args[3]):
        v = under(v, g)
        if not (v.op == 'field' and v.args[1] == n):
            return False
        owners.add(v.args[0])
    if len(owners) != 1:
        return False
    o = owners.pop()
    i = inj.ty(o)
    p = Fx.ty(inj.strip(i))['p'] if i is not None and Fx.ty(inj.strip(i))['k'] == 'adt' else None
    return p == t.args[0] or p in STRONGER.get(t.args[0], ())


def writes_into(Fx, b, mine):
    """places inside a checked value that are assigned or borrowed for writing"""
    def target(pl):
        d = Fx.ty(b['locals'][pl[0]])
        while d and d['k'] == 'ref':
            d = Fx.ty(d['t'])
        return len(pl) > 1 and d and d.get('p') in mine and any(isinstance(x, list) and x[0] == 'f' for x in pl[1:])
    for bl in b.get('blocks') or ():
        for s in (bl or {}).get('s') or ():
            if s.get('d') and target(s['d']):
                yield s.get('l', ''), 'changed'
            v = s.get('v')
            if isinstance(v, dict) and v.get('r') == 'ref' and v.get('m') and target(v['pl']):
                yield s.get('l', ''), 'borrowed for writing'


def builds(Fx, b, types):
    for bl in b.get('blocks') or ():
        for s in (bl or {}).get('s') or ():
            v = s.get('v')
            if isinstance(v, dict) and v.get('r') == 'agg' and v.get('k') == 'adt':
                p = (Fx.ty(v['ty']) or {}).get('p')
                if p in types:
                    return True
    return False
