"""Transfer functions for library calls (std, cosmwasm-std, cw-storage-plus, error-stack, itertools)."""
import ast
import core
from core import *   # noqa
from interp import (norm_d, norm_path, untuple, index, mapget, haskey, merge_states, Loop, havoc_value,
                    diff_paths, loopout, St, only_elem, elem_out, first_of)


def B():
    return core.B


# calls that return (a copy of / a view on) their first argument
IDENT = set('''
std::clone::Clone::clone std::borrow::ToOwned::to_owned std::convert::AsRef::as_ref std::borrow::Borrow::borrow
std::ops::Deref::deref std::string::String::as_str std::string::String::as_bytes std::string::String::into_bytes
std::str::as_bytes std::vec::Vec::as_slice std::slice::to_vec std::boxed::Box::new std::slice::iter std::iter::IntoIterator::into_iter
std::iter::Iterator::cloned std::iter::Iterator::copied std::vec::Vec::into_iter std::iter::Iterator::by_ref
cosmwasm_std::Addr::as_str cosmwasm_std::Addr::into_string cosmwasm_std::HexBinary::as_slice cosmwasm_std::Binary::as_slice
cosmwasm_std::Addr::as_bytes std::slice::as_ref std::string::String::into_boxed_str std::string::String::from_utf8_lossy
cosmwasm_std::Uint64::u64 cosmwasm_std::Uint64::new cosmwasm_std::Uint128::u128 cosmwasm_std::Uint128::new cosmwasm_std::Uint256::from_u128
cosmwasm_std::Timestamp::from_nanos cosmwasm_std::Timestamp::nanos
cosmwasm_std::DepsMut::as_ref cosmwasm_std::DepsMut::branch cosmwasm_std::Deps::as_ref
std::boxed::box_assume_init_into_vec_unsafe std::slice::into_vec std::iter::Iterator::peekable std::iter::Iterator::fuse
std::option::Option::as_deref std::hint::must_use std::hint::black_box
std::collections::HashSet::iter std::collections::BTreeSet::iter std::collections::HashMap::iter std::collections::BTreeMap::iter
std::collections::HashMap::into_iter std::vec::Vec::into_boxed_slice std::vec::Vec::from std::slice::iter_mut_
k256::elliptic_curve::generic_array::GenericArray::as_slice itertools::Itertools::collect_vec std::vec::Vec::drain
std::string::ToString::to_string std::iter::Iterator::into_iter std::string::String::chars std::str::chars std::str::to_string
std::borrow::Cow::into_owned std::convert::identity cosmwasm_std::HexBinary::to_vec cosmwasm_std::Binary::to_vec
flagset::FlagSet::from std::iter::Iterator::inspect_ std::rc::Rc::new std::sync::Arc::new
cosmwasm_std::to_vec_ std::str::as_ref std::str::to_owned cosmwasm_std::Uint64::to_be_bytes_
'''.split())

FROM_IDENT_DST = ('std::string::String', 'cosmwasm_std::Uint64', 'cosmwasm_std::Uint128', 'cosmwasm_std::Uint256',
                  'cosmwasm_std::HexBinary', 'cosmwasm_std::Binary', 'std::vec::Vec', 'u64', 'u128', 'u32', 'u16', 'usize',
                  'cosmwasm_std::CosmosMsg', 'std::boxed::Box', 'cosmwasm_std::QueryRequest', 'flagset::FlagSet')

CMP = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}

ARITH = {
    'std::ops::Add::add': 'add', 'std::ops::Sub::sub': 'sub', 'std::ops::Mul::mul': 'mul', 'std::ops::Div::div': 'div',
    'std::ops::Rem::rem': 'rem', 'std::ops::BitOr::bitor': 'bitor', 'std::ops::BitAnd::bitand': 'bitand',
    'std::ops::BitXor::bitxor': 'bitxor',
}
ARITH_ASSIGN = {
    'std::ops::AddAssign::add_assign': 'add', 'std::ops::SubAssign::sub_assign': 'sub',
    'std::ops::MulAssign::mul_assign': 'mul', 'std::ops::DivAssign::div_assign': 'div',
    'std::ops::BitOrAssign::bitor_assign': 'bitor', 'std::ops::BitAndAssign::bitand_assign': 'bitand',
}


def ident_atom(*a):
    return core.W.atom(mk(*a))


def rd(I, a, st):
    return I.readref(a, st) if (a.op == 'ref' or a.op == 'phi') else a


def display(I, f, v):
    """the text shown for a value"""
    base = I.facts.ty(f['a'][-1]) if f['a'] else {'s': '?', 'k': '?'}
    while base['k'] == 'ref':
        base = I.facts.ty(base['t'])
    if base['s'] in ('str', 'std::string::String', 'cosmwasm_std::Addr', 'cosmwasm_std::HexBinary') or base['s'].startswith('std::fmt::Arguments'):
        return v
    if v.op == 'int':
        return cstr(chr(v.args[0]) if base['s'] == 'char' else str(v.args[0]))
    if base['s'] in NUMERIC or base['k'] in ('uint', 'int'):
        core.W.numeric.add(v)
    return mk('str', v)


NUMERIC = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'cosmwasm_std::Uint64', 'cosmwasm_std::Uint128', 'cosmwasm_std::Uint256')


def try_model(I, fr, f, args, aty, dty, st):
    d = norm_d(f['d'])
    m = f['m']
    tr = norm_path(f.get('tr') or '')
    r = norm_d(f['r']) if f.get('r') else ''
    ws = bool(f.get('n')) and f.get('cr') not in ('core', 'alloc', 'std')
    dt = I.facts.ty(dty) if dty is not None else None

    # ---- derived / library trait impls
    if tr == 'std::cmp::PartialOrd' and m in CMP and f.get('n') in I.facts.bodies and f['n'].startswith('std::cmp::PartialOrd::') \
            and own_order(I, f):
        return NotImplemented               # provided method over a partial_cmp of this workspace
    if tr in ('std::cmp::PartialEq', 'std::cmp::PartialOrd') and m in CMP:
        if ws and not f.get('der'):
            return NotImplemented
        if f.get('n') in I.facts.bodies and '&' in (f.get('r') or '').split(' as ')[0] and (I.facts.ty(f['a'][0])['k'] == 'ref') and own_order(I, f):
            return NotImplemented           # reference forwarding: look through
        return core_b(compare_(m, rd(I, args[0], st), rd(I, args[1], st))), st
    if tr == 'std::cmp::PartialOrd' and m == 'partial_cmp' and not (ws and not f.get('der')):
        return some(mk('cmp', rd(I, args[0], st), rd(I, args[1], st))), st
    if tr == 'std::cmp::Ord' and m == 'cmp' and not (ws and not f.get('der')):
        return mk('cmp', rd(I, args[0], st), rd(I, args[1], st)), st
    if tr == 'std::cmp::Ord' and m in ('max', 'min'):
        return arith(m, args[0], args[1]), st
    if d in ('std::cmp::max', 'std::cmp::min'):
        return arith(m, args[0], args[1]), st
    if tr == 'std::clone::Clone' and m == 'clone' and (not ws or f.get('der') or f.get('cloneshim')):
        return rd(I, args[0], st), st
    if tr == 'std::default::Default' and m == 'default' and not ws:
        return default_value(dt), st
    if tr == 'std::string::ToString' and m == 'to_string':
        return display(I, f, rd(I, args[0], st)), st
    if d in IDENT and not ws:
        return rd(I, args[0], st), st
    if d == 'std::ops::DerefMut::deref_mut' and not ws:
        return args[0], st
    if d == 'std::convert::AsMut::as_mut' and not ws:
        return args[0], st
    if d == 'cosmwasm_std::DepsMut::branch':
        return args[0], st
    if tr in ('std::convert::From', 'std::convert::Into') and m in ('from', 'into') and not f.get('n'):
        if dt is None and len(f['a']) == 2:
            dt = I.facts.ty(f['a'][0 if m == 'from' else 1])
        dp = norm_path(dt['p']) if dt and dt['k'] == 'adt' else (dt['s'] if dt else '')
        if dp in FROM_IDENT_DST or (dt and dt['k'] == 'array'):
            return rd(I, args[0], st), st
        if dp == 'cosmwasm_std::Attribute' or (dt and dt['k'] == 'tuple'):
            return args[0], st
        if f['a'] and len(f['a']) >= 1 and all(x == f['a'][0] for x in f['a']) and len(f['a']) > 1:
            return args[0], st
        if 'ContractError' in dp or 'Report' in dp or 'Error' in dp:
            return mk('err', dp, *[x for x in args]), st
        return mk('conv', dp, rd(I, args[0], st)), st
    if tr == 'std::convert::From' and m == 'from' and dt and dt['k'] == 'adt' and \
            dt['p'] == 'axelar_wasm_std::error::ContractError' or (dt and dt['k'] == 'adt' and dt['p'] == 'axelar_wasm_std::ContractError' and m == 'from'):
        return mk('err', 'ContractError', *args), st
    if m == 'into_report' or d.endswith('ContextReporter::report') or d.endswith('Report::change_context') or d.endswith('Report::new'):
        return mk('err', 'Report', *[a for a in args[-1:]]), st
    if d.endswith('::ContextTag::__kind'):
        return mk('zst', 'tag'), st
    if d in ('std::ops::Add::add', 'std::ops::AddAssign::add_assign') and f['a'] and I.facts.ty(f['a'][0])['s'] == 'std::string::String':
        if d == 'std::ops::Add::add':
            return text(rd(I, args[0], st), rd(I, args[1], st)), st
        return m_push_str(I, f, args, dt, st)
    if d in ARITH and not ws:
        return arith(ARITH[d], rd(I, args[0], st), rd(I, args[1], st)), st
    if d in ARITH_ASSIGN and not ws:
        st = st.copy()
        old = I.readref(args[0], st)
        I.writeref(args[0], arith(ARITH_ASSIGN[d], old, rd(I, args[1], st)), st)
        return unit(), st
    if d == 'std::ops::Not::not' and not ws:
        v = rd(I, args[0], st)
        if v.op == 'b':
            return core_b(B().not_(v.args[0])), st
        return mk('not', v), st

    if tr == 'std::convert::TryInto' and m == 'try_into' and f.get('n') in I.facts.bodies and not ws:
        return NotImplemented               # the blanket impl: look through to TryFrom
    h = TABLE.get(d)
    if h is not None:
        return h(I, f, args, dt, st)
    h = METHODS.get((tr, m)) if tr and not ws else None
    if h is not None:
        return h(I, f, args, dt, st)
    if d.startswith(('std::panicking', 'std::rt::')) or 'unwrap_failed' in d or 'expect_failed' in d or d.endswith('panic_fmt'):
        I.panics += 1
        return None, None
    return NotImplemented


def own_order(I, f):
    a = f['a'][0] if f.get('a') else None
    t = I.facts.ty(a) if a is not None else None
    while t is not None and t['k'] == 'ref':
        t = I.facts.ty(t['t'])
    if t is None or t['k'] != 'adt':
        return False
    return '<%s as std::cmp::PartialOrd>::partial_cmp' % t['s'] in I.facts.bodies


def core_b(x):
    return mk('b', x)


def compare_(m, a, b):
    from interp import compare
    return compare(CMP[m], a, b)


def default_value(dt):
    if dt is None:
        return mk('default', '?')
    s = dt['s']
    if dt['k'] == 'prim':
        if s == 'bool':
            return cbool(0)
        if s == 'str':
            return cstr('')
        return cint(0)
    if dt['k'] == 'adt':
        p = norm_path(dt['p'])
        if p in ('cosmwasm_std::Uint64', 'cosmwasm_std::Uint128', 'cosmwasm_std::Uint256'):
            return cint(0)
        if p == 'std::string::String':
            return cstr('')
        if p in ('std::vec::Vec', 'std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet',
                 'std::collections::BTreeSet'):
            return lst()
        if p == OPT:
            return none()
        if p == 'cosmwasm_std::Response':
            return response()
    return mk('default', s)


# ------------------------------------------------------------------ results

def res_split(t):
    """[(guard, 'Ok'/'Err', payload)]"""
    out = []
    for g, l in alts(t):
        if l.op == 'agg' and l.args[1] in ('Ok', 'Err'):
            out.append((g, l.args[1], l.args[3][0] if l.args[3] else unit()))
        elif l.op == 'bot':
            continue
        else:
            v = variant(l, 'Ok')
            a = B().and_(g, v)
            if a:
                out.append((a, 'Ok', field(l, '0', 'Ok')))
            b = B().and_(g, B().not_(v))
            if b:
                out.append((b, 'Err', field(l, '0', 'Err')))
    return out


def opt_split(t):
    out = []
    for g, l in alts(t):
        if l.op == 'agg' and l.args[1] in ('Some', 'None'):
            out.append((g, l.args[1], l.args[3][0] if l.args[3] else None))
        elif l.op == 'bot':
            continue
        else:
            v = variant(l, 'Some')
            a = B().and_(g, v)
            if a:
                out.append((a, 'Some', field(l, '0', 'Some')))
            b = B().and_(g, B().not_(v))
            if b:
                out.append((b, 'None', None))
    return out


def m_change_context(I, f, args, dt, st):
    out = []
    for g, k, v in res_split(args[0]):
        out.append((g, ok(v) if k == 'Ok' else err(mk('err', 'ctx', args[1] if len(args) > 1 else unit()))))
    return phi(out, st.reach), st


def m_attach(I, f, args, dt, st):
    out = []
    for g, k, v in res_split(args[0]):
        out.append((g, ok(v) if k == 'Ok' else err(mk('err', 'attach', v))))
    return phi(out, st.reach), st


# ------------------------------------------------------------------ loops over collections via closures

def iterate_mut(I, c, st):
    """iterate(), where an iter_mut yields a mutable reference to the generic element"""
    if c.op == 'itermut':
        r = c.args[0]
        v = I.readref(r, st)
        b, g, _ = iterate(v)
        if r.op == 'ref':
            return b, g, mk('ref', r.args[0], r.args[1] + (('e',),))
        return b, g, mk('valuesmut', r)
    if c.op == 'zip' and 'itermut' not in (c.args[0].op, c.args[1].op):
        return iterate(c)
    if c.op == 'zip':
        b1, g1, e1 = iterate_mut(I, c.args[0], st)
        b2, g2, e2 = iterate_mut(I, c.args[1], st)
        if b1 is b2 and g1 == g2:
            return b1, g1, tup(e1, e2)
        z = mk('zip', b1 if g1 == 1 else c.args[0], b2 if g2 == 1 else c.args[1])
        # the element that meets the mutable one is the one at its position
        if c.args[0].op == 'itermut' and c.args[1].op != 'itermut':
            x = mk('idx', b2 if g2 == 1 else c.args[1], mk('idxof', b1))
            return z, 1, tup(e1, core.at_position(e2, b2, x, b1) if g2 == 1 else x)
        if c.args[1].op == 'itermut' and c.args[0].op != 'itermut':
            x = mk('idx', b1 if g1 == 1 else c.args[0], mk('idxof', b2))
            return z, 1, tup(core.at_position(e1, b1, x, b2) if g1 == 1 else x, e2)
        return z, 1, tup(e1, e2)
    return iterate(c)


def Bd_and(a, b):
    return core.B.and_(a, b)


def each(I, coll, st, fn, extra_havoc=()):
    """run fn(element, state) -> (value, state) once for the generic element of coll.
    returns (base, guard, value, panic-free-condition, state-after, cont)"""
    Bd = B()
    base, g, e = iterate_mut(I, coll, st)
    if base in I.active() and coll.op not in ('itermut', 'zip'):
        coll = again(coll)
        base, g, e = iterate_mut(I, coll, st)
    R0 = st.reach
    I.eachstack.append(base)
    try:
        return each_(I, base, g, e, coll, st, fn)
    finally:
        I.eachstack.pop()


def each_(I, base, g, e, coll, st, fn):
    Bd = B()
    R0 = st.reach
    # discover what the closure modifies
    havoc = {}
    hstore = set()
    I.nloops += 1
    lid = I.nloops
    for it in range(5):
        s = st.copy()
        for loc, p in havoc.items():
            s.mem[loc] = havoc_value(st.mem[loc], p, ('L', lid, loc))
        for ns in hstore:
            s.store[ns] = (('loop', lid),)
        s.reach = Bd.and_(R0, g)
        ent = dict(s.mem)
        if s.reach == 0:
            return base, g, mk('bot'), 1, st, 0
        I.quiet += 1
        v, s2 = fn(e, s)
        I.quiet -= 1
        if s2 is None:
            break
        ch = False
        for loc, v0 in st.mem.items():
            v1 = s2.mem.get(loc)
            if v1 is not None and v1 is not ent[loc] and not only_elem(v1, ent[loc]):
                p = diff_paths(ent[loc], v1)
                if loc not in havoc:
                    havoc[loc] = p
                    ch = True
                elif not havoc[loc].covers(p):
                    havoc[loc] = havoc[loc].union(p)
                    ch = True
        for ns, vv in s2.store.items():
            if vv != s.store.get(ns, ()) and ns not in hstore:
                hstore.add(ns)
                ch = True
        if not ch:
            break
    s = st.copy()
    lvs = {}
    for loc, p in havoc.items():
        s.mem[loc] = havoc_value(st.mem[loc], p, ('L', lid, loc))
        lvs[loc] = s.mem[loc]
    for ns in hstore:
        s.store[ns] = (('loop', lid),)
    s.reach = Bd.and_(R0, g)
    mark = len(I.effects)
    v, s2 = fn(e, s)
    for ef in I.effects[mark:]:
        ef['loops'] = (base,) + tuple(ef['loops'])
    if s2 is None:
        # the closure never returns normally
        allok = forall(base, Bd.not_(Bd.restrict(g, R0)))
        out = st.copy()
        out.reach = Bd.and_(R0, allok)
        return base, g, mk('bot'), allok, out, 0
    cont = s2.reach
    allok = forall(base, Bd.restrict(Bd.or_(Bd.not_(Bd.and_(R0, g)), cont), R0))
    out = st.copy()
    out.reach = Bd.and_(R0, allok)
    gg = Bd.restrict(cont, R0)
    for loc, lv in lvs.items():
        v1 = s2.mem.get(loc)
        if v1 is not None:
            v1 = under(v1, cont)
            out.mem[loc] = loopout(st.mem[loc], v1, lv, base, Bd.restrict(g, R0), lid, cont)
            core.W.loops[lv] = (st.mem[loc], v1, base)
    for loc, v0 in st.mem.items():
        v1 = s2.mem.get(loc)
        if loc not in lvs and v1 is not None and v1 is not v0 and only_elem(v1, v0):
            out.mem[loc] = elem_out(v1, v0, cont)
    for ns in hstore:
        out.store[ns] = (('loopdone', lid),)
    return base, g, under(v, cont), gg, out, cont


def el_of(c, base):
    b, g, e = iterate(c)
    return e if b is base else rename_base(e, b, base)


def coll_of(I, a, st):
    return rd(I, a, st)


def per_alternative(h):
    """an adaptor over alternatives of at most one element each, one after the other"""
    def w(I, f, args, dt, st):
        c = coll_of(I, args[0], st)
        if c.op != 'phi' or not all(l.op == 'list' and len(l.args[0]) <= 1 for _, l in c.args[0]):
            return h(I, f, args, dt, st)
        vs, ss = [], []
        for g, l in c.args[0]:
            s = st.copy()
            s.reach = B().and_(s.reach, g)
            if s.reach == 0:
                continue
            if not l.args[0]:
                vs.append((g, l))
                ss.append(s)
                continue
            v, s2 = h(I, f, [l] + list(args[1:]), dt, s)
            if v.op == 'comp' and v.args[0] is l and v.args[1] == 1:
                v = lst(v.args[2])
            vs.append((g, v))
            ss.append(s2)
        return phi(vs, st.reach), merge_states(ss)
    return w


@per_alternative
def m_map(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    if v.op == 'bot':
        return lst(), st2
    return comp(base, B().restrict(g, st.reach), v), st2


def m_for_each(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    return unit(), st2


def m_filter(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    p = B().restrict(truth(v), B().and_(st.reach, g))
    return comp(base, B().and_(B().restrict(g, st.reach), p), el_of(c, base)), st2


def m_filter_map(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    return flat_opt(base, B().restrict(g, st.reach), v), st2


def flat_opt(base, g, v):
    """elements v : Option/Result, keep the payload of Some/Ok"""
    gs = 0
    ps = []
    for gg, l in alts(v):
        if l.op == 'agg' and l.args[1] in ('Some', 'Ok'):
            gs = B().or_(gs, gg)
            ps.append((gg, l.args[3][0]))
        elif l.op == 'agg' and l.args[1] in ('None', 'Err'):
            continue
        elif l.op == 'bot':
            continue
        else:
            va = variant(l, 'Some')
            gs = B().or_(gs, B().and_(gg, va))
            ps.append((B().and_(gg, va), field(l, '0', 'Some')))
    return comp(base, B().and_(g, gs), phi(ps) if ps else mk('bot'))


def m_flatten(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, e = iterate(c)
    isopt = False
    for gg, l in alts(e):
        if l.op == 'agg' and l.args[1] in ('Some', 'None', 'Ok', 'Err'):
            isopt = True
    if isopt:
        return flat_opt(base, g, e), st
    return flat(c), st


def flat(c):
    base, g, e = iterate(c)
    if e.op == 'list' and len(e.args[0]) == 1:
        return comp(base, g, e.args[0][0])
    return mk('flat', c)


def m_flat_map(I, f, args, dt, st):
    v, st2 = m_map(I, f, args, dt, st)
    return m_flatten(I, f, [v], dt, st2)


def m_all(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    p = B().restrict(truth(v), B().and_(st.reach, g))
    return core_b(forall(base, B().or_(B().not_(B().restrict(g, st.reach)), p))), st2


def m_any(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    p = B().restrict(truth(v), B().and_(st.reach, g))
    return core_b(B().not_(forall(base, B().not_(B().and_(B().restrict(g, st.reach), p))))), st2


def exists_elem(base, p, val):
    """Option: some element of base satisfying p, as val"""
    ex = B().not_(forall(base, B().not_(p)))
    if ex == 0:
        return none()
    w = pick(base, p)
    v = subst(subst(val, elem(base), w), mk('idxof', base), mk('idxof', base, w))
    return phi([(ex, some(v)), (B().not_(ex), none())])


def m_find(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    p = B().and_(B().restrict(g, st.reach), B().restrict(truth(v), B().and_(st.reach, g)))
    return exists_elem(base, p, el_of(c, base)), st2


def m_find_map(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    fc = flat_opt(base, B().restrict(g, st.reach), v)
    b, p, e = iterate(fc)
    return exists_elem(b, p, e), st2


def m_position(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    p = B().and_(B().restrict(g, st.reach), truth(v))
    return exists_elem(base, p, mk('idxof', base)), st2


def m_collect(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    return collect_to(I, c, dt, st)


def collect_to(I, c, dt, st):
    p = norm_path(dt['p']) if dt and dt['k'] == 'adt' else ''
    if p in (RES, OPT):
        base, g, e = iterate(c)
        inner = I.facts.ty(dt['a'][0])
        good = 0
        ps = []
        es = []
        if p == RES:
            for gg, k, v in res_split(e):
                if k == 'Ok':
                    good = B().or_(good, gg)
                    ps.append((gg, v))
                else:
                    es.append((gg, v))
        else:
            for gg, k, v in opt_split(e):
                if k == 'Some':
                    good = B().or_(good, gg)
                    ps.append((gg, v))
        care = B().and_(st.reach, g)
        good = B().restrict(good, care)
        fa = forall(base, B().or_(B().not_(g), good))
        val = phi(ps, B().and_(care, good)) if ps else mk('bot')
        if val.op == 'bot':
            okv = lst()
        else:
            okv = comp(base, g, val)
        okv = wrap_coll(okv, inner)
        if p == RES:
            bad = err(phi(es) if es else mk('bot'))
            return phi([(fa, ok(okv)), (B().not_(fa), err(mk('errof', base)))], st.reach), st
        return phi([(fa, some(okv)), (B().not_(fa), none())], st.reach), st
    return wrap_coll(c, dt), st


def wrap_coll(c, ty):
    p = norm_path(ty['p']) if ty['k'] == 'adt' else ''
    if p in ('std::collections::HashMap', 'std::collections::BTreeMap'):
        return mk('mapof', c)
    if p in ('std::collections::HashSet', 'std::collections::BTreeSet'):
        return mk('setof', c)
    if p == 'std::string::String':
        return mk('concat', c)
    return c


def m_fold(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    acc0 = args[1]
    return fold(I, c, acc0, args[2], st, None)


def fold(I, c, acc0, fn, st, tryty):
    Bd = B()
    loc = ('acc', I.nloops, len(st.mem))
    st = st.copy()
    st.mem[loc] = acc0

    def step(e, s):
        a = s.mem[loc]
        v, s2 = I.call_value(fn, [a, e], s)
        if s2 is None:
            return None, None
        s2 = s2.copy()
        if tryty is None:
            s2.mem[loc] = v
            return v, s2
        good = 0
        ps = []
        for g, k, x in (res_split(v) if tryty == RES else [(g, 'Ok' if k == 'Some' else 'Err', x) for g, k, x in opt_split(v)]):
            if k == 'Ok':
                good = Bd.or_(good, g)
                ps.append((g, x))
        s2.mem[loc] = phi(ps, Bd.and_(s2.reach, good)) if ps else a
        s2.reach = Bd.and_(s2.reach, good)
        if s2.reach == 0:
            return None, None
        return v, s2
    R0 = st.reach
    base, g, v, gg, st2, cont = each(I, c, st, step)
    out = st2.mem.pop(loc, acc0)
    if tryty is None:
        return out, st2
    good = st2.reach
    fa = Bd.restrict(good, R0)
    s3 = st2.copy()
    s3.reach = R0
    wrapok = ok if tryty == RES else some
    bad = err(mk('errof', base)) if tryty == RES else none()
    return phi([(fa, wrapok(out)), (Bd.not_(fa), bad)], R0), s3


def m_try_fold(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    p = norm_path(dt['p']) if dt['k'] == 'adt' else RES
    return fold(I, c, args[1], args[2], st, p if p in (RES, OPT) else RES)


def m_try_for_each(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    p = norm_path(dt['p']) if dt['k'] == 'adt' else RES
    Bd = B()
    R0 = st.reach

    def step(e, s):
        v, s2 = I.call_value(args[1], [e], s)
        if s2 is None:
            return None, None
        s2 = s2.copy()
        good = variant(v, 'Ok' if p == RES else 'Some')
        s2.reach = Bd.and_(s2.reach, good)
        if s2.reach == 0:
            return None, None
        return v, s2
    base, g, v, gg, st2, cont = each(I, c, st, step)
    fa = Bd.restrict(st2.reach, R0)
    s3 = st2.copy()
    s3.reach = R0
    if p == RES:
        return phi([(fa, ok(unit())), (Bd.not_(fa), err(mk('errof', base)))], R0), s3
    return phi([(fa, some(unit())), (Bd.not_(fa), none())], R0), s3


def m_sum(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    return mk('sum', c), st


def m_count(I, f, args, dt, st):
    return length(coll_of(I, args[0], st)), st


def m_next(I, f, args, dt, st):
    c = I.readref(args[0], st)
    loc = args[0].args[0] if args[0].op == 'ref' else None
    for lp in reversed(I.loops):
        if loc is not None and loc in lp.entry and lp.force is not None:
            return lp.force, st
        if loc is not None and loc in lp.entry:
            b, g, e = iterate_mut(I, c, st)
            if c.op != 'itermut' and b in [l.base for l in I.loops if l is not lp] + I.eachstack:
                b, g, e = iterate(again(c))
            if lp.base is None or lp.base is b:
                lp.base = b
                lp.guard = g
                lp.coll = c
                return mk('nextopt', cint(lp.id), e, g), st
            break
        elif loc is not None and loc[0] != lp.fid:
            continue
        else:
            break
    # not a loop driver: first element
    st = st.copy()
    b, g, e = iterate(c)
    I.writeref(args[0], mk('rest', c), st)
    if g == 1 and e is elem(b):
        em = empty(c)
        first = first_of(c)
        return phi([(B().not_(em), some(first)), (em, none())], st.reach), st
    # first element satisfying a filter: some element of the base satisfying the guard
    return exists_elem(b, g, e), st


def m_sub_result(I, f, args, dt, st):
    r = rd(I, args[0], st)
    g = variant(r, 'Ok', ('Ok', 'Err'))
    return phi([(g, ok(field(r, '0', 'Ok'))), (B().not_(g), err(field(r, '0', 'Err')))]), st


def m_enumerate(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    b, g, e = iterate(c)
    if g == 1:
        return comp(b, 1, tup(mk('idxof', b), e)), st
    return mk('enum', c), st


def m_zip(I, f, args, dt, st):
    a = coll_of(I, args[0], st)
    b = coll_of(I, args[1], st)
    if a.op == 'itermut' or b.op == 'itermut':
        return mk('zip', a, b), st
    for x, y, order in ((a, b, 0), (b, a, 1)):
        if x.op == 'agg' and x.args[0].endswith('RangeFrom'):
            # numbering the elements
            b1, g1, e1 = iterate(y)
            if g1 == 1:
                n = arith('add', mk('idxof', b1), x.args[3][0])
                return comp(b1, 1, tup(*((n, e1) if order == 0 else (e1, n)))), st
    b1, g1, e1 = iterate(a)
    b2, g2, e2 = iterate(b)
    if b1 is b2 and g1 == g2:
        return comp(b1, g1, tup(e1, e2)), st
    return mk('zip', a, b), st


def m_chain(I, f, args, dt, st):
    return cat(coll_of(I, args[0], st), coll_of(I, args[1], st)), st


def m_rev(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    if c.op in ('itermut', 'zip'):
        return mk('rev', c), st
    return core.backwards(c), st


def m_unzip(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    b, g, e = iterate(c)
    n = len(dt['a']) if dt and dt['k'] == 'tuple' else 2
    return tup(*[comp(b, g, field(e, str(i))) for i in range(n)]), st


def m_partition(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    p = B().restrict(truth(v), B().and_(st.reach, g))
    g = B().restrict(g, st.reach)
    e = el_of(c, base)
    return tup(comp(base, B().and_(g, p), e), comp(base, B().and_(g, B().not_(p)), e)), st2


def natural_order(I, t, e, e2, st):
    """the order the element type prescribes, as a list of (direction, key) or an uninterpreted term"""
    while t is not None and t['k'] == 'ref':
        t = I.facts.ty(t['t'])
    if t is not None and t['k'] == 'adt':
        key = '<%s as std::cmp::Ord>::cmp' % t['s']
        b = I.facts.bodies.get(key)
        if b is not None and b.get('der') and not t.get('e') and t.get('v'):
            return mk('asc', tup(*[field(e, fd[0]) for fd in t['v'][0]['f']]))
        if b is not None and not b.get('der'):
            return direction(I.call_body(key, [e, e2], st)[0], e, e2)
    return mk('asc', e)


def direction(t, e, e2):
    if t is not None and t.op == 'agg' and t.args[0] == OPT and t.args[3]:
        t = t.args[3][0]
    if t is not None and t.op == 'call' and t.args[0].endswith('Ordering::reverse'):
        d = direction(t.args[1], e, e2)
        return mk({'asc': 'desc', 'desc': 'asc'}.get(d.op, 'order'), *d.args)
    if t is not None and t.op == 'cmp':
        x, y = t.args
        ex, ey = x, y
        if rename_cmp(x, e, e2) is y:
            return mk('asc', x)
        if rename_cmp(y, e, e2) is x:
            return mk('desc', y)
    if t is not None and t.op == 'phi' and all(l.op == 'agg' and l.args[0].endswith('cmp::Ordering') for _, l in t.args[0]):
        # an ordering decided case by case
        gs = {}
        for g, l in t.args[0]:
            gs[l.args[1]] = B().or_(gs.get(l.args[1], 0), g)
        for v in sorted(B().support(gs.get('Less', 0)) | B().support(gs.get('Greater', 0))):
            a = core.W.atom_of[v]
            if a.op != 'lt':
                continue
            x, y = a.args
            below, above = lt(x, y), B().and_(B().not_(lt(x, y)), B().not_(eq(x, y)))
            for first, second in (('Less', 'Greater'), ('Greater', 'Less')):
                if gs.get(first) == below and gs.get(second) in (above, lt(y, x)):
                    up = first == 'Less'
                    if rename_cmp(x, e, e2) is y:
                        return mk('asc' if up else 'desc', x)
                    if rename_cmp(y, e, e2) is x:
                        return mk('desc' if up else 'asc', y)
    return mk('order', t if t is not None else mk('bot'))


def rename_cmp(x, e, e2):
    b1, b2 = CMPB[0]
    return rename_base(x, b1, b2)


CMPB = [None]


def arrange(I, c, how, fn, st, ty):
    """c in another order: a reordered traversal of its base, tagged with the order"""
    if c.op == 'phi':
        return phi([(g, arrange(I, l, how, fn, st, ty)) for g, l in c.args[0]])
    if c.op in ('setof', 'mapof', 'itermut', 'zip') or (c.op == 'list' and len(c.args[0]) <= 1):
        return c
    b, g, e = iterate(c)
    bc = mk('again', b, 'cmp')
    CMPB[0] = (b, bc)
    e2 = rename_base(e, b, bc)
    I.quiet += 1
    try:
        if how == 'key':
            v, _ = I.call_value(fn, [e], st.copy())
            o = mk('asc', v if v is not None else mk('bot'))
            if v is not None and v.op == 'agg' and v.args[0].endswith('cmp::Reverse'):
                o = mk('desc', v.args[3][0])
        elif how == 'by':
            v, _ = I.call_value(fn, [e, e2], st.copy())
            o = direction(v, e, e2)
        else:
            o = natural_order(I, ty, e, e2, st)
    finally:
        I.quiet -= 1
    b2 = mk('again', b, 'sort', o)
    return comp(b2, subst(g, elem(b), elem(b2)) if g > 1 else g, rename_base(e, b, b2))


def elem_ty(I, f):
    a = f.get('a') or []
    for x in a[:1]:
        t = I.facts.ty(x)
        if t['k'] in ('adt', 'ref', 'tuple', 'prim') and not t['s'].startswith(('std::vec::IntoIter', 'std::iter', 'std::slice::Iter')):
            return t
    return None


def sort_how(m):
    return 'key' if '_by_key' in m or '_by_cached_key' in m else 'by' if m.endswith('_by') else 'nat'


def m_sorted(I, f, args, dt, st):
    how = sort_how(f['m'])
    ty = None
    if how == 'nat' and dt is not None and dt.get('a'):
        ty = I.facts.ty(dt['a'][0])
    return arrange(I, coll_of(I, args[0], st), how, args[1] if len(args) > 1 else None, st, ty), st


def m_sort_inplace(I, f, args, dt, st):
    c = I.readref(args[0], st)
    st = st.copy()
    how = sort_how(f['m'])
    I.writeref(args[0], arrange(I, c, how, args[1] if len(args) > 1 else None, st, elem_ty(I, f) if how == 'nat' else None), st)
    return unit(), st


def m_reverse_inplace(I, f, args, dt, st):
    c = I.readref(args[0], st)
    st = st.copy()
    I.writeref(args[0], mk('rev', c) if c.op in ('itermut', 'zip') else core.backwards(c), st)
    return unit(), st


def m_dedup_inplace(I, f, args, dt, st):
    c = I.readref(args[0], st)
    st = st.copy()
    I.writeref(args[0], mk('dedup', c), st)
    return unit(), st


def m_take_while(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    p = B().restrict(truth(v), B().and_(st.reach, g))
    upto = core.atom('upto', base, p)          # every earlier element passed as well
    return comp(base, B().ands([B().restrict(g, st.reach), p, upto]), el_of(c, base)), st2


def m_map_while(I, f, args, dt, st):
    r, st2 = m_filter_map(I, f, args, dt, st)
    if r.op == 'comp':
        b, g, e = r.args
        return comp(b, B().and_(g, core.atom('upto', b, g)), e), st2
    return r, st2


def m_scan(I, f, args, dt, st):
    """running state next to the element: as a loop that pushes what the closure yields"""
    c = coll_of(I, args[0], st)
    Bd = B()
    loc = ('acc', I.nloops, len(st.mem))
    st = st.copy()
    st.mem[loc] = args[1]
    ref = mk('ref', loc, ())
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[2], [ref, e], s))
    st2 = st2.copy()
    st2.mem.pop(loc, None)
    good = 0
    ps = []
    for g2, k, x in opt_split(v):
        if k == 'Some':
            good = Bd.or_(good, g2)
            ps.append((g2, x))
    R0 = Bd.and_(st.reach, g)
    good = Bd.restrict(good, R0)
    g = Bd.restrict(g, st.reach)
    if good != 1:
        good = Bd.and_(good, core.atom('upto', base, good))
    return comp(base, Bd.and_(g, good), phi(ps) if ps else mk('bot')), st2


def m_minmax(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    em = empty(c)
    return phi([(B().not_(em), some(mk(f['m'], c))), (em, none())], st.reach), st


def m_last(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    if c.op == 'rest':
        c = c.args[0]
    em = empty(c)
    return phi([(B().not_(em), some(mk('last', c))), (em, none())], st.reach), st


def m_first(I, f, args, dt, st):
    c = coll_of(I, args[0], st)
    em = empty(c)
    first = first_of(c)
    return phi([(B().not_(em), some(first)), (em, none())], st.reach), st


def m_takeskip(I, f, args, dt, st):
    return mk(f['m'], coll_of(I, args[0], st), *args[1:]), st


def m_dedup_iter(I, f, args, dt, st):
    return mk(f['m'], coll_of(I, args[0], st)), st


# ------------------------------------------------------------------ Vec / String / slices

def m_vec_new(I, f, args, dt, st):
    return lst(), st


def m_push(I, f, args, dt, st):
    st = st.copy()
    I.writeref(args[0], cat(I.readref(args[0], st), lst(args[1])), st)
    return unit(), st


def m_extend(I, f, args, dt, st):
    st = st.copy()
    x = rd(I, args[1], st)
    if len(f['a']) > 1 and any(is_option(I, i) for i in f['a'][1:]):
        x = opt_coll(x)
    c = I.readref(args[0], st)
    I.writeref(args[0], phi([(g, cat(c, l)) for g, l in x.args[0]]) if x.op == 'phi' else cat(c, x), st)
    return unit(), st


def m_retain(I, f, args, dt, st):
    c = I.readref(args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    p = B().restrict(truth(v), B().and_(st.reach, g))
    st2 = st2.copy()
    I.writeref(args[0], comp(base, B().and_(g, p), el_of(c, base)), st2)
    return unit(), st2


def m_len(I, f, args, dt, st):
    return length(rd(I, args[0], st)), st


def m_is_empty(I, f, args, dt, st):
    return core_b(empty(rd(I, args[0], st))), st


def is_map(I, f):
    a = f.get('a') or []
    t = I.facts.ty(a[0]) if a else None
    return t is not None and t['k'] == 'adt' and t['s'].startswith(('std::collections::', 'alloc::collections::')) and 'Map<' in t['s']


def m_index(I, f, args, dt, st):
    c = rd(I, args[0], st)
    i = args[1]
    if is_map(I, f):
        return mapget(c, rd(I, i, st)), st
    return index(c, i), st


def m_index_mut(I, f, args, dt, st):
    a = args[0]
    if a.op == 'ref':
        return mk('ref', a.args[0], a.args[1] + (('i', args[1]),)), st
    return index(a, args[1]), st


def m_slice_get(I, f, args, dt, st):
    c = rd(I, args[0], st)
    i = args[1]
    inb = lt(i, length(c))
    return phi([(inb, some(index(c, i))), (B().not_(inb), none())], st.reach), st


def m_slice_get_mut(I, f, args, dt, st):
    a, i = args[0], args[1]
    c = rd(I, a, st)
    inb = lt(i, length(c))
    r = mk('ref', a.args[0], a.args[1] + (('i', i),)) if a.op == 'ref' else index(a, i)
    return phi([(inb, some(r)), (B().not_(inb), none())], st.reach), st


def m_contains(I, f, args, dt, st):
    c = rd(I, args[0], st)
    x = rd(I, args[1], st)
    b, g, e = iterate(c)
    if c.op == 'list':
        return core_b(B().ors([eq(y, x) for y in c.args[0]])), st
    return core_b(B().not_(forall(b, B().not_(B().and_(g, eq(e, x)))))), st


def m_iter_mut(I, f, args, dt, st):
    a = args[0]
    if a.op == 'ref':
        return mk('itermut', a), st
    return a, st


def m_concat(I, f, args, dt, st):
    c = rd(I, args[0], st)
    if c.op == 'list':
        return mk('concat', c), st
    return mk('concat', c), st


def m_str_pred(I, f, args, dt, st):
    return mk('call', norm_d(f['d']), *[rd(I, a, st) for a in args]), st


def m_from_elem(I, f, args, dt, st):
    return mk('repeat', args[0], args[1]), st


# ------------------------------------------------------------------ maps

def m_map_get(I, f, args, dt, st):
    mp = rd(I, args[0], st)
    k = rd(I, args[1], st)
    h = haskey(mp, k)
    return phi([(h, some(mapget(mp, k))), (B().not_(h), none())], st.reach), st


def m_map_get_mut(I, f, args, dt, st):
    a = args[0]
    k = rd(I, args[1], st)
    mp = rd(I, a, st)
    h = haskey(mp, k)
    if a.op == 'ref':
        r = mk('ref', a.args[0], a.args[1] + (('k', k),))
    else:
        r = mapget(mp, k)
    return phi([(h, some(r)), (B().not_(h), none())], st.reach), st


def m_contains_key(I, f, args, dt, st):
    return core_b(haskey(rd(I, args[0], st), rd(I, args[1], st))), st


def m_map_insert(I, f, args, dt, st):
    st = st.copy()
    mp = I.readref(args[0], st)
    if len(args) == 2:      # set
        x = args[1]
        h = B().not_(forall_in(mp, x))
        I.writeref(args[0], cat(mp, lst(x)), st)
        return core_b(B().not_(setcontains(mp, x))), st
    h = haskey(mp, args[1])
    old = phi([(h, some(mapget(mp, args[1]))), (B().not_(h), none())], st.reach)
    I.writeref(args[0], mk('put', mp, args[1], args[2]), st)
    return old, st


def forall_in(c, x):
    b, g, e = iterate(c)
    return forall(b, B().not_(B().and_(g, eq(e, x))))


def setcontains(c, x):
    if c.op == 'lv' or c.op == 'cat':
        return atom('in', c, x)
    return B().not_(forall_in(c, x))


def m_map_remove(I, f, args, dt, st):
    st = st.copy()
    mp = I.readref(args[0], st)
    k = rd(I, args[1], st)
    h = haskey(mp, k)
    I.writeref(args[0], mk('del', mp, k), st)
    return phi([(h, some(mapget(mp, k))), (B().not_(h), none())], st.reach), st


def m_keys(I, f, args, dt, st):
    mp = rd(I, args[0], st)
    b, g, e = iterate(mp)
    return comp(b, g, field(e, '0')), st


def m_values(I, f, args, dt, st):
    mp = rd(I, args[0], st)
    b, g, e = iterate(mp)
    return comp(b, g, field(e, '1')), st


def m_entry(I, f, args, dt, st):
    return mk('entry', args[0], rd(I, args[1], st)), st


def m_and_modify(I, f, args, dt, st):
    en = args[0]
    if en.op != 'entry':
        return NotImplemented
    ref, k = en.args
    mp = I.readref(ref, st)
    h = haskey(mp, k)
    # run the closure on a scratch cell
    loc = ('cell', I.nframes, len(st.mem))
    s = st.copy()
    s.mem[loc] = mapget(mp, k)
    v, s2 = I.call_value(args[1], [mk('ref', loc, ())], s)
    if s2 is None:
        return None, None
    s2 = s2.copy()
    nv = s2.mem.pop(loc)
    I.writeref(ref, phi([(h, mk('put', mp, k, nv)), (B().not_(h), mp)], st.reach), s2)
    return en, s2


def m_or_insert(I, f, args, dt, st):
    en = args[0]
    if en.op != 'entry':
        return NotImplemented
    ref, k = en.args
    st = st.copy()
    mp = I.readref(ref, st)
    v = args[1] if len(args) > 1 else None
    if f['m'] == 'or_insert_with':
        v, st = I.call_value(args[1], [], st)
        st = st.copy()
    if v is None:
        v = mk('default', 'entry')
        t = dt
        while t and t['k'] == 'ref':
            t = I.facts.ty(t['t'])
        v = default_value(t)
    # key presence as before the insertion
    base = mp
    outs = []
    for g, l in alts(mp):
        h = haskey(l, k)
        if l.op == 'put' and l.args[1] is k:
            outs.append((g, l))
        else:
            outs.append((B().and_(g, h), l))
            outs.append((B().and_(g, B().not_(h)), mk('put', l, k, v)))
    I.writeref(ref, phi(outs, st.reach), st)
    if ref.op == 'ref':
        return mk('ref', ref.args[0], ref.args[1] + (('k', k),)), st
    return mk('get', mp, k), st


# ------------------------------------------------------------------ mem

def m_replace(I, f, args, dt, st):
    st = st.copy()
    old = I.readref(args[0], st)
    I.writeref(args[0], args[1], st)
    return old, st


def m_take(I, f, args, dt, st):
    st = st.copy()
    old = I.readref(args[0], st)
    I.writeref(args[0], default_value(dt), st)
    return old, st


def m_swap(I, f, args, dt, st):
    st = st.copy()
    a = I.readref(args[0], st)
    b = I.readref(args[1], st)
    I.writeref(args[0], b, st)
    I.writeref(args[1], a, st)
    return unit(), st


# ------------------------------------------------------------------ storage

def m_store_new(kind):
    def h(I, f, args, dt, st):
        ns = args[0]
        name = ns.args[0] if ns.op == 'strc' else show(ns)
        I.stores.add((name, I.facts.bodies[I.stack[-1]]['p'], kind, I.span))
        if kind == 'IndexedMap':
            return mk('store', kind, name, args[1]), st
        return mk('store', kind, name), st
    return h


def m_midx_new(I, f, args, dt, st):
    for x in args:
        if x.op == 'strc':
            I.stores.add((x.args[0], I.facts.bodies[I.stack[-1]]['p'], 'index' if x is args[-1] else 'index-of', I.span))
    return mk('midx', *args), st


def store_of(t):
    if t.op == 'store':
        return t.args[1]
    return show(t)


def version(st, ns):
    v = st.store.get(ns, ())
    return v if v else 0


def load_cell(I, ns, key, st):
    """(has-bdd, value) of the cell, after the writes that reach this point"""
    Bd = B()
    ws = st.store.get(ns, ())
    if not ws:
        return atom('has', mk('cell', ns, key, 0)), mk('load', ns, key, 0)
    # exact forwarding when every pending write is simple
    if all(w[0] == 'w' for w in ws):
        h = atom('has', mk('cell', ns, key, 0))
        v = mk('load', ns, key, 0)
        for w in ws:
            _, g, k, val = w
            g = Bd.restrict(g, st.reach)
            same = Bd.and_(g, eq(k, key))
            if same == 0:
                continue
            if val is None:
                h = Bd.and_(h, Bd.not_(same))
            else:
                h = Bd.or_(h, same)
                v = phi([(same, val), (Bd.not_(same), v)], st.reach)
        return h, v
    tag = ','.join(str(w[1]) if w[0] in ('loop', 'loopdone') else 'w' for w in ws)
    tag = ws[-1][0] + tag
    return atom('has', mk('cell', ns, key, tag)), mk('load', ns, key, tag)


def add_write(st, ns, key, val):
    ws = st.store.get(ns, ())
    st.store[ns] = tuple(ws) + (('w', st.reach, key, val),)


def ioerr(I, ns, key, st):
    return atom('ioerr', mk('cell', ns, key, str(version(st, ns)) if False else 0))


def m_load(I, f, args, dt, st):
    ns = store_of(args[0])
    key = rd(I, args[2], st) if len(args) > 2 else unit()
    h, v = load_cell(I, ns, key, st)
    io = ioerr(I, ns, key, st)
    good = B().and_(h, B().not_(io))
    I.log('load', st, ns=ns, key=key)
    return phi([(good, ok(v)), (B().not_(good), err(mk('err', 'NotFound', mk('cell', ns, key, 0))))], st.reach), st


def m_may_load(I, f, args, dt, st):
    ns = store_of(args[0])
    key = rd(I, args[2], st) if len(args) > 2 else unit()
    h, v = load_cell(I, ns, key, st)
    io = ioerr(I, ns, key, st)
    I.log('load', st, ns=ns, key=key)
    return phi([(B().and_(h, B().not_(io)), ok(some(v))), (B().and_(B().not_(h), B().not_(io)), ok(none())),
                (io, err(mk('err', 'Io', mk('cell', ns, key, 0))))], st.reach), st


def m_has(I, f, args, dt, st):
    ns = store_of(args[0])
    key = rd(I, args[2], st) if len(args) > 2 else unit()
    h, v = load_cell(I, ns, key, st)
    I.log('load', st, ns=ns, key=key, how='has')
    return core_b(h), st


def m_save(I, f, args, dt, st):
    ns = store_of(args[0])
    if len(args) > 3:
        key, val = rd(I, args[2], st), rd(I, args[3], st)
    else:
        key, val = unit(), rd(I, args[2], st)
    st = st.copy()
    I.log('save', st, ns=ns, key=key, val=under(val, st.reach), handle=args[0])
    add_write(st, ns, key, val)
    return ok(unit()), st


def m_remove(I, f, args, dt, st):
    ns = store_of(args[0])
    key = rd(I, args[2], st) if len(args) > 2 else unit()
    st = st.copy()
    I.log('remove', st, ns=ns, key=key, val=None, handle=args[0])
    add_write(st, ns, key, None)
    if args[0].op == 'store' and args[0].args[0] == 'IndexedMap':
        return ok(unit()), st
    if dt and dt['k'] == 'adt' and norm_path(dt['p']) == RES:
        return ok(unit()), st
    return unit(), st


def m_update(I, f, args, dt, st):
    ns = store_of(args[0])
    Bd = B()
    isitem = args[0].op == 'store' and args[0].args[0] == 'Item' or len(args) == 3
    if isitem:
        key, fn = unit(), args[2]
    else:
        key, fn = rd(I, args[2], st), args[3]
    h, v = load_cell(I, ns, key, st)
    io = ioerr(I, ns, key, st)
    I.log('load', st, ns=ns, key=key)
    R0 = st.reach
    s = st.copy()
    if isitem:
        s.reach = Bd.ands([s.reach, h, Bd.not_(io)])
        a = v
    else:
        s.reach = Bd.and_(s.reach, Bd.not_(io))
        a = phi([(h, some(v)), (Bd.not_(h), none())], s.reach)
    fail0 = Bd.and_(R0, Bd.not_(s.reach))
    if s.reach == 0:
        return err(mk('err', 'Io')), st
    res, s2 = I.call_value(fn, [a], s)
    if s2 is None:
        return None, None
    good = 0
    ps = []
    es = []
    for g, k, x in res_split(res):
        if k == 'Ok':
            good = Bd.or_(good, g)
            ps.append((g, x))
        else:
            es.append((g, x))
    s3 = s2.copy()
    s3.reach = Bd.and_(s2.reach, good)
    R1 = Bd.or_(fail0, s2.reach)
    outs = []
    if s3.reach:
        val = phi(ps, s3.reach)
        I.log('save', s3, ns=ns, key=key, val=under(val, s3.reach), handle=args[0])
        add_write(s3, ns, key, val)
        outs.append((s3.reach, ok(val)))
    outs.append((Bd.and_(R1, Bd.not_(s3.reach)), err(mk('err', 'update', *[x for _, x in es][:3]))))
    s3.reach = R1
    return phi(outs, R1), s3


def m_prefix(I, f, args, dt, st):
    return mk('prefix', args[0], rd(I, args[1], st)), st


def m_range(I, f, args, dt, st):
    a = rd(I, args[0], st)
    if a.op == 'prefix':
        base = a.args[0]
        ns = store_of(base)
        pre = a.args[1]
    else:
        ns = store_of(a)
        pre = unit()
    r = mk('range', ns, pre, mk('v', str(st.store.get(ns, ()) != ())), *[x for x in args[2:]])
    I.log('load', st, ns=ns, key=mk('allkeys', pre), val=r)
    return r, st


# ------------------------------------------------------------------ cosmwasm

def response():
    return mk('agg', 'cosmwasm_std::Response', '', ('messages', 'attributes', 'events', 'data'),
              (lst(), lst(), lst(), none()))


def submsg(m, idv=None, reply='Never'):
    return mk('agg', 'cosmwasm_std::SubMsg', '', ('id', 'msg', 'gas_limit', 'reply_on'),
              (idv or cint(0), m, none(), mk('agg', 'cosmwasm_std::ReplyOn', reply, (), ())))


def m_resp_new(I, f, args, dt, st):
    return response(), st


def respset(r, n, v):
    if r.op == 'agg' and n in r.args[2]:
        i = r.args[2].index(n)
        return mk('agg', r.args[0], r.args[1], r.args[2], r.args[3][:i] + (v,) + r.args[3][i + 1:])
    if r.op == 'phi':
        return phi([(g, respset(l, n, v)) for g, l in r.args[0]])
    from interp import setupd
    return setupd(r, n, v)


def m_add_message(I, f, args, dt, st):
    r = args[0]
    return respset(r, 'messages', cat(field(r, 'messages'), lst(submsg(args[1])))), st


def m_add_messages(I, f, args, dt, st):
    r = args[0]
    c = rd(I, args[1], st)
    return respset(r, 'messages', cat(field(r, 'messages'), map_coll(c, submsg))), st


def map_coll(c, fn):
    if c.op == 'list':
        return lst(*[fn(x) for x in c.args[0]])
    if c.op == 'cat':
        return cat(*[map_coll(x, fn) for x in c.args[0]])
    if c.op == 'phi':
        return phi([(g, map_coll(l, fn)) for g, l in c.args[0]])
    if c.op == 'agg' and c.args[0] == OPT:
        return lst(fn(c.args[3][0])) if c.args[1] == 'Some' else lst()
    b, g, e = iterate(c)
    return comp(b, g, fn(e))


def m_add_submessage(I, f, args, dt, st):
    r = args[0]
    return respset(r, 'messages', cat(field(r, 'messages'), lst(args[1]))), st


def m_add_submessages(I, f, args, dt, st):
    r = args[0]
    return respset(r, 'messages', cat(field(r, 'messages'), rd(I, args[1], st))), st


def m_add_event(I, f, args, dt, st):
    r = args[0]
    return respset(r, 'events', cat(field(r, 'events'), lst(args[1]))), st


def m_add_events(I, f, args, dt, st):
    r = args[0]
    return respset(r, 'events', cat(field(r, 'events'), map_coll(rd(I, args[1], st), lambda x: x))), st


def m_set_data(I, f, args, dt, st):
    return respset(args[0], 'data', some(args[1])), st


def m_add_attribute(I, f, args, dt, st):
    r = args[0]
    return respset(r, 'attributes', cat(field(r, 'attributes'), lst(tup(args[1], args[2])))), st


def m_add_attributes(I, f, args, dt, st):
    r = args[0]
    return respset(r, 'attributes', cat(field(r, 'attributes'), rd(I, args[1], st))), st


def m_event_new(I, f, args, dt, st):
    return mk('agg', 'cosmwasm_std::Event', '', ('ty', 'attributes'), (args[0], lst())), st


def m_reply_ctor(kind):
    def h(I, f, args, dt, st):
        return submsg(args[0], args[1], kind), st
    return h


def m_submsg_new(I, f, args, dt, st):
    return submsg(args[0]), st


def m_wasm_execute(I, f, args, dt, st):
    mm = mk('agg', 'cosmwasm_std::WasmMsg', 'Execute', ('contract_addr', 'msg', 'funds'),
            (rd(I, args[0], st), mk('json', rd(I, args[1], st)), rd(I, args[2], st)))
    return ok(mm), st


def tyname(I, i):
    return I.facts.ty(i)['s']


def m_to_binary(I, f, args, dt, st):
    v = rd(I, args[0], st)
    if not I.quiet:
        I.notes.append(('to_binary', tyname(I, f['a'][0])))
    I.log('encode', st, ty=f['a'][0], val=v)
    return ok(mk('json', v)), st


def m_from_binary(I, f, args, dt, st):
    v = rd(I, args[0], st)
    if v.op == 'json':
        return ok(v.args[0]), st
    t = mk('parsed', tyname(I, f['a'][0]), v)
    I.log('decode', st, ty=f['a'][0], val=v)
    a = atom('parses', t)
    return phi([(a, ok(t)), (B().not_(a), err(mk('err', 'Parse', v)))], st.reach), st


def m_query(I, f, args, dt, st):
    req = rd(I, args[1], st)
    rt = tyname(I, [a for a in f['a']][0])
    # type parameter of the call itself is the last one
    rt = tyname(I, f['a'][-1]) if len(f['a']) > 1 else rt
    if dt and dt['k'] == 'adt' and norm_path(dt['p']) == RES:
        rt = tyname(I, dt['a'][0])
    contract, msg = None, None
    w = req
    if w.op == 'agg' and w.args[1] == 'Wasm':
        w = w.args[3][0]
    if w.op == 'agg' and w.args[1] == 'Smart':
        contract = field(w, 'contract_addr', 'Smart')
        msg = field(w, 'msg', 'Smart')
        if msg.op == 'json':
            msg = msg.args[0]
    t = mk('query', rt, contract or mk('none'), msg or req)
    I.log('query', st, rt=rt, rty=dt['a'][0] if dt and dt['k'] == 'adt' and norm_path(dt['p']) == RES else None, contract=contract, msg=msg or req, val=t)
    a = atom('qok', t)
    return phi([(a, ok(t)), (B().not_(a), err(mk('err', 'Query')))], st.reach), st


def m_query_smart(I, f, args, dt, st):
    rt = tyname(I, dt['a'][0]) if dt and dt['k'] == 'adt' else '?'
    t = mk('query', rt, rd(I, args[1], st), rd(I, args[2], st))
    I.log('query', st, rt=rt, rty=dt['a'][0] if dt and dt['k'] == 'adt' else None, contract=rd(I, args[1], st), msg=rd(I, args[2], st), val=t)
    a = atom('qok', t)
    return phi([(a, ok(t)), (B().not_(a), err(mk('err', 'Query')))], st.reach), st


def m_addr_validate(I, f, args, dt, st):
    x = rd(I, args[1], st)
    a = atom('addr_ok', x)
    return phi([(a, ok(mk('addr', x))), (B().not_(a), err(mk('err', 'BadAddr', x)))], st.reach), st


def m_fallible(name):
    """library call returning a Result: Ok(term) or Err"""
    def h(I, f, args, dt, st):
        t = mk('call', name or norm_d(f['d']), *[rd(I, a, st) for a in args])
        a = atom('okcall', t)
        return phi([(a, ok(t)), (B().not_(a), err(mk('err', name or norm_d(f['d']))))], st.reach), st
    return h


def m_checked(op):
    def h(I, f, args, dt, st):
        a, b = rd(I, args[0], st), rd(I, args[1], st)
        t = arith(op, a, b)
        if op == 'sub':
            bad = lt(a, b)
        elif op in ('div', 'rem'):
            bad = eq(b, cint(0))
        else:
            bad = atom('overflow', t)
        if dt and dt['k'] == 'adt' and norm_path(dt['p']) == OPT:
            return phi([(B().not_(bad), some(t)), (bad, none())], st.reach), st
        return phi([(B().not_(bad), ok(t)), (bad, err(mk('err', 'Overflow')))], st.reach), st
    return h


def m_named(name):
    def h(I, f, args, dt, st):
        return mk(name, *[rd(I, a, st) for a in args]), st
    return h


def m_const(v):
    def h(I, f, args, dt, st):
        return cint(v), st
    return h


def m_is_zero(I, f, args, dt, st):
    return core_b(eq(rd(I, args[0], st), cint(0))), st


# ------------------------------------------------------------------ hashing / fmt

def m_hash_new(I, f, args, dt, st):
    return mk('hasher', tyname(I, f['a'][0]) if f['a'] else '?', lst()), st


def m_hash_update(I, f, args, dt, st):
    st = st.copy()
    h = I.readref(args[0], st)
    x = rd(I, args[1], st)
    I.writeref(args[0], hash_add(h, x), st)
    return unit(), st


def hash_add(h, x):
    if h.op == 'hasher':
        return mk('hasher', h.args[0], cat(h.args[1], lst(x)))
    if h.op == 'phi':
        return phi([(g, hash_add(l, x)) for g, l in h.args[0]])
    return mk('hasher', '+', cat(h, lst(x)))


def m_hash_chain(I, f, args, dt, st):
    return hash_add(args[0], rd(I, args[1], st)), st


def m_hash_finalize(I, f, args, dt, st):
    h = rd(I, args[0], st)
    if h.op == 'hasher':
        return mk('digest', h.args[0], h.args[1]), st
    return mk('digest', '?', h), st


def m_hash_digest(I, f, args, dt, st):
    return mk('digest', tyname(I, f['a'][0]) if f['a'] else '?', lst(rd(I, args[0], st))), st


def m_format(I, f, args, dt, st):
    return args[0], st


def template(b):
    """pieces of a compiled format string: literals and None for each plain argument"""
    out, i = [], 0
    while i < len(b):
        n = b[i]
        if n == 0:
            return out if i == len(b) - 1 else None
        if n == 0xc0:
            out.append(None)
            i += 1
        elif n < 0x80:
            out.append(b[i + 1:i + 1 + n].decode('utf8', 'replace'))
            i += 1 + n
        else:
            return None
    return None


def text(*ps):
    """concatenation of texts"""
    out = []
    for p in ps:
        for x in (p.args[0].args[0] if p.op == 'fmt' and len(p.args) == 1 else (p,)):
            if x.op == 'strc' and out and out[-1].op == 'strc':
                out[-1] = cstr(out[-1].args[0] + x.args[0])
            elif not (x.op == 'strc' and x.args[0] == ''):
                out.append(x)
    if len(out) == 1:
        return out[0]
    return mk('fmt', lst(*out)) if out else cstr('')


def char_text(c):
    return cstr(chr(c.args[0])) if c.op == 'int' else mk('str', c)


def m_push_str(I, f, args, dt, st):
    st = st.copy()
    I.writeref(args[0], text(I.readref(args[0], st), rd(I, args[1], st)), st)
    return unit(), st


def m_push_char(I, f, args, dt, st):
    return m_push_str(I, f, [args[0], char_text(args[1])], dt, st)


def m_join(I, f, args, dt, st):
    c, sep = rd(I, args[0], st), rd(I, args[1], st)
    if c.op == 'list':
        out = []
        for i, x in enumerate(c.args[0]):
            out += ([sep] if i else []) + [x]
        return text(*out), st
    return mk('join', c, sep), st


def m_args_new(I, f, args, dt, st):
    """formatted text as a concatenation of literals and displayed values, where the template is understood"""
    tpl = rd(I, args[0], st)
    a = rd(I, args[1], st) if len(args) > 1 else lst()
    ps = None
    if tpl.op == 'constx' and tpl.args[0][:2] in ('b"', "b'"):
        try:
            ps = template(ast.literal_eval(tpl.args[0]))
        except (ValueError, SyntaxError):
            ps = None
    if ps is not None and a.op == 'list' and len(a.args[0]) == sum(p is None for p in ps):
        it = iter(a.args[0])
        out = [next(it) if p is None else cstr(p) for p in ps]
        return text(*out), st
    return mk('fmt', tpl, a), st


def m_args_str(I, f, args, dt, st):
    return args[0], st


def m_arg(I, f, args, dt, st):
    return display(I, f, rd(I, args[0], st)), st


def m_arg_debug(I, f, args, dt, st):
    return mk('debug', rd(I, args[0], st)), st


def m_write_fmt(I, f, args, dt, st):
    I.log('write', st, ns=None, key=None, val=rd(I, args[1], st))
    return ok(unit()), st


def m_display_fmt(I, f, args, dt, st):
    I.log('write', st, ns=None, key=None, val=display(I, f, rd(I, args[0], st)))
    return ok(unit()), st


# ------------------------------------------------------------------ flags

def m_flag_contains(I, f, args, dt, st):
    s, x = rd(I, args[0], st), rd(I, args[1], st)
    return core_b(atom('true', mk('flagcontains', s, x))), st


def m_flag_assign(op):
    def h(I, f, args, dt, st):
        st = st.copy()
        old = I.readref(args[0], st)
        I.writeref(args[0], mk(op, old, rd(I, args[1], st)), st)
        return unit(), st
    return h


def m_saturating_sub(I, f, args, dt, st):
    return mk('satsub', rd(I, args[0], st), rd(I, args[1], st)), st


def m_group_by(I, f, args, dt, st):
    c = rd(I, args[0], st)
    base, g, v, gg, st2, _ = each(I, c, st, lambda e, s: I.call_value(args[1], [e], s))
    return mk('groups', comp(base, g, tup(v, el_of(c, base)))), st2


def m_coin(I, f, args, dt, st):
    return core.agg('cosmwasm_std::Coin', '', ('denom', 'amount'), (rd(I, args[1], st), rd(I, args[0], st))), st


def m_coins(I, f, args, dt, st):
    return lst(m_coin(I, f, args, dt, st)[0]), st


def is_option(I, i):
    d = I.facts.ty(i)
    while d['k'] == 'ref':
        d = I.facts.ty(d['t'])
    return d['k'] == 'adt' and d['p'].endswith('option::Option')


def opt_coll(o):
    """an optional value as a collection"""
    g = variant(o, 'Some', ('None', 'Some'))
    return phi([(g, lst(field(o, '0', 'Some'))), (B().not_(g), lst())])


def m_opt_iter(I, f, args, dt, st):
    return opt_coll(rd(I, args[0], st)), st


def m_groups_iter(I, f, args, dt, st):
    if f['a'] and is_option(I, f['a'][0]):
        return m_opt_iter(I, f, args, dt, st)
    if args[0].op == 'ref' and dt is not None and 'IterMut' in dt.get('s', ''):
        return mk('itermut', args[0]), st
    c = rd(I, args[0], st)
    if c.op == 'groups':
        b, g, e = iterate(c.args[0])
        # a group: its key, and (at least) the generic element with that key
        return mk('comp', b, g, tup(field(e, '0'), mk('group', c.args[0], field(e, '0')))), st
    return c, st


def m_then(I, f, args, dt, st):
    return NotImplemented


def m_new_uninit(I, f, args, dt, st):
    loc = ('box', I.nframes, st_count(I))
    st = st.copy()
    st.mem[loc] = mk('undef', 'box')
    return mk('ref', loc, ()), st


_bx = [0]


def st_count(I):
    _bx[0] += 1
    return _bx[0]


def m_box_into_vec(I, f, args, dt, st):
    v = I.readref(args[0], st)
    # contents may be wrapped in MaybeUninit { value: ManuallyDrop { value: .. } }
    return unwrap_box(v), st


def unwrap_box(v):
    while True:
        if v.op == 'agg' and v.args[0] in ('part',) and len(v.args[3]) == 1:
            v = v.args[3][0]
        elif v.op == 'agg' and v.args[2] in (('value',), ('__0',), ('pointer',)) and len(v.args[3]) == 1:
            v = v.args[3][0]
        elif v.op == 'upd':
            v = v.args[2]
        else:
            return v


IT = 'std::iter::Iterator'
TABLE = {
    # error-stack
    'error_stack::ResultExt::change_context': m_change_context,
    'error_stack::ResultExt::change_context_lazy': m_change_context,
    'error_stack::ResultExt::attach_printable': m_attach,
    'error_stack::ResultExt::attach': m_attach,
    'error_stack::ResultExt::attach_printable_lazy': m_attach,
    'error_stack::IntoReport::into_report': m_attach,
    # iterators
    IT + '::map': m_map, IT + '::filter': m_filter, IT + '::filter_map': m_filter_map, IT + '::flatten': m_flatten,
    IT + '::flat_map': m_flat_map, IT + '::all': m_all, IT + '::any': m_any, IT + '::find': m_find, IT + '::find_map': m_find_map,
    IT + '::position': m_position, IT + '::collect': m_collect, IT + '::fold': m_fold, IT + '::try_fold': m_try_fold,
    IT + '::for_each': m_for_each, IT + '::try_for_each': m_try_for_each, IT + '::sum': m_sum, IT + '::count': m_count,
    IT + '::next': m_next, IT + '::enumerate': m_enumerate, IT + '::zip': m_zip, IT + '::chain': m_chain, IT + '::rev': m_rev,
    IT + '::unzip': m_unzip, IT + '::partition': m_partition, IT + '::max': m_minmax, IT + '::min': m_minmax, IT + '::last': m_last,
    IT + '::take': m_takeskip, IT + '::skip': m_takeskip, IT + '::step_by': m_takeskip, IT + '::inspect': m_rev,
    IT + '::map_while': m_map_while, IT + '::take_while': m_take_while, IT + '::nth': m_fallible('nth'),
    'std::iter::FromIterator::from_iter': m_collect,
    'itertools::Itertools::multiunzip': m_unzip, 'itertools::MultiUnzip::multiunzip': m_unzip,
    'itertools::Itertools::sorted': m_sorted, 'itertools::Itertools::sorted_by': m_sorted,
    'itertools::Itertools::sorted_by_key': m_sorted, 'itertools::Itertools::sorted_unstable': m_sorted,
    'itertools::Itertools::sorted_unstable_by': m_sorted, 'itertools::Itertools::sorted_unstable_by_key': m_sorted,
    'itertools::Itertools::sorted_by_cached_key': m_sorted, IT + '::scan': m_scan,
    'itertools::Itertools::duplicates': m_dedup_iter, 'itertools::Itertools::unique': m_dedup_iter,
    'itertools::Itertools::join': m_named('join'), 'itertools::Itertools::group_by': m_group_by,
    'itertools::Itertools::try_collect': m_collect,
    'std::slice::sort': m_sort_inplace, 'std::slice::sort_by': m_sort_inplace, 'std::slice::sort_by_key': m_sort_inplace, 'std::slice::sort_by_cached_key': m_sort_inplace,
    'std::slice::sort_unstable': m_sort_inplace, 'std::slice::reverse': m_reverse_inplace, 'std::slice::sort_unstable_by_key': m_sort_inplace,
    'std::slice::sort_unstable_by': m_sort_inplace,
    'std::slice::contains': m_contains, 'std::slice::get': m_slice_get, 'std::slice::get_mut': m_slice_get_mut, 'std::slice::len': m_len, 'std::slice::is_empty': m_is_empty,
    'std::slice::first': m_first, 'std::slice::last': m_last, 'std::slice::iter_mut': m_iter_mut, 'std::slice::concat': m_concat,
    'std::slice::join': m_join,
    'std::vec::Vec::new': m_vec_new, 'std::vec::Vec::with_capacity': m_vec_new, 'std::vec::Vec::push': m_push,
    'std::vec::Vec::len': m_len, 'std::vec::Vec::is_empty': m_is_empty, 'std::vec::Vec::retain': m_retain,
    'std::vec::Vec::append': m_extend, 'std::vec::Vec::extend_from_slice': m_extend, 'std::iter::Extend::extend': m_extend,
    'std::vec::Vec::dedup': m_dedup_inplace,
    'std::ops::Index::index': m_index, 'std::ops::IndexMut::index_mut': m_index_mut, 'std::vec::from_elem': m_from_elem,
    'std::boxed::Box::new_uninit': m_new_uninit, 'std::boxed::box_assume_init_into_vec_unsafe': m_box_into_vec,
    'std::string::String::is_empty': m_is_empty, 'std::str::is_empty': m_is_empty, 'std::string::String::len': m_len, 'std::str::len': m_len,
    'std::option::Option::iter': m_opt_iter, 'cosmwasm_std::coin': m_coin, 'cosmwasm_std::coins': m_coins, 'cosmwasm_std::Coin::new': m_coin,
    'std::string::String::push_str': m_push_str, 'std::string::String::push': m_push_char,
    'std::string::String::with_capacity': lambda I, f, a, dt, st: (cstr(''), st),
    'std::string::String::new': lambda I, f, a, dt, st: (cstr(''), st),
    # maps
    'std::collections::HashMap::new': m_vec_new, 'std::collections::BTreeMap::new': m_vec_new,
    'std::collections::HashSet::new': m_vec_new, 'std::collections::BTreeSet::new': m_vec_new,
    'std::collections::HashMap::get': m_map_get, 'std::collections::BTreeMap::get': m_map_get,
    'std::collections::HashMap::get_mut': m_map_get_mut, 'std::collections::BTreeMap::get_mut': m_map_get_mut,
    'std::collections::HashMap::contains_key': m_contains_key, 'std::collections::BTreeMap::contains_key': m_contains_key,
    'std::collections::HashSet::contains': m_contains, 'std::collections::BTreeSet::contains': m_contains,
    'std::collections::HashMap::insert': m_map_insert, 'std::collections::BTreeMap::insert': m_map_insert,
    'std::collections::HashSet::insert': m_map_insert, 'std::collections::BTreeSet::insert': m_map_insert,
    'std::collections::HashMap::remove': m_map_remove, 'std::collections::BTreeMap::remove': m_map_remove,
    'std::collections::HashMap::keys': m_keys, 'std::collections::BTreeMap::keys': m_keys,
    'std::collections::HashMap::into_keys': m_keys, 'std::collections::BTreeMap::into_keys': m_keys,
    'std::collections::HashMap::values': m_values, 'std::collections::BTreeMap::values': m_values,
    'std::collections::HashMap::into_values': m_values, 'std::collections::BTreeMap::into_values': m_values,
    'std::collections::HashMap::len': m_len, 'std::collections::BTreeMap::len': m_len,
    'std::collections::HashSet::len': m_len, 'std::collections::BTreeSet::len': m_len,
    'std::collections::HashMap::is_empty': m_is_empty, 'std::collections::BTreeMap::is_empty': m_is_empty,
    'std::collections::HashMap::entry': m_entry, 'std::collections::BTreeMap::entry': m_entry,
    'std::collections::hash_map::Entry::and_modify': m_and_modify, 'std::collections::btree_map::Entry::and_modify': m_and_modify,
    'std::collections::hash_map::Entry::or_insert': m_or_insert, 'std::collections::btree_map::Entry::or_insert': m_or_insert,
    'std::collections::hash_map::Entry::or_default': m_or_insert, 'std::collections::btree_map::Entry::or_default': m_or_insert,
    'std::collections::hash_map::Entry::or_insert_with': m_or_insert, 'std::collections::btree_map::Entry::or_insert_with': m_or_insert,
    # mem
    'std::mem::replace': m_replace, 'std::mem::take': m_take, 'std::mem::swap': m_swap,
    # storage
    'cw_storage_plus::Item::new': m_store_new('Item'), 'cw_storage_plus::Map::new': m_store_new('Map'),
    'cw_storage_plus::IndexedMap::new': m_store_new('IndexedMap'), 'cw_storage_plus::MultiIndex::new': m_midx_new,
    'cw_storage_plus::UniqueIndex::new': m_midx_new,
    'cw_storage_plus::Item::prefix': m_prefix, 'cw_storage_plus::Map::prefix': m_prefix, 'cw_storage_plus::Map::sub_prefix': m_prefix,
    'cw_storage_plus::MultiIndex::prefix': m_prefix, 'cw_storage_plus::IndexedMap::prefix': m_prefix,
    'cw_storage_plus::Prefix::range': m_range, 'cw_storage_plus::Map::range': m_range, 'cw_storage_plus::IndexedMap::range': m_range,
    'cw_storage_plus::Prefix::keys': m_range, 'cw_storage_plus::Map::keys': m_range,
    # cosmwasm
    'cosmwasm_std::Response::new': m_resp_new, 'cosmwasm_std::Response::add_message': m_add_message,
    'cosmwasm_std::Response::add_messages': m_add_messages, 'cosmwasm_std::Response::add_submessage': m_add_submessage,
    'cosmwasm_std::Response::add_submessages': m_add_submessages, 'cosmwasm_std::Response::add_event': m_add_event,
    'cosmwasm_std::Response::add_events': m_add_events, 'cosmwasm_std::Response::set_data': m_set_data,
    'cosmwasm_std::Response::add_attribute': m_add_attribute, 'cosmwasm_std::Response::add_attributes': m_add_attributes,
    'cosmwasm_std::Event::new': m_event_new, 'cosmwasm_std::Event::add_attribute': m_add_attribute,
    'cosmwasm_std::Event::add_attributes': m_add_attributes,
    'cosmwasm_std::SubMsg::reply_always': m_reply_ctor('Always'), 'cosmwasm_std::SubMsg::reply_on_success': m_reply_ctor('Success'),
    'cosmwasm_std::SubMsg::reply_on_error': m_reply_ctor('Error'), 'cosmwasm_std::SubMsg::new': m_submsg_new,
    'cosmwasm_std::wasm_execute': m_wasm_execute,
    'cosmwasm_std::to_binary': m_to_binary, 'cosmwasm_std::to_json_binary': m_to_binary, 'cosmwasm_std::to_vec': m_to_binary,
    'cosmwasm_std::from_binary': m_from_binary, 'cosmwasm_std::from_json': m_from_binary, 'cosmwasm_std::from_slice': m_from_binary,
    'cosmwasm_std::QuerierWrapper::query': m_query, 'cosmwasm_std::QuerierWrapper::query_wasm_smart': m_query_smart,
    'cosmwasm_std::Api::addr_validate': m_addr_validate,
    'cosmwasm_std::Addr::unchecked': m_named('unchecked'),
    'cosmwasm_std::HexBinary::to_hex': m_named('hex'), 'hex::encode': m_named('hex'), 'hex::ToHex::encode_hex': m_named('hex'),
    'cosmwasm_std::HexBinary::len': m_len, 'cosmwasm_std::HexBinary::is_empty': m_is_empty,
    'cosmwasm_std::Uint64::zero': m_const(0), 'cosmwasm_std::Uint64::one': m_const(1),
    'cosmwasm_std::Uint128::zero': m_const(0), 'cosmwasm_std::Uint128::one': m_const(1),
    'cosmwasm_std::Uint256::zero': m_const(0), 'cosmwasm_std::Uint256::one': m_const(1),
    'cosmwasm_std::Uint64::is_zero': m_is_zero, 'cosmwasm_std::Uint128::is_zero': m_is_zero, 'cosmwasm_std::Uint256::is_zero': m_is_zero,
    'cosmwasm_std::Uint256::mul_ceil': m_named('mul_ceil'), 'cosmwasm_std::Uint256::mul_floor': m_named('mul_floor'),
    'cosmwasm_std::Uint64::full_mul': m_named('mul'), 'cosmwasm_std::Uint128::full_mul': m_named('mul'),
    'cosmwasm_std::Timestamp::plus_days': m_named('plus_days'), 'cosmwasm_std::Timestamp::plus_seconds': m_named('plus_seconds'),
    'cosmwasm_std::Timestamp::seconds': m_named('seconds'),
    'std::num::saturating_sub': m_saturating_sub,
    # fmt
    'std::fmt::format': m_format, 'std::fmt::Arguments::new': m_args_new, 'std::fmt::Arguments::from_str': m_args_str,
    'std::fmt::Arguments::from_str_nonconst': m_args_str, 'std::fmt::rt::Argument::new_display': m_arg,
    'std::fmt::rt::Argument::new_debug': m_arg_debug, 'std::fmt::Formatter::write_fmt': m_write_fmt, 'std::fmt::Formatter::write_str': m_write_fmt,
    # flags
    'flagset::FlagSet::contains': m_flag_contains, 'flagset::FlagSet::new_unchecked': m_named('flags'),
    'flagset::FlagSet::bits': m_rev, 
    # fallible library calls
    'std::string::String::from_utf8': m_fallible('from_utf8'), 'std::str::parse': m_fallible('parse'),
    'cosmwasm_std::SubMsgResult::into_result': m_sub_result,
    'cosmwasm_crypto::secp256k1_verify': m_fallible('secp256k1_verify'), 'cosmwasm_crypto::ed25519_verify': m_fallible('ed25519_verify'),
    'cw_utils::parse_reply_execute_data': m_fallible('parse_reply_execute_data'),
    'cw_utils::parse_reply_instantiate_data': m_fallible('parse_reply_instantiate_data'),
    'serde_json::to_string': m_fallible('serde_json::to_string'), 'serde_json::to_vec': m_fallible('serde_json::to_vec'),
    'bcs::to_bytes': m_fallible('bcs::to_bytes'),
}
for _t in ('Item', 'Map', 'IndexedMap'):
    TABLE['cw_storage_plus::%s::load' % _t] = m_load
    TABLE['cw_storage_plus::%s::may_load' % _t] = m_may_load
    TABLE['cw_storage_plus::%s::save' % _t] = m_save
    TABLE['cw_storage_plus::%s::remove' % _t] = m_remove
    TABLE['cw_storage_plus::%s::update' % _t] = m_update
    TABLE['cw_storage_plus::%s::has' % _t] = m_has
    TABLE['cw_storage_plus::%s::exists' % _t] = m_has
for _t in ('cosmwasm_std::Uint64', 'cosmwasm_std::Uint128', 'cosmwasm_std::Uint256', 'std::num'):
    for _o in ('add', 'sub', 'mul', 'div', 'rem', 'pow'):
        TABLE['%s::checked_%s' % (_t, _o)] = m_checked(_o)
        TABLE['%s::saturating_%s' % (_t, _o)] = m_named('sat' + _o)
        TABLE['%s::wrapping_%s' % (_t, _o)] = m_named('wrap' + _o)
METHODS = {
    ('std::iter::IntoIterator', 'into_iter'): m_groups_iter,
    ('std::convert::TryFrom', 'try_from'): m_fallible('try_from'),
    ('std::convert::TryInto', 'try_into'): m_fallible('try_from'),
    ('std::str::FromStr', 'from_str'): m_fallible('parse'),
    ('sha3::Digest', 'new'): m_hash_new, ('digest::digest::Digest', 'new'): m_hash_new,
    ('sha3::Digest', 'update'): m_hash_update, ('digest::digest::Digest', 'update'): m_hash_update,
    ('sha3::Digest', 'chain_update'): m_hash_chain, ('digest::digest::Digest', 'chain_update'): m_hash_chain,
    ('sha3::Digest', 'finalize'): m_hash_finalize, ('digest::digest::Digest', 'finalize'): m_hash_finalize,
    ('sha3::Digest', 'digest'): m_hash_digest, ('digest::digest::Digest', 'digest'): m_hash_digest,
    ('std::iter::Sum', 'sum'): m_sum, ('std::fmt::Display', 'fmt'): m_display_fmt,
}
IDENT.discard('std::iter::IntoIterator::into_iter')
IDENT.discard('std::boxed::box_assume_init_into_vec_unsafe')
METHODS[('std::cmp::PartialOrd', 'partial_cmp')] = None
METHODS = {k: v for k, v in METHODS.items() if v}
