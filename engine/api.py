import time
import core, interp
from core import *

class Run:
    """analysis of one entry point with one message variant"""

def entry_body(F, path):
    b = F.bodies.get(path)
    return b

def args_for(F, key, variant=None):
    b = F.bodies[key]
    out = []
    for i in range(1, b['args'] + 1):
        ty = F.ty(b['locals'][i])
        nm = b['names'].get(str(i), 'arg%d' % i)
        out.append((nm, ty))
    if key.split('::')[-1] in ENTRY and key.split('::')[-2] == 'contract':
        # parameters of an entry point are known by their types, whatever they are called
        out = [(PARAM.get(ty.get('p', ''), 'msg'), ty) for _, ty in out]
        if len({n for n, _ in out}) != len(out):
            raise ValueError('unexpected parameters of ' + key)
    return out


ENTRY = ('instantiate', 'execute', 'query', 'reply', 'migrate', 'sudo')
PARAM = {'cosmwasm_std::Deps': 'deps', 'cosmwasm_std::DepsMut': 'deps', 'cosmwasm_std::Env': 'env',
         'cosmwasm_std::MessageInfo': 'info', 'cosmwasm_std::Reply': 'reply'}

def variants(ty):
    return [v['n'] for v in ty['v']]

def msg_agg(F, ty, v, prefix):
    for x in ty['v']:
        if x['n'] == v:
            names = [f[0] for f in x['f']]
            vals = [mk('in', '%s.%s.%s' % (prefix, v, n)) for n in names]
            return mk('agg', interp.norm_path(ty['p']), v, tuple(names), tuple(vals))

def run_entry(F, key, variant=None, extra=None, watch=()):
    I = interp.Interp(F)
    I.watch = frozenset(watch)
    args = []
    for i, (nm, ty) in enumerate(args_for(F, key)):
        if ty['k'] == 'adt' and ty.get('e') and variant and nm in ('msg', '_msg', 'm') :
            args.append(msg_agg(F, ty, variant, 'msg'))
        else:
            args.append(mk('in', nm.lstrip('_')))
    st = interp.St(1, {}, {})
    v, st2 = I.call_body(key, args, st)
    R = Run()
    R.I = I
    R.F = F
    R.ret = v
    R.st = st2
    R.effects = I.effects
    R.key = key
    R.variant = variant
    if v is None:
        R.okg = 0
        R.okval = mk('bot')
        R.reach = 0
        return R
    R.reach = st2.reach
    import models
    g = 0
    ps = []
    for gg, k, x in models.res_split(v):
        if k == 'Ok':
            g = core.B.or_(g, gg)
            ps.append((gg, x))
    R.okg = core.B.and_(g, st2.reach)
    R.okval = under(phi(ps, R.okg), R.okg) if ps else mk('bot')
    return R

def dump(F, fn, only):
    import pp
    key = [k for k in F.bodies if k == fn or k.endswith('::' + fn)]
    key = [k for k in key if F.bodies[k]['p'].split('::')[0] == F.crate] or key
    key = sorted(key, key=len)[0]
    msgty = None
    for nm, ty in args_for(F, key):
        if ty['k'] == 'adt' and ty.get('e') and nm in ('msg', '_msg'):
            msgty = ty
    vs = variants(msgty) if msgty else [None]
    for v in vs:
        if only and v not in only:
            continue
        core.reset()
        t = time.time()
        R = run_entry(F, key, v)
        P = pp.PP()
        print('=====', key, v, '%.2fs' % (time.time() - t), 'stmts', R.I.nstmts, 'inlined', len(R.I.inlined), 'bdd', len(core.B.var), 'terms', core.W.n)
        print('OK when:', P.g(R.okg))
        print('   value:', P.s(R.okval))
        for e in R.effects:
            if e['kind'] == 'load': continue
            print('  *', e['kind'], e.get('ns'), P.s(e['key']) if e.get('key') is not None else '', '<-', P.s(e['val']) if e.get('val') is not None else None)
            print('       @', e['fn'], e['span'].split('/')[-1], 'loops', [P.s(x) for x in e['loops']])
            print('       if', P.g(e['guard']))
        print('  where:')
        for n, d in P.defs:
            print('     ', n, '=', d[:3000])
        print('  unknown:', R.I.unknown)
        print('  notes:', [n for n in R.I.notes if not isinstance(n, tuple)])
