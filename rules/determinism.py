"""contract code computes from its inputs and its storage alone"""
from rules.lib import *

PKGS = ['axelar_wasm_std', 'connection_router_api', 'gateway_api']
FORBIDDEN = [
    (('std::time::SystemTime', 'std::time::Instant', 'chrono::offset', 'chrono::Utc', 'chrono::Local'), 'reads a clock of its own'),
    (('rand::', 'rand_core::', 'getrandom::', 'fastrand::', 'std::random::', 'std::hash::RandomState', 'std::collections::hash_map::RandomState',
      'std::hash::random::RandomState'), 'draws random numbers'),
    (('std::env::', 'std::fs::', 'std::net::', 'std::io::stdin', 'std::process::', 'std::os::', 'tokio::'), 'reaches outside the contract'),
    (('std::thread::', 'std::sync::atomic', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::Once', 'std::sync::Lazy', 'std::sync::mpsc', 'std::sync::poison', 'once_cell::sync', 'lazy_static::', 'spin::'), 'keeps state outside the storage of the contract'),
]




def X09(C):
    n = 0
    for crate in CRATES + PKGS:
        Fx = C.crate(crate)
        for key, b in sorted(Fx.bodies.items()):
            if 'mock' in key.lower() or b.get('cr') not in (crate,) + tuple(PKGS):
                continue
            n += 1
            site = '%s %s' % (crate, short(key))
            C.functions[b['p']] = 1
            C.check(True, 'examined', site, '')
            for l in b.get('locals') or ():
                if (Fx.ty(l) or {}).get('s', '').lstrip('&') in ('f32', 'f64', 'f16', 'f128'):
                    C.check(False, 'no-float', site, 'computes with floating-point numbers', b.get('span', ''))
                    break
            for bl in b.get('blocks') or ():
                t = (bl or {}).get('t') or {}
                f = t.get('f') if t.get('t') == 'call' else None
                if not isinstance(f, dict):
                    continue
                r = f.get('r') or f.get('d') or ''
                for ps, what in FORBIDDEN:
                    if r.lstrip('<').startswith(ps):
                        C.check(False, 'closed', site, '%s: %s' % (what, r), t.get('l', ''))
        for gf in Fx.generic:
            if 'mock' in gf['p'].lower():
                continue
            for c in gf['calls']:
                for ps, what in FORBIDDEN:
                    if c[0].lstrip('<').startswith(ps):
                        C.check(False, 'closed', '%s %s' % (crate, short(gf['p'])), '%s: %s' % (what, c[0]), '')
    C.floor('functions examined', n, 700)
