#!/usr/bin/env python3
"""check.py <property id>... : decide properties statically on /repo's current working tree"""
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(1000000)
threading.stack_size(512 * 1024 * 1024)

import extract            # noqa: E402
from rules import registry, lib   # noqa: E402


def known_findings():
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            j = json.loads(line)
            if j.get('status') == 'known':
                out[j['key']] = j
    return out


def decide(pid, factsdir, tier):
    t0 = time.time()
    C = lib.Ctx(pid, factsdir)
    fn = registry.RULES[pid]
    try:
        fn(C)
    except lib.Missing as e:
        C.check(False, 'anchor', str(e), 'an anchor of the rule is missing from the analysed tree: %s' % e)
    except Exception:
        tb = traceback.format_exc()
        C.check(False, 'analysis', 'internal', 'the rule could not be evaluated on this tree:\n' + tb)
    known = known_findings()
    shown, bad = [], []
    for key, rule, site, text, loc in C.viol:
        if key in known:
            shown.append((key, rule, site, text, loc))
        else:
            bad.append((key, rule, site, text, loc))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    meta = registry.META[pid]
    stm = {}
    for r, s, okk in C.obl:
        stm[r] = stm.get(r, 0) + 1
    n = len(C.obl)
    stmts = sum(R.I.nstmts for R in C.runs.values())
    cov = {
        'explanation': meta['rule'] + ' -- Every obligation below was evaluated on the MIR of the current tree: control-dependence conditions and value provenance of the listed functions; nothing was executed and no path or input was sampled.',
        'entry_points_analysed': sorted(R.name for R in C.runs.values()),
        'functions_analysed': len(C.functions),
        'functions': sorted(C.functions),
        'mir_statements_interpreted': stmts,
        'storage_effects_seen': sum(len(R.effs) for R in C.runs.values()),
        'obligations': n,
        'obligations_discharged': sum(1 for _, _, okk in C.obl if okk),
        'obligations_by_rule': stm,
        'instances': C.counts,
        'opaque_library_calls': C.unknown,
        'known_findings': [k for k, *_ in shown],
    }
    out = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
           'assumptions': meta.get('assumptions', registry.ASSUMPTIONS), 'wall_s': round(time.time() - t0, 3), 'violations': len(bad)}
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(out, f, indent=1, sort_keys=True)
    rp = os.path.join(ev, pid + '.violation.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    for key, rule, site, text, loc in shown:
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, text.split('\n')[0], key))
    if bad:
        with open(rp, 'w') as f:
            for key, rule, site, text, loc in bad:
                f.write('%s\n  rule: %s\n  construct: %s\n  at: %s\n  %s\n\n' % (key, rule, site, loc or '-', text))
        for key, rule, site, text, loc in bad[:12]:
            print('  [%s] %s: %s %s' % (rule, site, text, ('at ' + loc) if loc else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d functions=%d wall=%.2fs' % (pid, n, len(C.functions), time.time() - t0))
    return 0


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    if ids == ['all']:
        ids = sorted(registry.RULES)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        facts = extract.ensure_facts('--force' in sys.argv)
    except Exception as e:
        # the tree cannot be analysed: nothing is known to hold
        print('analysis failed: %s' % e)
        rc = 1
        ev = os.path.join(HERE, 'evidence')
        os.makedirs(ev, exist_ok=True)
        for pid in ids:
            rp = os.path.join(ev, pid + '.violation.txt')
            with open(rp, 'w') as f:
                f.write('the working tree could not be analysed:\n%s\n' % e)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    rc = 0
    for pid in ids:
        if decide(pid, facts, tier):
            rc = 1
    return rc


RC = [1]


def runner():
    try:
        RC[0] = main()
    except BaseException:
        traceback.print_exc()
        RC[0] = 1


if __name__ == '__main__':
    t = threading.Thread(target=runner)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC[0])
