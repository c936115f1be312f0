#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from rules/meta.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'engine'))
from rules import meta, registry

TECH = 'static analysis: guarded value-flow over MIR'
NOTE = ('Sound up to the stated models: the rule holds for all inputs, stored states and callers because it is an implication between '
        'control-dependence conditions with uninterpreted atoms, not a sample. Trusts the library models, the MIR front end and CosmWasm\'s rollback of failed calls. ')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for pid in sorted(meta.PROPS):
        p = meta.PROPS[pid]
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': w} for n, w in p['state']]
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for pid in sorted(meta.PROPS):
    if pid in registry.RULES and pid not in meta.NA:
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'python3 check.py %s --force' % pid,
                       'technique': meta.PROPS[pid].get('tech') or TECH, 'level': 'other', 'level_note': NOTE + 'Rule: ' + meta.PROPS[pid]['rule'] + '. ' + meta.PROPS[pid]['note']})
    else:
        na.append({'property': pid, 'reason': meta.NA.get(pid, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'One analysis (engine/) over the MIR of every contract in the build; one rule per property (rules/).'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')


# ---- DESIGN.md
GROUPS = [('R', 'Router'), ('G', 'Gateway'), ('N', 'Nexus gateway'), ('A', 'Aggregate verifier'), ('V', 'Voting verifier'), ('M', 'Multisig'),
          ('P', 'Multisig prover'), ('S', 'Service registry'), ('W', 'Rewards'), ('B', 'Batching'), ('X', 'All contracts'), ('D', 'Worker daemon')]
out = [open(os.path.join(HERE, 'docs', 'head.md')).read(), '\n## 3. Properties, and how each is decided\n']
for k, name in GROUPS:
    out.append('\n### %s\n' % name)
    for pid in sorted(meta.PROPS):
        if pid[0] != k:
            continue
        p = meta.PROPS[pid]
        out.append('**%s %s.** %s\n' % (pid, p['title'], p['statement']))
        if pid in meta.NA:
            out.append('*Not applicable:* %s\n' % meta.NA[pid])
        else:
            r = p['rule']
            out.append('*Decided by:* %s.%s *Ranges over:* %s. *Why tests cannot:* %s\n' % (r[0].upper() + r[1:].rstrip('.'), ' ' + p['note'] if p['note'] else '', p['quant'], p['why']))
out.append('\n## 4. Findings in the repository\n')
out.append('Repaired (each a "fix:" commit; the check reports the defect if it returns):\n')
known = []
for line in open(os.path.join(HERE, 'known_findings.jsonl')):
    if line.strip():
        j = json.loads(line)
        if j['status'] == 'fixed':
            out.append('* ' + j['record'])
        else:
            known.append(j)
out.append('\nRecorded, not repaired (the checks print KNOWN-FINDING for these and nothing else):\n')
out += ['* `%s`: %s' % (j['key'], j['record']) for j in known]
out.append('\n## 5. Planted bugs\n')
out.append('Each compiles, passes the 272 tests, and has a demonstration that fails with it. "Reported by" lists every check that reports it.\n')
caught = {}
t = os.path.join(HERE, 'docs', 'seeds.tsv')
if os.path.exists(t):
    for line in open(t):
        a = line.rstrip('\n').split('\t')
        caught[a[0]] = a[1:]
out += ['| planted bug | property | what it needs in order to show | reported by |', '|---|---|---|---|']
for s, (prop, needs, by) in sorted((s, (a + ['', '', ''])[:3]) for s, a in caught.items()):
    out.append('| %s | %s | %s | %s |' % (s, prop, needs.replace('|', '/'), by or 'none'))
out.append('')
out.append(open(os.path.join(HERE, 'docs', 'tail.md')).read())
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
