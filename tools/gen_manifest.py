#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'P13': 'runtime monitoring: event log of every task execution with injected delays, offline exactly-once / order / concurrency checker',
 'P14': 'runtime monitoring: fault injection with watchdog (progress monitor) and process census',
 'P15': 'runtime monitoring: serial vs parallel differential oracle under randomized completion orders, fork/join conservation log',
}
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        checks.append(dict(
            property=pid, quick_cmd='./run_check.sh %s quick' % pid,
            thorough_cmd='./run_check.sh %s thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=TECH.get(pid, 'runtime monitoring: the real code is driven by generated workloads while online '
                               'monitors compare every observed call with an independent oracle'),
            level='exploration',
            level_note='Holds on every execution observed (counts and distinct cases in the evidence file); says '
                       'nothing about executions not generated. Trusts numpy/scipy, the interpreter and the oracle '
                       'written in checks/%s.py.' % pid.lower()))
    else:
        na.append(dict(property=pid, reason='no check built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: monitors attach from outside (wrapping, subclassing, event logs), so no guard is needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
