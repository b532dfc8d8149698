#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the scenarios compiled into the simulator."""
import json, os, subprocess, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
exe = subprocess.run([H + '/check', '--build'], stdout=subprocess.PIPE, text=True).stdout.split()[1]
have = {}
for l in subprocess.run([exe, 'list'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    p, n, w = l.split(); have.setdefault(p, []).append(n)
P = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'C30': 'Containers and string editing are pure sequential functions of their arguments: no thread, clock, I/O, peer or fault takes part, so there is nothing for a simulator to schedule or inject. '
    'Generating operation sequences against a reference would be property-based testing, not this technique. Their use inside the simulated components (list in async and server, map in notify, vector and buffer in streams) is exercised by the other checks.'}
checks, na = [], []
for p in P:
    i = p['id']
    if i not in have: na.append(dict(property=i, reason=NA[i])); continue
    checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
        technique='deterministic simulation with fault injection (seeded search; scenarios: %s)' % ', '.join(have[i]),
        level='exploration',
        level_note='Seeded search over simulated executions of the real library code on a simulated kernel, network, clock and thread scheduler; one seed is one exactly repeatable run. '
                   'A clean batch is evidence, not proof. Trusted: the kernel model (Linux semantics, see DESIGN.md) and the reference models in the scenarios.'))
m = dict(version=1, setup_cmd='./check --build', checks=checks, not_applicable=na,
    notes='No hooks in /repo: every seam is the libc/pthread/OpenSSL symbol boundary, redirected with objcopy on the objects compiled from /repo. Replay a failure with ./check --replay FILE [-v].')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
