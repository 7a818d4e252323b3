#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
src = open(root + '/sim/src/props/mod.rs').read()
claimed = set(re.findall(r'p\("(P\d\d)"', src))
NOT = {
    'P24': 'Parsing schema text is a pure function of one string: no I/O, scheduling, time, buffers or second party for a simulator to control; a seeded input generator would be property-based testing, not simulation.',
}
TECH = 'deterministic simulation with fault injection: seeded search over schedules, device behaviour and faults in one process, against a reference model'
checks = []
na = []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i}',
            'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {i}',
            'technique': TECH,
            'level': 'exploration',
            'level_note': 'No counterexample in the seeded runs counted in the evidence file; every run is an exactly repeatable execution of the real crate over simulated devices, executor and clock. Trusts the reference model and the compression crates. See DESIGN.md.',
        })
    else:
        na.append({'property': i, 'reason': NOT.get(i, 'no check yet')})
m = {
    'version': 1,
    'setup_cmd': 'bash build.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo were needed: all I/O goes through Read/Write/Seek and AsyncRead/AsyncWrite/AsyncSeek, which the simulator implements. replay.sh FILE re-executes a violation. known_findings.txt lists genuine defects found (fixed ones included).',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
