#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and what mc implements."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
TECH = 'stateless model checking of the real shared object: exhaustive deviation-bounded enumeration of inputs, faults and environment steps at intercepted libc calls, judged by a reference model'
special = {}
exec(open(f'{V}/tools/techniques.py').read(), special)
claimed, na = [], []
for p in props:
    i = p['id']
    r = subprocess.run([f'{V}/.build/mc/release/mc', '--needs', i], capture_output=True)
    if r.returncode == 0:
        t, note = special['T'].get(i, (None, None))
        claimed.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
            technique=t or TECH, level='model_checking', level_note=note or special['NOTE']))
    else:
        na.append(dict(property=i, reason='check under construction in this session; not claimed yet'))
m = dict(version=1, setup_cmd='./check --build', checks=claimed, not_applicable=na)
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(claimed), 'claimed', len(na), 'not')
