#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/DESIGN.tpl, the evidence of a full
quick run, known_findings.jsonl and seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
h = ["## 3. Harnesses", "",
     "Executions of a quick run on the unchanged tree, all of them enumerated; *b* is the",
     "bound on departures from the undisturbed run (- : the domain is a full product of",
     "inputs). States and transitions are in the evidence files.", "",
     "| property | harness | what is enumerated | b | executions |", "|---|---|---|---|---|"]
total = 0
again = set()
for p in sorted(glob.glob(V + '/evidence/C*.json')):
    d = json.load(open(p))
    for x in d['coverage'].get('harnesses', []):
        total += x['executions']
        if '+' in x['name']:
            again.add((d['property'], x['name'].split('+')[0]))
            continue
        h.append('| %s | %s | %s | %s | %d |' % (d['property'], x['name'], x['what'], x['deviation_bound'] or '-', x['executions']))
h += ["", "%d of these harnesses were run again after each of three histories of earlier" % len(again),
      "sessions in the same process (section 1). In all %.1f million executions." % (total / 1e6), ""]
f = []
for l in rd('known_findings.jsonl').splitlines():
    k = json.loads(l)
    if k['status'] == 'fixed':
        f.append('| %s | %s | %s |' % (k['commit'], k['property'], k['what']))
s = ["| planted bug | caught by | what it breaks | what it needs |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p))
    c = lambda t: ' '.join(t.split()).replace('|', '/')
    s.append('| %s | %s | %s | %s |' % (p.split('/')[-2], m['property'], c(m['what_it_breaks']), c(m['needs'])))
out = []
for l in rd('tools/DESIGN.tpl').splitlines():
    out += {'HARNESSES': h, 'FIXES': f, 'SEEDS': s}.get(l, [l])
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
