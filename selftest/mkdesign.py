#!/usr/bin/env python3
"""DESIGN.md from the property texts, the known findings and the seeds (run by hand, not by a check)"""
import sys, os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
o = [open(os.path.join(V, 'selftest', 'design_head.md')).read().rstrip(), '', '## 3. The properties', '']
_c = os.path.join(V, 'selftest', 'cost.json')
cost = json.load(open(_c)) if os.path.exists(_c) else {}
seeds = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
for p in props.PROPS:
    o += ['### %s  %s' % (p['id'], p['title']), '', p['statement'], '']
    if p['na']:
        o += ['*Not applicable.* ' + p['na'], '']
        continue
    o += ['- **Anchors:** ' + '; '.join('%s: %s' % (a, b) for a, b in p['mech']) + ' (' + ', '.join(p['files']) + ')',
          '- **How it is decided:** ' + p['explain'].replace(props.ENGINE, ''),
          '- **Ranges over:** ' + p['text'] + '.',
          '- **Bounds and trust:** ' + p['note'],
          '- **Beyond the tests:** ' + p['tests'] + '.',
          '- **Cost:** quick %s s%s.' % (cost.get(p['id'], ['?'])[0], ', thorough %s s' % cost[p['id']][1] if len(cost.get(p['id'], [])) > 1 else ''),
          '- **Planted changes it catches:** ' + (', '.join(x for x, _ in seeds.get(p['id'], [])) or 'none kept'), '']
o += ['## 4. Findings', '', 'Open (reported as KNOWN-FINDING on every run of the check):', '']
k = json.load(open(os.path.join(V, 'known_findings.json')))
for e in k:
    if e['status'] == 'open': o.append('- **%s** `%s`: %s' % (e['property'], e['key'], e['what']))
o += ['', 'Repaired by `fix:` commits in /repo (each is reported again if it returns):', '']
for e in k:
    if e['status'] == 'fixed': o.append('- %s `%s` (%s): %s' % (e['property'], e['key'], e['commit'], e['what']))
o += ['', '## 5. Planted changes and the checks that catch them', '', '| change | property | needs | caught |', '|---|---|---|---|']
for pid in sorted(seeds):
    for n, m in seeds[pid]: o.append('| %s | %s | %s | yes |' % (n, pid, m['needs']))
o += ['', open(os.path.join(V, 'selftest', 'design_tail.md')).read().rstrip()]
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
