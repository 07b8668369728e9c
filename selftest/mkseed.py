#!/usr/bin/env python3
"""mkseed.py <spec.py> [ids...]: (re)create /verif/seeded/<id>/ from a spec module with SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], files={name: text}, demo=text)].
Development helper; no check uses it."""
import sys, os, subprocess, shutil, json, tempfile, runpy, difflib
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    out = ''
    byf = {}
    for e in s['edits']: byf.setdefault(e[0], []).append(e)
    for f, es in byf.items():
        p = '/repo/src/' + f
        a = open(p).read(); b = a
        for e in es:
            parts = b.split(e[1])
            if len(parts) < 2: sys.exit('%s: no match in %s: %s' % (s['id'], f, e[1][:60]))
            n = e[3] if len(e) > 3 else 0
            if len(parts) > 2 and len(e) < 4: sys.exit('%s: ambiguous in %s: %s' % (s['id'], f, e[1][:60]))
            b = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
        out += ''.join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), 'a/src/' + f, 'b/src/' + f))
    open(d + '/patch.diff', 'w').write(out)
    for n, tx in s.get('files', {}).items(): open(d + '/' + n, 'w').write(tx)
    open(d + '/demo.sh', 'w').write(s['demo']); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
    print(s['id'], 'applies' if r.returncode == 0 else 'DOES NOT APPLY')
    shutil.rmtree(t)
