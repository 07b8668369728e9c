#!/usr/bin/env python3
"""Self-test of the analysers: every mutant (edit of a scratch copy of /repo/src) must be reported by the named
check, every neutral edit must leave all named checks quiet.  Nothing from the edited sources is executed.
usage: run.py [filter]"""
import os, re, sys, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutants

from apply import edit


def one(m):
    d = tempfile.mkdtemp(prefix='sa_mut_')
    try:
        shutil.copytree('/repo/src', d + '/src')
        err = edit(m, d)
        if err: return m, 'NOAPPLY', err
        env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + '/ev')
        res = {}
        for pid in m['props']:
            r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), pid], env=env, capture_output=True, text=True)
            res[pid] = (r.returncode, r.stdout.strip().split('\n')[0][:200])
        return m, res, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    flt = sys.argv[1] if len(sys.argv) > 1 else ''
    ms = [m for m in mutants.MUTANTS if flt in m['name'] or flt in m['props']]
    if flt == '--neutral': ms = [m for m in mutants.MUTANTS if m['kind'] == 'neutral']
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for m, res, info in ex.map(one, ms):
            if res == 'NOAPPLY':
                print('NOAPPLY', m['name'], info); bad += 1; continue
            if m['kind'] == 'mutant':
                ok = any(rc == 1 for rc, _ in res.values())
            else:
                ok = all(rc == 0 for rc, _ in res.values())
            if not ok: bad += 1
            print('ok  ' if ok else 'FAIL', m['kind'], m['name'], '; '.join('%s=%d %s' % (k, v[0], v[1] if (not ok or v[0] == 1) else '') for k, v in res.items()))
    print('failures:', bad, 'of', len(ms))
    return 1 if bad else 0


sys.exit(main())
