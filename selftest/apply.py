#!/usr/bin/env python3
"""apply.py <mutant name> <dir>: leave an edited copy of /repo/src in <dir>/src (for debugging a rule)"""
import sys, os, re, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants


def edit(m, d):
    for f, old, new in m['edits']:
        p = d + '/src/' + f
        s = open(p).read()
        if old.startswith('@fn:'):      # replace a whole function definition
            g = re.search(r'^[a-z][^\n;]*\b%s\([^;{]*?\)\n\{\n.*?^\}\n' % re.escape(old[4:]), s, re.M | re.S)
            if not g: return f + ': ' + old
            s = s[:g.start()] + new.lstrip('\n') + s[g.end():]
        else:
            if s.count(old) < 1: return f + ': ' + old[:50]
            n = m.get('nth')
            if n is not None:
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            else:
                s = s.replace(old, new, 1) if not m.get('all') else s.replace(old, new)
        open(p, 'w').write(s)
    return ''


if __name__ == '__main__':
    m = [m for m in mutants.MUTANTS if m['name'] == sys.argv[1]][0]
    d = sys.argv[2]
    shutil.rmtree(d + '/src', ignore_errors=True)
    shutil.copytree('/repo/src', d + '/src')
    print(edit(m, d) or 'applied')
