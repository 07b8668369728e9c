import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import rules_db, props
MODS = [rules_db]
for n in ('rules_cache', 'rules_scan', 'rules_trav', 'rules_misc', 'rules_cont', 'rules_cli', 'rules_ign', 'rules_eff', 'rules_db2', 'rules_img', 'rules_text'):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py')): MODS.append(__import__(n))
RULES = {}
DOC = {p['id']: p for p in props.PROPS}
for m in MODS:
    for n, f in vars(m).items():
        if re.fullmatch(r'[A-Z]\d\d', n) and callable(f):
            p = DOC.get(n, {})
            RULES[n] = dict(run=f, explain=p.get('explain', ''), rule=p.get('statement', ''))
