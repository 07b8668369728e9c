#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  `python3 props.py` rewrites both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, explain, na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, tests=tests, files=files.split(),
                      mech=mech, technique=technique, note=note, explain=explain, na=na))


ENGINE = ("Path-sensitive abstract interpretation (term domain + intervals + order relations, virtual inlining, widening at loop heads, no solver, nothing executed) "
          "of clang -O0 LLVM IR regenerated from /repo's current source on every run. ")

exec(open(os.path.join(HERE, 'props_db.py')).read())
for f in ('props_cache.py', 'props_scan.py', 'props_misc.py', 'props_cont.py', 'props_cli.py', 'props_db2.py', 'props_na.py'):
    if os.path.exists(os.path.join(HERE, f)): exec(open(os.path.join(HERE, f)).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as o:
        for p in PROPS:
            o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['tests'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    m = dict(version=1, setup_cmd='true',
             checks=[dict(property=p['id'], quick_cmd='python3 /verif/check.py %s' % p['id'], thorough_cmd='python3 /verif/check.py %s --thorough' % p['id'],
                          technique=p['technique'], level='other', level_note=p['note']) for p in PROPS if not p['na']],
             not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if p['na']])
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
