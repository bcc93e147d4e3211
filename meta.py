#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from one description per property."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, level='proof', technique='contract-based deductive verification of the real C++ (own VC generator over clang AST, z3/cvc5); failed obligations replayed on the compiled code'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, level=level, technique=technique))


exec(open(os.path.join(HERE, 'meta_props.py')).read())
NA = []
exec(open(os.path.join(HERE, 'meta_na.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P + [n for n in NA]:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'])), ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='python3-vt -m compileall -q cppwp contracts check.py',
           checks=[dict(property=p['id'], quick_cmd='python3-vt check.py ' + p['id'], thorough_cmd='env VERIF_TIER=thorough python3-vt check.py ' + p['id'], technique=p['technique'], level=p['level'], level_note=p['note']) for p in P],
           not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA],
           notes='No hooks: contracts are bound to functions by qualified name and read from clang\'s AST of the unmodified sources on every run.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
for p in P + NA:
    assert len(p['title']) <= 80, p['title']
# DESIGN.md = design_head.md + one section per property + design_tail.md + defects + planted changes
import sys
sys.path.insert(0, HERE)
src = open(os.path.join(HERE, 'contracts', 'registry.py')).read()
ns = {}
exec(src, ns)
out = [open(os.path.join(HERE, 'design_head.md')).read(), '## Properties\n']
for p in P:
    r = ns['PROPS'][p['id']]
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('* **Specified and proved**: ' + p['note'].replace(TB, '').strip())
    if r.get('functions'):
        out.append('* **Functions under contract**: ' + ', '.join('`%s`' % f.replace('modules::', '').replace('utils::', '').replace('serialization::', '') for f in sorted(r['functions'])))
    else:
        out.append('* **Functions under contract**: all of `contracts/%s.py`' % '.py`, `contracts/'.join(r['modules']))
    out.append('* **Contracts** in `%s`; **replay oracle** in `harness/%s.cpp`' % ('`, `'.join('contracts/%s.py' % m for m in r['modules']), r['harness']))
    if r.get('bounded'):
        out.append('* **Bounded only** (harness, not proved): ' + '; '.join(r['bounded']))
    if r.get('assumptions'):
        out.append('* **Assumed**: ' + '; '.join(r['assumptions']))
    out.append('* **Beyond the tests because**: ' + p['why'] + '\n')
out.append(open(os.path.join(HERE, 'design_tail.md')).read())
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if not l.startswith('#'):
        out.append('* ' + l.strip())
out.append('\n## Planted changes\n\nEach breaks the property named, compiles, passes the tests and is kept in `seeded/`; "caught by" is what its own check reported.\n\n| id | property | breaks | needs | caught by |\n|---|---|---|---|---|')
try:
    caught = json.load(open(os.path.join(HERE, 'caught.json')))
except OSError:
    caught = {}
sd = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(i, '')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(P), 'claimed', len(NA), 'not applicable')
