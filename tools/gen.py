#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
PROPS = []
NA = []
def P(id, title, statement, over, qtext, why, files, mechanism, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, note=note))
def N(id, title, statement, over, qtext, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, reason=reason))
for f in sorted(glob.glob(here + '/props/*.py')):
    exec(open(f).read())
PROPS.sort(key=lambda p: p['id'])
checks = json.load(open(here + '/../checks.json'))
with open(here + '/../properties.jsonl', 'w') as f:
    for p in sorted(PROPS + NA, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='./run.sh --build', checks=[], not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
    notes='Every check runs gosym (gosym/): a symbolic executor for the SSA form of the Go code of /repo, with z3 as the solver; see DESIGN.md. No hook is needed in /repo: the harnesses are added through an in-memory overlay.')
for p in PROPS:
    assert p['id'] in checks, p['id']
    m['checks'].append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'],
        technique='symbolic execution of the Go SSA of /repo, SMT solver (z3) verdicts, native replay of counterexamples',
        level='model_checking', level_note=p['note']))
json.dump(m, open(here + '/../MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
miss = [k for k in checks if k not in [p['id'] for p in PROPS]]
if miss: print('checks without property:', miss)
print(len(PROPS), 'properties claimed,', len(NA), 'not applicable')
import re
root = here + '/..'
def bounds(h):
    f = lambda t: ', '.join('%s=%s' % kv for kv in sorted(h[t].items())) or 'no parameter'
    return '`%s` (quick: %s; thorough: %s)' % (h['func'], f('quick'), f('thorough'))
out = []
seeded = []
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); m['id'] = d.split('/')[-2]; seeded.append(m)
for p in sorted(PROPS, key=lambda p: p['id']):
    c = checks[p['id']]
    out.append('### %s. %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('- Specified over: ' + p['qtext'] + '.')
    out.append('- Why tests cannot settle it: ' + p['why'])
    out.append('- Code executed: ' + '; '.join('%s (`%s`)' % x for x in p['mechanism']) + '.')
    out.append('- Harnesses (`harness/%s`): ' % ', '.join(c['files']) + '; '.join(bounds(h) for h in c['harnesses']) + '.')
    out.append('- Oracle and limits: ' + p['note'])
    b = [m['id'] for m in seeded if m['property'] == p['id']]
    if b: out.append('- Planted bugs: ' + ', '.join(b) + '.')
    out.append('')
na = ['- %s, %s: %s' % (p['id'], p['title'], p['reason']) for p in NA] or ['None.']
caught = json.load(open(here + '/caught.json')) if os.path.exists(here + '/caught.json') else {}
sd = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for m in seeded:
    sd.append('| %s | %s | %s | %s |' % (m['id'], m['property'], m['needs'].replace('|', '/'), caught.get(m['id'], '?')))
find = [l.strip() for l in open(root + '/known-findings.txt') if l.strip() and not l.startswith('#')]
t = open(here + '/design.md').read()
t = t.replace('{{PROPERTIES}}', '\n'.join(out)).replace('{{NA}}', '\n'.join(na)).replace('{{SEEDED}}', '\n'.join(sd)).replace('{{FINDINGS}}', '\n'.join('- ' + f for f in find))
open(root + '/DESIGN.md', 'w').write(t)
