"""writes properties.jsonl and MANIFEST.json from props_data.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_data import P, NA
V = os.path.dirname(HERE)
TEST_NOTE = {}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid, title, st, q, why, files, mech in P:
        assert len(title) <= 80, title
        f.write(json.dumps(dict(id=pid, title=title, statement=st, quantifier=dict(over=['inputs', 'histories'] if pid in ('C04', 'C09', 'C23', 'C28') else ['inputs'], text=q),
                                why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))) + '\n')
LEVEL_NOTE = ('Every path of the harness through the real source (re-read and instrumented from /repo at each run) is explored within the stated '
              'bounds; z3 decides every branch and every assertion over all inputs of the path. Trusted: the symbolic model of the Python built-ins '
              '(cross-checked by replaying one concrete witness of each explored path on the unmodified code) and the contracts of the third-party '
              'libraries; counterexamples are reported only after they reproduce natively.')
checks, na = [], []
for pid, title, *_ in P:
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif not os.path.exists(os.path.join(V, 'cases', pid + '.py')):
        na.append(dict(property=pid, reason='the check for this property is not built yet'))
    else:
        checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid, thorough_cmd='./check %s thorough' % pid,
                           evidence_file='evidence/%s.json' % pid,
                           technique='symbolic execution of the real Python source, decided by z3', level='model_checking', level_note=LEVEL_NOTE))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Bounds per property are in cases/*.py and in every evidence file; DESIGN.md explains the engine.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# DESIGN.md
import importlib, re
sys.path.insert(0, V)
rows = []
for pid, title, *_ in P:
    if pid in NA:
        rows.append('* **%s** %s. Not applicable: %s' % (pid, title, NA[pid]))
        continue
    if not os.path.exists(os.path.join(V, 'cases', pid + '.py')):
        rows.append('* **%s** %s. Planned.' % (pid, title))
        continue
    c = importlib.import_module('cases.' + pid).P
    h = open(os.path.join(V, 'harness', pid + '.py')).read()
    b = c['bounds']
    rows.append('* **%s** %s.\n  %s\n  Quick: %s.\n  Thorough: %s.\n  Outside: %s.%s' % (
        pid, title, c.get('how', 'Oracle: the statement restated in the harness `harness/%s.py` (%d harness functions).' % (pid, len(re.findall(r'(?m)^def \w+\(t\b', h)))),
        b['quick'], b.get('thorough', 'the same, longer budget'), c.get('outside', 'nothing else'),
        (' Assumed: %s.' % ('; '.join(c['assume']) if isinstance(c['assume'], (list, tuple)) else c['assume'])) if c.get('assume') else ''))
fixes = '\n'.join('* %s `%s`: %s' % m.groups() for m in re.finditer(r'(?m)^fixed: property=(\S+) (\S+) (.*)$', open(os.path.join(V, 'KNOWN_FINDINGS')).read()))
seeds = []
S = os.path.join(V, 'seeded')
catch = os.path.join(HERE, 'catches.json')
catch = json.load(open(catch)) if os.path.exists(catch) else {}
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    mm = json.load(open(os.path.join(S, d, 'meta.json')))
    seeds.append('* `%s` (%s): %s; needs %s. %s' % (d, mm['property'], mm['what_it_breaks'], mm['needs'], catch.get(d, 'Not yet run.')))
t = open(os.path.join(HERE, 'design.in.md')).read()
t = t.replace('PROPTABLE', '\n'.join(rows)).replace('FIXES', fixes).replace('SEEDS', '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
