#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the META of props/*.py and na.py"""
import glob, json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import run, na

props, checks = [], []
def prop(pid, m):
    props.append({'id': pid, 'title': m['title'], 'statement': m['statement'],
                  'quantifier': {'over': m['over'], 'text': m['q']}, 'why_tests_cant': m['why'],
                  'anchors': {'files': m['files'], 'mechanism': [{'name': n, 'where': w} for n, w in m['mech']]}})
    assert len(m['title']) <= 80, pid
for f in sorted(glob.glob(os.path.join(V, 'props', '*.py'))):
    pid = os.path.basename(f)[:-3]
    mod = run.load(pid)
    prop(pid, mod.META)
    checks.append({'property': pid, 'quick_cmd': './run.py %s' % pid, 'thorough_cmd': './run.py %s --tier thorough' % pid,
                   'technique': 'symbolic execution of the compiled sources (LLVM IR, own executor) with Z3 deciding every branch, memory access and assertion',
                   'level': 'model_checking', 'level_note': mod.META.get('note', 'bounded; see bounds per harness in the evidence')})
for pid, m, reason in na.NA:
    prop(pid, m)
props.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    f.write(''.join(json.dumps(p) + '\n' for p in props))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './run.py --setup', 'checks': checks,
               'not_applicable': [{'property': p, 'reason': r} for p, _, r in na.NA],
               'notes': 'No hooks in /repo. lib/sym is the symbolic executor, harness/ the per-property drivers, props/ what each check runs.'}, f, indent=1)
    f.write('\n')

L = ['## Properties', '']
for f in sorted(glob.glob(os.path.join(V, 'props', '*.py'))):
    pid = os.path.basename(f)[:-3]
    mod = run.load(pid)
    m = mod.META
    L += ['### %s: %s' % (pid, m['title']), '', m['statement'], '',
          '*Over*: %s. *Why tests do not settle it*: %s' % (m['q'], m['why']), '']
    if m.get('how'):
        L += [m['how'], '']
    for h in mod.HARNESSES:
        t = ' Thorough: %s.' % ' '.join(h.thorough.get('defs', ['longer timeout'])) if h.thorough else ''
        L += ['* `%s` (harness/%s over %s): %s%s' % (h.name, h.src, ', '.join(os.path.basename(u) for u in h.units) or 'included source', h.bounds or m['q'], t)]
    if mod.ASSUMPTIONS:
        L += ['', 'Assumed: ' + ' '.join(mod.ASSUMPTIONS)]
    L += ['']
if na.NA:
    L += ['## Not applicable', '']
    L += ['* %s (%s): %s' % (p, m['title'], r) for p, m, r in na.NA]
S = ['', '## Planted bugs (seeded/, seeded_styled/)', '', 'seeded_styled/ has planted bugs in files that the style tests of the repository check (any // comment added to such a file fails these tests, so they cannot serve for the control of vcheck).', '', '| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')) + glob.glob(os.path.join(V, 'seeded_styled', '*', 'meta.json'))):
    m = json.load(open(d))
    S.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/'), m.get('caught_by', 'missed')))
rd = lambda n: open(os.path.join(V, n)).read()
fi = [l for l in rd('known_findings.txt').splitlines() if l.strip() and not l.startswith('#')]
open(os.path.join(V, 'DESIGN.md'), 'w').write(rd('design_head.md') + '\n'.join(L) + '\n' + rd('design_tail.md') + '\n'.join([''] + ['* ' + l for l in fi]) + '\n' + '\n'.join(S) + '\n')
