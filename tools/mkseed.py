#!/usr/bin/env python3
"""mkseed.py ID PROP WORKTREE META.json-fields...: packs the diff of a scratch worktree as /verif/seeded/ID, runs the check of PROP
against the worktree and turns its counterexample into the demonstration (concrete inputs, native sanitizer build).
usage: mkseed.py ID PROP "needs" "what it breaks" [--wt DIR] [--harness NAME --inputs FILE] [--only H]"""
import sys, os, subprocess, json, re, shutil, argparse, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), V]
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
for x in ('id', 'prop', 'needs', 'breaks'):
    ap.add_argument(x)
ap.add_argument('--wt', default='/tmp/wt')
ap.add_argument('--harness'); ap.add_argument('--inputs'); ap.add_argument('--only'); ap.add_argument('--missed', action='store_true')
a = ap.parse_args()
import run, vf
d = os.path.join(V, 'seeded', a.id)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', a.wt, 'diff'], text=True)
assert diff.strip()
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
caught = 'missed'
if not a.inputs:
    env = dict(os.environ, VERIF_REPO=a.wt)
    cmd = [os.path.join(V, 'run.py'), a.prop] + (['--only', a.only] if a.only else [])
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, cwd=V)
    print(p.stdout[-1500:])
    m = re.search(r'^VIOLATION property=\S+ replay=(\S+)', p.stdout, re.M)
    if not m:
        print('MISSED'); sys.exit(3)
    f = m.group(1)
    a.harness = os.path.basename(f)[:-3].rsplit('-', 1)[0]
    a.inputs = f
    caught = 'check %s, harness %s' % (a.prop, ', '.join(re.findall(r'^VIOLATION\s+(\S+)\s+paths', p.stdout, re.M)))
h = [x for x in run.load(a.prop).HARNESSES if x.name == a.harness][0]
shutil.copy(a.inputs, os.path.join(d, 'inputs.txt'))
t = open(os.path.join(d, 'inputs.txt')).read()
t = re.sub(r'^#.*\n', '', t, flags=re.M)
open(os.path.join(d, 'inputs.txt'), 'w').write(t)
src = os.path.join(V, 'harness', h.src)
shutil.copy(src, os.path.join(d, 'demo' + os.path.splitext(src)[1]))
todo = [src]
while todo:
    for f in re.findall(r'#include "(\w+\.(?:h|c))"', open(todo.pop()).read()):
        p = os.path.join(V, 'harness', f)
        if os.path.exists(p): shutil.copy(p, d); todo.append(p)
for f in ('vf.h', 'vf_ngx.h') + tuple(h.lib):
    shutil.copy(os.path.join(V, 'lib', f), d)
shutil.rmtree(os.path.join(d, 'ngxconf'), ignore_errors=True)
shutil.copytree(os.path.join(V, 'lib', 'ngxconf'), os.path.join(d, 'ngxconf'))
import shlex
q = lambda s: shlex.quote(s) if re.search(r'[^\w=/.\-+]', s) else s
inc = []
for i in vf.incs(h):
    p = i[2:]
    if p.startswith(V): p = '"$D"' + ('/ngxconf' if p.endswith('ngxconf') else '')
    elif p.startswith(vf.REPO): p = '"$PWD"' + p[len(vf.REPO):]
    inc.append('-I' + p)
cpp = any(u.endswith('.cpp') for u in h.units)
sh = ['#!/bin/bash', '# builds the scenario (demo.c: driver with the concrete inputs in inputs.txt) over the sources in the current directory',
      '# and runs it with sanitizers: fails when the assertion of the driver fails',
      'D=$(cd "$(dirname "$0")" && pwd)', 'T=$(mktemp -d) || exit 2', "trap 'rm -rf \"$T\"' EXIT",
      ('g++ -fpermissive' if cpp else 'gcc') + ' -fsanitize=address,integer-divide-by-zero,shift-exponent -fno-sanitize-recover=all -DVF_REPLAY -g -O1 -fno-common '
      '-ffunction-sections -fdata-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all ' + ' '.join(map(q, vf.CFLAGS + vf.CDEFS + ['-D' + x for x in h.defs] + list(h.flags))) +
      ' \\\n  ' + ' '.join(inc) + ' \\\n  "$D"/' + 'demo' + os.path.splitext(src)[1] + ' ' + ' '.join('"$PWD"/' + u for u in h.units) + ' ' + ' '.join('"$D"/' + l for l in h.lib) +
      ' -o "$T"/demo -lm ' + ' '.join(h.ldflags) + ' 2>"$T"/log || { cat "$T"/log; exit 2; }',
      'for fill in 0xa5 0x00 0xff 0x01; do', '  VF_FILL=$fill ASAN_OPTIONS=detect_leaks=0:exitcode=99:detect_stack_use_after_return=1 timeout 60 "$T"/demo "$D"/inputs.txt; R=$?', '  [ $R = 0 ] || [ $R = 77 ] || exit 1', 'done', 'exit 0', '']
open(os.path.join(d, 'demo.sh'), 'w').write('\n'.join(sh))
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump({'property': a.prop, 'needs': a.needs, 'what_it_breaks': a.breaks, 'caught_by': caught}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
for w, want in ((vf.REPO if 'VERIF_REPO' not in os.environ else '/repo', 0), (a.wt, 1)):
    p = subprocess.run([os.path.join(d, 'demo.sh')], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(w, 'demo rc', p.returncode, '' if (p.returncode != 0) == bool(want) else 'UNEXPECTED\n' + p.stdout[-800:])
