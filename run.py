#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--only HARNESS,...] [-v] | run.py --replay FILE"""
import importlib.util, os, sys, tempfile, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.dont_write_bytecode = True
import vf


def load(prop):
    spec = importlib.util.spec_from_file_location(prop, os.path.join(VERIF, 'props', prop + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        path = os.path.abspath(a[1])
        prop = os.path.basename(os.path.dirname(path))
        name = os.path.basename(path)[:-3].rsplit('-', 1)[0]
        m = load(prop)
        h = [x for x in m.HARNESSES if x.name == name][0]
        tmp = tempfile.mkdtemp(prefix='vf_replay_')
        try:
            exe = vf.native_exe(h, tmp, 'msan' if '# kind uninit' in open(path).read() else 'asan')
            ins = [int(l) for l in open(path) if not l.startswith('#')]
            v, out = vf.native(exe, ins, os.path.join(tmp, 'in'))
            print(out)
            print('verdict:', v)
            return 1 if v in ('fail', 'hang') else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if a and a[0] == '--setup':
        print(vf.engine())
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, verbose = None, False
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            i += 1
            tier = a[i]
        elif a[i] == '--only':
            i += 1
            only = a[i].split(',')
        elif a[i] == '-v':
            verbose = True
            vf.PASSES  # coverage listing
        i += 1
    m = load(prop)
    hs = m.HARNESSES
    if verbose:
        for h in hs:
            h.opts = list(h.opts) + ['--cov']
    return vf.main(prop, hs, m.ASSUMPTIONS, tier, only, verbose)


if __name__ == '__main__':
    sys.exit(main())
