"""Runner: compiles the harnesses of one property together with /repo's current
sources to LLVM IR, explores them with the symbolic executor (lib/sym), replays
counterexamples and path witnesses against a native sanitizer build."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NGX = '/usr/share/nginx/src/src'
LIB = os.path.join(VERIF, 'lib')
MODS = ['nginx-common', 'nginx-kmp-in-module', 'nginx-kmp-out-module', 'nginx-rtmp-module',
        'nginx-mpegts-module', 'nginx-mpegts-kmp-module', 'nginx-rtmp-kmp-module',
        'nginx-kmp-cc-module', 'nginx-kmp-rtmp-module', 'nginx-live-module', 'nginx-pckg-module']
NCPU = int(os.environ.get('VF_JOBS', os.cpu_count() or 4))
PASSES = 'internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,simplifycfg),globaldce'


class H:
    """one harness: src (in harness/) + units (in /repo) + lib, explored from harness()"""
    def __init__(self, name, src, units=(), lib=('vf_rt.c', 'vf_libc.c', 'vf_ngx.c'), defs=(), flags=(), incs=(),
                 timeout=300, bounds='', what='', thorough=None, tier='quick', ldflags=(), optional=(),
                 max_steps=20000000, opts=(), nowit=False):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def at(self, tier):
        if tier != 'thorough' or not self.thorough:
            return self
        d = {k: v for k, v in self.__dict__.items()}
        d.update(self.thorough)
        d['thorough'] = None
        return H(**d)


def incs(h):
    r = ['-I' + LIB, '-I' + os.path.join(LIB, 'ngxconf')]
    r += ['-I' + os.path.join(REPO, m) for m in h.incs]
    for d in ('core', 'event', 'event/modules', 'os/unix', 'http', 'http/modules', 'http/v2', 'stream'):
        r.append('-I' + os.path.join(NGX, d))
    for m in MODS:
        r.append('-I' + os.path.join(REPO, m, 'src'))
    r += ['-I' + REPO, '-I' + os.path.join(VERIF, 'harness')]
    return r


def sources(h):
    return ([os.path.join(VERIF, 'harness', h.src)] + [os.path.join(REPO, u) for u in h.units] +
            [os.path.join(LIB, l) for l in h.lib])


def run(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=os.setsid,
                         cwd=cwd, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        rc = 'timeout'
    return rc, out.decode('utf-8', 'replace')


class Broken(Exception):
    pass


# ------------------------------------------------------------------ builds

def engine():
    src = sorted(glob.glob(os.path.join(LIB, 'sym', '*')))
    key = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    d = os.path.join(VERIF, 'out', 'bin')
    exe = os.path.join(d, 'vfx-' + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vfx_')
    try:
        def cc(f):
            o = os.path.join(tmp, os.path.basename(f) + '.o')
            rc, out = run(['g++', '-O2', '-std=c++17', '-w', '-I/usr/lib/llvm-18/include', '-c', f, '-o', o], 300)
            if rc:
                raise Broken('engine build: ' + out[-3000:])
            return o
        with ThreadPoolExecutor(4) as ex:
            objs = list(ex.map(cc, [f for f in src if f.endswith('.cpp')]))
        t = exe + '.%d' % os.getpid()
        rc, out = run(['g++', '-o', t] + objs + ['-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'], 120)
        if rc:
            raise Broken('engine link: ' + out[-3000:])
        os.rename(t, exe)
        for f in glob.glob(os.path.join(d, 'vfx-*')):
            if f != exe and '.' not in os.path.basename(f):
                os.unlink(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


_locks, _lock, _cache = {}, threading.Lock(), {}


def once(key, fn):
    with _lock:
        l = _locks.setdefault(key, threading.Lock())
    with l:
        if key not in _cache:
            try:
                _cache[key] = (True, fn())
            except Broken as e:
                _cache[key] = (False, e)
    ok, v = _cache[key]
    if not ok:
        raise v
    return v


CDEFS = ['-Dfree=vf_free', '-Dmalloc=vf_malloc', '-Dcalloc=vf_calloc_']
CFLAGS = ['-w', '-fno-strict-aliasing', '-fwrapv', '-D_GNU_SOURCE', '-D_FILE_OFFSET_BITS=64']


def bitcode_of(src, h, tmp):
    lang = src.endswith('.cpp')
    flags = CFLAGS + CDEFS + ['-D' + d for d in h.defs] + list(h.flags) + incs(h)
    key = ('bc', src, tuple(flags))

    def go():
        o = os.path.join(tmp, hashlib.md5(repr(key).encode()).hexdigest() + '.bc')
        cmd = ['clang++-18' if lang else 'clang-18', '-DVF_SYM', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin',
               '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-gline-tables-only', '-emit-llvm', '-c'] + flags
        if lang:
            cmd += ['-fno-exceptions', '-fno-rtti']
        rc, out = run(cmd + [src, '-o', o], 120)
        if rc:
            raise Broken('does not compile: %s\n%s' % (src, out[-3000:]))
        return o
    return once(key, go)


def ir_of(h, tmp):
    bcs = [bitcode_of(s, h, tmp) for s in sources(h)]

    def go():
        o = os.path.join(tmp, h.name + '.bc')
        rc, out = run(['llvm-link-18', '-o', o + '.l'] + bcs, 120)
        if rc:
            raise Broken('link: ' + out[-3000:])
        rc, out = run(['opt-18', '-passes=' + PASSES, '-internalize-public-api-list=harness,main',
                       '-phi-node-folding-threshold=6', '-two-entry-phi-node-folding-threshold=12', '-bonus-inst-threshold=6',
                       o + '.l', '-o', o], 120)
        if rc:
            raise Broken('opt: ' + out[-3000:])
        return o
    return once(('ir', h.name), go)


def native_exe(h, tmp, san='asan'):
    def go():
        exe = os.path.join(tmp, h.name + '.' + san)
        if san == 'asan':
            cc = ['gcc', '-fsanitize=address,integer-divide-by-zero,shift-exponent', '-fno-sanitize-recover=all']
        else:
            cc = ['clang-18', '-fsanitize=memory', '-DVF_MSAN', '-fno-sanitize-recover=all']
        if any(u.endswith('.cpp') for u in h.units):
            cc[0] = {'gcc': 'g++', 'clang-18': 'clang++-18'}[cc[0]]
            cc += ['-fpermissive'] if san == 'asan' else []
        cmd = cc + ['-DVF_REPLAY', '-g', '-O1', '-fno-omit-frame-pointer', '-fno-common',
                    '-ffunction-sections', '-fdata-sections', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'] + CFLAGS + CDEFS + \
            ['-D' + d for d in h.defs] + list(h.flags) + incs(h) + sources(h) + ['-o', exe, '-lm'] + list(h.ldflags)
        if san == 'msan':
            # stubs for functions that are never called on the replayed path
            cmd.remove('-Wl,--unresolved-symbols=ignore-all')
            rc, out = run(cmd, 240)
            if rc:
                und = sorted(set(re.findall(r'undefined reference to `([A-Za-z0-9_]+)\'', out)))
                stub = exe + '.stub.c'
                with open(stub, 'w') as f:
                    f.write('void abort(void);\n' + ''.join('void %s(void) { abort(); }\n' % u for u in und))
                cmd.append(stub)
        rc, out = run(cmd, 240)
        if rc:
            raise Broken('replay build: ' + out[-3000:])
        return exe
    return once(('nat', h.name, san), go)


def native(exe, inputs, path, timeout=20):
    """-> (verdict, output); verdict: fail | assume | done | hang"""
    with open(path, 'w') as f:
        f.write(''.join('%d\n' % v for v in inputs))
    last = ('done', '')
    for fill in ('0xa5', '0x00', '0xff', '0x01'):
        env = dict(os.environ, VF_FILL=fill, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1',
                   UBSAN_OPTIONS='exitcode=99:halt_on_error=1', MSAN_OPTIONS='exitcode=99')
        rc, out = run([exe, path], timeout, env=env)
        if rc == 'timeout':
            return 'hang', out
        if rc == 0:
            last = ('done', out)
            if exe.endswith('.msan'):
                break
            continue
        if rc in (127, 126, 78):
            raise Broken('replay does not run: ' + out[-500:])
        if rc == 77:
            last = ('assume', out)
            continue
        return 'fail', out
    return last


# ------------------------------------------------------------------ one harness

class Result:
    def __init__(self, h):
        self.h = h
        self.status, self.msg, self.replay = None, '', None
        self.st, self.reach, self.functions, self.viol, self.known = {}, set(), {}, [], []
        self.paths = []
        self.validated = 0
        self.wall = 0.0


def explore(h, tmp, tokens, timeout, extra=(), stop=False):
    bc = ir_of(h, tmp)
    od = tempfile.mkdtemp(prefix=h.name + '_', dir=tmp)
    cmd = [engine(), '--out', od, '--max-time', '%.0f' % timeout, '--max-steps', str(h.max_steps)] + list(h.opts) + list(extra)
    if tokens:
        cmd += ['--tokens', tokens]
    if stop:
        cmd += ['--stop-after', '20']
    rc, out = run(cmd + [bc], timeout + 60)
    recs, stats = [], []
    nfiles = 0
    for f in glob.glob(os.path.join(od, 'r.*.jsonl')):
        nfiles += 1
        for l in open(f):
            try:
                r = json.loads(l)
            except ValueError:
                continue
            (stats if r['type'] == 'stats' else recs).append(r)
    return rc, out, recs, stats, nfiles


def check(h, tmp, tokens, deadline, replay_dir, known):
    r = Result(h)
    t0 = time.time()
    left = min(h.timeout, deadline - time.time())
    if left < 5:
        r.status, r.msg = 'inconclusive', 'no time left'
        return r
    rc, out, recs, stats, nfiles = explore(h, tmp, tokens, left, stop=not known)
    for s in stats:
        for k, v in s.items():
            if isinstance(v, (int, float)) and k not in ('max_query_s', 'wall_s', 'rss_mb'):
                r.st[k] = r.st.get(k, 0) + v
        for k in ('max_query_s', 'rss_mb'):
            r.st[k] = max(r.st.get(k, 0), s[k])
        r.reach |= set(s['reached'])
        for f in s['functions']:
            fl = f['file']
            if fl.startswith(REPO + '/'):
                key = fl[len(REPO) + 1:] + ':' + f['f']
                o = r.functions.get(key)
                r.functions[key] = (f['bbs'], max(f['cov'], o[1] if o else 0), sorted(set(f['unc']) & set(o[2])) if o else f['unc'])
    r.paths = [x for x in recs if x['type'] == 'path']
    r.procs = nfiles
    viols = [x for x in recs if x['type'] == 'violation']
    inc = [x for x in recs if x['type'] == 'incomplete']
    ends = {s['end'] for s in stats} - {'done'}
    problems = []
    if rc != 0 or len(stats) != nfiles or not stats:
        problems.append('executor failed: rc %s %s' % (rc, out[-1500:]))
    if ends:
        problems.append('exploration not finished: %s (%d states left)' % (','.join(sorted(ends)), r.st.get('left', 0)))
    for x in inc[:5]:
        problems.append('%s at %s' % (x['msg'], x['where'][:300]))
    # violations: replay natively; prefer assertions of the property
    seen = set()
    viols.sort(key=lambda x: (x['kind'] != 'assert', x['kind'] == 'uninit', len(x['inputs'])))
    for x in viols:
        key = re.sub(r':\d+$', '', x['key'])
        if key in seen or len(seen) >= 8:
            continue
        seen.add(key)
        k = [e for e in known if e[0] in key]
        if k:
            r.known += k
            continue
        verdict, nout = 'none', ''
        try:
            exe = native_exe(h, tmp, 'msan' if x['kind'] == 'uninit' else 'asan')
            verdict, nout = native(exe, x['inputs'], os.path.join(tmp, h.name + '.in'))
        except Broken as e:
            nout = str(e)
        if verdict in ('fail', 'hang'):
            os.makedirs(replay_dir, exist_ok=True)
            rp = os.path.join(replay_dir, '%s-%d.in' % (h.name, len(r.viol)))
            with open(rp, 'w') as f:
                f.write('# harness %s (harness/%s)\n# kind %s: %s\n# key %s\n# at %s\n' % (h.name, h.src, x['kind'], x['msg'], key, x['where']))
                f.write('# replay: python3 %s/run.py --replay %s\n' % (VERIF, rp))
                f.write(''.join('# ' + l + '\n' for l in nout.splitlines()[:30]))
                f.write(''.join('%d\n' % v for v in x['inputs']))
            r.viol.append((key, x['msg'], x['where'], rp, first_line(nout) if verdict == 'fail' else 'does not terminate'))
        else:
            problems.append('counterexample not reproduced natively (%s): %s %s at %s inputs %s' % (
                verdict, x['kind'], x['msg'], x['where'][:400], x['inputs'][:80]) + ('' if verdict != 'none' else nout[-800:]))
    # translation check: witnesses of completed paths replayed on a native build
    if not r.viol and not problems and not h.nowit:
        try:
            exe = native_exe(h, tmp)
            todo = sorted(r.paths, key=lambda p: -len(set(p['reached'])))[:8]
            for p in todo:
                verdict, nout = native(exe, p['inputs'], os.path.join(tmp, h.name + '.wit'))
                got = re.findall(r'^VF_REACHED (.*)$', nout, re.M)
                if verdict == 'done' and got == p['reached']:
                    r.validated += 1
                else:
                    problems.append('witness diverges natively: %s: %s vs %s; %s inputs %s' % (verdict, got[:20], p['reached'][:20], nout[-600:], p['inputs'][:60]))
                    break
        except Broken as e:
            problems.append(str(e))
    if r.viol:
        r.status, r.replay = 'violation', r.viol[0][3]
        r.msg = '; '.join('%s [%s] (native: %s)' % (v[1], v[2][:160], v[4][:200]) for v in r.viol)
    elif problems:
        r.status, r.msg = 'inconclusive', '; '.join(problems)
    else:
        r.status = 'ok'
    r.wall = time.time() - t0
    return r


def first_line(o):
    for l in o.splitlines():
        if 'VF_ASSERT_FAILED' in l or 'ERROR: ' in l or 'runtime error' in l or 'WARNING: Mem' in l:
            return l.strip()
    return (o.strip().splitlines() or [''])[-1]


def tags_of(h):
    t = open(os.path.join(VERIF, 'harness', h.src)).read()
    return set(re.findall(r'VF_REACH\("([^"]*)"\)', t)) - set(h.optional)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(prop, harnesses, assumptions, tier, only=None, verbose=False):
    t0 = time.time()
    budget = int(os.environ.get('VF_BUDGET', 780 if tier == 'quick' else 14000))
    deadline = t0 + budget
    hs = [h.at(tier) for h in harnesses if (tier == 'thorough' or h.tier == 'quick') and (not only or h.name in only)]
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    replay_dir = os.path.join(VERIF, 'out', prop)
    shutil.rmtree(replay_dir, ignore_errors=True)
    known = load_known(prop)
    tok = os.path.join(tmp, 'tokens')
    nw = min(NCPU, len(hs))
    with open(tok, 'wb') as f:
        f.write((NCPU - nw).to_bytes(4, 'little') + b'\0' * 4092)
    try:
        eng = engine()
        todo, rs, lk = list(hs), [], threading.Lock()

        def worker():
            while True:
                with lk:
                    if not todo:
                        break
                    h = todo.pop(0)
                try:
                    r = check(h, tmp, tok, deadline, replay_dir, known)
                except Broken as e:
                    r = Result(h)
                    r.status, r.msg = 'inconclusive', str(e)
                except Exception:
                    import traceback
                    r = Result(h)
                    r.status, r.msg = 'inconclusive', traceback.format_exc()
                with lk:
                    rs.append(r)
                line(r, verbose)
            subprocess.call([eng, '--add-token', '--tokens', tok])
        ths = [threading.Thread(target=worker) for _ in range(nw)]
        [t.start() for t in ths]
        [t.join() for t in ths]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rs.sort(key=lambda r: [h.name for h in hs].index(r.h.name))
    viol = [r for r in rs if r.status == 'violation']
    inc = [r for r in rs if r.status == 'inconclusive']
    # vacuity: every VF_REACH of a harness source is reached by one of its harnesses
    if not viol and not inc and not only:
        for src in sorted({r.h.src for r in rs}):
            g = [r for r in rs if r.h.src == src]
            miss = set.intersection(*[tags_of(r.h) for r in g]) - set.union(*[r.reach for r in g])
            if miss:
                g[0].status, g[0].msg = 'inconclusive', 'vacuous: not reached: %s' % sorted(miss)
                inc.append(g[0])
                print('VACUOUS %s: %s' % (src, sorted(miss)))
    write_evidence(prop, tier, rs, assumptions, time.time() - t0, len(viol), known)
    seen = set()
    for r in rs:
        for k in r.known:
            if k not in seen:
                seen.add(k)
    for k in known:
        if k in seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    for r in viol:
        print('VIOLATION property=%s replay=%s' % (prop, r.replay))
    if viol:
        return 1
    if inc:
        print('INCONCLUSIVE property=%s: %s' % (prop, ', '.join(r.h.name for r in inc)))
        return 2
    return 0


def line(r, verbose):
    st = r.st
    print('%-12s %-26s paths=%-7d forks=%-7d insts=%-9d queries=%-6d solver=%.1fs checks=%-6d reach=%-2d procs=%-3d rss=%dM wall=%.1fs %s' % (
        r.status.upper(), r.h.name, st.get('paths', 0), st.get('forks', 0), st.get('insts', 0), st.get('queries', 0), st.get('solver_s', 0),
        st.get('checks', 0), len(r.reach), getattr(r, 'procs', 0), st.get('rss_mb', 0), r.wall, '' if r.status == 'ok' else r.msg if verbose else r.msg[:700]), flush=True)
    if verbose:
        for k, (b, c, u) in sorted(r.functions.items()):
            print('    %4d/%-4d %s %s' % (c, b, k, sorted(set(u)) if c < b else ''))


def write_evidence(prop, tier, rs, assumptions, wall, nviol, known):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    funcs = sorted({f for r in rs for f in r.functions})
    S = lambda k: sum(r.st.get(k, 0) for r in rs)
    cov = {
        'states': S('forks') + len(rs),
        'transitions': S('insts'),
        'traces_validated_against_impl': sum(r.validated for r in rs) + nviol,
        'paths_completed': S('paths'),
        'obligations_checked': S('checks'),
        'solver_queries': S('queries'), 'solver_sat': S('sat'), 'solver_unsat': S('unsat'), 'solver_unknown': S('unknown'),
        'solver_s': round(S('solver_s'), 2),
        'slowest_query_s': max([r.st.get('max_query_s', 0) for r in rs] or [0]),
        'functions_encoded': funcs,
        'harnesses': [{'name': r.h.name, 'source': 'harness/' + r.h.src, 'defines': list(r.h.defs), 'status': r.status, 'what': r.h.what,
                       'bounds': r.h.bounds, 'paths': r.st.get('paths', 0), 'states': r.st.get('forks', 0) + 1,
                       'instructions': r.st.get('insts', 0), 'obligations': r.st.get('checks', 0), 'witnesses_reached': sorted(r.reach),
                       'witnesses_replayed_natively': r.validated, 'solver_queries': r.st.get('queries', 0),
                       'solver_s': round(r.st.get('solver_s', 0), 2), 'wall_s': round(r.wall, 1), 'note': r.msg[:500]} for r in rs],
        'samples': [{'harness': r.h.name, 'reached': p['reached'][:20], 'inputs': p['inputs'][:64]} for r in rs for p in r.paths[:2]][:20],
        'explanation': 'Symbolic execution of the real functions (LLVM IR compiled from the current tree): every path that the solver '
                       '(Z3, bit-vectors) finds feasible for some input within the stated bounds is explored, every assertion, memory '
                       'access and branch on it is decided for all inputs of that path. states = forked symbolic states, transitions = IR '
                       'instructions interpreted, both measured by this run. Behaviour outside the bounds is not covered.',
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
                   'level': 'model_checking', 'coverage': cov, 'assumptions': list(assumptions),
                   'wall_s': round(wall, 2), 'violations': nviol}, f, indent=1)
