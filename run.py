#!/usr/bin/env python3
"""Solver-based checks of scclust.

  run.py C01              run the check of property C01 (tier: VERIF_TIER, default quick)
  run.py C01 --thorough   deep tier
  run.py --replay FILE    replay a recorded counterexample against a native build of /repo
  run.py C01 --job NAME   only one job (development)

Every run copies /repo's working tree to a scratch directory, configures it there, compiles it to
LLVM IR together with the property's harness, and executes the result symbolically with engine/vse.
"""
import concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, VERIF)
import jobs as J

CLANG = shutil.which('clang') or '/usr/bin/clang'
LLVM = '/usr/lib/llvm-18/bin'
PASSES = ('internalize,globaldce,function(sroa,instsimplify,simplifycfg<no-switch-to-lookup;'
          'no-sink-common-insts;no-hoist-common-insts>,dce)')
MEM_GB = float(os.environ.get('VP_MEM_GB', '3.6'))
WORKERS = int(os.environ.get('VP_WORKERS', str(min(8, os.cpu_count() or 8))))


def sh(cmd, timeout=300, env=None, cwd=None, mem=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem * 2**30), int(mem * 2**30)))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                         env=env, cwd=cwd, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -999, '', 'timeout'


class Build:
    """Scratch copy of /repo, configured per type configuration, compiled on demand."""

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='vp.', dir=os.environ.get('TMPDIR', '/tmp'))
        self.locks = {}
        self.cache = {}
        self.glock = threading.Lock()
        tree = os.path.join(self.d, 'tree')
        os.mkdir(tree)
        for x in ('configure', 'dist_info', 'LICENSE', 'README.md', 'doxyrefs.bib', 'examples', 'include', 'src', 'templates'):
            s = os.path.join(REPO, x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(tree, x))
            elif os.path.exists(s):
                shutil.copy2(s, tree)
        b = os.path.join(self.d, 'bin')
        os.mkdir(b)
        with open(os.path.join(b, 'ed'), 'w') as f:  # GNU ed 1.20 asks before q discards the scratch buffer
            f.write("#!/bin/sh\nsed 's/^q$/Q/' | /usr/bin/ed \"$@\"\n")
        os.chmod(os.path.join(b, 'ed'), 0o755)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def once(self, key, fn):
        with self.glock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.cache:
                try:
                    self.cache[key] = fn()
                except (RuntimeError, OSError) as e:
                    self.cache[key] = RuntimeError(str(e))
            if isinstance(self.cache[key], RuntimeError):
                raise self.cache[key]
            return self.cache[key]

    def engine(self):
        def mk():
            src = [os.path.join(VERIF, 'engine', f) for f in ('core.cpp', 'core.h', 'vse.cpp')]
            pre = os.path.join(VERIF, 'build', 'vse')
            if os.path.exists(pre) and all(os.path.getmtime(pre) > os.path.getmtime(f) for f in src):
                return pre
            o = os.path.join(self.d, 'eng')
            rc, so, se = sh(['bash', os.path.join(VERIF, 'engine', 'build.sh'), o])
            if rc:
                raise RuntimeError('engine build failed: ' + se[-2000:])
            return os.path.join(o, 'vse')
        return self.once('engine', mk)

    def conf(self, name):
        def mk():
            o = os.path.join(self.d, 'out_' + name)
            os.mkdir(o)
            env = dict(os.environ)
            env['PATH'] = os.path.join(self.d, 'bin') + ':' + env.get('PATH', '/usr/bin:/bin')
            rc, so, se = sh(['sh', os.path.join(self.d, 'tree', 'configure'), '-q'] + J.CONFIGS[name], cwd=o, env=env)
            if rc or not os.path.exists(os.path.join(o, 'include', 'scclust.h')):
                raise RuntimeError('configure failed: ' + (so + se)[-2000:])
            h = os.path.join(o, 'src', 'scclust_types.h')
            for c, v in J.LIMITS.get(name, {}).items():
                t = open(h).read()
                t, n = re.subn(r'(\b%s\s*=\s*)[^;]+;' % c, r'\g<1>%d;' % v, t)
                if n != 1:
                    raise RuntimeError('no constant %s to scale down' % c)
                open(h, 'w').write(re.sub(r'(#define\s+%s\s).*' % re.sub('(ISCC|SCC)_', 'ISCC_M_', c), r'\g<1>%d' % v, t))
            return o
        return self.once(('conf', name), mk)

    def inc(self, o):
        t = os.path.join(self.d, 'tree')
        return ['-I' + o, '-I' + o + '/include', '-I' + t, '-I' + t + '/include', '-I' + VERIF + '/rt', '-I' + VERIF + '/harness']

    def sources(self, o):
        return sorted(os.path.join(o, 'src', f) for f in os.listdir(os.path.join(o, 'src'))
                      if f.endswith('.c') and f != 'digraph_debug.c')

    def compile(self, mode, name, asserts):
        """library objects: mode 'sym' (bitcode), 'asan', 'msan'"""
        def mk():
            o = self.conf(name)
            d = os.path.join(self.d, 'lib_%s_%s_%d' % (mode, name, asserts))
            os.mkdir(d)
            outs, ps = [], []
            src = self.sources(o)
            rt = [VERIF + '/rt/vp_rt.c'] + ([VERIF + '/rt/vp_libc.c'] if mode == 'sym' else [VERIF + '/rt/vp_native.c'])
            for f in src + rt:
                ofile = os.path.join(d, os.path.basename(f) + '.o')
                c = [CLANG, '-std=c99', '-c', f, '-o', ofile, '-w', '-ffp-contract=off'] + self.inc(o) + self.mode_flags(mode)
                if f in src:
                    c += ['-include', VERIF + '/rt/vp_lib.h'] + ([] if asserts else ['-DNDEBUG'])
                ps.append((f, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                outs.append(ofile)
            for f, p in ps:
                so, _ = p.communicate()
                if p.returncode:
                    raise RuntimeError('cannot compile %s: %s' % (f, so[-2000:]))
            return outs
        return self.once(('lib', mode, name, asserts), mk)

    @staticmethod
    def mode_flags(mode):
        if mode == 'sym':
            return ['-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-g', '-DVP_SYM', '-fno-builtin', '-ftrivial-auto-var-init=uninitialized']
        if mode == 'msan':
            return ['-O1', '-g', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
        return ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vla-bound', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

    def harness(self, mode, job):
        o = self.conf(job['config'])
        libs = self.compile(mode, job['config'], job.get('asserts', 0))
        d = tempfile.mkdtemp(prefix='h_', dir=self.d)
        h = os.path.join(VERIF, 'harness', job['harness'])
        defs = ['-D%s=%s' % kv for kv in job['defs'].items()]
        ho = os.path.join(d, 'h.o')
        rc, so, se = sh([CLANG, '-std=c99', '-c', h, '-o', ho, '-w', '-ffp-contract=off'] + self.inc(o) + defs + self.mode_flags(mode))
        if rc:
            raise RuntimeError('harness does not compile: ' + se[-1500:])
        if mode == 'sym':
            a, b = os.path.join(d, 'a.bc'), os.path.join(d, 'b.bc')
            rc, so, se = sh([LLVM + '/llvm-link', ho] + libs + ['-o', a])
            if rc:
                raise RuntimeError('link: ' + se[-1500:])
            rc, so, se = sh([LLVM + '/opt', '-passes=' + PASSES, '-internalize-public-api-list=main', a, '-o', b])
            if rc:
                raise RuntimeError('opt: ' + se[-1500:])
            return b
        exe = os.path.join(d, 'exe')
        rc, so, se = sh([CLANG, ho] + libs + ['-o', exe, '-lm'] + self.mode_flags(mode)[1:])
        if rc:
            raise RuntimeError('link: ' + se[-1500:])
        return exe


def run_native(exe, inputs, timeout=20):
    with tempfile.NamedTemporaryFile('w', suffix='.in', delete=False, dir=os.path.dirname(exe)) as f:
        f.write('\n'.join(inputs) + '\n')
    env = dict(os.environ, VP_INPUTS=f.name, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048',
               UBSAN_OPTIONS='print_stacktrace=1')
    rc, so, se = sh([exe], timeout=timeout, env=env)
    os.unlink(f.name)
    return rc, so + se


def classify(rc, out):
    """None: ran clean. Otherwise a short description of the failure."""
    m = re.search(r'VP-ASSERT-FAIL: (.*)', out)
    if m:
        return 'assertion: ' + m.group(1)
    if rc in (43, 44) or 'VP-ASSUME-FALSE' in out or 'VP-INPUT-' in out:
        return None
    m = re.search(r'(SUMMARY: \w+Sanitizer: .*|runtime error: .*)', out)
    if m:
        return m.group(1)[:300]
    if rc == -999:
        return 'does not terminate within the time limit'
    if rc < 0:
        return 'killed by signal %d' % -rc
    if rc != 0:
        return 'exit status %d' % rc
    return None


def replay(build, job, viol):
    """replay a model on the native build; returns description or None"""
    order = ['msan', 'asan'] if viol['kind'] == 'uninit' else ['asan', 'msan']
    log = []
    for mode in order:
        try:
            exe = build.once(('native', mode, job['name']), lambda: build.harness(mode, job))
        except RuntimeError as e:
            log.append(str(e))
            continue
        rc, out = run_native(exe, viol['inputs'])
        what = classify(rc, out)
        log.append('%s: rc=%d %s' % (mode, rc, what or 'clean'))
        if what:
            return what, mode, out[-3000:]
    return None, None, '; '.join(log)


def run_job(build, job, deadline):
    t0 = time.time()
    r = {'job': job['name'], 'harness': job['harness'], 'defs': job['defs'], 'config': job['config'], 'asserts': job.get('asserts', 0),
         'violations': [], 'unconfirmed': [], 'bounds': job.get('bounds', '')}
    try:
        bc = build.harness('sym', job)
    except RuntimeError as e:
        r['status'] = 'not built: ' + str(e)[:800]
        r['wall_s'] = time.time() - t0
        return r
    left = deadline - time.time()
    if left < 5:
        r['status'] = 'skipped: time budget of the check used up'
        r['wall_s'] = 0
        return r
    tl = min(job['time'], left)
    out = bc + '.json'
    for attempt in (0, 1):
        rc, so, se = sh([build.engine(), '--time', '%.0f' % tl, '--loop', str(job.get('loop', 3000)), '--max-violations', str(job.get('maxviol', 3)), '--out', out, bc],
                        timeout=tl + 30, mem=job.get('mem', MEM_GB))
        try:
            rep = json.load(open(out))
        except Exception:
            r['status'] = 'engine stopped (rc %s): %s' % (rc, se[-300:])
            r['wall_s'] = time.time() - t0
            return r
        if attempt == 0 and 'irreducible' in rep['status']:  # loops entered by goto: let LLVM make them natural loops
            if sh([LLVM + '/opt', '-passes=function(lowerswitch,fix-irreducible)', bc, '-o', bc + '2'])[0] == 0:
                os.replace(bc + '2', bc)
                continue
        break
    r['status'] = rep['status']
    r['stats'] = rep['stats']
    r['covers'] = rep['covers']
    r['asserts_checked'] = rep['asserts']
    r['functions'] = rep['functions']
    r['traces_validated'] = 0
    r['trace_mismatch'] = []
    for v in rep['violations']:
        what, mode, log = replay(build, job, v)
        v['replay'] = what
        v['replay_mode'] = mode
        v['replay_log'] = log
        (r['violations'] if what else r['unconfirmed']).append(v)
    wit = rep.get('witnesses', {})
    if wit and not rep['violations']:
        try:
            exe = build.once(('native', 'asan', job['name']), lambda: build.harness('asan', job))
            for m, inp in list(wit.items())[:6]:
                rc, o = run_native(exe, inp)
                if classify(rc, o) is None and ('VP-COVER: ' + m) in o:
                    r['traces_validated'] += 1
                else:
                    r['trace_mismatch'].append({'cover': m, 'rc': rc, 'out': o[-600:], 'inputs': inp})
        except RuntimeError as e:
            r['trace_mismatch'].append({'error': str(e)[:500]})
        r['sample_inputs'] = {m: ' '.join(x) for m, x in list(wit.items())[:2]}
    shutil.rmtree(os.path.dirname(bc), ignore_errors=True)
    r['wall_s'] = round(time.time() - t0, 2)
    return r


def known_findings():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                f = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', l))
                r.append({k: v.strip('"') for k, v in f.items()})
    return r


def is_known(pid, job, v):
    for k in known_findings():
        if k.get('property') == pid and (k.get('harness') in (None, job['harness'])) and k.get('msg') == v['msg'] and (k.get('func') in (None, v['func'].split(' ')[0])):
            return k
    return None


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        f = json.load(open(a[1]))
        b = Build()
        try:
            what, mode, log = replay(b, f['job'], f['violation'])
            print(log)
            print('REPRODUCED: ' + what if what else 'not reproduced')
            return 1 if what else 0
        finally:
            b.close()
    pid = a[0]
    tier = 'thorough' if '--thorough' in a else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    todo = J.jobs_for(pid, tier)
    if '--adhoc' in a:  # development: run.py X01 --adhoc 'sc.c N=5 K=2 ...' ...
        todo = []
        for x in a[a.index('--adhoc') + 1:]:
            w = x.split()
            d = dict(t.split('=') for t in w[1:])
            todo.append(J.job(x, w[0], time=int(d.pop('time', 200)), config=d.pop('config', 'default'), asserts=int(d.pop('asserts', 0)), **d))
    if '--job' in a:
        todo = [j for j in todo if re.search(a[a.index('--job') + 1], j['name'])]
    budget = J.BUDGET[tier]
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rdir = os.path.join(ev, 'replay')
    build = Build()
    res = []
    try:
        build.engine()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            fs = {ex.submit(run_job, build, j, t0 + budget): j for j in sorted(todo, key=lambda j: -j['time'])}
            for f in cf.as_completed(fs):
                r = f.result()
                res.append((fs[f], r))
                st = r.get('stats', {})
                print('%-40s %-22s %6.1fs solver %6.1fs queries %d%s' % (r['job'], r['status'][:200], r['wall_s'], st.get('solver_time', 0),
                      st.get('sat_calls', 0) + st.get('smt_calls', 0), ' VIOLATIONS %d' % len(r['violations']) if r['violations'] else ''), flush=True)
                for m, c in r.get('covers', {}).items():
                    if not c:
                        print('   not reached: ' + m)
                for t in r.get('trace_mismatch', []):
                    print('   trace mismatch: ' + json.dumps(t)[:700])
                for v in r['unconfirmed']:
                    print('   unconfirmed (not reported): %s: %s @%s:%s %s [%s]' % (v['kind'], v['msg'], v['file'], v['line'], v['func'], v['replay_log'][:300]))
    finally:
        build.close()
    nviol = 0
    lines = []
    for j, r in res:
        for i, v in enumerate(r['violations']):
            k = is_known(pid, j, v)
            what = '%s: %s (%s:%s in %s; job %s; native replay: %s)' % (v['kind'], v['msg'], os.path.basename(v['file']), v['line'], v['func'].split(' ')[0], j['name'], v['replay'])
            if k:
                lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, '%s_%s_%d.json' % (pid, re.sub(r'\W', '_', j['name']), i))
            json.dump({'property': pid, 'job': j, 'violation': v}, open(p, 'w'), indent=1)
            lines.append('  ' + what)
            lines.append('VIOLATION property=%s replay=%s' % (pid, p))
    evidence(pid, tier, res, nviol, time.time() - t0, ev)
    for l in dict.fromkeys(lines):
        print(l)
    done = sum(1 for j, r in res if r['status'] == 'complete')
    print('%s %s: %d/%d harness runs decided completely, %d violation(s), %.1fs' % (pid, tier, done, len(res), nviol, time.time() - t0))
    return 1 if nviol else 0


def evidence(pid, tier, res, nviol, wall, ev):
    S = lambda k: sum(r.get('stats', {}).get(k, 0) for _, r in res)
    funcs = sorted({re.sub(r'\.\d+$', '', f) for _, r in res for f in r.get('functions', []) if re.match(r'i?scc_', f)})
    done = [r for _, r in res if r['status'] == 'complete']
    cov = {
        'states': int(S('aig_nodes')),
        'transitions': int(S('instructions')),
        'traces_validated_against_impl': int(sum(r.get('traces_validated', 0) for _, r in res)),
        'samples': [{'job': r['job'], 'inputs': x} for _, r in res for x in [r.get('sample_inputs')] if x][:4] or
                   [{'job': r['job'], 'status': r['status']} for _, r in res][:2],
        'explanation': 'Symbolic execution of the LLVM IR of /repo; states = nodes of the guard circuit built, transitions = IR instructions executed '
                       'symbolically (each covers every input within the bounds); traces_validated = solver-produced inputs replayed on a sanitized native build with the same outcome.',
        'runs_complete': len(done), 'runs_total': len(res),
        'queries': {'sat': int(S('sat_calls')), 'smt': int(S('smt_calls')), 'unsat': int(S('unsat')), 'sat_results': int(S('sat')), 'unknown': int(S('unknown'))},
        'assertion_checks': int(S('assert_checks')), 'memory_checks': int(S('memory_checks')),
        'solver_time_s': round(S('solver_time'), 2),
        'functions_encoded': funcs,
        'runs': [{k: r.get(k) for k in ('job', 'harness', 'defs', 'config', 'status', 'bounds', 'wall_s', 'covers', 'traces_validated')} for _, r in sorted(res, key=lambda x: x[0]['name'])],
        'not_decided': [{'job': r['job'], 'status': r['status']} for _, r in res if r['status'] != 'complete'],
        'unconfirmed_counterexamples': [v['kind'] + ': ' + v['msg'] for _, r in res for v in r['unconfirmed']],
        'exhaustive': len(done) == len(res),
    }
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
               'assumptions': J.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol}, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
