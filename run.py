#!/usr/bin/env python3
"""Driver: builds the harnesses of one property against /repo's working tree, runs them
under the monitors, writes evidence/<id>.json and reports violations.

usage: run.py <property> [--thorough] [--seed N] [--scale X] [--replay FILE] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
SHIM = os.path.join(VERIF, 'shim')
BUILD = os.path.join(VERIF, 'build')
NCPU = min(8, os.cpu_count() or 1)

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

COMMON = ['-std=gnu++14', '-g1', '-pthread', '-w', '-DBOOST_ALLOW_DEPRECATED_HEADERS']
VARIANTS = {
    # memory and UB monitors; pattern-initialised automatic variables make stray reads visible
    'asan': ['g++', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize=null,alignment,object-size,vptr', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern',
             '-D_GLIBCXX_ASSERTIONS'],
    # additionally libstdc++ debug containers (invalid iterators)
    'dbg': ['g++', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
            '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_DEBUG'],
    'tsan': ['g++', '-O1', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'plain': ['g++', '-O1', '-fno-omit-frame-pointer'],
    'rel': ['g++', '-O2'],
}
LIBS = ['-lglog', '-lboost_thread', '-lboost_system']
NEEDS_KINDR = {'src/CubicHermiteSE3Curve.cpp', 'src/CubicHermiteE3Curve.cpp', 'src/SlerpSE3Curve.cpp', 'src/SE3Curve.cpp'}

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:max_malloc_fill_size=1073741824:'
                    'malloc_fill_byte=203:max_free_fill_size=65536:free_fill_byte=205:detect_stack_use_after_return=1:'
                    'check_initialization_order=1:hard_rss_limit_mb=6000:allocator_may_return_null=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
    'TSAN_OPTIONS': 'suppressions=' + os.path.join(HARNESS, 'tsan.supp') + ':exitcode=97:halt_on_error=1:second_deadlock_stack=1:history_size=4',
    'LSAN_OPTIONS': 'exitcode=96',
    'GLOG_minloglevel': '3', 'GLOG_logtostderr': '1',
}


class CheckError(Exception):
    pass


class Unusable(Exception):
    """The public interface the harness uses does not compile or link any more."""


def build_failure(what, text):
    """An error inside the library's own code (an instantiation that does not compile, a symbol without
    definition) is a finding about the library; anything else is a failure of the check."""
    lib = re.search(r'^%s/\S+:\d+:\d+: (?:fatal )?error: .*' % re.escape(REPO), text, re.M) or \
        re.search(r'undefined reference to [`\']curves::.*', text)
    if lib and not re.search(r'kindr|ros::|_msgs', lib.group(0)):  # (those may be limits of the stand-ins in shim/)
        return Unusable('%s does not build against the library: %s' % (what, re.sub(r'\s+', ' ', lib.group(0))[:400]))
    return CheckError('building %s failed:\n%s' % (what, text[:3000]))


def library_sources():
    """The .cpp files of the library, as curves/CMakeLists.txt lists them."""
    path = os.path.join(REPO, 'curves', 'CMakeLists.txt')
    try:
        text = re.sub(r'#[^\n]*', '', open(path, encoding='utf-8', errors='replace').read())
        m = re.search(r'add_library\s*\(([^)]*)\)', text)
        files = re.findall(r'src/[A-Za-z0-9_./-]+\.cpp', m.group(1))
    except (OSError, AttributeError):
        files = []
    if not files:
        files = ['src/KeyGenerator.cpp', 'src/helpers.cpp', 'src/polynomial_splines_traits.cpp'] + sorted(NEEDS_KINDR)
    return [f for f in dict.fromkeys(files) if os.path.exists(os.path.join(REPO, 'curves', f))]


def compile_one(cmd, log):
    with open(log, 'wb') as f:
        return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT)


def build(stages, work):
    """Compile every (source, variant) needed; objects of the library are shared per variant."""
    jobs, links = {}, {}
    for st in stages:
        key = (st['src'], st['variant'])
        if key in links:
            continue
        v, kindr = st['variant'], st.get('kindr', False)
        flags = VARIANTS[v] + COMMON + st.get('cflags', [])
        inc = ['-I', HARNESS, '-I', os.path.join(REPO, 'curves', 'include'), '-isystem', '/usr/include/eigen3']
        if kindr:
            inc += ['-I', SHIM]
        if st.get('ros'):
            inc += ['-I', os.path.join(REPO, 'curves_ros', 'include')]
        objs = []
        srcs = []
        hsrc = os.path.join(HARNESS, st['src'])
        for p in [0] + list(st.get('parts', [])):  # heavy template instantiations are compiled side by side
            o = os.path.join(work, '%s.%d.%s.o' % (st['src'], p, v))
            jobs[o] = flags + inc + (['-DPART=%d' % p] if st.get('parts') else []) + ['-c', hsrc, '-o', o]
            objs.append(o)
        for f in library_sources():
            if f in NEEDS_KINDR and not kindr:
                continue
            if f in NEEDS_KINDR and st.get('kindr_files') is not None and f not in st['kindr_files']:
                continue
            srcs.append(os.path.join(REPO, 'curves', f))
        for f in st.get('ros', []):
            srcs.append(os.path.join(REPO, 'curves_ros', 'src', f))
        for s in srcs:
            tag = re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(s, '/')) + '.' + v + ('.k' if kindr else '')
            o = os.path.join(work, tag + '.o')
            jobs[o] = flags + inc + ['-c', s, '-o', o]
            objs.append(o)
        exe = os.path.join(work, os.path.splitext(st['src'])[0] + '.' + v)
        links[key] = (exe, flags + objs + ['-o', exe] + LIBS)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = {o: ex.submit(compile_one, c, o + '.log') for o, c in jobs.items()}
    for o, r in res.items():
        if r.result() != 0:
            raise build_failure(os.path.basename(o), open(o + '.log', errors='replace').read())
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = {e: ex.submit(compile_one, c, e + '.log') for e, c in links.values()}
    for e, r in res.items():
        if r.result() != 0:
            raise build_failure(os.path.basename(e), open(e + '.log', errors='replace').read())
    return {k: e for k, (e, _) in links.items()}


def parse_out(path):
    viol, stats = [], None
    try:
        for line in open(path, encoding='utf-8', errors='replace'):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get('type') == 'violation':
                viol.append(d)
            elif d.get('type') == 'stats':
                stats = d
    except OSError:
        pass
    return viol, stats


def summarize_report(text):
    """First telling line of a sanitizer/valgrind report."""
    for pat in (r'ERROR: AddressSanitizer: [^\n]*', r'ERROR: LeakSanitizer: [^\n]*', r'WARNING: ThreadSanitizer: [^\n]*',
                r'runtime error: [^\n]*', r'Error: [^\n]*', r'==\d+== (?:Conditional jump|Use of uninit|Invalid|Syscall param)[^\n]*',
                r'Check failed: [^\n]*', r'Assertion [^\n]*', r'terminate called[^\n]*\n?[^\n]*'):
        m = re.search(pat, text)
        if m:
            return re.sub(r'\s+', ' ', m.group(0))[:300]
    return re.sub(r'\s+', ' ', text[:300])


def run_process(cmd, env, log, timeout):
    with open(log, 'wb') as err:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, env=env,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            timed = False
        except subprocess.TimeoutExpired:
            timed = True
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    return rc, timed


def run_stage(st, exe, opts, work, idx):
    """Run one stage, sharded; returns (violations, stats list)."""
    thorough = opts.tier == 'thorough'
    cases = st['thorough' if thorough else 'quick']
    cases = max(1, int(cases * opts.scale))
    shards = 1 if st.get('serial') else min(NCPU, cases)
    limit = st.get('timeout', 300) * (8 if thorough else 1)
    runner = st.get('runner', 'direct')
    env = dict(os.environ, **SAN_ENV)
    if st.get('leaks'):
        env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')
    wrap = []
    if runner == 'valgrind':
        wrap = ['valgrind', '-q', '--error-exitcode=95', '--exit-on-first-error=yes', '--leak-check=no', '--track-origins=no']

    def one(shard, only=None, seed=None, lim=limit, tag=''):
        scratch = os.path.join(work, 'scratch-%d-%d%s' % (idx, shard, tag))
        os.makedirs(scratch, exist_ok=True)
        out = os.path.join(work, 'out-%d-%d%s.jsonl' % (idx, shard, tag))
        log = out + '.log'
        cmd = wrap + [exe, '--seed', str(opts.seed if seed is None else seed), '--cases', str(cases), '--shard', '%d/%d' % (shard, shards),
                      '--out', out, '--scratch', scratch] + (['--thorough'] if thorough else []) + st.get('args', [])
        if only is not None:
            cmd += ['--case', str(only)]
        rc, timed = run_process(cmd, env, log, lim)
        viol, stats = parse_out(out)
        text = open(log, errors='replace').read()[:20000]
        try:
            case = int(open(out + '.case').read())
        except (OSError, ValueError):
            case = None
        shutil.rmtree(scratch, ignore_errors=True)
        return dict(rc=rc, timed=timed, viol=viol, stats=stats, log=text, case=case, shard=shard)

    if opts.replay_case is not None:
        results = [one(opts.replay_shard, only=opts.replay_case)]
    else:
        with cf.ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(one, range(shards)))
    violations, stats = [], []
    for r in results:
        if r['stats']:
            stats.append(r['stats'])
        for v in r['viol']:
            violations.append(dict(stage=idx, shard=r['shard'], case=v['case'], msg=v['msg'], trace=v.get('trace', [])))
        if r['timed']:
            if any('hang' in v['msg'] for v in violations):
                continue  # one confirmed hang is enough
            again = one(r['shard'], only=r['case'] or 0, lim=120, tag='-hang')
            if again['timed']:
                violations.append(dict(stage=idx, shard=r['shard'], case=r['case'], msg='does not terminate (hang)', trace=[]))
            else:
                raise CheckError('stage %d shard %d exceeded its time limit but case %s terminates' % (idx, r['shard'], r['case']))
        elif r['rc'] == 3:
            raise CheckError('harness usage error: ' + r['log'][:500])
        elif r['rc'] != 0 or not r['stats']:
            if 'LeakSanitizer has encountered a fatal error' in r['log']:
                # leak checking is not possible in this environment (ptrace): the rest of the run still counts
                if r['stats']:
                    r['stats']['counters']['leak_check_unavailable'] = 1
                    continue
            if r['rc'] is not None and r['rc'] == -signal.SIGKILL:
                again = one(r['shard'], tag='-again')
                if again['rc'] == 0 and again['stats']:
                    stats.append(again['stats'])
                    continue
            violations.append(dict(stage=idx, shard=r['shard'], case=r['case'], trace=[], log=r['log'],
                                   msg='abnormal end (exit %s): %s' % (r['rc'], summarize_report(r['log']))))
    return violations, stats


def known_findings(prop):
    res = []
    try:
        for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt'), encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) key=\[\[(.*?)\]\] (.*)', line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    opts = ap.parse_args()
    prop = opts.property
    chk = CHECKS[prop]
    opts.tier = 'thorough' if opts.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        opts.seed = opts.seed if opts.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        opts.seed = 1
    opts.replay_case, opts.replay_shard, only_stage = None, 0, None
    if opts.replay:
        r = json.load(open(opts.replay))
        opts.seed, opts.tier, opts.scale = r['seed'], r['tier'], r.get('scale', 1.0)
        opts.replay_case, opts.replay_shard, only_stage = r['case'], r['shard'], r['stage']
    finds = known_findings(prop)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=BUILD)
    try:
        stages = [s for s in chk['stages'] if opts.tier in s.get('tiers', ('quick', 'thorough'))]
        if only_stage is not None:
            stages = [chk['stages'][only_stage]]
        violations, per_stage = [], []
        try:
            exes = build(stages, work)
        except Unusable as e:
            violations.append(dict(stage=0, shard=0, case=None, msg=str(e), trace=[]))
            stages = []
        t1 = time.time()
        for st in stages:
            idx = chk['stages'].index(st)
            v, s = run_stage(st, exes[(st['src'], st['variant'])], opts, work, idx)
            violations += v
            per_stage.append((st, s))
            if any(not any(key in x['msg'] for key, _ in finds) for x in v):
                break  # later stages would only repeat it
        # merge what the monitors saw
        distinct, counters, maxima, samples, evals, cases = set(), {}, {}, [], 0, 0
        stage_info = []
        for st, ss in per_stage:
            c = sum(x['cases'] for x in ss)
            cases += c
            evals += sum(x['evaluations'] for x in ss)
            for x in ss:
                distinct.update(x['distinct'])
                for k, n in x['counters'].items():
                    counters[k] = counters.get(k, 0) + n
                for k, n in x['maxima'].items():
                    maxima[k] = max(maxima.get(k, 0), n)
            for x in ss[:2]:
                samples += x['samples'][:2]
            stage_info.append(dict(harness=st['src'], build=st['variant'], runner=st.get('runner', 'direct'), cases=c))
        known, fresh = [], []
        for v in violations:
            k = [t for key, t in finds if key in v['msg']]
            (known if k else fresh).append((v, k))
        if not fresh and not opts.replay:
            if cases == 0 or not distinct:
                raise CheckError('the monitors observed nothing')
            for name in chk.get('must_see', []):
                if not counters.get(name):
                    raise CheckError('expected event was never observed: ' + name)
        ev = dict(property=prop, tier=opts.tier, seed=opts.seed, level=chk.get('level', 'exploration'),
                  coverage=dict(evaluations=cases, distinct_nontrivial=len(distinct), rule=chk['rule'],
                                samples=samples[:6] or ['(none)'], oracle_checks=evals, observed_events=counters,
                                worst_error_over_tolerance=maxima, stages=stage_info),
                  assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
        ev['coverage']['build_s'] = round(t1 - t0, 2)
        if not opts.replay:
            with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
                f.write('\n')
        for _, k in {t: (None, t) for _, ks in known for t in ks}.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        if fresh:
            rd = os.path.join(BUILD, 'replay')
            os.makedirs(rd, exist_ok=True)
            v = fresh[0][0]
            path = os.path.join(rd, '%s-seed%d-stage%d-case%s.json' % (prop, opts.seed, v['stage'], v['case']))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=opts.seed, tier=opts.tier, scale=opts.scale, stage=v['stage'], shard=v['shard'],
                               case=v['case'], msg=v['msg'], trace=v['trace'], log=v.get('log', ''),
                               how='python3 run.py %s --replay %s' % (prop, path),
                               others=[x[0]['msg'][:300] for x in fresh[1:10]]), f, indent=1)
            print('violation: case %s: %s' % (v['case'], v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('%s held: %d cases, %d distinct non-trivial, %d oracle checks, %.1f s (build %.1f s)' %
              (prop, cases, len(distinct), evals, time.time() - t0, t1 - t0))
        return 0
    except CheckError as e:
        print('CHECK ERROR (%s): %s' % (prop, e), file=sys.stderr)
        return 2
    finally:
        if not opts.keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
