#!/usr/bin/env python3
"""Driver of the checks: build the generated-input harness of one property from /repo's working tree, explore, report.

  run.py ID quick|thorough        explore; exit 0 held / exit 1 + VIOLATION line
  run.py ID replay FILE           run one recorded case again (exit 1 if it still fails)
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(VERIF, 'src')
JOBS = min(8, os.cpu_count() or 8)
CXX = 'g++'
FLAGS = ['-std=gnu++17', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
# P24 looks for data races instead of memory errors
THREADFLAGS = [f for f in FLAGS if not f.startswith('-fsanitize') and not f.startswith('-fno-sanitize')] + ['-fsanitize=thread']
PLAINFLAGS = [f for f in THREADFLAGS if not f.startswith('-fsanitize')] + ['-pthread']
FUZZCXX = 'clang++'
FUZZFLAGS = ['-std=gnu++17', '-O1', '-g1', '-w', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all', '-DPBT_FUZZ']
# number of generated cases of the quick tier (calibrated to roughly 20-30 s of exploration on 8 cores)
CASES = json.load(open(os.path.join(VERIF, 'cases.json')))
THOROUGH_FACTOR = 12
QUICK_CAP, THOROUGH_CAP = 240, 1500
FUZZ_SECONDS = 240
THREADED = ('P24',)
NO_FUZZ = ('P24', 'P27')   # P27: the guard it is about is one of g++

def log(*a):
    print(*a, flush=True)

def env():
    e = dict(os.environ)
    for k in ('CPATH', 'CPLUS_INCLUDE_PATH', 'CXXFLAGS', 'LDFLAGS'):
        e.pop(k, None)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_segv=1:symbolize=0'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:symbolize=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:symbolize=0'
    e['LC_ALL'] = 'C'
    return e

class BuildError(Exception):
    def __init__(self, what, cmd, err):
        self.what, self.cmd, self.err = what, cmd, err

def compile_one(cxx, flags, src, obj):
    # a source can ask for options of its own, in place of the optimisation level and the sanitizers
    first = open(src).readline()
    if first.startswith('// options: '):
        flags = [f for f in flags if not f.startswith(('-O', '-fsanitize', '-fno-sanitize'))] + first[len('// options: '):].split()
    cmd = [cxx] + flags + ['-I' + os.path.join(REPO, 'include'), '-MMD', '-MF', obj + '.d', '-c', src, '-o', obj]
    r = None
    for attempt in range(2):
        r = subprocess.run(cmd, capture_output=True, text=True, env=env(), cwd=SRC)
        if r.returncode == 0:
            return None
        time.sleep(1)
    return BuildError(os.path.basename(src), ' '.join(cmd), r.stderr)

def build(pid, out, cxx, flags):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    srcs = sorted(glob.glob(os.path.join(SRC, 'props', pid + '_*.cpp')))
    if not srcs:
        raise SystemExit('no sources for ' + pid)
    engine = os.path.join(SRC, 'pbt_main.cpp')
    objs, errs = [], []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = []
        for s in srcs + [engine]:
            o = os.path.join(out, os.path.basename(s) + '.o')
            objs.append(o)
            futs.append((s, ex.submit(compile_one, cxx, flags, s, o)))
        for s, f in futs:
            if f.result():
                errs.append((s, f.result()))
    for s, e in errs:
        if s == engine:
            sys.stderr.write(e.err)
            raise SystemExit(2)      # the toolchain, not the code under test
    if errs:
        raise errs[0][1]
    # the headers under test must be the ones in /repo, never an installed copy
    for o in objs:
        deps = open(o + '.d').read()
        for d in re.findall(r'\S+boost/accumulators/\S+', deps):
            if not os.path.realpath(d).startswith(os.path.realpath(REPO) + '/'):
                log('note: header taken from outside the repository:', d)
                raise BuildError('include path', d, 'a header of the library is missing from the repository: ' + d)
    exe = os.path.join(out, 'prog')
    link = [cxx] + [f for f in flags if f.startswith('-fsanitize') or f == '-pthread'] + objs + ['-lboost_serialization', '-o', exe]
    r = subprocess.run(link, capture_output=True, text=True, env=env())
    if r.returncode:
        # undefined or duplicate symbols come from the headers under test
        raise BuildError('link', ' '.join(link), r.stderr)
    return exe

def replay_path(pid, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.replay' % (pid, tier))

def known_findings(pid):
    out = []
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'open: property=(\S+) test=(\S+) (.*)', line)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3).strip()))
    return out

def fuzz(pid, out, seed, replay, prog, stats):
    exe = build(pid, out, FUZZCXX, FUZZFLAGS)
    e = env()
    e['PBT_FUZZ_OUT'] = os.path.join(out, 'mirror')
    procs, t0 = [], time.time()
    for j in range(JOBS):
        corp = os.path.join(out, 'corpus%d' % j)
        os.makedirs(corp)
        lg = open(os.path.join(out, 'fuzz%d.log' % j), 'w')
        p = subprocess.Popen([exe, '-seed=%d' % (seed * 100 + j + 1), '-max_total_time=%d' % FUZZ_SECONDS, '-max_len=3000', '-len_control=20', '-rss_limit_mb=3500',
                              '-timeout=60', '-print_final_stats=1', '-artifact_prefix=' + out + '/art%d-' % j, corp], stdout=lg, stderr=lg, env=e, cwd=out)
        procs.append((j, p, lg))
    bad, units = [], 0
    for j, p, lg in procs:
        rc = p.wait()
        lg.close()
        txt = open(os.path.join(out, 'fuzz%d.log' % j), errors='replace').read()
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', txt)
        units += int(m.group(1)) if m else 0
        if rc != 0:
            bad.append((j, p.pid))
    stats['fuzz_executions'] = units
    stats['fuzz_s'] = round(time.time() - t0, 1)
    for j, fpid in bad:
        mir = os.path.join(out, 'mirror.%d' % fpid)
        if not os.path.exists(mir):
            continue
        # replay the choices in the plain harness, shrink, confirm three times
        r = subprocess.run([prog, 'fuzzmirror', mir, replay], capture_output=True, text=True, env=env())
        log(r.stdout)
        if r.returncode == 1:
            return True
        log('fuzzer %d stopped on a case that the plain harness does not reproduce; not counted' % j)
    return False

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    work = os.path.join(VERIF, '.build', pid + '-' + tier)
    t0 = time.time()
    replay = replay_path(pid, tier)
    if tier != 'replay' and os.path.exists(replay):
        os.unlink(replay)
    violations, results, stats = 0, [], {}
    try:
        prog = build(pid, work, CXX, THREADFLAGS if pid in THREADED else FLAGS)
        if pid in THREADED:
            r = subprocess.run([prog, 'list'], capture_output=True, text=True, env=env())
            if r.returncode != 0:   # the thread sanitizer cannot run on every kernel: compare results only
                log('note: the thread sanitizer does not start here (%s); results are compared without it' % r.stderr.strip()[:200])
                stats['thread_sanitizer'] = 'does not start here'
                prog = build(pid, work, CXX, PLAINFLAGS)
    except BuildError as e:
        log('the harness no longer builds against the tree: %s\n%s' % (e.what, e.err[:3000]))
        with open(replay, 'w') as f:
            f.write('build failure: documented use of the library no longer compiles\ncommand: %s\n%s\n' % (e.cmd, e.err[:20000]))
        write_evidence(pid, tier, seed, [], stats, t0, 1, 'a use of the public interface made by the harness no longer compiles: ' + e.what)
        log('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    stats['build_s'] = round(time.time() - t0, 1)
    if tier == 'replay':
        return subprocess.run([prog, 'replay', sys.argv[3]], env=env()).returncode
    # known findings: a probe of its own each; suppresses nothing else
    for test, text in known_findings(pid):
        o = os.path.join(work, 'known.json')
        r = subprocess.run([prog, 'run', '--only', test, '--cases', '200', '--seed', '1', '--jobs', '2', '--out', o, '--replay-out', os.path.join(work, 'known.replay')], capture_output=True, text=True, env=env())
        if r.returncode == 1:
            log('KNOWN-FINDING: property=%s %s' % (pid, text))
    n = CASES.get(pid, 100000)
    cap = QUICK_CAP
    if tier == 'thorough':
        n, cap = n * THOROUGH_FACTOR, THOROUGH_CAP
    o = os.path.join(work, 'run.json')
    r = subprocess.run([prog, 'run', '--cases', str(n), '--seed', str(seed), '--jobs', str(JOBS), '--cap', str(cap), '--out', o, '--replay-out', replay], env=env(), stdout=subprocess.PIPE, text=True)
    log(r.stdout)
    res = json.load(open(o)) if os.path.exists(o) else {'tests': [], 'cases': 0, 'distinct_nontrivial': 0}
    results.append(res)
    if r.returncode == 1:
        violations = 1
    elif r.returncode != 0:
        log('harness error %d' % r.returncode)
        return 2
    elif tier == 'thorough' and FUZZ_SECONDS and pid not in NO_FUZZ:
        try:
            if fuzz(pid, work + '-fuzz', seed, replay, prog, stats):
                violations = 1
        except BuildError as e:
            log('fuzz build failed, random exploration only:', e.what, e.err[:500])
        shutil.rmtree(work + '-fuzz', ignore_errors=True)
    write_evidence(pid, tier, seed, results, stats, t0, violations, None)
    shutil.rmtree(work, ignore_errors=True)
    log('%s %s: %d cases, %d distinct non-trivial, %.1f s' % (pid, tier, res['cases'], res['distinct_nontrivial'], time.time() - t0))
    if violations:
        log('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0

def write_evidence(pid, tier, seed, results, stats, t0, violations, note):
    ev = sum(r['cases'] for r in results) + stats.get('fuzz_executions', 0)
    nt = sum(r['distinct_nontrivial'] for r in results)
    samples, rules, per = [], [], []
    for r in results:
        for t in r['tests']:
            rules.append('%s: %s' % (t['name'], t['rule']))
            per.append({k: t[k] for k in ('name', 'cases', 'budget', 'discarded', 'nontrivial', 'distinct_nontrivial', 'cpu_s', 'max_choices', 'labels')})
            for s in t['samples'][:2]:
                samples.append('%s: %s' % (t['name'], s[:600]))
    if not samples:
        samples = ['(none: the run stopped at a violation)' if violations else '(none)']
    assumptions = [a for a in ASSUMPTIONS.get('*', []) + ASSUMPTIONS.get(pid, [])]
    if note:
        assumptions.append(note)
    d = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
         'coverage': {'evaluations': ev, 'distinct_nontrivial': nt, 'rule': 'distinct choice sequences counted as non-trivial per generator: ' + '; '.join(rules), 'samples': samples,
                      'per_generator': per, **stats},
         'assumptions': assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(d, f, indent=1)

ASSUMPTIONS = json.load(open(os.path.join(VERIF, 'assumptions.json')))

if __name__ == '__main__':
    sys.exit(main())
