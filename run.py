#!/usr/bin/env python3
"""Run-time monitoring checks for quadrotor_model.

  run.py <property> [quick|thorough]     build the monitors of one property from /repo's working tree, run them
  run.py --setup                         verify the toolchain
  run.py --replay <file>                 run a recorded violating case again, verbosely
  run.py --all [quick|thorough]          every check, one after another

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check could not be carried out (build failure, timeout that did not repeat).
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(HERE, 'harness')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
from config import CHECKS, RULES, ASSUME  # noqa: E402

INC = ['-std=c++17', '-w', '-I' + REPO + '/multirotor_simulator', '-I' + REPO + '/pid_controller/include',
       '-isystem', '/usr/include/eigen3', '-I' + H]
VARIANTS = {
    # memory errors, undefined behaviour, library and Eigen assertions; uninitialised Eigen objects become NaN
    'san': ['clang++', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow',
            '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DEIGEN_INITIALIZE_MATRICES_BY_NAN', '-DV_SAN'],
    # what users run: gcc, optimised, assertions off
    'rel': ['g++', '-O2', '-DNDEBUG', '-DV_REL', '-pthread'],
    'msan': ['clang++', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=memory',
             '-fno-sanitize-recover=all', '-DNDEBUG', '-DV_MSAN'],
    'tsan': ['clang++', '-O1', '-fno-omit-frame-pointer', '-g1', '-fsanitize=thread', '-DV_TSAN', '-pthread'],
}
ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:handle_abort=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:abort_on_error=1',
           MSAN_OPTIONS='abort_on_error=1:intercept_memcmp=0', TSAN_OPTIONS='halt_on_error=1:abort_on_error=1')
INST = {p + str(n): ['-DTP=' + t, '-DNR=%d' % n] for p, t in (('d', 'double'), ('f', 'float')) for n in range(1, 17)}


def sh(cmd, timeout, log):
    """returns (returncode or None on timeout)"""
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            return None


def tail(path, n=40, size=4000):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - 200000))
            t = f.read().decode('utf8', 'replace')
    except OSError:
        return ''
    m = re.search(r'(==\d+==(ERROR|WARNING).*|.*runtime error:.*|.*Assertion.*|WARNING: ThreadSanitizer.*)', t, re.S)
    if m:
        return m.group(1)[:size]
    return '\n'.join(t.splitlines()[-n:])[-size:]


def sanitizer_unusable(log):
    """the sanitizer itself cannot run in this environment; says nothing about the code"""
    t = open(log, errors='replace').read(200000)
    m = re.search(r'WARNING: MemorySanitizer.*', t, re.S)
    if m:  # the stream and string library is not instrumented: a report raised inside it is not about this code
        for l in m.group(0).splitlines()[1:]:
            if re.search(r'/harness/|/repo/|multirotor_simulator/|pid_controller/', l):
                break
            if re.search(r'libstdc\+\+\.so|/(ostream|istream|sstream|iomanip|basic_string|locale_|char_traits|ostream_insert|basic_ios)', l):
                return True
    return bool(re.search(r'FATAL: ThreadSanitizer|LeakSanitizer has encountered a fatal error|Shadow memory range interleaves|'
                          r'FATAL: MemorySanitizer|ReserveShadowMemoryRange failed', t))


def crash_key(text, rc):
    for pat, k in ((r'AddressSanitizer: ([\w-]+)', 'asan-'), (r'MemorySanitizer: ([\w-]+)', 'msan-'),
                   (r'ThreadSanitizer: ([\w -]+?)[\s(]*\n', 'tsan-'), (r'LeakSanitizer', 'leak')):
        m = re.search(pat, text)
        if m:
            return 'crash/' + k + (m.group(1).strip().replace(' ', '-') if m.groups() else '')
    if 'runtime error' in text:
        return 'crash/ubsan'
    if 'Assertion' in text:
        return 'crash/assertion'
    return 'crash/exit%d' % rc


class Job:
    def __init__(self, prop, src, inst, var, defs, cases):
        self.prop, self.src, self.inst, self.var, self.defs, self.cases = prop, src, inst, var, defs, cases
        self.name = '%s-%s-%s' % (os.path.splitext(src)[0], inst, var)
        if defs:
            self.name += '-' + re.sub(r'\W+', '', ''.join(defs))
        self.exe = None

    def compile_cmd(self, exe):
        v = VARIANTS[self.var]
        return [v[0]] + INC + v[1:] + INST[self.inst] + self.defs + [os.path.join(H, self.src), '-o', exe]


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        for t in ('clang++', 'g++'):
            subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
        assert os.path.isdir('/usr/include/eigen3/Eigen')
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('setup ok: %d checks configured' % len(CHECKS))
        return 0
    if a and a[0] == '--replay':
        return replay(a[1])
    if a and a[0] == '--all':
        tier = a[1] if len(a) > 1 else 'quick'
        bad = 0
        for p in sorted(CHECKS):
            t = time.time()
            r = check(p, tier)
            print('%s %s exit %d %.1fs' % (p, tier, r, time.time() - t), flush=True)
            bad |= r
        return bad
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(a[0], tier)


def replay(path):
    d = json.load(open(path))
    j = Job(d['property'], d['src'], d['inst'], d['variant'], d['defs'], 0)
    bd = os.path.join(BUILD, 'replay')
    os.makedirs(bd, exist_ok=True)
    exe = os.path.join(bd, j.name)
    subprocess.run(j.compile_cmd(exe), check=True)
    cmd = [exe, '--seed', str(d['seed']), '-v', '--cases', str(d['cases'])]
    if d['case'] >= 0:
        cmd += ['--only', str(d['case'])]
    r = subprocess.run(cmd, env=ENV)
    print('replay exit', r.returncode)
    return 0 if r.returncode == 0 else 1


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    conf = CHECKS[prop]
    bd = os.path.join(BUILD, prop + '-' + tier + ('' if REPO == '/repo' else '-' + str(abs(hash(REPO)))))
    shutil.rmtree(bd, ignore_errors=True)
    os.makedirs(bd)
    rp = os.path.join(HERE, 'replays')
    os.makedirs(rp, exist_ok=True)
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == prop]
    jobs = [Job(prop, *j) for j in conf['jobs'](tier)]
    errors, findings, results, skipped = [], [], [], []

    def build(j):
        exe = os.path.join(bd, j.name)
        log = exe + '.build.log'
        rc = sh(j.compile_cmd(exe), 600, log)
        if rc == 0:
            j.exe = exe
        return j, rc, log

    def run(j):
        out, prog, log = j.exe + '.json', j.exe + '.prog', j.exe + '.log'
        lim = conf.get('timeout', 240) * (1 if tier == 'quick' else 20)
        cmd = [j.exe, '--seed', str(seed), '--cases', str(j.cases), '--out', out, '--progress', prog]
        rc = sh(cmd, lim, log)
        at = -1
        try:
            at = int.from_bytes(open(prog, 'rb').read(8), 'little', signed=True)
        except OSError:
            pass
        if rc is None:  # a timeout is inconclusive unless the same single case hangs again on its own
            rc2 = sh([j.exe, '--seed', str(seed), '--cases', str(j.cases), '--only', str(at)], 90, log + '2')
            if rc2 is None:
                return j, [{'key': 'hang', 'case': at, 'msg': 'case does not end (90 s alone, normally milliseconds)'}], None, None
            if rc2 not in (0, 1):
                t = tail(log + '2')
                return j, [{'key': crash_key(t, rc2), 'case': at, 'msg': t}], None, None
            return j, [], None, '%s: time limit (%d s) without a repeatable hang' % (j.name, lim)
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError as e:
                return j, [], None, '%s: unreadable result: %s' % (j.name, e)
            fs = d['failures']
            if rc not in (0, 1) and not sanitizer_unusable(log):  # e.g. leak report at exit
                t = tail(log)
                fs = fs + [{'key': crash_key(t, rc), 'case': -1, 'msg': t}]
            return j, fs, d, None
        if sanitizer_unusable(log):
            skipped.append(j.name)
            return j, [], None, None
        t = tail(log)
        if rc == 137 or rc == -9:
            return j, [], None, '%s: killed' % j.name
        return j, [{'key': crash_key(t, rc), 'case': at, 'msg': t}], None, None

    with cf.ThreadPoolExecutor(8) as ex:
        built = list(ex.map(build, sorted(jobs, key=lambda j: j.var != 'san')))
    ok = [j for j, rc, _ in built if rc == 0]
    for j, rc, log in built:
        if rc == 0:
            continue
        t = '\n'.join([l for l in open(log, errors='replace').read().splitlines() if 'error' in l][:8])[:3000]
        base_ok = any(o.inst == 'd4' and o.src == j.src for o in ok)
        if conf.get('compile_is_property') and base_ok and j.inst != 'd4' and rc is not None:
            findings.append((j, {'key': 'does-not-compile', 'case': -1,
                                 'msg': 'the instantiation %s does not compile although d4 does: %s' % (j.inst, t)}))
        else:
            errors.append('%s does not build: %s' % (j.name, t))
    with cf.ThreadPoolExecutor(8) as ex:
        for j, fs, d, err in ex.map(run, ok):
            if err:
                errors.append(err)
            if d:
                results.append((j, d))
            for f in fs:
                findings.append((j, f))

    # classify
    viol, seen_known = [], {}
    for j, f in findings:
        hit = next((k for k in known if k['key'] == f['key']), None)
        if hit:
            seen_known.setdefault(hit['key'], (hit, j, f))
        else:
            viol.append((j, f))
    for k, (hit, j, f) in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))

    # coverage
    ev = sum(d['evaluations'] for _, d in results)
    bins = {}
    samples = []
    for j, d in results:
        for k, v in d['bins'].items():
            bins[k] = bins.get(k, 0) + v
    for i in range(4):
        for j, d in results:
            if i < len(d['samples']) and len(samples) < 8:
                samples.append('%s %s' % (j.name, d['samples'][i]))
    missing = [b for b in conf.get('require', []) if not any(re.fullmatch(b, k) for k in bins)]
    evid = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': sum(d['distinct'] for _, d in results),
            'rule': RULES[prop],
            'samples': samples,
            'cases': sum(d['cases'] for _, d in results),
            'observed': dict(sorted(bins.items())),
            'builds': [j.name for j, _ in results],
            'builds_whose_sanitizer_cannot_run_here': skipped,
            'known_findings_seen': sorted(seen_known),
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)

    if viol:
        seen = set()
        for j, f in viol:
            if f['key'] in seen:
                continue
            seen.add(f['key'])
            path = os.path.join(rp, '%s-%s-%s.json' % (prop, re.sub(r'\W+', '_', f['key'])[:60], j.name))
            with open(path, 'w') as o:
                json.dump({'property': prop, 'key': f['key'], 'message': f['msg'], 'src': j.src, 'inst': j.inst,
                           'variant': j.var, 'defs': j.defs, 'seed': seed, 'case': f['case'], 'cases': j.cases,
                           'how': 'python3 /verif/run.py --replay ' + path}, o, indent=1)
            if len(seen) <= 6:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('  %s [%s, case %s]: %s' % (f['key'], j.name, f['case'], f['msg'][:600]))
        shutil.rmtree(bd, ignore_errors=True)
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 2
    if missing or not ev:
        print('ERROR inconclusive: the workload never produced %s' % (missing or 'any observation'))
        return 2
    print('%s held: %d oracle evaluations on %d cases, %d distinct non-trivial, %d builds, %.1f s' % (
        prop, ev, evid['coverage']['cases'], evid['coverage']['distinct_nontrivial'], len(results), time.time() - t0))
    shutil.rmtree(bd, ignore_errors=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
