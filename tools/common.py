"""Shared machinery: scratch copies and builds of /repo, simulation of the specification, replay, verdicts."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
sys.set_int_max_str_digits(0)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BI_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/vp/venv/bin/python'
JOBS = min(8, os.cpu_count() or 4)
ROUTES = 16


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=600, env=None, cwd=None, check=False, stdin=None):
    """A command in its own process group, all of it killed at the timeout. Returns (rc, out, err); rc None = timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         env=env, cwd=cwd, start_new_session=True, text=True, errors='replace')
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = None
    if check and rc != 0:
        raise ToolError('%s: exit %s\n%s\n%s' % (' '.join(map(str, cmd)), rc, o[-3000:], e[-3000:]))
    return rc, o, e


# ------------------------------------------------------------------ building the tree under test
FLAVOURS = {
    'plain': ['-O2', '-g1'],
    'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
    'count': ['-O2', '-g1', '-DBI_COUNT', '-DBI_FAULT'],
    'asanf': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DBI_FAULT'],
    'cov': ['-O0', '-g1', '--coverage'],
}


class Build:
    """A copy of the library's sources in a scratch directory and the drivers built from it."""

    def __init__(self, scratch):
        self.dir = scratch
        self.src = os.path.join(scratch, 'repo')
        os.makedirs(self.src, exist_ok=True)
        for d in ('src', 'include', 'bindings'):
            if os.path.isdir(os.path.join(REPO, d)):
                shutil.copytree(os.path.join(REPO, d), os.path.join(self.src, d))
        v = os.path.join(self.src, 'include/public/bigintegercpp/version.h')
        if not os.path.exists(v):
            with open(v, 'w') as f:
                f.write('#pragma once\n#define BIGINTEGERCPP_VERSION "0"\n')

    def lib_sources(self):
        return sorted(glob.glob(self.src + '/src/**/*.cpp', recursive=True))

    def objects(self, flavour, pool):
        d = os.path.join(self.dir, flavour)
        os.makedirs(d, exist_ok=True)
        inc = ['-I' + self.src + '/include', '-I' + self.src + '/include/public']
        jobs, lib = [], []
        extra = [os.path.join(VERIF, 'harness', x) for x in {'count': ['count.cpp', 'fault.cpp'], 'asanf': ['fault.cpp']}.get(flavour, [])]
        for s in self.lib_sources() + extra + [os.path.join(VERIF, 'harness/driver.cpp')]:
            o = os.path.join(d, os.path.relpath(s, '/').replace('/', '_') + '.o')
            jobs.append(pool.submit(run, ['g++', '-std=c++17', '-w', '-pthread', '-fPIC', *FLAVOURS[flavour], *inc, '-c', s, '-o', o], 600, None, None, True))
            lib.append(o)
        return jobs, lib

    def driver(self, flavour, pool):
        """Starts the compilation; returns a function that waits for it and gives the path of the driver."""
        jobs, lib = self.objects(flavour, pool)
        exe = os.path.join(self.dir, flavour, 'driver')
        lock = threading.Lock()
        done = []

        def get(order=0):
            with lock:
                if not done:
                    for j in jobs:
                        j.result()
                    for k in (0, 1):  # the library after, and before, the driver in initialisation order
                        ob = lib[-1:] + lib[:-1] if k else lib
                        run(['g++', '-pthread', *FLAVOURS[flavour], *ob, '-o', exe + ('B' if k else '')], 600, check=True)
                    done.append(1)
            return exe + ('B' if order else '')
        return get


# ------------------------------------------------------------------ simulating the specification
def val(x):
    if isinstance(x, dict):
        return int(x['#bigint'])
    return x


def hexint(x):
    return format(x, 'x')


def event_line(ev, route):
    return '%s %d %s %s | %s' % (ev['op'], route, ev['e'] or '-', ' '.join(hexint(val(x)) for x in ev['a']), ' '.join(hexint(val(x)) for x in ev['r']))


def quint_run(module, outdir, tag, seed, samples, steps, init='init', step='step', invariant='lawful', spec=SPEC, timeout=900, var='ev', keep=None):
    """Behaviours of a module as one event per line; each behaviour ends with a line '#'."""
    d = os.path.join(outdir, tag)
    os.makedirs(d, exist_ok=True)
    cmd = ['quint', 'run', os.path.join(spec, module + '.qnt'), '--backend', 'typescript', '--main', module, '--init', init, '--step', step,
           '--invariant', invariant, '--max-samples', str(samples), '--n-traces', str(samples), '--max-steps', str(steps), '--seed', str(seed),
           '--out-itf', os.path.join(d, 't_{seq}.itf.json'), '--verbosity', '1']
    env = dict(os.environ, NODE_OPTIONS='--max-old-space-size=3500')
    rc, o, e = run(cmd, timeout, env=env)
    if rc != 0:
        raise ToolError('specification %s, %s: exit %s\n%s\n%s' % (module, tag, rc, o[-2000:], e[-2000:]))
    lines = []
    states = traces = 0
    files = sorted(glob.glob(d + '/t_*.itf.json'), key=lambda p: int(re.findall(r't_(\d+)', p)[-1]))
    for f in files:
        with open(f) as h:
            t = json.load(h)
        os.unlink(f)
        traces += 1
        for s in t['states']:
            states += 1
            ev = s[var]
            if ev['op'] in ('init', 'skip'):
                continue
            lines.append(event_line(ev, (len(lines) * 7 + seed + len(lines) // 16) % ROUTES))
    shutil.rmtree(d, ignore_errors=True)
    if not lines:
        raise ToolError('specification %s, %s: no behaviours\n%s\n%s' % (module, tag, o, e))
    return lines, states, traces


# ------------------------------------------------------------------ replaying on the library
def driver_env(flavour, kinds, extra=None):
    env = dict(os.environ)
    env['BI_KINDS'] = kinds
    env['BI_WATCHDOG'] = '30' if flavour == 'plain' else '90'
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:allocator_may_return_null=0'
    env['TSAN_OPTIONS'] = 'exitcode=67:halt_on_error=1:second_deadlock_stack=1'
    env.update(extra or {})
    return env


def limited(cmd, gb):
    return ['bash', '-c', 'ulimit -v %d; ulimit -c 0; exec "$@"' % (gb << 20), 'x'] + cmd


def crash_text(rc, err):
    if rc == 66 or 'AddressSanitizer' in err:
        m = re.search(r'AddressSanitizer:? ([^\n]*)', err)
        at = [x for x in re.findall(r'#\d+ 0x[0-9a-f]+ in (.*?) (?:/|\()', err) if 'asan' not in x][:4]
        return 'AddressSanitizer: %s%s' % (m.group(1)[:160] if m else '', ' in ' + ' < '.join(at) if at else '')
    if rc == 67 or 'ThreadSanitizer' in err:
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n]*)', err)
        at = re.findall(r'#\d+ (.*?) (?:/|<)', err)[:4]
        return 'ThreadSanitizer: %s%s' % (m.group(1)[:160] if m else '', ' in ' + ' < '.join(at) if at else '')
    if rc is None:
        return 'no answer in time'
    if rc in (-signal.SIGALRM, 128 + signal.SIGALRM):
        return 'the call does not return'
    a = re.search(r'Assertion [^\n]*', err)
    if a:
        return 'abort: ' + a.group(0)[:200]
    if rc < 0 or rc > 128:
        n = -rc if rc < 0 else rc - 128
        try:
            n = signal.Signals(n).name
        except ValueError:
            pass
        return 'killed by %s %s' % (n, err.strip()[-200:])
    return 'exit %s %s' % (rc, err.strip()[-200:])


class Bad:
    def __init__(self, line, kind, text, flavour):
        self.line, self.kind, self.text, self.flavour = line, kind, text, flavour


def replay_file(exe, flavour, path, kinds, scratch, crashes=True, extra=None, max_restarts=4, mode=None, timeout=420, start=0):
    """Replays a file of events; goes on after a crash. Returns (mismatches, events replayed)."""
    bads, n, start, restarts = [], 0, start, 0
    prog = os.path.join(scratch, 'progress-%s-%d-%s' % (os.path.basename(path), os.getpid(), flavour))
    t0 = time.time()
    while True:
        with open(prog, 'wb') as f:
            f.write(b'\0' * 8)
        cmd = [exe] + (mode or ['run']) + [path, prog] + ([str(start)] if start and not mode else [])
        rc, o, e = run(limited(cmd, 8) if flavour == 'plain' else cmd, max(10, timeout - (time.time() - t0)), env=driver_env(flavour, kinds, extra))
        for m in re.finditer(r'^BAD (\d+) (\w) (.*)$', o, re.M):
            bads.append(Bad(int(m.group(1)), m.group(2), m.group(3), flavour))
        m = re.search(r'^DONE (\d+) (\d+)$', o, re.M)
        if m:
            n += int(m.group(1))
            if rc not in (0, 1):
                bads.append(Bad(0, 'C', crash_text(rc, e) + ' at exit', flavour))
            break
        if rc == 9:
            raise ToolError('driver: ' + e[-500:])
        with open(prog, 'rb') as f:
            at = int.from_bytes(f.read(8), 'little')
        n += max(0, at - max(start, 1))
        if crashes:
            bads.append(Bad(at, 'C', crash_text(rc, e), flavour))
        restarts += 1
        if restarts > max_restarts or mode or time.time() - t0 > timeout - 5 or len(bads) > 60:
            break
        start = at + 1
    try:
        os.unlink(prog)
    except OSError:
        pass
    return bads, n


def history_start(lines, k):
    """Index of the first event that line k (1-based) depends on: the reset or set its history begins with."""
    if not lines[k - 1].startswith('h '):
        return k
    while k > 1:
        w = lines[k - 1].split()
        if w[0] == 'h' and w[3] in ('2d', '30'):
            return k
        k -= 1
    return 1


# ------------------------------------------------------------------ known findings, verdict, evidence
def known_findings(prop):
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def write_evidence(prop, tier, seed, level, coverage, t0, violations, assumptions):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage, 'assumptions': assumptions,
                   'wall_s': round(time.time() - t0, 2), 'violations': violations}, f, indent=1)


def fresh_scratch(name):
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(OUT, '%s-%d' % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def fingerprint(lines, into):
    for l in lines:
        w = l.split(' ', 2)
        into.add(hashlib.blake2b((w[0] + ' ' + w[2]).encode(), digest_size=8).digest())
