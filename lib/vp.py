"""Shared machinery of the checks: builds of the compiler under test, running
it in scratch folders, verdicts, known findings and evidence."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
JOBS = int(os.environ.get('VP_JOBS', '0')) or min(8, os.cpu_count() or 4)
STDLIB = os.path.join(REPO, 'src/cxy')
ANSI = re.compile(rb'\x1b\[[0-9;]*[A-Za-z]')

for _v in ('CXY_OS', 'CXY_ROOT', 'CXY_STDLIB_DIR'):
    os.environ.pop(_v, None)
os.environ['LANG'] = os.environ['LC_ALL'] = 'C.UTF-8'


class HarnessError(Exception):
    """The check could not do its work: neither held nor violated."""


# --------------------------------------------------------------------------
# processes
# --------------------------------------------------------------------------
class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'secs')

    def __init__(self, rc, out, err, timeout, secs):
        self.rc, self.out, self.err = rc, out, err
        self.timeout, self.secs = timeout, secs

    @property
    def text(self):
        return ANSI.sub(b'', self.out + b'\n' + self.err).decode('utf-8', 'replace')


def run(cmd, cwd=None, env=None, timeout=60, stdin=None, merge=False, limit=None, fsize=None):
    """Run a command in its own process group; the group is gone afterwards."""
    e = dict(os.environ)
    if env:
        e.update(env)
    t0 = time.time()

    def pre():
        if limit:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         start_new_session=True, preexec_fn=pre)
    to = False
    try:
        out, err = _talk(p, stdin, timeout, fsize)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    except _Expired as x:
        to, out, err = True, x.out, x.err
    finally:
        for f in (p.stdout, p.stderr, p.stdin):
            if f:
                try:
                    f.close()
                except OSError:
                    pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return Result(p.returncode, out or b'', err or b'', to, time.time() - t0)


def _talk(p, stdin, timeout, cap):
    """communicate(), but a flood of output ends the process early."""
    if cap is None:
        return p.communicate(stdin, timeout=timeout)
    import selectors
    end = time.time() + timeout
    bufs = {p.stdout: [], p.stderr: []}
    total = 0
    if stdin is not None:
        try:
            p.stdin.write(stdin)
            p.stdin.close()
        except BrokenPipeError:
            pass
    sel = selectors.DefaultSelector()
    for f in bufs:
        if f:
            sel.register(f, selectors.EVENT_READ)
    while sel.get_map():
        left = end - time.time()
        if left <= 0 or total > cap:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            out, err = (b''.join(bufs[f]) for f in (p.stdout, p.stderr))
            if left <= 0:
                raise _Expired(out, err)
            return out, err
        for key, _ in sel.select(min(left, 1)):
            data = os.read(key.fileobj.fileno(), 65536)
            if not data:
                sel.unregister(key.fileobj)
            bufs[key.fileobj].append(data)
            total += len(data)
    p.wait(max(1, end - time.time()))
    return b''.join(bufs[p.stdout]), b''.join(bufs[p.stderr])


class _Expired(Exception):
    def __init__(self, out, err):
        self.out, self.err = out, err


def pmap(fn, items, jobs=None):
    """Ordered parallel map over threads (the work is in child processes)."""
    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
        yield from ex.map(fn, items)


# --------------------------------------------------------------------------
# builds
# --------------------------------------------------------------------------
VARIANTS = {
    # the compiler as its developers run it: asserts on
    'plain': dict(flags='-O1 -g0', targets=['cxy']),
    # address and undefined behaviour sanitizers, pool allocations visible to asan
    'asan': dict(flags='-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined '
                       '-fno-sanitize=nonnull-attribute,alignment -DCXY_VP_HOOKS',
                 targets=['cxy', 'lex-tester']),
}


def _tree_hash():
    h = hashlib.sha256()
    for base in ('src', 'cmake', 'CMakeLists.txt', 'tests/utils'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            h.update(open(p, 'rb').read())
            continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                fp = os.path.join(d, f)
                h.update(os.path.relpath(fp, REPO).encode() + b'\0')
                try:
                    h.update(open(fp, 'rb').read())
                except OSError:
                    pass
    return h.hexdigest()[:20]


_work = None


def workdir():
    """Scratch folder of this process, removed when it ends."""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='vp.')
        import atexit
        atexit.register(shutil.rmtree, _work, True)
    return _work


def build_root():
    # builds of one source state are shared between the checks of one sandbox
    r = os.path.join(VERIF, 'build', _tree_hash())
    os.makedirs(r, exist_ok=True)
    return r


def build(variant):
    """Build the compiler from REPO's working tree; returns the build folder."""
    import fcntl
    v = VARIANTS[variant]
    root = build_root()
    d = os.path.join(root, variant)
    with open(os.path.join(root, variant + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, '.ok')):
            return d
        # drop builds of other source states, they are large
        for o in os.listdir(os.path.join(VERIF, 'build')):
            p = os.path.join(VERIF, 'build', o)
            if p != root and os.path.isdir(p) and re.fullmatch('[0-9a-f]{20}', o):
                if time.time() - os.path.getmtime(p) > 600:
                    shutil.rmtree(p, True)
        os.makedirs(d, exist_ok=True)
        r = run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None',
                 '-DLLVM_ROOT_DIR=/usr/lib/llvm-18', '-DCMAKE_C_COMPILER=/usr/bin/clang-18',
                 '-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18',
                 '-DCMAKE_C_FLAGS=' + v['flags'], '-DCMAKE_CXX_FLAGS=' + v['flags']], timeout=300)
        if r.rc:
            raise HarnessError('configuring the %s build failed:\n%s' % (variant, r.text[-3000:]))
        r = run(['ninja', '-C', d, '-j', str(JOBS)] + v['targets'], timeout=800)
        if r.rc:
            raise HarnessError('the %s build failed:\n%s' % (variant, r.text[-3000:]))
        open(os.path.join(d, '.ok'), 'w').close()
    return d


SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=0:symbolize=1:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'ASAN_SYMBOLIZER_PATH': '/usr/lib/llvm-18/bin/llvm-symbolizer',
}


def cc_shim(name, extra):
    """A folder holding a `clang` that adds `extra` flags; put it on PATH so
    that the compiler under test builds instrumented executables."""
    d = os.path.join(workdir(), 'shim-' + name)
    if not os.path.isdir(d):
        os.makedirs(d + '.t', exist_ok=True)
        with open(d + '.t/clang', 'w') as f:
            f.write('#!/bin/sh\nexec /usr/bin/clang-18 -w %s "$@"\n' % extra)
        os.chmod(d + '.t/clang', 0o755)
        try:
            os.rename(d + '.t', d)
        except OSError:
            pass
    return d


ASAN_CC = ('-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined '
           '-fno-sanitize=nonnull-attribute,alignment,function,shift-base,pointer-overflow -fno-sanitize-recover=undefined')


class Cxy:
    """Drives one build of the compiler in per-case scratch folders."""

    def __init__(self, variant='plain'):
        self.dir = build(variant)
        self.exe = os.path.join(self.dir, 'cxy')
        self.variant = variant
        self.env = dict(SAN_ENV) if variant == 'asan' else {}
        self.n = 0
        self.lock = threading.Lock()

    def scratch(self, tag='c'):
        with self.lock:
            self.n += 1
            n = self.n
        d = os.path.join(workdir(), '%s%d' % (tag, n))
        os.makedirs(d)
        return d

    def cmd(self, *args):
        return [self.exe] + list(args)

    def opts(self, mm=True):
        return ['--no-progress', '--no-color', '--stdlib', STDLIB] + (['--with-mm'] if mm else [])

    def codegen(self, d, name='a.cxy', mm=True, extra=(), timeout=60):
        return run(self.cmd('dev', '--last-stage', 'Codegen', *self.opts(mm), *extra, name),
                   cwd=d, env=self.env, timeout=timeout)

    def build(self, d, name='a.cxy', mm=True, extra=(), timeout=120, shim=None, cmd='build'):
        env = dict(self.env)
        if shim:
            env['PATH'] = shim + ':' + os.environ['PATH']
        return run(self.cmd(cmd, *self.opts(mm), *extra, name), cwd=d, env=env, timeout=timeout)


def write(d, name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return p


def crash_key(res):
    """None when the process behaved (exit 0 or 1, no sanitizer report);
    otherwise a key naming the failure by kind and place."""
    if res.timeout:
        return 'hang'
    t = '\n'.join(x[:600] for x in res.text.split('\n'))
    m = re.search(r'(\S*?)([\w.-]+\.[ch](?:pp)?):(\d+) : \(\((.*?)\)\)', t)
    if m and res.rc not in (0, 1):
        return 'assert %s %s' % (m.group(2), m.group(4)[:60])
    m = re.search(r'(\S*/)?([\w.-]+\.\w+):\d+:\d+: runtime error: ([a-z ]{4,40})', t)
    frames = re.findall(r'#\d+ 0x\w+ in (\w+) \S*?/src/(\S+?):\d+', t)
    if m:
        return 'ubsan %s in %s' % (m.group(3).strip(), frames[0][0] if frames else m.group(2))
    m = re.search(r'ERROR: (?:Address|Leak)Sanitizer: ([\w-]+)', t)
    if m:
        return 'asan %s in %s' % (m.group(1), frames[0][0] if frames else '?')
    if res.rc not in (0, 1):
        return 'exit %d' % res.rc
    return None


# --------------------------------------------------------------------------
# verdicts
# --------------------------------------------------------------------------
def known_findings(prop):
    """[(key, text)] recorded as genuine, unrepaired defects of `prop`."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\w+) key="([^"]*)" (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


class Check:
    def __init__(self, prop, level='exploration', rule='', assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = {}
        self.known_hit = {}
        self.known = known_findings(prop)
        self.inconclusive = []
        self.lock = threading.Lock()
        self.exhaustive = None

    def rng(self, *parts):
        return random.Random('%s/%d/%s' % (self.prop, self.seed, '/'.join(map(str, parts))))

    def scale(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough if thorough is not None else quick * 8)

    def left(self, quick=420, thorough=3000):
        """Seconds left before the case loop should stop early (a backstop on
        slow machines; case counts bound the runs)."""
        return (quick if self.tier == 'quick' else thorough) - (time.time() - self.t0)

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key, sample=None, n=1):
        """Record an evaluated case; `key` identifies non-trivial ones."""
        with self.lock:
            self.evaluations += n
            if key is not None:
                self.distinct.add(hashlib.md5(repr(key).encode()).digest()[:8])
            if sample is not None and len(self.samples) < 4:
                self.samples.append(sample)

    def violation(self, key, what, files=None):
        """Report a violation once per key; listed findings are not violations."""
        with self.lock:
            for k, text in self.known:
                if k == key:
                    self.known_hit[k] = text
                    return False
            if key in self.violations:
                self.violations[key]['n'] += 1
                return True
            d = os.path.join(VERIF, 'build', 'replay', self.prop,
                             re.sub(r'[^\w.-]+', '_', key)[:60] + '-' + hashlib.md5(key.encode()).hexdigest()[:6])
            shutil.rmtree(d, True)
            os.makedirs(d)
            with open(os.path.join(d, 'WHAT.txt'), 'w') as f:
                f.write('property %s seed %d tier %s\nkey: %s\n%s\n' % (self.prop, self.seed, self.tier, key, what))
            for name, data in (files or {}).items():
                write(d, name, data)
            self.violations[key] = {'n': 1, 'replay': d, 'what': what}
            print('VIOLATION property=%s replay=%s' % (self.prop, d), flush=True)
            print('  key: %s' % key)
            print('  ' + what.strip().replace('\n', '\n  ')[:1200], flush=True)
            return True

    def unsure(self, what):
        with self.lock:
            self.inconclusive.append(what)

    def finish(self, min_evaluations=1, max_inconclusive=0.05, extra=None):
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct),
               'rule': self.rule, 'samples': self.samples or ['(none)'],
               'observed': self.counters, 'inconclusive': len(self.inconclusive),
               'known_findings_seen': sorted(self.known_hit)}
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        if extra:
            cov.update(extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        for k, text in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        print('%s: %d evaluations, %d distinct, %s, %d violations, %d inconclusive, %.1fs' % (
            self.prop, self.evaluations, len(self.distinct), self.counters, len(self.violations),
            len(self.inconclusive), time.time() - self.t0))
        if self.violations:
            sys.exit(1)
        if self.inconclusive:
            print('inconclusive, e.g.: %s' % self.inconclusive[0][:1500])
        if self.evaluations < min_evaluations or \
                len(self.inconclusive) > max(2, max_inconclusive * self.evaluations):
            print('ERROR: too little was observed to decide')
            sys.exit(2)
        sys.exit(0)


def main(fn):
    try:
        fn()
    except HarnessError as e:
        print('ERROR: %s' % e)
        sys.exit(2)
