"""Builds /repo's working tree in several instrumented configurations, runs
drivers over ranges of cases, and turns what they observed into a verdict."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = 8
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'
GXX = 'g++'
CLANGXX = 'clang++-18'


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def repo_lib(exclude=('main', 'gpu_csp', 'compile_cl')):
    return sorted(
        f for f in glob.glob(REPO + '/lib/**/*.cpp', recursive=True)
        if os.path.basename(f)[:-4] not in exclude)


# name -> (compiler, flags for everything, flags of the library only,
#          flags of the driver only, link flags)
SAN = ('-fsanitize=address,undefined -fno-sanitize-recover=all '
       '-fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS')
CONFIGS = {
    'plain': (GXX, '-O2 -g1', '', '', ''),
    'asan': (GXX, '-O1 -g1 ' + SAN, '', '', ''),
    'debug': (GXX, '-O1 -g1 -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC '
              '-fsanitize=undefined -fno-sanitize-recover=all', '', '', ''),
    'tsan': (GXX, '-O1 -g1 -fsanitize=thread', '', '', '-lpthread'),
    'omp': (GXX, '-O2 -g1', '-fopenmp', '-fopenmp', '-fopenmp'),
    # OpenMP code with instrumented accesses, without libgomp: the shims of
    # harness/gomp_*.cpp play the runtime.
    'omptsan': (GXX, '-O1 -g1 -fsanitize=thread',
                '-fopenmp -finstrument-functions', '', '-lpthread'),
    'ompfib': (GXX, '-O1 -g1', '-fopenmp -fsanitize=thread', '', '-lpthread'),
    'instr': (GXX, '-O1 -g1', '-finstrument-functions', '', ''),
    'vg': (GXX, '-O0 -g', '', '', ''),
    'cl': (GXX, '-O1 -g1 -w -DUSE_OPENCL -DCL_TARGET_OPENCL_VERSION=120',
           '', '', ''),
    'clasan': (GXX, '-O1 -g1 -w -DUSE_OPENCL -DCL_TARGET_OPENCL_VERSION=120 '
               '-D_GLIBCXX_ASSERTIONS', '', '', ''),
    'fuzz': (CLANGXX, '-O1 -g -fsanitize=address,undefined,fuzzer-no-link '
             '-fno-sanitize-recover=all', '', '', '-fsanitize=fuzzer'),
}

_locks = {}
_locks_guard = threading.Lock()


def _lock(key):
    with _locks_guard:
        return _locks.setdefault(key, threading.Lock())


def _headers_digest():
    h = hashlib.sha1()
    for f in sorted(glob.glob(REPO + '/include/**/*', recursive=True)
                    + glob.glob(VERIF + '/harness/*')
                    + glob.glob(VERIF + '/mockcuda/*')):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()


_HD = None


def compile_one(src, compiler, flags):
    """Compiles src into an object keyed by the contents of all inputs."""
    global _HD
    if _HD is None:
        _HD = _headers_digest()
    key = hashlib.sha1('\0'.join(
        [_HD, src, open(src, errors='replace').read(), compiler, flags]
    ).encode()).hexdigest()[:20]
    obj = os.path.join(BUILD, 'obj', key + '.o')
    with _lock(obj):
        if os.path.exists(obj):
            return obj
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + '.%d.tmp' % os.getpid()
        cmd = [compiler, '-std=c++17'] + flags.split() + [
            '-I' + REPO + '/include', '-I' + VERIF + '/harness',
            '-c', src, '-o', tmp]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise HarnessError('cannot compile %s:\n%s\n%s' % (
                src, ' '.join(cmd), p.stderr[-4000:]))
        os.rename(tmp, obj)
    return obj


def link(name, objs, compiler, flags):
    key = hashlib.sha1('\0'.join(objs + [compiler, flags]).encode()
                       ).hexdigest()[:12]
    exe = os.path.join(BUILD, 'bin', name + '-' + key)
    with _lock(exe):
        if os.path.exists(exe):
            return exe
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + '.%d.tmp' % os.getpid()
        cmd = [compiler] + objs + ['-o', tmp] + flags.split()
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise HarnessError('cannot link %s:\n%s\n%s' % (
                name, ' '.join(cmd), p.stderr[-4000:]))
        os.rename(tmp, exe)
    return exe


def build(config, driver, extra=(), with_main=False, lib=True,
          cl_sources=False, link_extra='', define=''):
    """driver: path below /verif, or None; returns the executable."""
    compiler, common, libf, drvf, linkf = CONFIGS[config]
    common = common + ' ' + define
    todo = []
    if lib:
        ex = {'main', 'gpu_csp', 'compile_cl'}
        if with_main:
            ex.discard('main')
        if cl_sources:
            ex -= {'gpu_csp', 'compile_cl'}
        todo += [(s, common + ' ' + libf) for s in repo_lib(ex)]
    if driver:
        todo.append((os.path.join(VERIF, driver), common + ' ' + drvf))
    for e in extra:
        # Parts of the harness with flags of their own.
        path, fl = e if isinstance(e, tuple) else (e, None)
        todo.append((os.path.join(VERIF, path),
                     common + ' ' + drvf if fl is None else fl))
    with cf.ThreadPoolExecutor(JOBS) as ex_:
        objs = list(ex_.map(lambda t: compile_one(t[0], compiler, t[1]), todo))
    san = ' '.join(f for f in common.split() if f.startswith('-fsanitize')
                   and 'no-link' not in f)
    if config == 'fuzz':
        san = '-fsanitize=address,undefined'
    name = os.path.basename(driver or 'cli')
    return link('%s-%s' % (config, name.replace('.cpp', '')), objs, compiler,
                san + ' ' + linkf + ' ' + link_extra)


CUDA_LAUNCH = re.compile(r'([A-Za-z_][\w:]*)\s*<<<(.*?)>>>\s*\(', re.S)


def cuda(driver, with_main=False, link_extra=''):
    """Builds the sources of the library for the stand-in of CUDA.

    Every .cu file is compiled for the host and, with __CUDA_ARCH__, as device
    code into a library of its own. Returns the executable and the library.
    """
    mock = VERIF + '/mockcuda'
    sources = sorted(glob.glob(REPO + '/lib/**/*.cu', recursive=True))
    if not sources:
        raise HarnessError('no CUDA sources')
    digest = hashlib.sha1()
    for f in sorted(glob.glob(REPO + '/lib/**/*', recursive=True)
                    + glob.glob(REPO + '/include/**/*', recursive=True)
                    + glob.glob(mock + '/*')):
        if os.path.isfile(f):
            digest.update(f.encode() + b'\0' + open(f, 'rb').read())
    key = digest.hexdigest()[:16]
    d = os.path.join(BUILD, 'cuda-' + key)
    with _lock(d):
        if not os.path.exists(d):
            tmp = d + '.%d.tmp' % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            _cuda_objects(sources, mock, tmp)
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
    common = '-O1 -g1 -w -DUSE_CUDA'
    ex = {'gpu_csp', 'compile_cl'} | (set() if with_main else {'main'})
    todo = [(x, common) for x in repo_lib(ex)]
    if driver:
        todo.append((os.path.join(VERIF, driver), common))
    todo.append((mock + '/mockcuda.cpp', '-O2 -g1 -w'))
    with cf.ThreadPoolExecutor(JOBS) as ex_:
        objs = list(ex_.map(lambda t: compile_one(t[0], GXX, t[1]), todo))
    objs += sorted(glob.glob(d + '/*.host.o'))
    name = 'cuda-' + os.path.basename(driver or 'cli').replace('.cpp', '')
    exe = link(name, objs, GXX, '-rdynamic -ldl ' + link_extra)
    return exe, d + '/device.so'


def _cuda_objects(sources, mock, out):
    def run_(cmd, what):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise HarnessError('cannot %s:\n%s\n%s' % (what, ' '.join(cmd),
                                                      p.stderr[-4000:]))
        return p.stdout

    common = ['-std=c++17', '-w', '-g1', '-fPIC', '-D__CUDACC__', '-DUSE_CUDA',
              '-I' + mock, '-I' + REPO + '/include', '-I' + REPO + '/lib',
              '-include', 'cuda_runtime.h', '-x', 'c++']

    def one(src):
        base = out + '/' + os.path.basename(src)[:-3]
        run_([GXX, '-O1', '-fsanitize=thread', '-D__CUDA_ARCH__=600'] + common
             + ['-c', src, '-o', base + '.device.o'], 'compile for the device')
        text = open(src, errors='replace').read()
        text = CUDA_LAUNCH.sub(r'mock::launch(\1, \2)(', text)
        with open(base + '.cpp', 'w') as f:
            f.write('#line 1 "%s"\n' % src + text)
        run_([GXX, '-O1', '-I' + os.path.dirname(src)] + common
             + ['-c', base + '.cpp', '-o', base + '.host.o'],
             'compile for the host')
        return re.findall(r'__global__\s+(?:\w+\s+)*?void\s+'
                          r'(?:__launch_bounds__\s*\([^)]*\)\s*)?(\w+)', text)

    with cf.ThreadPoolExecutor(JOBS) as ex_:
        kernels = set(k for ks in ex_.map(one, sources) for k in ks)
    devs = sorted(glob.glob(out + '/*.device.o'))
    tramp = ''
    for sym in sorted(set(run_(['nm', '--defined-only', '-g', '-j'] + devs,
                               'list symbols').split())):
        m = re.match(r'^([\w:]+)\((.*)\)$',
                     run_(['c++filt', sym], 'demangle').strip())
        if not m or m.group(1).split('::')[-1] not in kernels:
            continue
        types = [t.strip() for t in m.group(2).split(',') if t.strip()]
        tramp += 'extern "C" void k_%s(%s) __asm__("%s");\n' % (
            sym, ', '.join(types), sym)
        tramp += 'extern "C" void mock_tramp_%s(void** a)\n{\n' % sym
        tramp += '    k_%s(%s);\n}\n' % (sym, ', '.join(
            '*(%s*)a[%d]' % (t, i) if '*' not in t else '(%s)*(void**)a[%d]'
            % (t, i) for i, t in enumerate(types)))
    if not tramp:
        raise HarnessError('no CUDA kernels are found')
    with open(out + '/tramp.cpp', 'w') as f:
        f.write(tramp)
    run_([GXX, '-O1', '-w', '-fPIC', '-c', out + '/tramp.cpp', '-o',
          out + '/tramp.o'], 'compile trampolines')
    run_([GXX, '-shared', '-Wl,-Bsymbolic', '-o', out + '/device.so',
          out + '/tramp.o'] + devs, 'link device code')


def shared(name, src, flags):
    """Builds a shared library of the harness."""
    path = os.path.join(VERIF, src)
    text = ''.join(open(h).read() for h in
                   [path] + sorted(glob.glob(os.path.dirname(path) + '/*.hpp')
                                   + glob.glob(VERIF + '/harness/*.hpp')))
    key = hashlib.sha1((text + flags).encode()).hexdigest()[:12]
    d = os.path.join(BUILD, 'so-' + key)
    out = os.path.join(d, name)
    with _lock(out):
        if os.path.exists(out):
            return out
        os.makedirs(d, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = [GXX if src.endswith('pp') else 'gcc', path, '-shared', '-fPIC',
               '-w', '-o', tmp] + flags.split()
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise HarnessError('cannot build %s:\n%s' % (name,
                                                         p.stderr[-4000:]))
        os.rename(tmp, out)
    return out


def san_env(env=None):
    e = dict(os.environ)
    e.pop('LD_PRELOAD', None)
    e['ASAN_OPTIONS'] = ('abort_on_error=0:exitcode=99:detect_leaks=0:'
                         'detect_stack_use_after_return=1:'
                         'hard_rss_limit_mb=3500:allocator_may_return_null=0:'
                         'strict_string_checks=1:check_initialization_order=1')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    e['TSAN_OPTIONS'] = ('halt_on_error=1:exitcode=66:second_deadlock_stack=1:'
                         'report_signal_unsafe=0:history_size=4')
    e['OMP_WAIT_POLICY'] = 'passive'
    if env:
        e.update(env)
    return e


# Seconds for all cases of a check, after which no more are begun; seconds for
# one case. What a check needs on the machine it was made on is far below.
SOFT = 14400 if THOROUGH else 560
CASE_WALL = 1800 if THOROUGH else 150
STATUS = struct.Struct('8sqqqq')


def read_status(path):
    try:
        b = open(path, 'rb').read()
        if len(b) < STATUS.size:
            return None
        m, cur, done, hang, since = STATUS.unpack(b[:STATUS.size])
        return dict(current=cur, done=done, hang=hang, since=since)
    except OSError:
        return None


class Violation:
    def __init__(self, key, text, replay):
        self.key, self.text, self.replay = key, text, replay


class Check:
    """Collects what the runs of one property observed."""

    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.violations = []
        self.counters = {}
        self.maxima = {}
        self.samples = []
        self.hashes = set()
        self.evaluations = 0
        self.configs = {}
        self.rule = ''
        self.assumptions = []
        self.extra = {}
        self.inconclusive = []
        self.lock = threading.Lock()
        base = os.path.join(VERIF, 'scratch')
        os.makedirs(base, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        os.chmod(self.scratch, 0o777)

    # -- runs of drivers -------------------------------------------------
    def _spawn(self, exe, args, env, cwd, wall, mem):
        tag = hashlib.sha1(' '.join(args).encode()).hexdigest()[:10]
        outp = os.path.join(self.scratch, tag + '.out')
        stp = os.path.join(self.scratch, tag + '.status')
        hp = os.path.join(self.scratch, tag + '.hash')
        errp = os.path.join(self.scratch, tag + '.err')
        sc = os.path.join(self.scratch, tag + '.d')
        os.makedirs(sc, exist_ok=True)
        for p in (outp, stp, hp):
            if os.path.exists(p):
                os.unlink(p)
        cmd = list(exe) + args + ['--out', outp, '--status', stp,
                                  '--hashes', hp, '--scratch', sc]

        def pre():
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

        with open(errp, 'wb') as err:
            p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env,
                                 stdin=subprocess.DEVNULL,
                                 cwd=cwd or self.scratch, preexec_fn=pre)
            timed_out = False
            rc = None
            end = time.monotonic() + wall
            while rc is None:
                try:
                    rc = p.wait(1)
                except subprocess.TimeoutExpired:
                    now = time.monotonic()
                    st = read_status(stp)
                    if now > end or (st and st['current'] >= 0
                                     and now * 1000 - st['since']
                                     > CASE_WALL * 1000):
                        timed_out = True
                        break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        err = open(errp, errors='replace').read()
        out = open(outp, errors='replace').read() if os.path.exists(outp) \
            else ''
        st = read_status(stp)
        hs = open(hp, 'rb').read() if os.path.exists(hp) else b''
        shutil.rmtree(sc, ignore_errors=True)
        return rc, timed_out, out, err, st, hs

    def _absorb(self, label, out, hs):
        stat = None
        viols = []
        for l in out.splitlines():
            f = l.split('\t')
            if f[0] == 'VIOL' and len(f) >= 4:
                viols.append((int(f[1]), f[2], f[3]))
            elif f[0] == 'STAT':
                try:
                    stat = json.loads(l[5:])
                except ValueError:
                    stat = None
        with self.lock:
            if stat:
                self.evaluations += stat['done']
                self.configs[label] = self.configs.get(label, 0) + stat['done']
                for k, v in stat['counters'].items():
                    self.counters[k] = self.counters.get(k, 0) + v
                for k, v in stat['maxima'].items():
                    self.maxima[k] = max(self.maxima.get(k, 0), v)
                if len(self.samples) < 4:
                    self.samples += [s[:1500] for s in stat['samples'][:1]]
            for i in range(0, len(hs) - 7, 8):
                self.hashes.add(hs[i:i + 8])
        return stat, viols

    def add_violation(self, key, text, replay):
        with self.lock:
            self.violations.append(Violation(key, text, replay))

    def left(self):
        return max(20, self.t0 + SOFT - time.time())

    def run(self, label, exe, count, env=None, cwd=None, mem='auto',
            shards=JOBS, workers=JOBS, aux='', cpu=60, stride_base=0,
            args=(), race_exit=()):
        """Runs cases stride_base .. stride_base+count-1 of the driver."""
        if isinstance(exe, str):
            exe = [exe]
        if mem == 'auto':
            mem = 0 if any(s in label for s in ('asan', 'tsan', 'fuzz')) \
                else 6 << 30
        env = san_env(env)
        shards = max(1, min(shards, count))
        tasks = []
        for s in range(shards):
            n = (count - s + shards - 1) // shards
            if n > 0:
                tasks.append((stride_base + s, n))

        if any(v.key == 'hang' for v in self.violations):
            return  # the other builds would wait for it, too
        soft = self.left()
        wall = soft + CASE_WALL

        def common(first, n):
            return ['--seed', str(SEED), '--tier', TIER, '--first', str(first),
                    '--count', str(n), '--stride', str(shards),
                    '--cpu', str(cpu)] + (['--aux', aux] if aux else []) \
                + list(args)

        def replay(case):
            return dict(property=self.prop, config=label, exe=exe,
                        args=common(case, 1), cwd=cwd, seed=SEED, tier=TIER,
                        env={k: env[k] for k in env
                             if k.endswith('_OPTIONS') or k.startswith('MOCK')
                             or k.startswith('OMP') or k.startswith('VF_')})

        def one(task):
            first, n = task
            rc, to, out, err, st, hs = self._spawn(
                exe, common(first, n) + ['--soft', str(int(soft))], env, cwd,
                wall, mem)
            stat, viols = self._absorb(label, out, hs)
            for case, key, text in viols:
                self.add_violation(key, text, dict(replay(case), why=text))
            if rc == 0 and stat:
                if stat['done'] < n and not viols:
                    with self.lock:
                        self.extra.setdefault('not_reached_in_time', {})
                        e = self.extra['not_reached_in_time']
                        e[label] = e.get(label, 0) + n - stat['done']
                return
            case = st['current'] if st else None
            if rc in (3, 78) or st is None or case is None or case == -1:
                with self.lock:
                    self.inconclusive.append(
                        '%s: driver failed (rc=%s) %s' % (label, rc,
                                                          err[-800:]))
                return
            if case == -2:
                case = first
            # The process died or hung inside of a case: once more, alone.
            rc2, to2, out2, err2, st2, _ = self._spawn(
                exe, common(case, 1), env, cwd, CASE_WALL, mem)
            _, viols2 = self._absorb(label, out2, b'')
            hang, hang2 = to or rc == 79, to2 or rc2 == 79
            if hang:
                if hang2:
                    text = 'case %d does not finish (%s, twice)' % (
                        case, 'no progress' if to else 'CPU time limit')
                    self.add_violation('hang', text, dict(replay(case),
                                                          why=text))
                else:
                    with self.lock:
                        self.inconclusive.append(
                            '%s: case %d stopped by the watchdog once'
                            % (label, case))
                return
            if rc == -signal.SIGKILL and rc2 != -signal.SIGKILL:
                with self.lock:
                    self.inconclusive.append('%s: killed (memory?)' % label)
                return
            use = err2 if rc2 not in (0, None) else err
            key = crash_key(rc, err or use)
            text = 'case %d: %s: %s' % (case, key, excerpt(use or err))
            self.add_violation(key, text,
                               dict(replay(case), why=text,
                                    stderr=(err or use)[-6000:]))

        with cf.ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, tasks))

    def fuzz(self, label, exe, runs, max_len, corpus, dictionary, keys,
             procs=JOBS):
        """libFuzzer processes with a fixed number of executions each."""
        env = san_env({'VF_KEYS': ',%s,' % ','.join(keys)})

        def one(i):
            d = os.path.join(self.scratch, 'fuzz%d' % i)
            os.makedirs(d + '/c', exist_ok=True)
            for j, b in enumerate(corpus):
                with open('%s/c/%d' % (d, j), 'wb') as f:
                    f.write(b)
            with open(d + '/dict', 'w') as f:
                f.write(''.join('"%s"\n' % w for w in dictionary))
            cmd = [exe, '-runs=%d' % runs, '-seed=%d' % (SEED * 100 + i + 1),
                   '-max_len=%d' % (max_len * (1 + i % 3)),
                   '-max_total_time=%d' % self.left(), '-timeout=60',
                   '-rss_limit_mb=3000', '-print_final_stats=1', '-dict=dict',
                   '-artifact_prefix=' + d + '/', 'c']
            try:
                p = subprocess.run(cmd, cwd=d, env=env, capture_output=True,
                                   text=True, errors='replace',
                                   stdin=subprocess.DEVNULL,
                                   timeout=SOFT + CASE_WALL)
            except subprocess.TimeoutExpired:
                with self.lock:
                    self.inconclusive.append(label + ': no end of fuzzing')
                return
            err = p.stderr
            m = re.search(r'stat::number_of_executed_units: (\d+)', err)
            units = int(m.group(1)) if m else 0
            cov = [int(x) for x in re.findall(r'cov: (\d+)', err)]
            ft = [int(x) for x in re.findall(r'ft: (\d+)', err)]
            seen = len(os.listdir(d + '/c'))
            with self.lock:
                self.evaluations += units
                self.configs[label] = self.configs.get(label, 0) + units
                self.counters['fuzz-executions'] = \
                    self.counters.get('fuzz-executions', 0) + units
                if cov:
                    self.maxima['fuzz-edges-covered'] = max(
                        self.maxima.get('fuzz-edges-covered', 0), cov[-1])
                if ft:
                    self.maxima['fuzz-features'] = max(
                        self.maxima.get('fuzz-features', 0), ft[-1])
                self.maxima['fuzz-corpus'] = max(
                    self.maxima.get('fuzz-corpus', 0), seen)
            if p.returncode == 0:
                return
            arts = [f for f in os.listdir(d)
                    if re.match(r'(crash|timeout|oom|leak)-', f)]
            if not arts:
                with self.lock:
                    self.inconclusive.append('%s: %s' % (label, err[-600:]))
                return
            art = os.path.join(d, arts[0])
            data = open(art, 'rb').read()
            # Once more, alone.
            q = subprocess.run([exe, art], cwd=d, env=env, text=True,
                               capture_output=True, errors='replace',
                               stdin=subprocess.DEVNULL)
            if q.returncode == 0:
                with self.lock:
                    self.inconclusive.append(
                        '%s: %s is not repeated' % (label, arts[0]))
                return
            m = re.search(r'FUZZ-VIOLATION\t(\S+)\t(.*)', q.stderr)
            key = m.group(1) if m else crash_key(q.returncode, q.stderr)
            text = m.group(2) if m else excerpt(q.stderr)
            keep = os.path.join(VERIF, 'replays', self.prop)
            os.makedirs(keep, exist_ok=True)
            f = os.path.join(keep, arts[0])
            with open(f, 'wb') as o:
                o.write(data)
            self.add_violation(key, 'fuzzing: ' + text, dict(
                property=self.prop, config=label, exe=[exe], args=[f],
                cwd=None, seed=SEED, tier=TIER, raw=True,
                env={'VF_KEYS': env['VF_KEYS']}, why=text,
                stderr=q.stderr[-4000:]))

        with cf.ThreadPoolExecutor(procs) as ex:
            list(ex.map(one, range(procs)))

    # -- verdict ----------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        known = load_known(self.prop)
        seen_known = []
        new = []
        for v in self.violations:
            k = next((k for k in known if k['key'] == v.key
                      and k['match'] in v.text), None)
            if k:
                if k not in seen_known:
                    seen_known.append(k)
            else:
                new.append(v)
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.hashes),
            'rule': self.rule,
            'samples': self.samples[:4],
            'runs_per_build': self.configs,
            'observed': self.counters,
        }
        if self.maxima:
            cov['largest'] = self.maxima
        cov.update(self.extra)
        if self.inconclusive:
            cov['inconclusive'] = self.inconclusive[:5]
        ev = {
            'property': self.prop, 'tier': TIER, 'seed': SEED,
            'level': self.level, 'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        log('%s: %d evaluations, %d distinct non-trivial, %.1f s, builds %s'
            % (self.prop, self.evaluations, len(self.hashes),
               ev['wall_s'], self.configs))
        log('  observed: ' + ', '.join(
            '%s=%s' % kv for kv in sorted(self.counters.items())))
        for k in known:
            log('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if new:
            d = os.path.join(VERIF, 'replays', self.prop)
            os.makedirs(d, exist_ok=True)
            shown = set()
            for v in new:
                if v.key in shown and len(shown) >= 1:
                    continue
                shown.add(v.key)
                name = re.sub(r'[^A-Za-z0-9_.-]', '_', v.key)[:60]
                path = os.path.join(d, '%s-seed%d.json' % (name, SEED))
                with open(path, 'w') as f:
                    json.dump(v.replay, f, indent=1)
                log('  [%s] %s' % (v.key, v.text[:1200]))
                log('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if self.inconclusive:
            for i in self.inconclusive[:5]:
                log('INCONCLUSIVE: ' + i)
            return 2
        if not self.evaluations or not self.hashes:
            log('INCONCLUSIVE: nothing was observed')
            return 2
        return 0


def excerpt(err):
    lines = [l for l in err.splitlines() if l.strip()]
    hit = [l for l in lines if re.search(
        r'ERROR|runtime error|WARNING: ThreadSanitizer|MOCKCL-ERROR|'
        r'terminate|Assertion|Error:|SUMMARY|attempt to', l)]
    frames = [l.strip() for l in lines if REPO in l][:4]
    return ' | '.join((hit[:4] or lines[-4:]) + frames)[:1500]


def crash_key(rc, err):
    m = re.search(r'AddressSanitizer: ([A-Za-z0-9-]+)', err)
    if m:
        return 'asan-' + m.group(1)
    if 'WARNING: ThreadSanitizer: data race' in err:
        return 'data-race'
    m = re.search(r'ThreadSanitizer: ([a-z -]+)', err)
    if m:
        return 'tsan-' + m.group(1).strip().replace(' ', '-')[:30]
    if 'runtime error:' in err:
        return 'ubsan'
    if 'MOCKCL-ERROR' in err:
        return 'opencl-misuse'
    if 'Assertion' in err or 'Error: attempt' in err:
        return 'assertion'
    if 'terminate called' in err:
        return 'terminate'
    if rc is not None and rc < 0:
        return 'signal-%d' % -rc
    return 'exit-%s' % rc


def load_known(prop):
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) match="([^"]*)" '
                         r'(.*)', l.strip())
            if m and m.group(1) == prop:
                res.append(dict(key=m.group(2), match=m.group(3),
                                what=m.group(4)))
    return res
