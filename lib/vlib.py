"""Plumbing shared by all checks: building the harnesses from /repo's working
tree, running them, checking their traces with TLC and reporting."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, 'work')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself failed: says nothing about the property."""


class Violation(Exception):
    def __init__(self, what, files=()):
        super().__init__(what)
        self.what = what
        self.files = list(files)


def log(*a):
    print('#', *a, file=sys.stderr, flush=True)


def tree_hash(*paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isfile(p):
            names = [p]
        else:
            names = sorted(os.path.join(d, f) for d, _, fs in os.walk(p)
                           for f in fs if not f.endswith('.pyc'))
        for n in names:
            h.update(n.encode())
            with open(n, 'rb') as f:
                h.update(f.read())
    return h.hexdigest()[:20]


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None):
    """Returns (return code or 'timeout', stdout, stderr)."""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        o, x = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), x.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, x = p.communicate()
        return 'timeout', o.decode(errors='replace'), x.decode(errors='replace')


def parallel(jobs, n=CPUS):
    """Runs callables, returns their results in order."""
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(j) for j in jobs]
        try:
            return [f.result() for f in fs]
        except BaseException:
            for f in fs:
                f.cancel()
            raise


# --------------------------------------------------------------------- builds
CXXFLAGS = ['-std=c++17', '-fno-rtti', '-pthread', '-I' + REPO + '/src',
            '-I' + VERIF + '/shim']


def cached(key, make):
    """Directory with what make(dir) left there, made only once per key."""
    os.makedirs(os.path.join(WORK, 'build'), exist_ok=True)
    d = os.path.join(WORK, 'build', key)
    with open(d + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'DONE')):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            make(d)
            open(os.path.join(d, 'DONE'), 'w').close()
        os.utime(d)
    prune()
    return d


def prune(keep=14):
    b = os.path.join(WORK, 'build')
    ds = sorted((os.path.join(b, x) for x in os.listdir(b)
                 if not x.endswith('.lock')), key=os.path.getmtime)
    now = time.time()
    for d in ds[:-keep]:
        if now - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)
            try:
                os.unlink(d + '.lock')
            except OSError:
                pass


def compile_all(sources, out, flags, cxx='g++'):
    """[(source, object)] in parallel."""
    def one(src, obj):
        rc, o, e = sh([cxx] + CXXFLAGS + flags + ['-c', src, '-o', obj],
                      timeout=800, cwd=out)
        if rc != 0:
            raise CheckError('cannot compile %s: %s' % (src, '\n'.join(
                x for x in e.splitlines() if 'error' in x)[:1500]))
    # The largest first.
    sources = sorted(sources, key=lambda s: -os.path.getsize(s[0]))
    parallel([lambda s=s: one(*s) for s in sources])


def library(flags, only=None, cxx='g++'):
    """libarpc.a of the working tree."""
    srcs = sorted(f for f in os.listdir(REPO + '/src/arpc') if f.endswith('.cpp'))
    if only:
        srcs = [f for f in srcs if f[:-4] in only]
    key = 'lib-' + tree_hash(REPO + '/src', VERIF + '/shim',
                             extra=repr((flags, srcs, cxx)))

    def make(d):
        compile_all([(REPO + '/src/arpc/' + f, d + '/' + f[:-4] + '.o')
                     for f in srcs], d, flags, cxx)
        rc, o, e = sh(['ar', 'rcs', d + '/libarpc.a'] +
                      [d + '/' + f[:-4] + '.o' for f in srcs])
        if rc != 0:
            raise CheckError('ar: ' + e)
    return cached(key, make)


def program(name, sources, flags=(), lib_flags=None, link=(), only=None,
            cxx='g++', prepare=None, extra_key=''):
    """Builds a harness; returns the path of the executable."""
    flags = list(flags)
    lib = library(flags if lib_flags is None else list(lib_flags), only, cxx)
    dirs = sorted({os.path.dirname(s) for s in sources} | {HARNESS + '/common'})
    dirs = [d for d in dirs if os.path.isdir(d)]
    key = name + '-' + tree_hash(*dirs, extra=repr(
        (lib, sources, flags, list(link), extra_key, cxx)))

    def make(d):
        srcs = list(sources)
        if prepare:
            srcs += prepare(d)
        objs = []
        for i, s in enumerate(srcs):
            objs.append((s, '%s/%d_%s.o' % (d, i, os.path.basename(s))))
        compile_all(objs, d, flags + ['-I' + d, '-I' + HARNESS + '/common'] +
                    ['-I' + x for x in dirs], cxx)
        rc, o, e = sh([cxx] + flags + ['-pthread', '-o', d + '/' + name] +
                      [x[1] for x in objs] + [lib + '/libarpc.a'] + list(link))
        if rc != 0:
            raise CheckError('cannot link %s: %s' % (name, e[-1500:]))
        for x in objs:
            os.unlink(x[1])
    return cached(key, make) + '/' + name


# ------------------------------------------------------------------------ TLC
class TlcResult:
    pass


def tlc(module, trace=None, cfg=None, workers=1, env=None, heap='2g',
        timeout=800, args=(), dfs=False, coverage=False):
    """Runs TLC in /verif/spec."""
    meta = tempfile.mkdtemp(prefix='tlc', dir=scratch())
    e = dict(env or {})
    if trace:
        e['TRACE'] = trace
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-Xss256m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta]
    if dfs:
        cmd += ['-Dtlc2.tool.queue.IStateQueue=StateDeque']
    cmd += ['-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
            '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg']
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(args) + [module + '.tla']
    t = time.time()
    rc, o, x = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out, r.wall = rc, o + x, time.time() - t
    r.rejected = sorted({int(m) for m in re.findall(r'<<"REJECTED", (\d+)', o)})
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', o)
    r.generated, r.distinct = [int(v.replace(',', '')) for v in m[-1]] if m else (0, 0)
    r.ok = rc == 0
    if rc == 'timeout':
        raise CheckError('TLC on %s ran out of time' % module)
    return r


def need_ok(r, what):
    if not r.ok:
        raise CheckError('TLC failed on %s (%s):\n%s' %
                         (what, r.rc, r.out[-3000:]))


_scratch = None


def scratch():
    global _scratch
    if not _scratch:
        os.makedirs(WORK, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run', dir=WORK)
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


# --------------------------------------------------------------------- traces
def split(trace, parts, header=1):
    """Splits an ndjson file; each part starts with the header lines.
    Returns [(file, first line number of its body)]."""
    with open(trace) as f:
        lines = f.readlines()
    head, body = lines[:header], lines[header:]
    # By size.
    total = sum(map(len, body)) or 1
    res, cur, size, start = [], [], 0, 0
    for i, l in enumerate(body):
        cur.append(l)
        size += len(l)
        if size >= total / parts:
            res.append((cur, start))
            cur, size, start = [], 0, i + 1
    if cur or not res:
        res.append((cur, start))
    files = []
    for i, (c, s) in enumerate(res):
        n = '%s.%d' % (trace, i)
        with open(n, 'w') as f:
            f.writelines(head + c)
        files.append((n, s))
    return files


def offender(r, var):
    """The line at which TLC couldn't evaluate the specification: what's
    recorded there isn't anything that could happen."""
    if r.rc == 0 or 'OutOfMemory' in r.out or 'Error:' not in r.out:
        return None
    m = re.findall(r'^(?:/\\ )?%s = (\d+)$' % var, r.out, re.M)
    return int(m[-1]) if m else None


def judge_lines(module, trace, header, var, verdict, **kw):
    """TLC on the lines of a trace, in parallel.  verdict(result, n) gives the
    lines rejected of n.  Returns (rejected line numbers, 1-based; lines;
    states; transitions)."""
    def one(f, start):
        with open(f) as g:
            lines = g.readlines()
        head, body = lines[:header], lines[header:]
        numbers = list(range(1, len(body) + 1))
        bad, states, trans = [], 0, 0
        while numbers:
            r = tlc(module, trace=f, **kw)
            states += r.distinct
            trans += r.generated
            k = offender(r, var)
            if k is None or not header < k <= len(numbers) + header:
                need_ok(r, '%s of %s' % (module, os.path.basename(trace)))
                bad += [numbers[i - header - 1] for i in verdict(r, len(numbers))]
                break
            k -= header
            log('%s: cannot evaluate line %d of %s' % (
                module, start + numbers[k - 1], os.path.basename(trace)))
            bad.append(numbers.pop(k - 1))
            if len(bad) >= 3:
                break
            with open(f, 'w') as g:
                g.writelines(head + [body[i - 1] for i in numbers])
        os.unlink(f)
        return [start + header + x for x in bad], len(body), states, trans

    rs = parallel([lambda f=f: one(*f) for f in split(trace, CPUS, header)])
    return (sum((r[0] for r in rs), []), sum(r[1] for r in rs),
            sum(r[2] for r in rs), sum(r[3] for r in rs))


def line_check(module, trace, header=1, **kw):
    """Has TLC judge every line of a trace, rejected ones being REJECTED."""
    return judge_lines(module, trace, header, 'l', lambda r, n: r.rejected, **kw)


# ----------------------------------------------------------------- executions
SCHED_FLAGS = ['-O1', '-g1', '-fno-pie', '-fsanitize=thread']


def sched_program(name, sources, only=None, flags=()):
    """A program that runs under the deterministic scheduler."""
    flags = SCHED_FLAGS + list(flags)
    lib = library(flags, only)
    dirs = sorted({os.path.dirname(s) for s in sources} | {HARNESS + '/sched'})
    key = name + '-' + tree_hash(*dirs, extra=repr((lib, sources, flags)))

    def make(d):
        def runtime():
            compile_all([(HARNESS + '/sched/vsched.cpp', d + '/vsched.o')], d,
                        ['-O2', '-g1', '-fno-pie'])
        objs = [(s, '%s/%d.o' % (d, i)) for i, s in enumerate(sources)]
        parallel([runtime, lambda: compile_all(
            objs, d, flags + ['-I' + x for x in dirs])])
        rc, o, e = sh(['g++', '-no-pie', '-rdynamic', '-o', d + '/' + name] +
                      [x[1] for x in objs] +
                      [d + '/vsched.o', lib + '/libarpc.a', '-pthread', '-ldl'])
        if rc != 0:
            raise CheckError('cannot link %s: %s' % (name, e[-1500:]))
        for x in objs:
            os.unlink(x[1])
    return cached(key, make) + '/' + name


def exec_check(module, trace, **kw):
    """Every line is an execution, DONE if TLC explains it."""
    with open(trace) as f:
        if not f.readline():
            return [], 0, 0, 0

    def verdict(r, n):
        done = {int(m) for m in re.findall(r'<<"DONE", (\d+)>>', r.out)}
        return [i for i in range(1, n + 1) if i not in done]
    return judge_lines(module, trace, 0, 'e', verdict, **kw)


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.known = []
        self.violations = []

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, budget):
        return budget - (time.time() - self.start)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if len(str(s)) < 600 else str(s)[:600] + '...')

    def add(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def keep(self, what, files):
        """Saves files for the replay path; returns it."""
        d = os.path.join(WORK, 'replay', self.prop)
        os.makedirs(d, exist_ok=True)
        d = tempfile.mkdtemp(prefix='v', dir=d)
        with open(d + '/README', 'w') as f:
            f.write(what + '\n')
        for x in files:
            if isinstance(x, tuple):
                with open(os.path.join(d, x[0]), 'w') as f:
                    f.write(x[1])
            elif os.path.exists(x):
                shutil.copy(x, d)
        return d

    def known_finding(self, key):
        """True if the committed list has it (and reports it)."""
        with open(VERIF + '/known_findings.txt') as f:
            for l in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == self.prop and m.group(2) == key:
                    if m.group(3) not in self.known:
                        self.known.append(m.group(3))
                    return True
        return False

    def violation(self, what, files=()):
        v = (what, self.keep(what, files))
        self.violations.append(v)
        log('violation:', what)

    def model(self, module, cfg=None, expect_actions=(), **kw):
        """Exhaustive model checking of a specification: the design itself."""
        r = tlc(module, cfg=cfg, coverage=bool(expect_actions), **kw)
        need_ok(r, cfg or module)
        for a in expect_actions:
            m = re.search(r'<%s line[^>]*>: (\d+):(\d+)' % re.escape(a), r.out)
            if not m or int(m.group(2)) == 0:
                raise CheckError('%s: action %s never taken' % (cfg or module, a))
        self.add(r)
        self.extra.setdefault('models', {})[cfg or module] = {
            'distinct_states': r.distinct, 'transitions': r.generated,
            'wall_s': round(r.wall, 1)}
        return r

    def broken_model(self, module, cfg, invariant, **kw):
        """A design known to be wrong: TLC has to find out, or the invariants
        say nothing."""
        r = tlc(module, cfg=cfg, **kw)
        if not re.search(r'Invariant %s is violated|invariant of %s is equal to FALSE' % (invariant, invariant), r.out):
            raise CheckError('%s: %s not found violated:\n%s' % (
                cfg, invariant, r.out[-2000:]))
        self.add(r)
        self.extra.setdefault('models', {})[cfg] = {
            'distinct_states': r.distinct, 'transitions': r.generated,
            'wall_s': round(r.wall, 1), 'violates': invariant}

    def executions(self, exe, module, runs, describe=None, module_args=None):
        """Runs random programs under random schedules - runs: [(profile,
        number)] - and has TLC explain the executions.  Those it can't explain
        are confirmed by running them again."""
        stats = self.extra.setdefault('executions', {})
        for profile, n in runs:
            trace = '%s/%s.nd' % (scratch(), profile)
            cmd = [exe, str(self.seed), str(n), profile, trace, str(CPUS)]
            rc, o, e = sh(cmd, timeout=400)
            if rc != 0:
                raise CheckError('%s: %s %s' % (cmd, rc, e[-500:]))
            with open(trace + '.stat') as f:
                st = json.load(f)
            bad, lines, states, trans = exec_check(module, trace)
            self.states += states
            self.transitions += trans
            self.traces += lines
            x = stats.setdefault(profile, {'executions': 0, 'steps': 0,
                                           'different': 0, 'ends': {}})
            x['executions'] += st['executions']
            x['steps'] += st['steps']
            x['different'] += lines
            with open(trace) as f:
                text = f.readlines()
            for l in text:
                m = re.search(r'"end":"(\w+)"', l).group(1)
                x['ends'][m] = x['ends'].get(m, 0) + 1
                for v in json.loads(l)['ev']:
                    if v.get('e') == 'call':
                        k = v['op'] + ' ' + v.get('res', 'waits')
                        c = x.setdefault('calls', {})
                        c[k] = c.get(k, 0) + 1
            if text:
                self.sample(text[len(text) // 2].strip())
            confirmed = 0
            for i in bad:
                if confirmed == 3:
                    break
                r = json.loads(text[i - 1])
                one = '%s/one.nd' % scratch()
                rc, o, e = sh(cmd[:1] + [str(r['seed']), '1', profile, one, '1'],
                              timeout=60, env={'VS_SEED': str(r['seed'])})
                if rc != 0 or not exec_check(module, one)[0]:
                    log('not repeated: seed %s of %s' % (r['seed'], profile))
                    continue
                confirmed += 1
                where = ''
                if 'pc' in r:
                    _, o, _ = sh(['addr2line', '-Cfie', exe, r['pc']])
                    where = ' ' + ' '.join(o.split('\n'))[:600]
                self.violation(
                    'execution %s of profile %s (%s%s) is not possible' % (
                        r['seed'], profile, r['end'], where),
                    [('execution.json', text[i - 1]),
                     ('execution.txt', '\n'.join(map(json.dumps, r['ev'])) + '\n'),
                     ('command', 'VS_SEED=%s %s %s 1 %s OUT 1\n' % (
                         r['seed'], exe, r['seed'], profile))])
            os.unlink(trace)
            if self.violations:
                return False
        return True

    def run_harness(self, cmd, trace, timeout=300, env=None, cwd=None):
        """Runs a harness which must end normally; its trace file is complete
        only then.  A crash or a hang, if repeated, is a violation."""
        r = sh(cmd, timeout=timeout, env=env, cwd=cwd)
        if r[0] == 0:
            return True
        again = sh(cmd, timeout=timeout, env=env, cwd=cwd)
        if again[0] == 0:
            log('not repeated: %s -> %s' % (cmd, r[0]))
            return True
        how = ('does not end' if again[0] == 'timeout' else
               'ends with %s' % again[0])
        self.violation('%s %s\n%s' % (' '.join(cmd), how, again[2][-4000:]),
                       [('command', json.dumps(cmd)),
                        ('stderr', again[2][-100000:])] +
                       ([trace] if trace else []))
        return False


def finish(ctx, level):
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed,
        'level': level,
        'coverage': dict({
            'states': ctx.states, 'transitions': ctx.transitions,
            'traces_validated_against_impl': ctx.traces,
            'samples': ctx.samples or ['none']}, **ctx.extra),
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - ctx.start, 1),
        'violations': len(ctx.violations),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, ctx.prop), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in ctx.known:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k))
    for what, path in ctx.violations:
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        print('  ' + what.splitlines()[0][:300])
    if ctx.violations:
        return 1
    print('OK property=%s tier=%s states=%d traces=%d wall=%.0fs' % (
        ctx.prop, ctx.tier, ctx.states, ctx.traces, time.time() - ctx.start))
    return 0
