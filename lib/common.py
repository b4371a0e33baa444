"""Shared machinery: building ftwin's sources under sanitizers, running monitored
processes, deciding what is a violation and writing evidence.

Nothing here looks at how ftwin is written: every *.c file under /repo/src is
compiled into one library and the harnesses use the public headers, the command
line and the on-disk format only."""
import concurrent.futures, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
JOBS = os.cpu_count() or 8

SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment'],
    'tsan': ['-fsanitize=thread'],
    'plain': [],
}
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:handle_sigfpe=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=97:second_deadlock_stack=1',
}
SAN_RCS = {97, 98, 99}
GUARD_WRAPS = ['apr_pool_create_ex', 'apr_palloc', 'apr_pcalloc', 'apr_pstrmemdup', 'apr_pstrdup', 'apr_pstrndup', 'apr_pmemdup', 'apr_pstrcat', 'apr_pvsprintf', 'apr_psprintf']


SCRATCH = []


def kill_strays(d):
    """End processes of ours that still run a program built in scratch directory d."""
    for e in glob.glob('/proc/[0-9]*/exe'):
        try:
            if os.readlink(e).startswith(d + '/'):
                os.kill(int(e.split('/')[2]), 9)
        except OSError:
            pass


def cleanup():
    for d in SCRATCH:
        kill_strays(d)
        shutil.rmtree(d, ignore_errors=True)


class CheckError(Exception):
    """The check itself failed (not a verdict on ftwin)."""


class BuildError(CheckError):
    pass


def pkg(*names):
    c = subprocess.run(['pkg-config', '--cflags', *names], capture_output=True, text=True).stdout.split()
    l = subprocess.run(['pkg-config', '--libs', *names], capture_output=True, text=True).stdout.split()
    return c, l


class Builder:
    """Compiles /repo/src into scratch directories, once per sanitizer variant."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.libs = {}
        cf, lf = pkg('apr-1', 'apr-util-1', 'libpcre', 'jansson')
        self.cflags = cf + ['-I' + HARNESS, '-I' + REPO + '/src', '-I' + REPO + '/src/vendor/xxhash', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE']
        self.ldlibs = lf + ['-lgd', '-lpuzzle', '-larchive', '-lz', '-lbz2', '-lpthread', '-ldl']

    def run(self, cmd):
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
        if p.returncode:
            raise BuildError('build failed: %s\n%s' % (' '.join(cmd), p.stderr[-4000:]))

    def lib(self, variant):
        if variant in self.libs:
            return self.libs[variant]
        d = os.path.join(self.scratch, 'lib-' + variant)
        os.makedirs(d)
        srcs = sorted(glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/vendor/**/*.c', recursive=True))
        if not srcs:
            raise BuildError('no sources under %s/src' % REPO)
        jobs, objs = [], []
        for s in srcs:
            name = os.path.relpath(s, REPO + '/src').replace('/', '_')[:-2]
            o = os.path.join(d, name + '.o')
            objs.append(o)
            opt = '-O2' if 'xxhash' in name else '-O1'
            base = ['gcc', '-w', '-g', opt, '-fno-omit-frame-pointer', *SAN[variant], *self.cflags]
            jobs.append(base + ['-DFTWIN_TEST_BUILD', '-c', s, '-o', o])
            if os.path.basename(s) == 'ftwin.c':
                self.mainsrc = s
                jobs.append(base + ['-c', s, '-o', os.path.join(d, 'main.obj')])
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.run, jobs))
        a = os.path.join(d, 'libft.a')
        self.run(['ar', 'rcs', a, *objs])
        self.libs[variant] = a
        return a

    def guard(self, variant):
        """Object file and link options that turn pool allocations into heap blocks."""
        o = os.path.join(self.scratch, 'poolguard-%s.o' % variant)
        if not os.path.exists(o):
            self.run(['gcc', '-w', '-g', '-O1', '-fno-omit-frame-pointer', *SAN[variant], *self.cflags, '-c', os.path.join(HARNESS, 'poolguard.c'), '-o', o])
        return [o] + ['-Wl,--wrap=' + w for w in GUARD_WRAPS]

    def harness(self, variant, src, out, wraps=(), extra=(), guard=False):
        """Link a C/C++ harness with the library."""
        a = self.lib(variant)
        o = os.path.join(self.scratch, out)
        cc = ['g++', '-std=c++17'] if src.endswith('.cpp') else ['gcc', '-std=gnu11']
        self.run(cc + ['-w', '-g', '-O1', '-fno-omit-frame-pointer', *SAN[variant], *self.cflags, os.path.join(HARNESS, src), *(self.guard(variant) if guard else []), a,
                       *['-Wl,--wrap=' + w for w in wraps], '-o', o, *self.ldlibs, *extra])
        return o

    def ftwin(self, variant, out, shims=(), wraps=(), extra=()):
        """Link the real program, optionally with shim objects."""
        a = self.lib(variant)
        o = os.path.join(self.scratch, out)
        self.run(['gcc', '-w', '-g', '-O1', '-fno-omit-frame-pointer', *SAN[variant], *self.cflags, os.path.join(os.path.dirname(a), 'main.obj'),
                  *[os.path.join(HARNESS, s) for s in shims], *self.guard(variant), a, *['-Wl,--wrap=' + w for w in wraps], '-o', o, *self.ldlibs, *extra])
        return o


def env_for(extra=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e['LC_ALL'] = 'C'
    if extra:
        e.update(extra)
    return e


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, level, rule, assumptions=()):
        self.prop, self.tier, self.level, self.rule = prop, tier, level, rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_extra = 0
        self.samples = []
        self.observed = {}
        self.violations = []      # (signature, text)
        self.scratch = tempfile.mkdtemp(prefix='ftv%s-' % prop.lower(), dir=os.environ.get('VERIF_SCRATCH', '/tmp'))
        os.chmod(self.scratch, 0o755)
        SCRATCH.append(self.scratch)
        self.b = Builder(self.scratch)
        self.known = load_known(prop)

    # ---- what was observed
    def count(self, name, n=1):
        self.observed[name] = self.observed.get(name, 0) + n

    def maxi(self, name, n):
        self.observed[name] = max(self.observed.get(name, 0), n)

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def distinct(self, *parts):
        self.nontrivial.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def violation(self, signature, text):
        self.violations.append((signature, text))

    # ---- result
    def finish(self, need=()):
        """need: names of observations that must be non-zero for the run to count; a name with a question mark depends on
        how the code does its work (which calls it makes), so that its absence is reported and recorded, no more."""
        blind = [n.rstrip('?') for n in need if n.endswith('?') and not self.observed.get(n.rstrip('?'))]
        need = [n for n in need if not n.endswith('?')]
        new, knownhits = [], {}
        for sig, text in self.violations:
            for k, what in self.known:
                if re.search(k, sig + '\n' + text):
                    knownhits[what] = knownhits.get(what, 0) + 1
                    break
            else:
                new.append((sig, text))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.nontrivial) + self.nontrivial_extra,
                'rule': self.rule, 'samples': self.samples or ['(none)'], 'observed': self.observed, 'not_observed': blind,
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        kill_strays(self.scratch)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for what in knownhits:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if new:
            rp = os.path.join(EVID, 'replay')
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, '%s.txt' % self.prop)
            with open(path, 'w', errors='replace') as f:
                f.write('property %s, tier %s, VERIF_SEED=%d\n' % (self.prop, self.tier, self.seed))
                for sig, text in new[:20]:
                    f.write('\n=== %s\n%s\n' % (sig, text))
            print('%d violation(s); first: %s' % (len(new), new[0][0]))
            print(new[0][1][:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        missing = [n for n in need if not self.observed.get(n)]
        if missing:
            print('check error: the monitors saw nothing of: %s' % ', '.join(missing))
            return 2
        if blind:
            print('note: nothing was seen of: %s' % ', '.join(blind))
        print('OK property=%s evaluations=%d distinct=%d wall=%.1fs %s' % (self.prop, self.evaluations, ev['coverage']['distinct_nontrivial'], ev['wall_s'],
                                                                          json.dumps(self.observed)))
        return 0


def load_known(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def pmap(fn, items, workers=JOBS):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def tail(s, n=6000):
    return s if len(s) <= n else s[:n // 2] + '\n[...]\n' + s[-n // 2:]


STALL = 45      # s without a new history (they take about one) before a run counts as hanging


def watched(cmd, base, timeout, stall, env):
    """Run a harness until it ends, its time is up or it stops beginning new histories."""
    with open(base + '.out', 'w+', errors='replace') as fo, open(base + '.err', 'w+', errors='replace') as fe:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=env_for(env))
        t0 = last = time.time()
        seen, rc, gap = None, None, 0
        while rc is None:
            try:
                rc = p.wait(.5)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            try:
                st = os.stat(base + '.progress')
                st = (st.st_mtime_ns, st.st_ino)
            except OSError:
                st = None
            if st != seen:
                seen, gap, last = st, max(gap, now - last), now
            if now - last > stall or now - t0 > 4 * timeout:
                p.kill()
                p.wait()
                rc = 'timeout'
        fo.seek(0)
        fe.seek(0)
        out, err = fo.read(), fe.read()
    for f in (base + '.out', base + '.err'):
        os.unlink(f)
    return rc, out, err, gap


def run_harness(chk, exe, args, total, chunk, timeout=240, env=None, name=None):
    """Run `exe` over histories 1..total in parallel chunks. The harness prints
    'VIOL <kind> history=..' (exit 3) or 'STATS {json}' (exit 0); anything else is
    a crash or sanitizer report of the code under test, or a hang."""
    name = name or os.path.basename(exe)
    jobs = []
    for i, first in enumerate(range(0, total, chunk)):
        jobs.append((i, first, min(chunk, total - first)))

    stop = []

    def one(job, attempt=0):
        if len(stop) >= 3:          # enough evidence: the remaining chunks are not needed
            return None
        i, first, n = job
        d = os.path.join(chk.scratch, '%s-%d-%d' % (name, i, attempt))
        os.makedirs(d, exist_ok=True)
        cmd = [exe, '--dir', d, '--seed', str(chk.seed), '--first', str(first), '--count', str(n), '--log', d + '.log', '--progress', d + '.progress', *args]
        rc, out, err, gap = watched(cmd, d, timeout, STALL if attempt == 0 else 2 * STALL, env)
        chk.maxi('max_seconds_of_a_history', round(gap))
        prog = ''
        try:
            prog = open(d + '.progress', errors='replace').read()[-2000:]
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        if rc == 'timeout' and attempt == 0:
            return one(job, 1)
        if rc == 'timeout':
            stop.extend([i] * 3)    # one confirmed hang says enough
        log = ''
        if rc != 0:
            stop.append(i)
            try:
                log = tail(open(d + '.log', errors='replace').read(), 4000)
            except OSError:
                pass
        for f in (d + '.log', d + '.progress'):
            try:
                os.unlink(f)
            except OSError:
                pass
        return job, cmd, rc, out, err, prog, log

    stats = {}
    for r in pmap(one, jobs):
        if r is None:
            continue
        job, cmd, rc, out, err, prog, log = r
        m = re.search(r'^STATS (\{.*\})$', out, re.M)
        for x in re.findall(r'^SAMPLE (.*)$', out, re.M):
            chk.sample({'history': x}, cap=3)
        if rc == 0 and m:
            for k, v in json.loads(m.group(1)).items():
                if k.startswith('max_'):
                    stats[k] = max(stats.get(k, 0), v)
                else:
                    stats[k] = stats.get(k, 0) + v
            continue
        detail = 'command: %s\nexit: %s\nlast progress: %s\n%s\n%s\n--- operations\n%s' % (' '.join(cmd), rc, prog, tail(out, 3000), tail(err, 5000), log)
        m = re.search(r'^VIOL (\S+) (.*)$', out, re.M)
        if rc == 3 and m:
            chk.violation('%s:%s' % (name, m.group(1)), detail)
        elif rc == 'timeout':
            chk.violation('%s:hang' % name, 'no progress within %d s, twice\n%s' % (STALL, detail))
        elif rc in SAN_RCS or (isinstance(rc, int) and rc < 0):
            chk.violation('%s:crash' % name, detail)
        elif rc == 4:
            raise CheckError('harness failure: ' + detail)
        else:
            chk.violation('%s:abnormal-exit' % name, detail)
    return stats
