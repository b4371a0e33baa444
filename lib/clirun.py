"""Engine of the command-line checks: runs the instrumented ftwin over generated
trees in parallel, and compares what it reports with the model."""
import collections, json, multiprocessing, os, pty, random, re, resource, select, shutil, signal, subprocess, sys, termios, time, traceback, tty
from common import *
import climodel as M

POOL_WRAPS = ['apr_thread_mutex_lock', 'apr_thread_mutex_unlock', 'apr_thread_cond_wait', 'apr_thread_create']
WEAK_WRAPS = ['XXH3_128bits', 'XXH3_128bits_digest']
NOBODY = 65534
SEARCH_TIMEOUT = 90


def build_ftwin(chk, kind):
    """kinds: asan (faults, log, jitter), weak (asan, colliding digests), tsan (jitter)."""
    if kind == 'tsan':
        return chk.b.ftwin('tsan', 'ftwin-tsan', ['shim.c'], POOL_WRAPS, ['-DFTV_NOFILES'])
    if kind == 'weak':
        return chk.b.ftwin('asan', 'ftwin-weak', ['shim.c'], POOL_WRAPS + WEAK_WRAPS, ['-rdynamic', '-DFTV_WEAK'])
    return chk.b.ftwin('asan', 'ftwin-asan', ['shim.c'], POOL_WRAPS, ['-rdynamic'])


class Result:
    def __init__(self, rc, out, err, cmd, env):
        self.rc, self.out, self.err, self.cmd, self.env = rc, out, err, cmd, env

    @property
    def crashed(self):
        return self.rc == 'timeout' or self.rc in SAN_RCS or (isinstance(self.rc, int) and self.rc < 0)


class Case:
    """One generated case: its random source, scratch directory and findings."""

    def __init__(self, prop, seed, i, scratch, bins):
        self.rng = random.Random('%s/%d/%d' % (prop, seed, i))
        self.prop, self.i, self.bins = prop, i, bins
        self.dir = os.path.join(scratch, 'case%d' % i).encode()
        os.makedirs(self.dir)
        os.chmod(self.dir, 0o755)
        self.root = self.dir + b'/r'
        self.viol, self.counts, self.maxs, self.keys, self.samples, self.evals = [], {}, {}, [], [], 0

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def maxi(self, k, n):
        self.maxs[k] = max(self.maxs.get(k, 0), n)

    def distinct(self, *parts):
        self.keys.append(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 1:
            self.samples.append({k: show(v) for k, v in kw.items()})

    def bad(self, sig, text, res=None):
        t = 'case %d of %s\n%s' % (self.i, self.prop, text)
        if res is not None:
            t += '\ncommand: %s\nenv: %s\nexit: %s\n--- stdout\n%s\n--- stderr\n%s' % (show(res.cmd), show(res.env), res.rc, tail(show(res.out), 3000), tail(show(res.err), 5000))
        t += '\n--- tree\n' + tail(tree(self.root), 4000)
        self.viol.append((sig, t))

    # ---- running ftwin
    def run(self, argv, cwd=None, env=None, user=None, kind='asan', use_pty=False, timeout=SEARCH_TIMEOUT, groups=(), redirect=None, limits=None, tries=2):
        cmd = [self.bins[kind].encode(), *[a if isinstance(a, bytes) else a.encode() for a in argv]]
        e = {os.fsencode(k): os.fsencode(v) for k, v in env_for().items() if not k.startswith('FTV_')}
        extra = {os.fsencode(k): (v if isinstance(v, bytes) else os.fsencode(str(v))) for k, v in (env or {}).items()}
        e.update(extra)
        kw = {}
        if user is not None:
            kw = dict(user=user, group=user, extra_groups=list(groups))
        for attempt in range(tries):
            self.evals += 1
            try:
                if use_pty:
                    rc, out, err = run_pty(cmd, cwd or self.dir, e, timeout)
                else:
                    p = subprocess.run(cmd, cwd=cwd or self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=redirect_fn(redirect, limits) if redirect or limits else None, **kw)
                    rc, out, err = p.returncode, p.stdout, p.stderr
                break
            except subprocess.TimeoutExpired as x:
                rc, out, err = 'timeout', x.stdout or b'', x.stderr or b''
        res = Result(rc, out, err, cmd[1:], extra)
        if res.crashed:
            what = 'no result within %d s%s' % (timeout, ', twice' if tries > 1 else '') if rc == 'timeout' else 'ftwin crashed'
            m = re.search(rb'(AddressSanitizer: [\w-]+|runtime error: [^\n]{0,80}|ThreadSanitizer: [\w -]+)', err)
            self.bad('hang' if rc == 'timeout' else 'crash', '%s%s' % (what, (': ' + m.group(1).decode(errors='replace')) if m else ''), res)
        return res

    # ---- oracles
    def expect(self, opts, args, cwd=None, **kw):
        return M.Expect(opts, args, cwd or self.dir, **kw)

    def groups_of(self, res, opts):
        """Reported groups: [(size or None, [key], raw)] or None after a complaint."""
        if opts.json:
            try:
                doc = json.loads(res.out)
                out = [(g['size_bytes'], [f['path'] for f in g['duplicates']], g) for g in doc]
            except Exception as x:
                self.bad('json-malformed', 'the report is not the documented JSON: %r' % x, res)
                return None
            return out
        g = M.parse_text(res.out, opts)
        if isinstance(g, str):
            self.bad('malformed', g, res)
            return None
        return [(s, ps, None) for s, ps in g]

    def key(self, p, opts):
        return M.to_json_path(p) if opts.json else p

    def exit_ok(self, res, exp):
        """Exit status and emptiness of the report."""
        want = 255 if exp.w.error or not exp.files else 0
        if res.rc != want:
            self.bad('exit-status', 'exit status %s, expected %s' % (res.rc, want), res)
            return False
        if want and res.out:
            self.bad('report-on-failure', 'a report was written although the run failed', res)
            return False
        return want == 0

    def partition(self, res, opts, exp, override=None, what='partition'):
        """The reported groups are exactly the classes of identical eligible files."""
        got = self.groups_of(res, opts)
        if got is None:
            return False
        want = exp.groups(override)
        w = collections.Counter(tuple(sorted(self.key(p, opts) for p in g)) for g in want)
        h = collections.Counter(tuple(sorted(ps)) for _, ps, _ in got)
        if w != h:
            self.bad(what, 'groups expected but not reported: %s\ngroups reported but not expected: %s' % (show(list((w - h).elements())[:5]), show(list((h - w).elements())[:5])), res)
            return False
        self.count('groups_checked', len(got))
        self.count('files_in_groups', sum(len(p) for _, p, _ in got))
        return True

    def sound(self, res, opts, exp, override=None):
        got = self.groups_of(res, opts)
        if got is None:
            return False
        by = {}
        for p, a in exp.files:
            by.setdefault(self.key(p, opts), []).append(exp.digest(a, override))
        for _, ps, _ in got:
            if len(ps) < 2:
                self.bad('singleton', 'a group of one file: %s' % show(ps), res)
                return False
            poss = None
            for p, n in collections.Counter(ps).items():
                if p in by and n > len(by[p]):
                    self.bad('listed-twice', 'a path is listed %d times in one group: %s' % (n, show(p)), res)
                    return False
            for p in ps:
                if p not in by:
                    self.bad('stranger', 'a path that is not an eligible file was reported: %s' % show(p), res)
                    return False
                d = set(by[p])
                poss = d if poss is None else poss & d
            if not poss or poss == {None}:
                self.bad('not-identical', 'files with different contents in one group: %s' % show(ps), res)
                return False
            self.count('pairs_confirmed', len(ps) * (len(ps) - 1) // 2)
        self.count('groups_checked', len(got))
        return True


def redirect_fn(redirect, limits):
    """Runs in the child before exec: replace or close descriptors, set limits, ignore signals."""
    def f():
        for fd, what in (redirect or {}).items():
            if what is None:
                os.close(fd)
            elif isinstance(what, int):
                os.dup2(what, fd)
            else:
                n = os.open(what, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                if n != fd:
                    os.dup2(n, fd)
                    os.close(n)
        for which, v in (limits or {}).items():
            if which == 'ignore':
                for x in v:
                    signal.signal(x, signal.SIG_IGN)
            else:
                resource.setrlimit(which, (v, v))
    return f


def show(v):
    if isinstance(v, bytes):
        return v.decode('utf-8', 'backslashreplace').replace('\0', '\\0')
    if isinstance(v, (list, tuple, set, frozenset)):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {show(k): show(x) for k, x in v.items()}
    return v if isinstance(v, (str, int, float, bool)) or v is None else repr(v)


def tree(root):
    out = []
    for d, ds, fs in os.walk(root):
        for n in sorted(fs) + [x for x in sorted(ds) if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, n)
            try:
                s = os.lstat(p)
                x = ''
                if os.path.islink(p):
                    x = '-> ' + show(os.readlink(p))
                elif os.path.isfile(p) and s.st_size < 1 << 22:
                    b = open(p, 'rb').read()
                    x = hashlib.sha1(b).hexdigest()[:8]
                    if n == b'.gitignore':
                        x += ' ' + repr(b[:400])
                out.append('%s %o %d %s' % (show(p), s.st_mode, s.st_size, x))
            except OSError as e:
                out.append('%s %s' % (show(p), e))
            if len(out) > 300:
                return '\n'.join(out) + '\n...'
    return '\n'.join(out)


def run_pty(cmd, cwd, env, timeout):
    m, s = pty.openpty()
    tty.setraw(s)
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.PIPE)
    os.close(s)
    out, err, end = b'', b'', time.time() + timeout
    e = p.stderr.fileno()
    left = {m, e}                   # both are drained, or a talkative run would block on the one that is not
    try:
        while left:
            r, _, _ = select.select(list(left), [], [], max(0, end - time.time()))
            if not r:
                p.kill()
                raise subprocess.TimeoutExpired(cmd, timeout, out)
            for fd in r:
                try:
                    b = os.read(fd, 65536)
                except OSError:
                    b = b''
                if not b:
                    left.discard(fd)
                elif fd == m:
                    out += b
                else:
                    err += b
        return p.wait(), out, err
    finally:
        p.stderr.close()
        os.close(m)


_G = {}


def _one(i):
    g = _G
    c = Case(g['prop'], g['seed'], i, g['scratch'], g['bins'])
    try:
        g['fn'](c)
        return {'i': i, 'viol': c.viol, 'counts': c.counts, 'maxs': c.maxs, 'keys': c.keys, 'samples': c.samples, 'evals': c.evals}
    except Exception:
        return {'i': i, 'error': traceback.format_exc()}
    finally:
        force_rm(c.dir)


def force_rm(d):
    try:
        shutil.rmtree(d)
    except OSError:
        subprocess.run(['chmod', '-R', 'u+rwx', d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)


def run_cases(chk, fn, n, bins, first=0, workers=JOBS, stop_after=6):
    """Run fn on cases first..first+n-1 in parallel processes and gather what they saw."""
    _G.update(prop=chk.prop, seed=chk.seed, scratch=chk.scratch, bins=bins, fn=fn)
    bad = 0
    if len(chk.violations) >= stop_after or any(v[0].endswith('hang') for v in chk.violations):
        return      # enough evidence already
    with multiprocessing.get_context('fork').Pool(workers, initializer=lambda: signal.signal(signal.SIGINT, signal.SIG_IGN)) as pool:
        for r in pool.imap_unordered(_one, range(first, first + n), chunksize=1):
            if 'error' in r:
                raise CheckError('case %d: %s' % (r['i'], r['error']))
            for sig, t in r['viol']:
                chk.violation(sig, t)
            bad += bool(r['viol'])
            for k, v in r['counts'].items():
                chk.count(k, v)
            for k, v in r['maxs'].items():
                chk.maxi(k, v)
            chk.nontrivial.update(r['keys'])
            chk.evaluations += r['evals']
            for s in r['samples']:
                chk.sample(s, cap=3)
            if bad >= stop_after or any(v[0].endswith('hang') for v in r['viol']):
                pool.terminate()
                break
