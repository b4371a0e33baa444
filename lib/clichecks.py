"""Checks of the ftwin program itself: what it reports, what it leaves alone, what it survives."""
import datetime, itertools, stat
from clirun import *

O = M.Opts
ASSUME = ['the model walks the same tree as ftwin, between two changes of it', 'Linux file system semantics; UTF-8 or arbitrary bytes in names; C locale']


def start(prop, tier, rule, level='exploration', kinds=('asan',), assume=()):
    chk = Check(prop, tier, level, rule, ASSUME + list(assume))
    bins = {}
    try:
        for k in kinds:
            bins[k] = build_ftwin(chk, k)
    except Exception:
        shutil.rmtree(chk.scratch, ignore_errors=True)
        raise
    return chk, bins


def pick(tier, q, t):
    return q if tier == 'quick' else t


# ------------------------------------------------------------------ generators

def rx(rng, files, dirs, root):
    """(PCRE text, Python text) of a regular expression about the paths of the tree."""
    esc = lambda b: re.sub(rb'([^A-Za-z0-9/_\x80-\xff])', rb'\\\1', b)
    f = rng.choice(files) if files else root + b'/x'
    nl = [x for x in files if b'\n' in x.split(b'/')[-1]]
    if nl and rng.random() < .7:
        f = rng.choice(nl)
        if rng.random() < .5 and not f.endswith(b'/\n'):
            f = f.rstrip(b'\n')
    base = f.split(b'/')[-1]
    k = rng.randrange(13)
    if nl and rng.random() < .5:
        k = rng.choice([1, 2, 6])
    if b'\n' in base and rng.random() < .6:
        k = rng.choice([1, 2, 6, 8, 12])
    if k == 12:
        j = base.find(b'\n') if b'\n' in base else rng.randrange(len(base))
        e = esc(base[:j]) + b'.' + esc(base[j + 1:])
        return b'/' + e + b'$', b'/' + e + b'\\Z'
    if k == 0:
        e = rng.choice([b'txt', b'c', b'log', b'jpg', b'TXT', b'md'])
        return b'\\.' + e + b'$', b'\\.' + e + b'\\Z'
    if k == 1:
        return esc(base) + b'$', esc(base) + b'\\Z'
    if k == 2:
        return (b'/' + esc(base) + b'$',) * 1 + (b'/' + esc(base) + b'\\Z',)
    if k == 3:
        d = rng.choice(dirs).split(b'/')[-1]
        return (b'/' + esc(d) + b'/',) * 2
    if k == 4:
        return (b'[' + rng.choice([b'a-e', b'A-M', b'0-9', b'f-z']) + b'][^/]*',) * 1 + (None,)
    if k == 5:
        return b'(' + esc(base[:2]) + b'|' + esc(base[-2:]) + b')$', b'(' + esc(base[:2]) + b'|' + esc(base[-2:]) + b')\\Z'
    if k == 6:
        return b'^' + esc(f) + b'$', b'^' + esc(f) + b'\\Z'
    if k == 7:
        return (esc(base.swapcase()),) * 2
    if k == 8:
        return (b'/[^/]{%d}$' % len(base),) * 1 + (b'/[^/]{%d}\\Z' % len(base),)
    if k == 9:
        return (b'sub|dir|a/b',) * 2
    if k == 10:
        return (b'\\..',) * 2
    return (b'/' + esc(base[:1]) + b'.*/' + esc(base[:1]),) * 2


def sizeval(rng, sizes):
    s = rng.choice(sizes) if sizes else 1
    s = max(0, s + rng.choice([-1, 0, 0, 1]))
    k = rng.randrange(6)
    if k == 0:
        return b'%d' % s
    if k == 1:
        return rng.choice([b'0', b'1', b'1K', b'2k', b'0.5K', b'64K', b'1M', b'1G', b'4T', b'65536', b'1.5K'])
    if k == 2 and s % 1024 == 0:
        return b'%dK' % (s // 1024)
    if k == 3:
        return b'%dB' % s if s else b'0'
    return b'%d' % s


def overlap(c, args, cwd, files):
    """Sometimes: arguments that lead to some files again, by the same path or another."""
    rng = c.rng
    if rng.random() >= .2:
        return args
    out = list(args)
    for _ in range(rng.choice([1, 1, 2, 4])):
        a = rng.choice(args)
        k = rng.randrange(4)
        if k >= 2:
            absa = os.path.normpath(a if a.startswith(b'/') else cwd + b'/' + a)
            below = sorted({x for f in files for x in (f, os.path.dirname(f)) if x.startswith(absa + b'/') and os.path.lexists(x)})
            if below:
                a = a + (b'' if a.endswith(b'/') else b'/') + os.path.relpath(rng.choice(below), absa)
        out.insert(rng.randrange(len(out) + 1), a)
    return out


def spread(rng, root, dirs, cwd, multi=True):
    """Arguments that reach no file twice, in various spellings, and the directory to run in."""
    tops = sorted(os.listdir(root))
    k = rng.randrange(6) if multi else 0
    if k <= 2 or not tops:
        cands = [root]
    else:
        cands = [root + b'/' + t for t in tops if rng.random() < .8] or [root]
        rng.shuffle(cands)
    out = []
    for a in cands:
        isdir = os.path.isdir(a) and not os.path.islink(a)
        sp = rng.randrange(6)
        rel = os.path.relpath(a, cwd)
        if sp == 0 or sp == 1:
            p = a
        elif sp == 2:
            p = rel if not rel.startswith(b'-') else b'./' + rel
        elif sp == 3:
            p = b'./' + rel
        elif sp == 4:
            p = a + (b'/' if isdir else b'')
        else:
            p = (rel if not rel.startswith(b'-') else b'./' + rel) + (b'/' if isdir else b'')
        out.append(p)
    return out


def cwd_of(c, dirs):
    return c.rng.choice([c.dir, c.dir, c.root, c.dir])


def basic_opts(rng, json_p=.25):
    o = O()
    o.json = rng.random() < json_p
    o.long = rng.random() < .3
    if rng.random() < .5:
        o.threads = rng.choice([1, 2, 3, 4, 8, 17, 64])
    if rng.random() < .6:
        o.excess = rng.choice([b'0', b'1', b'4096', b'65536', b'64K', b'10', b'1G', b'3', b'1K'])
    o.mem = rng.random() < .2
    o.dsize = rng.random() < .2 and not o.json
    o.verbose = rng.random() < .15
    o.dry = rng.random() < .1
    o.tar = rng.random() < .1
    if rng.random() < .2 and not o.json:
        o.sep = rng.choice([b'|', b';', b'\t', b'', b':'])
    return o


def filters(rng, o, files, dirs, root):
    sizes = [os.lstat(f).st_size for f in files]
    o.hidden = rng.random() < .4
    o.norec = rng.random() < .15
    o.rec = rng.choice([1, 2]) if rng.random() < .12 else 0
    if rng.random() < .35:
        names = [rng.choice(files + dirs).split(b'/')[-1] for _ in range(rng.randrange(1, 5))]
        names = [n for n in names if b',' not in n]
        if rng.random() < .3:
            names.append(rng.choice([b'zzz', b'a.txt', b'', b'.', b'A', b'sub']))
        rng.shuffle(names)
        o.ilist = [b','.join(names)] if rng.random() < .7 else names
        o.ilist = [x for x in o.ilist if x] or []
    if rng.random() < .1:
        # names as long as names can be, which differ at their end
        long = b'N' * rng.choice([100, 127, 128, 200, 240])
        for x in (b'', b'1', b'2'):
            p = rng.choice(dirs) + b'/' + long + x
            if not os.path.lexists(p):
                with open(p, 'wb') as f:
                    f.write(b'long')
                files.append(p)
        o.ilist.append(long + b'1,' + rng.choice([b'', long]))
    o.icase = rng.random() < .25
    py = {}

    def nest(a, b):
        k = rng.choice([0, 0, 0, 0, 1, 9, 33, 70, 90])
        return b'(' * k + a + b')' * k, b'(' * k + (b or a) + b')' * k
    if rng.random() < .35:
        o.ignore_re, py['e'] = nest(*rx(rng, files, dirs, root))
    if rng.random() < .35:
        o.white_re, py['w'] = nest(*rx(rng, files, dirs, root))
    o.py = py
    if rng.random() < .4:
        o.minsize = sizeval(rng, sizes)
    if rng.random() < .4:
        o.maxsize = sizeval(rng, sizes)
    return o


def default_hidden(o):
    o.hidden = True
    return o


def few(o, more=0):
    """A limit of open files that suits the threads of a run, but not one file kept open per entry of a large tree."""
    return {resource.RLIMIT_NOFILE: 120 + 4 * (o.threads or 64) + more}


def near_miss_tree(c, n=None, names='plain', **kw):
    return M.make_tree(c.rng, c.root, nfiles=n, names=names, special=False, big=c.rng.random() < .4, **kw)


# ------------------------------------------------------------------ C01, C02

def sparse_giants(c, files):
    """Files whose sizes agree only in their low 31 or 32 bits, and equally long ones that differ early."""
    rng = c.rng
    k = rng.randrange(1, 5000)
    made = []
    for j, s in enumerate([k, k + (1 << 31), k + (1 << 32), k + (1 << 33), k + (1 << 40)]):
        p = c.root + b'/giant%d' % j
        with open(p, 'wb') as f:
            f.truncate(s)
        made.append((p, s))
    for n, at in ((0, 0), (1, None)):
        over = rng.randrange(1, 100000)
        s = (1 << rng.choice([31, 32, 33])) + over
        for j in range(2):
            # the second pair differs only beyond what the low bits of the size would cover
            p = c.root + b'/equal%d-%d' % (n, j)
            with open(p, 'wb') as f:
                f.truncate(s)
                f.seek(over + 1 + rng.choice([0, 9, 70000]) if at is None else at)
                f.write(bytes([65 + j]) * 8)
            made.append((p, s))
    return {p: (s, j) for j, (p, s) in enumerate(made)}


def giant_pairs(c):
    """Pairs whose sizes agree in their low 32 bits, and nothing between them."""
    rng = c.rng
    k = rng.randrange(1, 5000)
    out = {}
    names = list(range(4))
    rng.shuffle(names)
    for s in rng.sample([k, k + (1 << 32)], 2):
        a, b = (c.root + b'/pair%d' % names.pop() for _ in range(2))
        with open(a, 'wb') as f:
            f.truncate(s)
        os.link(a, b)
        out[a] = out[b] = (s, b'zeros')
    return out


def group_case(c, full):
    rng = c.rng
    mode = c.i % 12
    kind, env, override = 'asan', {}, None
    if mode == 11:
        dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([3, 8]), special=False)
        override = sparse_giants(c, files)
        if c.i % 24 == 11:
            for f in files:
                os.unlink(f)
            for f in override:
                os.unlink(f)
            override = giant_pairs(c)
            files = sorted(override)
        c.count('sparse_giant_trees')
    elif mode == 10:
        dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([120, 300, 500]), special=False, fam=rng.choice([4, 40, 150]))
        c.count('large_trees')
    elif mode in (8, 9):
        # every content of one or two sizes, with digests that collide
        dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([4, 8, 14, 25]), special=False, fam=2, big=rng.random() < .3)
        kind, env = 'weak', {'FTV_HASHBITS': rng.choice([0, 0, 1, 2, 100, 200, 101, 102, 201, 6400, 64])}
        c.count('colliding_digest_runs')
    elif mode == 7:
        dirs, files = M.make_tree(rng, c.root, names='wild0', links=.9, hard=.2)
    else:
        dirs, files = near_miss_tree(c, names=rng.choice(['plain', 'plain', 'wild0']))
    if mode != 11 and mode != 10:
        M.spice(rng, dirs, files, .2, .06, .3)
    for _ in range(2):
        o = basic_opts(rng)
        if mode == 7:
            o.follow = rng.random() < .7
            o.hidden = rng.random() < .7
        if mode == 11:
            o.json, o.dsize = False, False
            o.excess = rng.choice([None, b'0', b'1G', b'100G', b'2T', b'2T'])
        if rng.random() < .3:
            o.prio = rng.choice(files) if rng.random() < .5 else rng.choice(dirs)
            if not o.prio.startswith(b'/'):
                o.prio = None
        cwd = cwd_of(c, dirs)
        args = overlap(c, spread(rng, c.root, dirs, cwd), cwd, files)
        exp = c.expect(o, args, cwd)
        c.count('files_reached_again', exp.overlapping)
        if override:
            # the giants' contents all differ: they carry their own identity
            exp.content.update(override)
        res = c.run(o.argv(rng) + args, cwd, env, kind=kind, limits=few(o))
        if res.crashed:
            return
        if not c.exit_ok(res, exp):
            return
        ok = c.partition(res, o, exp) if full else c.sound(res, o, exp)
        if not ok:
            return
        want = exp.groups()
        c.count('eligible_files', len(exp.files))
        sizes = collections.Counter(os.path.getsize(a) for _, a in exp.files)
        cls = {}
        for p, a in exp.files:
            cls.setdefault(exp.digest(a), 0)
        c.count('same_size_different_content', sum(1 for s in sizes if sizes[s] > 1 and len([d for d in cls if d[0] == s]) > 1))
        if want:
            c.distinct(sorted(sorted(g) for g in want), o.argv())
        c.sample(argv=res.cmd, groups=[sorted(g) for g in want][:4])


def C01(tier):
    chk, bins = start('C01', tier, 'generated trees of identical, nearly identical (one byte flipped or dropped at chunk and page boundaries) and equal-length files, including runs whose digests are made to collide; every reported group is compared byte by byte; non-trivial: distinct (tree, options) with at least one group', kinds=('asan', 'weak'))
    run_cases(chk, lambda c: group_case(c, False), pick(tier, 600, 9000), bins)
    run_cases(chk, pseudo_files, 1, bins, first=1000000)
    return chk.finish(['groups_checked', 'pairs_confirmed', 'same_size_different_content', 'colliding_digest_runs', 'files_reached_again'])


def pseudo_files(c):
    """Files of a pseudo file system, which have content although their size is given as 0."""
    names = [n for n in (b'/proc/version', b'/proc/filesystems', b'/proc/cpuinfo', b'/proc/cmdline') if os.path.exists(n) and os.path.getsize(n) == 0 and open(n, 'rb').read(1)]
    names = sorted({open(n, 'rb').read(): n for n in names}.values())
    if len(names) < 2:
        return
    res = c.run(names)
    if not res.crashed and res.rc == 0:
        c.count('pseudo_file_runs')
        got = [g for g in res.out.split(b'\n\n') if g]
        if got:
            c.bad('procfs-files-of-size-0', 'files of procfs with different content are reported as duplicates: %s' % show(res.out), res)


def many_sizes(c):
    """Thousands of files of thousands of sizes: the internal tables have to grow."""
    rng = c.rng
    os.makedirs(c.root)
    n = rng.choice([3000, 7000])
    per = 400
    sizes = rng.sample(range(1, 60000), n)
    i = 0
    for s in sizes:
        reps = 2 if rng.random() < .15 else 1
        for r in range(reps):
            d = c.root + b'/d%d' % (i // per)
            if i % per == 0:
                os.mkdir(d)
            with open(d + b'/f%d' % i, 'wb') as f:
                if rng.random() < .1:
                    f.write(bytes([rng.randrange(3)]))
                f.truncate(s)
            i += 1
    for j in range(rng.choice([50, 700])):
        with open(c.root + b'/same%d' % j, 'wb') as f:
            f.write(b'%03d' % (j % 60))
    o = basic_opts(rng)
    exp = c.expect(o, [c.root])
    res = c.run(o.argv(rng) + [c.root], limits=few(o))
    if res.crashed or not c.exit_ok(res, exp):
        return
    c.maxi('max_files_in_one_run', len(exp.files))
    c.maxi('max_distinct_sizes_in_one_run', n)
    if c.partition(res, o, exp):
        c.distinct('many', n, c.i)


def many_alike(c):
    """Thousands of files of one size, or more than 65536 of them, in many small groups."""
    rng = c.rng
    os.makedirs(c.root)
    n = 66500 if c.i % 8 == 0 else rng.choice([1500, 3000, 6000])
    kinds = rng.choice([300, 900]) if n < 10000 else 30000
    per = 3 if n < 10000 else 100
    for i in range(n):
        if i % per == 0:
            d = c.root + b'/d%d' % (i // per)
            os.mkdir(d)
        with open(d + b'/f%d' % i, 'wb') as f:
            f.write(b'%05d' % rng.randrange(kinds))
    o = basic_opts(rng)
    exp = c.expect(o, [c.root])
    res = c.run(o.argv(rng) + [c.root], limits=few(o))
    if res.crashed or not c.exit_ok(res, exp):
        return
    c.maxi('max_files_of_one_size', n)
    if c.partition(res, o, exp):
        c.distinct('alike', n, c.i)


def C02(tier):
    chk, bins = start('C02', tier, 'as C01, with many more files and sizes; the reported groups must be exactly the classes of byte-identical eligible files, each file once; non-trivial: distinct (tree, options) with at least one group', kinds=('asan', 'weak'))
    run_cases(chk, lambda c: group_case(c, True), pick(tier, 600, 9000), bins)
    run_cases(chk, many_sizes, pick(tier, 6, 60), bins, first=1000000)
    run_cases(chk, many_alike, pick(tier, 5, 40), bins, first=2000000)
    return chk.finish(['max_files_of_one_size', 'groups_checked', 'files_in_groups', 'same_size_different_content', 'colliding_digest_runs', 'max_distinct_sizes_in_one_run', 'files_reached_again'])


# ------------------------------------------------------------------ C03

def normal(c, res, o):
    g = c.groups_of(res, o)
    return None if g is None else collections.Counter(tuple(sorted(p)) for _, p, _ in g)


def C03_case(c):
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([5, 12, 30, 60]), names='plain', special=rng.random() < .5, big=rng.random() < .4, links=.3, gitignore=.1)
    M.spice(rng, dirs, files, .08, .12, .2)
    base = O()
    filters(rng, base, files, dirs, c.root)
    if rng.random() < .6:
        base.ignore_re = base.white_re = base.minsize = base.maxsize = None
    base.follow = rng.random() < .3
    args = overlap(c, spread(rng, c.root, dirs, c.dir), c.dir, files)
    if rng.random() < .5:
        args = [os.path.normpath(os.path.join(c.dir, a)) for a in args]
    import copy
    ref, refres = None, None
    sizes = [os.lstat(f).st_size for f in files] + [65536]
    for v in range(7):
        o = copy.copy(base)
        env, a = {}, list(args)
        if v:
            o.threads = rng.choice([1, 2, 3, 5, 8, 32, 256])
            o.excess = rng.choice([0, 1, 4096, 65536, b'10G', rng.choice(sizes), rng.choice(sizes) + 1, max(0, rng.choice(sizes) - 1)])
            o.verbose, o.dry, o.mem, o.dsize, o.tar = (rng.random() < .4 for _ in range(5))
            o.sep = rng.choice([None, b'|', b';', b''])
            o.long = rng.random() < .5
            if rng.random() < .3:
                o.prio = rng.choice(dirs)
            rng.shuffle(a)
            if rng.random() < .6:
                env['FTV_JITTER'] = rng.randrange(1, 1 << 30)
                c.count('jittered_runs')
            if rng.random() < .12:     # a limit on threads is reached: the run fails without a report, or reports the same
                env['FTV_NOTHREAD'] = rng.randrange(0, o.threads)
        res = c.run(o.argv(rng) + a, c.dir, env)
        if res.crashed:
            return
        if 'FTV_NOTHREAD' in env and res.rc == 255 and ref != 'exit 255':
            c.count('runs_without_all_threads')
            if res.out.strip():
                c.bad('half-report', 'a run that could not start its threads failed but printed something', res)
                return
            continue
        n = normal(c, res, o) if res.rc == 0 else 'exit %s' % res.rc
        if n is None:
            return
        c.count('runs_compared')
        if v == 0:
            ref, refres = n, res
        elif n != ref:
            c.bad('run-dependent', 'the same tree gives another set of groups under other settings\nfirst command: %s\nfirst report: %s' % (show(refres.cmd), tail(show(refres.out), 1500)), res)
            return
    # absolute arguments: the machine-readable report names the same files
    if all(x.startswith(b'/') and x == os.path.normpath(x) for x in args) and not base.prio:
        o = copy.copy(base)
        o.json = True
        res = c.run(o.argv(rng) + args, c.dir)
        if res.crashed:
            return
        n = normal(c, res, o) if res.rc == 0 else 'exit %s' % res.rc
        want = ref if isinstance(ref, str) else collections.Counter(tuple(sorted(M.to_json_path(os.path.normpath(p)) for p in g)) for g in ref.elements())
        if n is not None and n != want:
            c.bad('json-differs', 'the JSON report has other groups than the text report\ntext report: %s' % tail(show(refres.out), 1500), res)
            return
        c.count('json_compared')
    if isinstance(ref, collections.Counter) and ref:
        c.distinct(sorted(ref.elements()), base.argv())
        c.sample(argv=refres.cmd, groups=list(ref.elements())[:3])


def C03(tier):
    chk, bins = start('C03', tier, 'one tree and one selection, scanned repeatedly with other thread counts, mapping thresholds, verbosity, separators, argument orders, and seeded delays and spurious wakeups in the synchronisation calls; all reports must hold the same groups; non-trivial: distinct (tree, selection) with at least one group')
    run_cases(chk, C03_case, pick(tier, 220, 3500), bins)
    return chk.finish(['runs_compared', 'jittered_runs', 'json_compared'])


# ------------------------------------------------------------------ C04, C05

class PyRx:
    """The model compiles the Python spelling of the expressions."""

    def __init__(self, o):
        self.o = o

    def __enter__(self):
        self.save = (self.o.ignore_re, self.o.white_re)
        py = getattr(self.o, 'py', {})
        if self.o.ignore_re is not None:
            self.o.ignore_re = py.get('e', self.o.ignore_re)
        if self.o.white_re is not None:
            self.o.white_re = py.get('w', self.o.white_re)

    def __exit__(self, *a):
        self.o.ignore_re, self.o.white_re = self.save


def expect_rx(c, o, args, cwd, **kw):
    with PyRx(o):
        return c.expect(o, args, cwd, **kw)


def duplicate_all(rng, root, dirs, files, extra=0):
    """Make every file show up in a group when it is eligible: few contents, many files."""
    for f in files:
        if not os.path.islink(f) and rng.random() < .85:
            n = rng.choice([0, 1, 7, 1024, 1025, 3000])
            with open(f, 'wb') as h:
                h.write(b'z' * n)


def C04_case(c):
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([6, 12, 20, 35]), names=rng.choice(['plain', 'plain', 'wild0']), special=rng.random() < .7, links=rng.choice([0, .7, 1]), hard=0, depth=5)
    lines = rng.random() < .2
    if lines:
        for f in rng.sample(files, min(5, len(files))):
            d, b = f.rsplit(b'/', 1)
            j = rng.randrange(len(b) + 1)
            n = d + b'/' + rng.choice([b + b'\n', b[:j] + b'\n' + b[j:], b[:j] + b'\n' + b[j + 1:], b'\n' + b])
            if not os.path.lexists(n):
                open(n, 'wb').close()
                files.append(n)
        c.count('names_with_newlines')
    duplicate_all(rng, c.root, dirs, files)
    for _ in range(3):
        o = O()
        filters(rng, o, files, dirs, c.root)
        o.follow = rng.random() < .45
        o.json = lines or rng.random() < .25
        o.long = rng.random() < .5
        cwd = cwd_of(c, dirs)
        args = overlap(c, spread(rng, c.root, dirs, cwd), cwd, files)
        exp = expect_rx(c, o, args, cwd)
        res = c.run(o.argv(rng) + args, cwd)
        if res.crashed or not c.exit_ok(res, exp):
            if not res.crashed and not c.viol:
                c.count('empty_selections')
                continue
            return
        if not c.partition(res, o, exp, what='selection'):
            return
        everything = c.expect(default_hidden(O()), [c.root], c.dir)
        c.count('selected_files', len(exp.files))
        c.count('filtered_files', max(0, len(everything.files) - len(exp.files)))
        for n in ('ignore_re', 'white_re', 'minsize', 'maxsize', 'follow', 'norec', 'rec', 'hidden', 'icase'):
            if getattr(o, n):
                c.count('runs_with_' + n)
        if o.ilist:
            c.count('runs_with_ignore_list')
        c.distinct(sorted(p for p, _ in exp.files), o.argv())
        c.sample(argv=res.cmd, eligible=[p for p, _ in exp.files][:6])


def C04_shape(c):
    """Trees of unusual shape: deep, with long paths, wide, spread over several file systems."""
    rng = c.rng
    k = rng.choice(['deep', 'deep', 'long', 'long', 'wide', 'mounts', 'mounts', 'mounts'])
    os.makedirs(c.root)
    pool = M.contents(rng, 3)
    o = O()
    o.hidden = rng.random() < .5
    o.follow = rng.random() < .5
    o.json = rng.random() < .4
    o.threads = rng.choice([None, 1, 4])
    env = {}
    if k == 'wide':
        n = rng.choice([1500, 5000, 11000, 21000])
        for j in range(n):
            with open(c.root + b'/f%d' % j, 'wb') as f:
                f.write(b'%d' % (j if rng.random() < .9 else j % 7))
        c.maxi('entries_of_a_directory', n)
    elif k in ('deep', 'long'):
        d, level = c.root, 0
        top = rng.choice([20, 70, 130, 260, 350]) if k == 'deep' else 400
        while level < top and len(d) < 3600:
            d += b'/' + (rng.choice([b'd', b'e', b'src', b'a b']) if k == 'deep' else b'n' * rng.choice([50, 100, 200, 255]))
            os.mkdir(d)
            level += 1
            if rng.random() < .3 or level >= top - 1 or len(d) >= 3600:
                for j in range(rng.randrange(1, 3)):
                    with open(d + b'/' + rng.choice([b'x', b'long' * rng.choice([1, 20, 60])]) + b'%d' % j, 'wb') as f:
                        f.write(rng.choice(pool))
            if rng.random() < .06 and o.follow:
                # back up, any number of levels
                up = d
                for _ in range(rng.choice([1, 3, 9, 20, 100, level])):
                    up = os.path.dirname(up) if up != c.root else up
                os.symlink(rng.choice([up, os.path.relpath(up, d)]), d + b'/back')
                c.count('links_to_far_ancestors')
            if rng.random() < .03:
                with open(d + b'/.gitignore', 'wb') as f:
                    f.write(rng.choice([b'x1\n', b'/d/e/\n', b'**/x0\n', b'n*/x*\n']))
        c.maxi('levels_of_directories', level)
        c.maxi('longest_path', len(d))
    else:
        dirs, files = [c.root], []
        for j in range(rng.randrange(3, 12)):
            d = rng.choice(dirs) + b'/m%d' % j
            os.mkdir(d)
            dirs.append(d)
        for j in range(rng.randrange(4, 20)):
            f = rng.choice(dirs) + b'/f%d' % j
            with open(f, 'wb') as h:
                h.write(rng.choice(pool))
            files.append(f)
        # every file system numbers its entries on its own: their roots often have the same number
        lines, base = [], os.stat(c.root)
        for j, d in enumerate(rng.sample(dirs[1:], rng.randrange(1, len(dirs)))):
            up = rng.choice([x for x in dirs if d.startswith(x + b'/')])
            lines.append(fault_line('stat', d, 0, 'ident', b'%d:%d' % (base.st_dev + 1 + j, os.stat(up).st_ino)))
        for j, f in enumerate(rng.sample(files, rng.randrange(1, min(20, len(files))))):
            lines.append(fault_line('stat', f, 0, 'ident', b'%d:%d' % (base.st_dev + 100 + j, os.stat(rng.choice(files)).st_ino)))
        env = {'FTV_ROOT': c.root, 'FTV_FAULTS': b'\n'.join(lines)}
        c.count('trees_over_file_systems')
    args = [c.root] if o.json or rng.random() < .5 else [b'r']
    exp = c.expect(o, args, c.dir)
    if env:
        args = [c.root]
        exp = c.expect(o, args, c.dir)
    res = c.run(o.argv(rng) + args, c.dir, env)
    if res.crashed or not c.exit_ok(res, exp):
        return
    if c.partition(res, o, exp, what='selection'):
        c.count('trees_of_unusual_shape')
        c.distinct(k, sorted(p for p, _ in exp.files)[:50], o.argv())


def C04(tier):
    chk, bins = start('C04', tier, 'trees full of duplicates with hidden, linked, looping, special and nested entries, scanned with random combinations of hidden/ignore-list/regex/case/size/recursion/link options; the files that show up must be exactly those an independent walk selects; non-trivial: distinct (selection, options)')
    run_cases(chk, C04_case, pick(tier, 420, 6000), bins)
    run_cases(chk, C04_shape, pick(tier, 64, 900), bins, first=1000000)
    run_cases(chk, C04_steep, pick(tier, 16, 300), bins, first=2000000)
    return chk.finish(['groups_checked', 'filtered_files', 'runs_with_ignore_re', 'runs_with_white_re', 'runs_with_minsize', 'runs_with_maxsize', 'runs_with_follow', 'runs_with_norec', 'runs_with_rec', 'runs_with_hidden', 'runs_with_ignore_list', 'names_with_newlines', 'trees_of_unusual_shape', 'trees_over_file_systems', 'runs_over_steep_trees'])


def C05_case(c):
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([8, 15, 30]), names='plain', special=True, gitignore=rng.choice([.3, .6, 1]), hard=0, depth=5)
    duplicate_all(rng, c.root, dirs, files)
    for _ in range(2):
        o = O()
        o.hidden = rng.random() < .75
        o.json = rng.random() < .2
        cwd = cwd_of(c, dirs)
        args = overlap(c, spread(rng, c.root, dirs, cwd), cwd, files)
        exp = c.expect(o, args, cwd)
        res = c.run(o.argv(rng) + args, cwd)
        if res.crashed:
            return
        if not c.exit_ok(res, exp):
            if c.viol:
                return
            continue
        if not c.partition(res, o, exp, what='ignored-files'):
            return
        n = sum(len(f) for _, _, f in os.walk(c.root))
        c.count('not_ignored', len(exp.files))
        c.count('ignored_or_hidden', n - len(exp.files))
        gis = [os.path.join(d, b'.gitignore') for d in dirs if os.path.isfile(os.path.join(d, b'.gitignore'))]
        c.count('gitignore_files', len(gis))
        c.distinct(sorted(p for p, _ in exp.files), [open(g, 'rb').read() for g in gis])
        if gis:
            c.sample(argv=res.cmd, gitignore=open(gis[0], 'rb').read(), kept=[p for p, _ in exp.files][:6])


def C05_many(c):
    """Hundreds of directories with ignore files of their own, more than files may be open."""
    rng = c.rng
    os.makedirs(c.root)
    dirs, files = [c.root], []
    for j in range(rng.choice([150, 300])):
        d = rng.choice(dirs[-40:] if rng.random() < .1 else dirs[:20]) + b'/s%d' % j
        os.mkdir(d)
        dirs.append(d)
        for n in rng.sample([b'a.txt', b'b.log', b'c', b'keep.log', b'data.bin'], 2):
            with open(d + b'/' + n, 'wb') as f:
                f.write(n[:1])
            files.append(d + b'/' + n)
    for d in dirs:
        if rng.random() < .9:
            with open(d + b'/.gitignore', 'wb') as f:
                f.write(rng.choice([b'*.log\n!keep.log\n', b'/c\n', b'a.*\n', b's1?/\n', b'# nothing\n', b'!*.log\n']))
    o = O()
    o.threads = rng.choice([1, 2])
    exp = c.expect(o, [c.root])
    res = c.run(o.argv(rng) + [c.root], c.dir, limits=few(o, -40))
    if res.crashed or not c.exit_ok(res, exp):
        return
    if c.partition(res, o, exp, what='ignored-files'):
        c.maxi('ignore_files_of_one_scan', len(dirs))
        c.distinct('many', sorted(exp.groups())[:3], len(dirs))


def C05_steps(c):
    """Patterns full of stars on long names and deep paths, which take many steps to tell whether they match."""
    rng = c.rng
    os.makedirs(c.root)
    dirs = [c.root]
    deep = rng.random() < .4
    if deep:
        d = c.root
        for j in range(rng.choice([25, 60, 110])):
            d += b'/' + rng.choice([b'a', b'a', b'a', b'b'])
            os.mkdir(d)
            dirs.append(d)
    names = []
    for j in range(rng.randrange(4, 9)):
        ab = rng.choice([b'a', b'a', b'ab', b'abc'])
        n = bytes(rng.choice(ab) for _ in range(rng.choice([2, 10, 60, 200])))
        n = rng.choice([b'', b'aaaabc', b'b', b'abc' * 4, b'ccba']) + n + rng.choice([b'', b'bc', b'c', b'ca'])
        names.append(n)
        for d in rng.sample(dirs, min(len(dirs), 3)):
            with open(d + b'/' + n, 'wb') as f:
                f.write(b'same')
    pats = []
    for j in range(rng.randrange(1, 4)):
        if deep and rng.random() < .6:
            parts = []
            for k in range(rng.randrange(2, 6)):
                parts += [b'**', rng.choice([b'a', b'a', b'a*', b'?', b'b'])]
            l = b'/'.join(parts + rng.choice([[], [b'**', b'*' + rng.choice(names)[-2:]], [rng.choice(names)]]))
        else:
            l = rng.choice([b'*', b'*', b'', b'a']) + b'*'.join(rng.choice([b'a', b'a', b'a', b'b', b'?', b'[ab]', b'bc', b'ca']) for _ in range(rng.randrange(3, 9))) + rng.choice([b'*', b'*bc*', b'*c', b''])
        pats.append(rng.choice([b'', b'', b'', b'!']) + l)
        if pats[-1][:1] == b'!':
            pats.insert(-1, rng.choice([b'*a*', b'a*', b'*c']))
    with open(c.root + b'/.gitignore', 'wb') as f:
        f.write(b'\n'.join(pats) + b'\n')
    o = O()
    o.hidden = rng.random() < .5
    exp = c.expect(o, [b'r'], c.dir)
    res = c.run(o.argv(rng) + [b'r'], c.dir)
    if res.crashed or not c.exit_ok(res, exp):
        return
    if c.partition(res, o, exp, what='ignored-files'):
        c.count('runs_with_patterns_of_many_stars')
        c.distinct('steps', pats, sorted(names))


def C05(tier):
    chk, bins = start('C05', tier, 'trees of duplicates with generated .gitignore files at several levels (anchoring, negation, directory patterns, *, **, ?, classes, escapes, trailing spaces, CRLF, comments) and with the names ignored by default; the surviving files must be those of an independent matcher, itself validated against git check-ignore; non-trivial: distinct (patterns, surviving files)')
    run_cases(chk, C05_case, pick(tier, 700, 10000), bins)
    run_cases(chk, C05_many, pick(tier, 12, 150), bins, first=1000000)
    run_cases(chk, C05_steps, pick(tier, 120, 1500), bins, first=2000000)
    return chk.finish(['ignore_files_of_one_scan', 'runs_with_patterns_of_many_stars', 'not_ignored', 'ignored_or_hidden', 'gitignore_files', 'groups_checked'])


# ------------------------------------------------------------------ C06, C07

ANSI = re.compile(rb'\x1b\[[0-9;]*m')


def order_ok(c, res, o, exp, got):
    last = None
    size = {}
    for p, a in exp.files:
        size.setdefault(c.key(p, o), exp.digest(a)[0])
    prio = {c.key(p, o): exp.prioritized(p) for p, _ in exp.files}
    for s, ps, _ in got:
        n = size[ps[0]]
        if last is not None and n > last:
            c.bad('size-order', 'a group of %d bytes comes after one of %d bytes' % (n, last), res)
            return False
        last = n
        fl = [prio[p] for p in ps]
        if fl != sorted(fl, reverse=True):
            c.bad('priority-order', 'a file of the priority path comes after another one: %s' % show(ps), res)
            return False
        if any(fl) and not all(fl):
            c.count('mixed_priority_groups')
        if o.dsize and s != M.human(n):
            c.bad('size-line', 'size line %r for %d bytes' % (s, n), res)
            return False
    return True


def C06_case(c):
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([5, 10, 25, 50]), special=False, big=rng.random() < .3, fam=rng.choice([2, 3, 6]))
    if rng.random() < .3:
        for j in range(rng.randrange(2, 5)):
            for r in range(2):
                with open(rng.choice(dirs) + b'/big%d.%d' % (j, r), 'wb') as f:
                    f.truncate(rng.choice([1023, 1024, 1536, 1048575, 1048576, 1234567, 3 << 20, 10 << 20]) + j)
    if rng.random() < .12:
        M.spice(rng, dirs, files, .4, .4, .5)
    giants = c.i in (0, 1, 2, 3, 4)
    if c.i in (2, 3, 4):
        for f in {x for d, _, fs in os.walk(c.root) for x in (os.path.join(d, n) for n in fs)}:
            os.unlink(f)
        for p, (z, _) in giant_pairs(c).items():
            os.rename(p, c.root + b'/giant' + p[-1:])
        c.count('giant_groups')
    elif giants:
        for j, s in enumerate([1, (1 << 31) - 1, (1 << 31) + 5, (1 << 32) + 3] if c.i else [7, (1 << 31) + 9, (1 << 32) + 8]):
            with open(c.root + b'/giant%d' % j, 'wb') as f:
                f.truncate(s)
            os.link(c.root + b'/giant%d' % j, c.root + b'/giant%d-' % j)
        c.count('giant_groups')
    for t in range(1 if giants else 3):
        o = O()
        o.dsize = rng.random() < .6
        o.sep = rng.choice([None, None, b'|', b';', b'\t', b'', b'\x01', b'||x', b'%'])
        if o.sep == b'%':
            o.sep = b'|'
        o.verbose = rng.random() < .4
        o.dry = rng.random() < .3
        o.json = rng.random() < .2
        if giants:
            o.json, o.excess = False, b'1T'
        if o.json:
            o.sep, o.dsize = None, False
        o.threads = rng.choice([None, 1, 4])
        o.icase = rng.random() < .2
        cwd = cwd_of(c, dirs)
        args = overlap(c, spread(rng, c.root, dirs, cwd), cwd, files)
        if rng.random() < .75:
            e0 = c.expect(o, args, cwd)
            ps = [p for p, _ in e0.files]
            if ps:
                p = rng.choice(ps)
                p = rng.choice([p, b'/', b'.', b'./', p[:rng.randrange(1, len(p) + 1)], p.rsplit(b'/', 1)[0] or p, p.rsplit(b'/', 1)[0] + b'/', p + b'x', p + b'/' + b'y' * 300])
                if o.icase:
                    p = p.swapcase()
                o.prio = p
        tty_ = not o.json and rng.random() < .25
        exp = c.expect(o, args, cwd)
        if giants:
            for _, a in exp.files:
                if b'/giant' in a:
                    exp.content[os.path.normpath(a)] = (os.path.getsize(a), b'zeros')
        res = c.run(o.argv(rng) + args, cwd, use_pty=tty_)
        if res.crashed:
            return
        if tty_ and res.rc == 0:
            if exp.groups() and b'\x1b[' not in res.out:
                c.bad('no-colour', 'no colours on a terminal', res)
                return
            res.out = ANSI.sub(b'', res.out)
            c.count('terminal_reports')
        elif b'\x1b' in res.out and not o.json:
            c.bad('colour', 'escape sequences in a report that is not written to a terminal', res)
            return
        if not c.exit_ok(res, exp):
            return
        got = c.groups_of(res, o)
        if got is None or not c.partition(res, o, exp, what='layout') or not order_ok(c, res, o, exp, got):
            return
        c.count('reports', 1)
        c.count('verbose_reports', bool(o.verbose))
        if got:
            c.distinct([(g[0], g[1]) for g in got])
            c.sample(argv=res.cmd, report=res.out[:400])


def C06_crowd(c):
    """Groups of tens and hundreds of files, with any separator that no path contains."""
    rng = c.rng
    os.makedirs(c.root)
    dirs, files = [c.root], []
    for j in range(rng.randrange(0, 5)):
        dirs.append(rng.choice(dirs) + b'/d%d' % j)
        os.mkdir(dirs[-1])
    for j in range(rng.randrange(1, 5)):
        for k in range(rng.choice([2, 3, 17, 50, 64, 100, 257, 400])):
            p = rng.choice(dirs) + b'/f%d-%d' % (j, k)
            with open(p, 'wb') as f:
                f.write(b'%d' % j * rng.choice([1, 1, 1, 1, 5]))
            files.append(p)
    o = O()
    o.dsize = rng.random() < .4
    o.sep = rng.choice([None, b' ', b' ', b',', b':', b';', b'\t', b'|', b'\0'[:0], b'Z', b'\x7f', b'\xff', b'\x0b', b'"', b"'", b'\\', b'=', b'#'])
    o.verbose = rng.random() < .3
    o.threads = rng.choice([None, 1, 4])
    args = [rng.choice([c.root, b'r'])] if rng.random() < .6 else dirs
    if o.sep and any(o.sep in a for a in args + [c.root]):
        o.sep = b'|'
    if rng.random() < .4:
        p = rng.choice(files + dirs)
        o.prio = p if args[0] != b'r' else p[len(c.dir) + 1:]
    exp = c.expect(o, args, c.dir)
    res = c.run(o.argv(rng) + args, c.dir)
    if res.crashed or not c.exit_ok(res, exp):
        return
    got = c.groups_of(res, o)
    if got is None or not c.partition(res, o, exp, what='layout') or not order_ok(c, res, o, exp, got):
        return
    c.count('reports', 1)
    c.maxi('files_of_one_group', max([len(g[1]) for g in got] or [0]))
    c.distinct([(g[0], g[1]) for g in got])


def C06(tier):
    chk, bins = start('C06', tier, 'reports of generated trees with separators, size lines, priority paths, verbose and dry-run messages, on pipes and on terminals; the report is parsed strictly and its order checked; non-trivial: distinct reports with at least one group')
    run_cases(chk, C06_case, pick(tier, 380, 5000), bins)
    run_cases(chk, C06_crowd, pick(tier, 120, 1500), bins, first=1000000)
    return chk.finish(['reports', 'groups_checked', 'files_of_one_group', 'giant_groups', 'mixed_priority_groups', 'verbose_reports'])


def C07_case(c):
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([4, 8, 20]), names='wild', special=False, big=rng.random() < .4, mtimes=True, fam=rng.choice([1, 2, 4]), links=.3)
    M.spice(rng, dirs, files, .06, .08, 0)
    for t in range(3):
        o = O()
        o.json = True
        o.verbose = rng.random() < .4
        o.dry = rng.random() < .2
        o.tar = rng.random() < .4
        o.follow = rng.random() < .3
        o.excess = rng.choice([None, 0, 100, b'64K'])
        o.threads = rng.choice([None, 1, 5])
        cwd = cwd_of(c, dirs)
        args = overlap(c, spread(rng, c.root, dirs, cwd), cwd, files)
        if rng.random() < .2:
            args = [b'./../' + os.path.basename(cwd) + b'/' + a if not a.startswith(b'/') else a for a in args]
        if rng.random() < .5:
            o.prio = rng.choice(files + dirs)
            k = rng.randrange(7)
            if k == 0:
                o.prio = o.prio[:-1]
            elif k == 1:
                o.prio = os.path.relpath(o.prio, cwd)
                c.count('relative_priority_paths')
            elif k == 2:
                o.prio = os.path.dirname(o.prio) + b'/'
            elif k == 5:
                o.prio = rng.choice([b'/', b'.', b'./', b'..', b'//', b'/' + o.prio.split(b'/')[1]])
            elif k == 3:
                o.prio = b'./' + os.path.relpath(os.path.dirname(o.prio), cwd) + rng.choice([b'', b'/'])
                c.count('relative_priority_paths')
        exp = c.expect(o, args, cwd)
        c.count('prioritized_files', sum(exp.prioritized(p) for p, _ in exp.files))
        tz = rng.choice([None, 'UTC0', 'XYZ-5:30', 'EST5EDT,M3.2.0,M11.1.0', 'ABC+11', 'NZST-12NZDT,M9.5.0,M4.1.0/3'])
        res = c.run(o.argv(rng) + args, cwd, {'TZ': tz} if tz else {})
        c.count('other_time_zones', bool(tz) and tz != 'UTC0')
        if res.crashed or not c.exit_ok(res, exp):
            return
        try:
            doc = json.loads(res.out.decode('utf-8'))
        except Exception as x:
            c.bad('json-invalid', 'not valid JSON: %r' % x, res)
            return
        if not isinstance(doc, list):
            c.bad('json-shape', 'the document is not an array', res)
            return
        info = {}
        for p, a in exp.files:
            st = os.stat(a) if o.follow else os.lstat(a)
            info.setdefault(M.to_json_path(p), []).append((exp.digest(a), M.iso(st.st_mtime_ns // 10**9), exp.prioritized(p), a))
        if not c.partition(res, o, exp, what='json-groups'):
            return
        for g in doc:
            for f in g['duplicates']:
                cand = info[f['path']]
                okc = [x for x in cand if x[0][0] == g.get('size_bytes')]
                why = None
                if not okc:
                    why = 'size_bytes'
                elif not any(M.xxh128(open(x[3], 'rb').read()) == g.get('hash_xxh128') for x in okc):
                    why = 'hash_xxh128'
                elif not any(x[1] == f.get('mtime_utc') for x in okc):
                    why = 'mtime_utc (expected %s)' % [x[1] for x in okc]
                elif not any(x[2] is f.get('prioritized') for x in okc):
                    why = 'prioritized'
                elif o.tar and f.get('archive_subpath', 0) is not None:
                    why = 'archive_subpath'
                elif not f['path'].startswith('/') or '/../' in f['path'] or '/./' in f['path']:
                    why = 'path is not absolute'
                if why:
                    c.bad('json-field', 'wrong %s for %s' % (why, show(f['path'].encode('utf-8', 'replace'))), res)
                    return
                c.count('json_entries_checked')
                if '\ufffd' in f['path']:
                    c.count('json_paths_not_utf8')
        c.count('json_reports')
        if doc:
            c.distinct(doc)
            c.sample(argv=res.cmd, report=res.out[:600])


def C07_giant(c):
    """Sizes beyond 31 and 32 bits."""
    rng = c.rng
    os.makedirs(c.root)
    size = (1 << (31 + c.i % 2)) + rng.randrange(1, 100000)
    at = rng.randrange(size - 10)
    names = [c.root + b'/giant%d' % j for j in range(2)]
    for p in names:
        with open(p, 'wb') as f:
            f.truncate(size)
            f.seek(at)
            f.write(b'content')
    o = O()
    o.json = True
    o.excess = rng.choice([None, b'1T'])
    res = c.run(o.argv(rng) + [c.root], timeout=300)
    if res.crashed:
        return
    try:
        doc = json.loads(res.out)
        got = [(g['size_bytes'], g['hash_xxh128'], sorted(f['path'] for f in g['duplicates'])) for g in doc]
    except Exception as x:
        c.bad('json-malformed', 'the report is not the documented JSON: %r' % x, res)
        return
    want = [(size, M.xxh128_file(names[0]), [p.decode() for p in names])]
    if got != want:
        c.bad('json-giants', 'files of %d bytes: expected %s, got %s' % (size, want, got), res)
        return
    c.count('files_beyond_31_bits', 2)
    c.distinct('giant', size, at)


def C07(tier):
    chk, bins = start('C07', tier, 'JSON reports of trees with arbitrary names (any bytes), times and contents, parsed strictly; sizes, digests (libxxhash), times, priority flags and absolute paths are recomputed; non-trivial: distinct reports with at least one group')
    run_cases(chk, C07_case, pick(tier, 380, 5000), bins)
    run_cases(chk, C07_giant, pick(tier, 2, 6), bins, first=1000000)
    return chk.finish(['json_reports', 'json_entries_checked', 'json_paths_not_utf8', 'other_time_zones', 'files_beyond_31_bits', 'groups_checked'])


# ------------------------------------------------------------------ C08

def fault_line(call, path, n, action, arg=b''):
    return b'\t'.join([call.encode(), path, b'%d' % n, action.encode()] + ([arg if isinstance(arg, bytes) else b'%d' % arg] if arg != b'' else []))


def read_log(path):
    try:
        return [r.split(b'\t', 2) for r in open(path, 'rb').read().split(b'\0') if r]
    except OSError:
        return []


ERRS = {'open': [2, 5, 13, 24, 40], 'read': [5], 'mmap': [12, 19], 'stat': [2, 13, 40, 5, 75], 'opendir': [2, 13, 24, 20]}


def C08_exact(c):
    """Faults whose consequence is certain: they hit before the file or directory is first used."""
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([6, 12, 20]), special=False, big=rng.random() < .3, fam=rng.choice([1, 2, 3]), gitignore=rng.choice([0, 0, .3]), hard=0)
    o = basic_opts(rng)
    o.sep = None
    mid = M.spice(rng, dirs, files, .15, .03, .2)
    exp0 = c.expect(o, [c.root])
    cand = [a for _, a in exp0.files if os.path.getsize(a) > 0]
    subs = [d for d in dirs if d != c.root]
    rng.shuffle(cand)
    if mid:
        cand.sort(key=lambda a: a not in mid or rng.random() < .4)
    lines, override, overlay, kinds = [], {}, {}, []
    for a in cand[:rng.choice([1, 1, 2, 3, 5])]:
        k = rng.choice(['open', 'read', 'mmap', 'short', 'eintr', 'unlink', 'trunc', 'swap', 'grow', 'stat', 'vanish', 'mmapread', 'fifo'])
        size = os.path.getsize(a)
        if k == 'trunc' and k in kinds:
            k = 'unlink'                    # two files cut alike may well become duplicates
        if k == 'open':
            lines.append(fault_line('open', a, 0, 'fail', rng.choice(ERRS['open'])))
            override[a] = None
        elif k == 'read':
            o.excess = 0
            lines.append(fault_line('read', a, 0, 'fail', 5))
            override[a] = None
        elif k == 'mmap':
            lines.append(fault_line('mmap', a, 0, 'fail', rng.choice(ERRS['mmap'])))
        elif k == 'mmapread':
            lines.append(fault_line('mmap', a, 0, 'fail', 12))
            lines.append(fault_line('read', a, 0, 'fail', 5))
            override[a] = None
        elif k == 'short':
            o.excess = 0
            lines.append(fault_line('read', a, 0, 'short', rng.choice([1, 7, 100, 4096] if size < 5000 else [997, 4096, 60000])))
        elif k == 'eintr':
            o.excess = 0
            lines.append(fault_line('read', a, rng.choice([1, 2]), 'fail', 4))
        elif k == 'unlink':
            lines.append(fault_line('open', a, 1, 'unlink'))
            override[a] = None
        elif k == 'trunc':
            lines.append(fault_line('open', a, 1, 'trunc', rng.choice([0, size - 1, size // 2])))
            override[a] = None
        elif k in ('swap', 'grow'):
            b = open(a, 'rb').read()
            if k == 'grow':
                b += b'+' * rng.choice([1, 4096, 70000]) + b'%d' % len(lines)      # unlike any other grown file
                override[a] = None
            else:
                other = [x for x in cand if os.path.getsize(x) == size]
                b = open(rng.choice(other), 'rb').read() if rng.random() < .6 else bytes(b[:-1]) + bytes([b[-1] ^ 1])
                override[a] = (size, hashlib.sha1(b).digest())
            src = c.dir + b'/new%d' % len(lines)
            with open(src, 'wb') as f:
                f.write(b)
            lines.append(fault_line('open', a, 1, 'rename', src))
        elif k == 'fifo':                   # a pipe nobody writes to
            src = c.dir + b'/new%d' % len(lines)
            os.mkfifo(src)
            lines.append(fault_line('open', a, 1, 'rename', src))
            override[a] = None
        elif k == 'stat':
            lines.append(fault_line('stat', a, 0, 'fail', rng.choice(ERRS['stat'])))
            overlay[a] = 1
        else:
            lines.append(fault_line('stat', a, 1, 'unlink'))
            overlay[a] = 1
        kinds.append(k)
    if subs and rng.random() < .4:
        d = rng.choice(subs)
        k = rng.choice(['opendir', 'rmtree', 'dirstat', 'gitignore'])
        if k == 'opendir':
            lines.append(fault_line('opendir', d, 0, 'fail', rng.choice(ERRS['opendir'])))
            overlay[(b'nolist', d)] = 1
        elif k == 'rmtree':
            lines.append(fault_line('opendir', d, 1, 'rmtree'))
            overlay[(b'nolist', d)] = 1
        elif k == 'dirstat':
            lines.append(fault_line('stat', d, 0, 'fail', rng.choice(ERRS['stat'])))
            overlay[d] = 1
        elif os.path.exists(d + b'/.gitignore'):
            if rng.random() < .5:
                lines.append(fault_line('open', d + b'/.gitignore', 0, 'fail', 13))
            else:
                src = c.dir + b'/new%d' % len(lines)
                os.mkfifo(src)
                lines.append(fault_line('open', d + b'/.gitignore', 1, 'rename', src))
            overlay[d + b'/.gitignore'] = 1
        kinds.append(k)
    bad_arg = rng.random() < .06
    if bad_arg:
        lines, override, overlay, kinds = [rng.choice([fault_line('stat', c.root, 0, 'fail', 13), fault_line('opendir', c.root, 0, 'fail', 13)])], {}, {c.root: 1}, ['argument']
    if not lines:
        return
    log = c.dir + b'/log'
    args = [c.root]
    if not bad_arg and rng.random() < .3:
        args = sorted(c.root + b'/' + t for t in os.listdir(c.root) if c.root + b'/' + t not in overlay and (b'nolist', c.root + b'/' + t) not in overlay)
        if not args:
            args = [c.root]
        elif os.path.exists(c.root + b'/.gitignore'):
            args = [c.root]
    exp = c.expect(o, args, overlay=overlay)
    for p, a in exp.files:
        exp.digest(a, override)             # before the faults change the tree
    # files listed as empty change while larger ones, which are looked at before them, are opened
    emp = [a for _, a in exp.files if exp.digest(a, override) and os.path.getsize(a) == 0]
    real = dict(exp.files)
    trig = sorted(sorted(g) for g in exp.groups(override) if os.path.getsize(real[next(iter(g))]) > 0)
    if emp and trig and not bad_arg and rng.random() < .8:
        for a in rng.sample(emp, rng.randrange(1, min(3, len(emp)) + 1)):
            k = rng.choice(['fill', 'remove', 'pipe', 'fill'])
            for x in rng.choice(trig):
                src = c.dir + b'/new%d' % len(lines)
                if k == 'pipe':
                    os.mkfifo(src)
                elif k == 'fill':
                    with open(src, 'wb') as f:
                        f.write(b'filled since it was listed')
                lines.append(fault_line('open', real[x], 1, 'remove', a) if k == 'remove' else fault_line('open', real[x], 1, 'move', src + b'\1' + a))
            override[a] = None
            kinds.append('empty_' + k)
            c.count('empty_files_changed')
    res = c.run(o.argv(rng) + args, c.dir, {'FTV_ROOT': c.root, 'FTV_LOG': log, 'FTV_FAULTS': b'\n'.join(lines)}, timeout=150, tries=1)
    res.env = {'FTV_FAULTS': b'\n'.join(lines)}
    if res.crashed:
        return
    hits = [r for r in read_log(log) if r[0] == b'FAULT']
    c.count('faults_hit', len(hits))
    for k in kinds:
        c.count('planned_' + k)
    if not c.exit_ok(res, exp):
        return
    if c.partition(res, o, exp, override, what='after-fault'):
        if hits:
            c.distinct(lines, o.argv())
            c.sample(argv=res.cmd, faults=b'\n'.join(lines).decode('utf-8', 'replace').split('\n'), report=res.out[:400])


def C08_late(c):
    """Faults in the middle of the scan: nothing false is reported, unrelated groups are exact."""
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([6, 12, 20]), special=False, big=rng.random() < .5, fam=rng.choice([2, 3, 4]), hard=0)
    o = basic_opts(rng)
    o.sep = None
    mid = M.spice(rng, dirs, files, .15, .03, .2)
    exp = c.expect(o, [c.root])
    cand = [a for _, a in exp.files if os.path.getsize(a) > 0]
    if not cand:
        return
    a = rng.choice(cand)
    if rng.random() < .4:
        d = os.path.dirname(a)
        for j in range(rng.randrange(2, 6)):
            with open(d + b'/%dlike' % j, 'wb') as f:
                f.write(open(a, 'rb').read())
        exp = c.expect(o, [c.root])
        cand = [x for _, x in exp.files if os.path.getsize(x) > 0 and exp.digest(x) == exp.digest(a)] or [a]
        a = rng.choice(cand)
    elif mid and rng.random() < .7:
        a = rng.choice([x for x in cand if x in mid] or cand)
    size = os.path.getsize(a)
    n = rng.choice([2, 2, 3, 4, 5])
    k = rng.choice(['unlink', 'trunc', 'grow', 'swap', 'open', 'read', 'mmap'])
    old = exp.digest(a)
    new = None
    call = 'open'
    if k == 'unlink':
        line = fault_line('open', a, n, 'unlink')
    elif k == 'trunc':
        line = fault_line(rng.choice(['open', 'read', 'mmap']), a, n, 'trunc', rng.choice([0, size - 1]))
        if b'mmap' in line or b'read' in line:
            # a file cut while it is mapped raises SIGBUS in any program that maps it; read it instead
            o.excess = 0
    elif k in ('grow', 'swap'):
        b = open(a, 'rb').read()
        b = b + b'+' if k == 'grow' else bytes(b[:-1]) + bytes([b[-1] ^ 1])
        new = (len(b), hashlib.sha1(b).digest())
        src = c.dir + b'/new'
        with open(src, 'wb') as f:
            f.write(b)
        line = fault_line('open', a, n, 'rename', src)
    elif k == 'open':
        line = fault_line('open', a, rng.choice([n, -n]), 'fail', 13)
    elif k == 'read':
        o.excess = 0
        line = fault_line('read', a, rng.choice([n, -n]), 'fail', 5)
    else:
        line = fault_line('mmap', a, rng.choice([n, -n]), 'fail', 12)
    log = c.dir + b'/log'
    key = c.key(exp.files[[x for _, x in exp.files].index(a)][0], o)
    res = c.run(o.argv(rng) + [c.root], c.dir, {'FTV_ROOT': c.root, 'FTV_LOG': log, 'FTV_FAULTS': line}, timeout=150, tries=1)
    res.env = {'FTV_FAULTS': line}
    if res.crashed:
        return
    if res.rc != 0:
        c.bad('exit-status', 'a file that changed during the scan made the whole run fail', res)
        return
    got = c.groups_of(res, o)
    if got is None:
        return
    dig = {c.key(p, o): exp.digest(x) for p, x in exp.files}
    rel = {old, new}
    want = collections.Counter(tuple(sorted(c.key(p, o) for p in g)) for g in exp.groups() if dig[c.key(next(iter(g)), o)] not in rel)
    have = collections.Counter()
    without = collections.Counter()
    seen = set()
    for _, ps, _ in got:
        for p in ps:
            if p not in dig or p in seen:
                c.bad('late-fault', 'unknown or repeated path %s' % show(p), res)
                return
            seen.add(p)
        ds = {dig[p] for p in ps if p != key}
        if len(ds) != 1 or (key in ps and not ds <= rel):
            c.bad('late-fault', 'files that never had the same content are reported together: %s' % show(ps), res)
            return
        if not (ds <= rel):
            have[tuple(sorted(ps))] += 1
        elif key not in ps:
            without[ds.pop()] += 1
    if have != want:
        c.bad('late-fault', 'a fault on %s changed the report of unrelated files\nmissing: %s\nextra: %s' % (show(a), show(list((want - have).elements())[:4]), show(list((have - want).elements())[:4])), res)
        return
    # files like the one that changed did not change themselves: those that were not compared with it in time are one group
    for d in rel:
        left = [p for p in dig if dig[p] == d and p != key and p not in seen]
        if d and d[0] and (len(left) > 1 or without[d] > 1):
            c.bad('late-fault', 'a fault on %s tore files apart that are like it and did not change: %s' % (show(a), show(left[:4])), res)
            return
        if d == old and sum(1 for p in dig if dig[p] == d and p != key) > 1:
            c.count('late_faults_in_larger_groups')
    hits = [r for r in read_log(log) if r[0] == b'FAULT']
    c.count('late_faults_hit', len(hits))
    if hits:
        c.distinct('late', line, o.argv())


def C08_perm(c):
    """An unprivileged user scans a tree with arbitrary owners and permissions."""
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([6, 12, 25]), special=False, fam=2, gitignore=rng.choice([0, .3]), hard=0)
    many = rng.choice([0, 0, 30, 64, 150, 250, 254, 255, 1000])
    # not every user has an entry in the user database
    ME = rng.choice([NOBODY, NOBODY, NOBODY, 54321])
    c.count('users_without_a_name', ME != NOBODY)
    G1, G2 = 60001, 60002 + many
    for f in files + [d + b'/.gitignore' for d in dirs if os.path.exists(d + b'/.gitignore')]:
        os.chown(f, rng.choice([0, ME]), rng.choice([0, ME, G1, G2]))
        os.chmod(f, rng.choice([0o644, 0o644, 0o600, 0o640, 0o604, 0o000, 0o044, 0o404, 0o040, 0o400, 0o222, 0o111]))
    for d in dirs:
        if d == c.root and rng.random() < .9:
            continue
        if rng.random() < .5:
            os.chown(d, rng.choice([0, ME]), rng.choice([0, ME, G1, G2]))
            os.chmod(d, rng.choice([0o755, 0o755, 0o750, 0o700, 0o711, 0o744, 0o000, 0o055, 0o705, 0o751, 0o111, 0o444]))
    groups = tuple(range(G1, G2 + 1)) if many else rng.choice([(), (G1,), (G1, G2)])
    c.count('users_of_many_groups', many > 0)
    o = basic_opts(rng)
    o.hidden = rng.random() < .5
    exp = c.expect(o, [c.root], uid=ME, gids={ME, *groups})
    res = c.run(o.argv(rng) + [c.root], c.dir, user=ME, groups=groups)
    if res.crashed or not c.exit_ok(res, exp):
        if not c.viol:
            c.count('unprivileged_runs_without_files')
        return
    if c.partition(res, o, exp, what='permissions'):
        c.count('unprivileged_runs')
        c.count('unreadable_files_left_out', len(c.expect(o, [c.root]).files) - len(exp.files))
        c.distinct('perm', sorted(exp.groups()), o.argv())


def C08_many(c):
    """Many files that cannot be mapped, opened or read any more: what they hold open must not add up."""
    rng = c.rng
    os.makedirs(c.root)
    pool = [x for x in M.contents(rng, 8) if x] or [b'abc']
    pool += [bytes([y ^ 1 for y in x[:1]]) + x[1:] for x in pool]
    files = []
    for j in range(rng.choice([250, 400])):
        p = c.root + b'/f%d' % j
        with open(p, 'wb') as f:
            f.write(rng.choice(pool))
        files.append(p)
    o = O()
    o.threads = rng.choice([1, 2, 3])
    o.json = rng.random() < .5
    k = rng.choice(['mmap', 'read', 'open', 'vanish', 'halves', 'halves'])
    lines, override = [], {}
    if k == 'halves':
        # pairs of a size of their own, of which one cannot be opened
        o.json = rng.random() < .2
        o.excess = rng.choice([None, 0, 200])
        for j in range(250):
            two = [c.root + b'/p%d-%d' % (j, h) for h in rng.sample(range(2), 2)]
            for p in two:
                with open(p, 'wb') as f:
                    f.write(b'%05d' % j + b'.' * j)
            lines.append(fault_line('open', two[0], 0, 'fail', rng.choice(ERRS['open'])))
            override[two[0]] = None
    if k == 'mmap':
        lines.append(fault_line('mmap', b'*', 0, 'fail', rng.choice(ERRS['mmap'])))
    elif k != 'halves':
        if k == 'read':
            o.excess = rng.choice([0, 0, None])
            if o.excess is None:
                lines.append(fault_line('mmap', b'*', 0, 'fail', 12))
        for f in rng.sample(files, len(files) * 2 // 3):
            override[f] = None
            lines.append({'read': fault_line('read', f, 0, 'fail', 5), 'open': fault_line('open', f, 0, 'fail', 13), 'vanish': fault_line('open', f, 1, 'unlink')}[k])
    exp = c.expect(o, [c.root])
    for p, a in exp.files:
        exp.digest(a, override)
    res = c.run(o.argv(rng) + [c.root], c.dir, {'FTV_ROOT': c.root, 'FTV_FAULTS': b'\n'.join(lines)}, limits=few(o, -60))
    if res.crashed or not c.exit_ok(res, exp):
        return
    if c.partition(res, o, exp, override, what='after-many-faults'):
        c.count('runs_with_many_faults')
        c.distinct('many', k, sorted(exp.groups(override)), o.argv())


def C08_below(c):
    """Directories that reach below the longest path that can be named."""
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([4, 8, 15]), special=False, fam=2, hard=0)
    o = basic_opts(rng)
    o.hidden = rng.random() < .5
    o.follow = rng.random() < .4
    args = [rng.choice([c.root, b'r'])] if not o.json else [c.root]
    exp = c.expect(o, args, c.dir)
    back = os.open(b'/', os.O_RDONLY)
    try:
        for _ in range(rng.randrange(1, 3)):
            os.chdir(rng.choice(dirs))
            n, width = len(os.getcwdb()), rng.choice([120, 200, 255])
            while n < 4096 + rng.choice([600, 3000]):
                name = b'W%d' % rng.randrange(9) + b'w' * (width - 2)
                if not os.path.isdir(name):
                    os.mkdir(name)
                os.chdir(name)
                n += width + 1
                if n > 4400:
                    with open(b'file%d' % rng.randrange(2), 'wb') as f:
                        f.write(b'too deep')
    finally:
        os.chdir(back)
        os.close(back)
    res = c.run(o.argv(rng) + args, c.dir)
    if res.crashed or not c.exit_ok(res, exp):
        return
    if c.partition(res, o, exp, what='below-the-longest-path'):
        c.count('trees_below_the_longest_path')
        c.distinct('below', sorted(exp.groups()), o.argv())


def C08(tier):
    chk, bins = start('C08', tier, 'the libc calls ftwin makes are interposed: chosen opens, reads, mappings, stats and directory opens fail, are short, or find the file removed, cut, extended or replaced; and unprivileged users scan trees with arbitrary owners and modes; the report must be that of the remaining readable files; non-trivial: distinct fault sets that were hit', level='fault_enumeration')
    n = pick(tier, 500, 8000)
    run_cases(chk, C08_exact, n, bins)
    run_cases(chk, C08_late, n // 2, bins, first=1000000)
    run_cases(chk, C08_perm, n // 3, bins, first=2000000)
    run_cases(chk, C08_many, pick(tier, 32, 500), bins, first=3000000)
    run_cases(chk, C08_below, pick(tier, 24, 300), bins, first=4000000)
    return chk.finish(['late_faults_in_larger_groups', 'trees_below_the_longest_path', 'empty_files_changed', 'faults_hit?', 'late_faults_hit?', 'unprivileged_runs', 'users_without_a_name', 'users_of_many_groups', 'runs_with_many_faults', 'unreadable_files_left_out', 'groups_checked'])


# ------------------------------------------------------------------ C09

def snapshot(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for n in [b''] + ds + fs:
            p = os.path.join(d, n) if n else d
            s = os.lstat(p)
            x = None
            if stat.S_ISLNK(s.st_mode):
                x = os.readlink(p)
            elif stat.S_ISREG(s.st_mode):
                x = hashlib.sha1(open(p, 'rb').read()).digest()
            out[p] = (s.st_mode, s.st_ino, s.st_nlink, s.st_uid, s.st_gid, s.st_size if not stat.S_ISDIR(s.st_mode) else 0, s.st_mtime_ns, s.st_ctime_ns, x)
    return out


def C09_case(c):
    rng = c.rng
    area = c.dir + b'/area'
    os.mkdir(area)
    c.root = area + b'/r'
    dirs, files = M.make_tree(rng, c.root, names='wild', nfiles=rng.choice([5, 12, 25]), links=.6, gitignore=.2, special=True, mtimes=True)
    M.spice(rng, dirs, files, .15, .02, 0)
    for j in range(2):
        if rng.random() < .4:
            import tarfile
            with tarfile.open(os.fsdecode(c.root) + '/arc%d.tar%s' % (j, rng.choice(['', '.gz'])), rng.choice(['w', 'w:gz'])) as t:
                t.add(os.fsdecode(files[0]), 'x')
    o = basic_opts(rng)
    filters(rng, o, files, dirs, c.root)
    o.follow = rng.random() < .5
    extra = []
    if rng.random() < .15:
        extra = [b'-I']
        o.json = False
    cwd = rng.choice([area, c.root])
    args = spread(rng, c.root, dirs, cwd)
    faulty = rng.random() < .3
    log = c.dir + b'/log'
    env = {'FTV_ROOT': b'', 'FTV_LOG': log, 'HOME': area, 'TMPDIR': area, 'XDG_CACHE_HOME': area, 'XDG_DATA_HOME': area}
    if faulty and files:
        f = rng.choice(files)
        env['FTV_FAULTS'] = fault_line(rng.choice(['open', 'read', 'mmap', 'stat']), f, 0, 'fail', 5)
    tmp0 = set(os.listdir('/tmp'))
    before = snapshot(area)
    res = c.run(extra + o.argv(rng) + args, cwd, env)
    after = snapshot(area)
    if before != after:
        diff = [(p, before.get(p), after.get(p)) for p in set(before) | set(after) if before.get(p) != after.get(p)]
        c.bad('tree-changed', 'the scan changed the file system: %s' % show([(p, a is None and 'created' or b is None and 'removed' or [x for x, y in zip(a, b) if x != y]) for p, a, b in diff][:5]), res)
        return
    for r in read_log(log):
        if r[0] == b'open':
            c.count('opens_seen')
            fl = int(r[1], 16)
            if (fl & 3) != os.O_RDONLY or fl & (os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                if r[2] in (b'/dev/null', b'/dev/tty') or r[2].startswith(b'/proc/'):
                    continue
                c.bad('write-open', 'a file was opened for writing: %s (flags %x)' % (show(r[2]), fl), res)
                return
        elif r[0] == b'CHANGE':
            c.bad('change-call', 'ftwin called %s on %s' % (show(r[1]), show(r[2])), res)
            return
    left = [x for x in set(os.listdir('/tmp')) - tmp0 if x.startswith('ftwin')]
    if left:
        c.bad('left-over', 'files left in /tmp: %s' % left, res)
        return
    c.count('entries_unchanged', len(before))
    c.count('scans')
    c.distinct(sorted(before), o.argv())
    c.sample(argv=res.cmd, entries=len(before))


def C09(tier):
    chk, bins = start('C09', tier, 'scans of trees under a private area that is also the home, cache and temporary directory; before and after, every entry is compared (type, inode, owner, mode, times, links, content), and every open and every call that changes the file system is recorded; non-trivial: distinct (tree, options)')
    run_cases(chk, C09_case, pick(tier, 500, 7000), bins)
    return chk.finish(['scans', 'entries_unchanged', 'opens_seen?'])


# ------------------------------------------------------------------ C10

FLAGS = ['-a', '-c', '-d', '-n', '-f', '-J', '-R', '-r', '-o', '-v', '-t', '--hidden', '--json', '--verbose', '--dry-run', '--display-size', '--follow-symlink', '--tar-cmp', '--no-recurse', '--optimize-memory', '-avd', '-JvT1', '-h', '-V']


def junk(rng, n=40):
    k = rng.randrange(8)
    if k == 0:
        return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, n)))
    if k == 1:
        return rng.choice([b'*', b'**', b'[', b'[]', b'[!', b'\\', b'(', b')', b'(?', b'(?i', b'{', b'a{9999999}', b'[[:alpha:]', b'(a+)+$', b'\\Q', b'(?R)', b'', b'\\1', b'(?<n>', b'^', b'$', b'.*', b'|', b'%s%n%s', b'%d'])
    if k == 2:
        return rng.choice([b'a', b'[a-z]', b'*', b'/', b'\\', b'?', b'(', b'!', b'#', b' ', b',', b'[', b'%']) * rng.randrange(1, 300)
    if k == 3:
        return rng.choice([b'0', b'-1', b'1e400', b'nan', b'inf', b'-inf', b'0x10', b'9223372036854775807', b'9223372036854775808', b'1e18K', b'8388608T', b'8388607T', b'1e-300', b' 5', b'5 K', b'5\xff', b'--', b'1.', b'.', b'+', b'1E', b'-0', b'0x', b'1KK', b'99999999999999999999'])
    if k == 4:
        return bytes(rng.choice(b'abc*?[]!^-\\/#. {}()|+$,') for _ in range(rng.randrange(0, n)))
    if k == 5:
        return b','.join(bytes(rng.choice(b'abcdef.') for _ in range(rng.randrange(0, 6))) for _ in range(rng.randrange(1, 400)))
    if k == 6:
        return b'x' * rng.choice([255, 256, 4095, 4096, 9000])
    return b'%d' % rng.randrange(0, 1 << rng.choice([3, 10, 31, 33, 62]))


def C10_case(c):
    rng = c.rng
    mode = c.i % 8
    if mode == 0:
        os.makedirs(c.root)
        d = os.open(c.root, os.O_RDONLY)
        name = rng.choice([b'd', b'x' * 200, b'q' * 40])
        for j in range(rng.choice([30, 120, 240])):
            try:
                os.mkdir(name, dir_fd=d)
                if j % 7 == 0:
                    f = os.open(b'f', os.O_CREAT | os.O_WRONLY, 0o644, dir_fd=d)
                    os.write(f, b'same')
                    os.close(f)
                if j % 11 == 0:
                    f = os.open(b'.gitignore', os.O_CREAT | os.O_WRONLY, 0o644, dir_fd=d)
                    os.write(f, b'*.o\n!x\n/' + name + b'/zz\n')
                    os.close(f)
                e = os.open(name, os.O_RDONLY, dir_fd=d)
            except OSError:
                break
            os.close(d)
            d = e
        os.close(d)
        files, dirs = [c.root + b'/f'], [c.root]
        c.count('deep_trees')
    else:
        dirs, files = M.make_tree(rng, c.root, names='wild', nfiles=rng.choice([0, 1, 2, 4, 9, 16]) or 1, links=.8, special=True, gitignore=0)
    # hostile ignore files
    for d in dirs:
        if rng.random() < .5:
            k = rng.randrange(5)
            if k == 0:
                b = bytes(rng.randrange(256) for _ in range(rng.choice([1, 50, 400, 5000])))
            elif k == 1:
                b = b'\n'.join(junk(rng) for _ in range(rng.randrange(1, 12)))
            elif k == 2:
                b = rng.choice([b'[', b'?', b'*', b'\\', b'(', b'.', b'a']) * rng.choice([10, 4094, 4095, 4096, 4097, 20000])
            elif k == 3:
                b = b'\n'.join(rng.choice([b'!', b'/', b'', b'**', b'***', b'a**b', b'[a-', b'[z-a]', b'\\', b'!!x', b'[]]', b'[!]a]', b'/**/', b'**/**', b'a/**/b/**/c', b'[\\]]', b'\\ ', b'   ', b'[[:alpha:]]*', b'[^/]x', b'\x00abc', b'{a,b}', b'*' * 60 + b'b']) for _ in range(8))
            else:
                b = M.rand_gitignore(rng, d, dirs, files or [c.root])
            if not os.path.lexists(d + b'/.gitignore'):
                with open(d + b'/.gitignore', 'wb') as f:
                    f.write(b)
                c.count('hostile_ignore_files')
    for _ in range(4):
        argv = []
        for _ in range(rng.randrange(0, 7)):
            if rng.random() < .5:
                argv.append(rng.choice(FLAGS if rng.random() < .9 else ['-I']).encode())
            else:
                ch = rng.choice(['-e', '-w', '-i', '-p', '-s', '-m', '-M', '-x', '-j', '-T', '--regex-ignore-file', '--ignore-list', '--priority-path', '--max-size', '--threads', '--separator'])
                v = junk(rng)
                if ch in ('-j', '--threads') and rng.random() < .7:
                    v = b'%d' % rng.choice([1, 2, 16, 256])
                if ch in ('-m', '-M', '-x', '--max-size') and rng.random() < .6:
                    v = rng.choice([b'0', b'1', b'3', b'1K', b'100M'])
                if ch == '-T' and rng.random() < .7:
                    v = rng.choice([b'1', b'3', b'5'])
                argv += [ch.encode(), v]
        if rng.random() < .15:
            argv += [b'-p', c.root + b'/' + b'z' * rng.choice([1, 20, 3000])]
        args = [rng.choice([c.root, c.root + b'/', b'r', b'.', rng.choice(dirs), rng.choice(files) if files else c.root, c.root + b'/nothing', b'', b'r/../r']) for _ in range(rng.choice([1, 1, 2, 3]))]
        tail_ = argv + args
        env = {'FTV_JITTER': c.i + 1} if rng.random() < .2 else {}
        if rng.random() < .1:          # a limit on threads is reached
            env['FTV_NOTHREAD'] = rng.choice([0, 1, 2, 3, 7, 200])
            c.count('runs_short_of_threads')
        res = c.run(tail_, c.dir, env)
        if res.crashed:
            return
        if res.rc not in (0, 1, 255):
            c.bad('exit-status', 'unexpected exit status', res)
            return
        c.count('runs')
        c.count('accepted_command_lines', res.rc == 0)
        c.distinct(tail_, tree(c.root) if c.i % 16 == 1 else c.i)
        c.sample(argv=res.cmd, exit=res.rc)


def colliding_sizes(rng, n):
    """File sizes to which a 32-bit hash function (xxHash) gives one and the same value."""
    P3, P4, P5, mask = 0xC2B2AE3D, 0x27D4EB2F, 0x165667B1, 0xffffffff
    i3, i4 = pow(P3, -1, 1 << 32), pow(P4, -1, 1 << 32)
    back = lambda h: (lambda x: (x >> 17 | x << 15) & mask)(h * i4 & mask)
    target = rng.randrange(1 << 32)
    out = []
    for hi in range(n):
        h1 = back(target) - hi * P3 & mask
        lo = (back(h1) - (P5 + 8)) * i3 & mask
        out.append(hi << 32 | lo)
    return out


def C10_sizes(c):
    """Files whose sizes are chosen to collide in the table of sizes; memory has to stay in proportion."""
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([3, 8, 20]), special=False, hard=0)
    sizes = colliding_sizes(rng, rng.choice([7, 8, 9, 16, 40, 100]))
    rng.shuffle(sizes)
    override = {}
    for j, s in enumerate(sizes):
        p = rng.choice(dirs) + b'/giant%d' % j
        with open(p, 'wb') as f:
            f.truncate(s)
        override[p] = (s, j)
    o = basic_opts(rng)
    o.hidden = True
    exp = c.expect(o, [c.root])
    exp.content.update(override)
    res = c.run(o.argv(rng) + [c.root], env={'ASAN_OPTIONS': env_for()['ASAN_OPTIONS'] + ':hard_rss_limit_mb=1500'})
    if res.crashed or not c.exit_ok(res, exp):
        return
    if c.partition(res, o, exp):
        c.count('runs')
        c.count('colliding_sizes', len(sizes))
        c.distinct('sizes', sizes)


def steep(c, kind, stack):
    """Paths near the greatest length, over few or over thousands of levels, and expressions that need many steps or much recursion."""
    rng = c.rng
    deep = rng.random() < .5
    os.makedirs(c.root)
    o = O()
    o.threads = rng.choice([None, 1, 4])
    pre = rng.choice(['^r(?:(a)|(b)|(/)|n+)*', '^r((((a|b|/|n))))+', '^(.)+', '^((r|a|b|n+|/)+)']) if deep else rng.choice(['((((a|b|/|n))))+', '(?:(a)|(b)|(/)|(n))*', '((((((.))))))*', '^(.|/)+', '^((r|n)(n|/)*)*'])
    end = rng.choice(['f1$', 'f[02]$', 'f$', 'zz$'])          # pre matches everything in front of it
    e = pre + end
    rel, level, files = b'r', 0, []
    d = os.open(c.root, os.O_RDONLY)
    name = rng.choice([b'a', b'b']) if deep else b'n' * rng.choice([200, 255])
    top = rng.choice([600, 1300, 1990]) if deep else 40
    while level < top and len(rel) + len(name) < 4000:
        os.mkdir(name, dir_fd=d)
        x = os.open(name, os.O_RDONLY, dir_fd=d)
        os.close(d)
        d, rel, level = x, rel + b'/' + name, level + 1
        if rng.random() < 4 / top or level == top or len(rel) + len(name) >= 4000:
            for n in (b'f0', b'f1', b'f2'):
                f = os.open(n, os.O_CREAT | os.O_WRONLY, 0o644, dir_fd=d)
                os.write(f, b'same')
                os.close(f)
                files.append(rel + b'/' + n)
    os.close(d)
    white = rng.random() < .4
    keep = sorted(f for f in files if bool(re.search(end.encode(), f)) == white) if rng.random() < .8 else None
    argv = o.argv(rng) + ([b'-w' if white else b'-e', e.encode()] if keep is not None else [])
    keep = sorted(files) if keep is None else keep
    res = c.run(argv + [b'r'], c.dir, kind=kind, timeout=120, limits={resource.RLIMIT_STACK: stack})
    if not res.crashed:
        got = M.parse_text(res.out, o)
        if res.rc != (0 if keep else 255) or isinstance(got, str) or sorted(p for _, g in got for p in g) != (keep if len(keep) > 1 else []):
            c.bad('long-paths', 'expected the group %s' % show(keep), res)
        c.count('runs_over_steep_trees')
        c.maxi('levels_of_directories', level)
        c.maxi('longest_path', len(rel))
        c.distinct('steep', argv, level, len(files))
    subprocess.run(['rm', '-rf', '--', c.root])          # too deep for shutil.rmtree


def C10_steep(c):
    steep(c, 'plain', 8 << 20)


def C04_steep(c):
    steep(c, 'asan', 256 << 20)


def C10(tier):
    chk, bins = start('C10', tier, 'random and hostile command lines, ignore files (binary, huge, malformed patterns), names (any bytes), deep trees and link loops under AddressSanitizer and UBSan, with every pool allocation a separate guarded block filled with garbage; non-trivial: distinct command lines and trees', kinds=('asan', 'plain'))
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    run_cases(chk, C10_case, pick(tier, 480, 8000), bins)
    run_cases(chk, C10_sizes, pick(tier, 24, 400), bins, first=1000000)
    run_cases(chk, C10_steep, pick(tier, 32, 400), bins, first=2000000)
    return chk.finish(['colliding_sizes', 'runs_over_steep_trees', 'runs', 'accepted_command_lines', 'hostile_ignore_files', 'deep_trees'])


# ------------------------------------------------------------------ C12

def C12_case(c):
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([10, 30, 60]), special=False, big=rng.random() < .3, fam=rng.choice([1, 2, 5, 10]), hard=.1)
    M.spice(rng, dirs, files, .06, .06, .1)
    for _ in range(2):
        o = basic_opts(rng, .4)
        o.threads = rng.choice([2, 3, 4, 8, 16, 64])
        exp = c.expect(o, [c.root])
        res = c.run(o.argv(rng) + [c.root], c.dir, {'FTV_JITTER': rng.randrange(1, 1 << 30)}, kind='tsan')
        if res.crashed or not c.exit_ok(res, exp):
            return
        if not c.partition(res, o, exp):
            return
        c.count('threaded_runs')
        c.count('files_hashed_or_compared', len(exp.files))
        c.distinct(res.cmd, c.i)
        c.sample(argv=res.cmd, groups=len(exp.groups()))
    if c.i % 6 == 0:
        fail_path = rng.choice(files)
        os.unlink(fail_path)
        os.symlink(b'/nonexistent', fail_path)
        res = c.run([b'-f', b'-v', b'-j', b'8', c.root], c.dir, {'FTV_JITTER': c.i + 1}, kind='tsan')
        if not res.crashed:
            c.count('threaded_runs')


def C12(tier):
    chk, bins = start('C12', tier, 'ftwin built with ThreadSanitizer scans trees with 2 to 64 workers under seeded delays and spurious wakeups; pool allocations are reported to the race detector as writes to the pool; a case is one run, distinct by command line and seed', kinds=('tsan',))
    run_cases(chk, C12_case, pick(tier, 160, 2500), bins)
    return chk.finish(['threaded_runs', 'groups_checked'])


# ------------------------------------------------------------------ C13

IMG_RE = rb'.*\.(gif|png|jpe?g)$'


def C13_case(c):
    rng = c.rng
    os.makedirs(c.root)
    subs = [c.root] + [c.root + b'/' + n for n in rng.sample([b'sub', b'pics', b'deep', b'.hid'], rng.choice([0, 1, 2]))]
    for d in subs:
        os.makedirs(d, exist_ok=True)
    subprocess.run([c.bins['img'].encode(), b'gen', c.root, b'%d' % (rng.randrange(1 << 40))], check=True, stderr=subprocess.DEVNULL)
    marred = set()         # what the decoder makes of a damaged picture may depend on uninitialised memory
    for n in sorted(os.listdir(c.root)):
        p = c.root + b'/' + n
        if os.path.isfile(p):
            k = rng.random()
            if k < .2:
                marred.add(n)
            if k < .12:
                with open(p, 'r+b') as f:
                    f.truncate(rng.choice([0, 10, os.path.getsize(p) // 2]))
            elif k < .2:
                b = bytearray(open(p, 'rb').read())
                for _ in range(rng.choice([1, 5])):
                    b[rng.randrange(len(b))] = rng.randrange(256)
                open(p, 'wb').write(b)
            elif k < .3:
                shutil.copyfile(p, rng.choice(subs) + b'/copy-' + n)
            d = rng.choice(subs)
            if d != c.root:
                os.rename(p, d + b'/' + n)
    if rng.random() < .15:
        have = [os.path.join(d, n) for d, _, ns in os.walk(c.root) for n in ns]
        for j in range(rng.choice([20, 45, 100])):
            f = rng.choice(have)
            m = b'more%d' % j + os.path.splitext(f)[1]
            shutil.copyfile(f, rng.choice(subs) + b'/' + m)
            if os.path.basename(f) in marred:
                marred.add(m)
        c.count('large_picture_sets')
    with open(c.root + b'/plain.png', 'wb') as f:
        f.write(b'this is no picture at all')
    level = rng.choice([None, 1, 2, 3, 4, 5])
    o = O()
    o.icase, o.white_re = True, IMG_RE
    o.hidden, o.verbose, o.norec = rng.random() < .3, rng.random() < .3, rng.random() < .15
    o.sep = rng.choice([None, None, b',', b'|', b'  '])
    args = [c.root]
    if rng.random() < .15:
        args.insert(rng.randrange(2), rng.choice([c.root, c.root, rng.choice(subs), c.root + b'/plain.png']))
    exp = c.expect(o, args)
    files = sorted(exp.files)
    if not files:
        return
    p = subprocess.run([c.bins['img'].encode(), b'dist', *[a for _, a in files]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    ok, dist, th = {}, {}, None
    for line in p.stdout.decode().splitlines():
        w = line.split()
        if w[0] == 'T':
            th = [float(x) for x in w[1:]][(level or 1) - 1]
        elif w[0] == 'F':
            ok[int(w[1])] = w[2] == '1'
        else:
            dist[int(w[1]), int(w[2])] = float(w[3])
    if p.returncode or len(ok) != len(files):
        raise RuntimeError('the picture helper failed: %r' % p)
    argv = [b'-I'] + ([b'-T', b'%d' % level] if level else [])
    if rng.random() < .2:
        argv = [b'-w', b'nothing'] + argv
    for ch, v in (('-a', o.hidden), ('-v', o.verbose), ('-R', o.norec)):
        if v:
            argv.append(ch.encode())
    if o.sep is not None:
        argv += [b'-s', o.sep]
    res = c.run(argv + args, c.dir, {'FTV_JITTER': c.i + 1} if rng.random() < .4 else {})
    if res.crashed or not c.exit_ok(res, exp):
        return
    got = M.parse_text(res.out, o)
    if isinstance(got, str):
        c.bad('malformed', got, res)
        return
    idx = {r: i for i, (r, _) in enumerate(files)}
    seen = collections.Counter()
    for _, ps in got:
        if len(ps) < 2 or any(x not in idx for x in ps):
            c.bad('image-stranger', 'an entry of the report is not an eligible picture: %s' % show(ps), res)
            return
        for m in ps[1:]:
            a, b = idx[ps[0]], idx[m]
            if os.path.getsize(files[a][1]) < os.path.getsize(files[b][1]):
                c.bad('image-order', 'a smaller picture leads a larger one: %s, %s' % (show(ps[0]), show(m)), res)
                return
            seen[min(a, b), max(a, b)] += 1
    pairs = 0
    for a in range(len(files)):
        for b in range(a + 1, len(files)):
            n = seen[a, b]
            if os.path.basename(files[a][0]) in marred or os.path.basename(files[b][0]) in marred:
                want = {0, 1} if ok[a] and ok[b] else {0}
            elif not (ok[a] and ok[b]):
                want = {0}
            else:
                want = {int(dist[a, b] < th), int(dist[b, a] < th)}
                pairs += 1
            if n not in want:
                c.bad('image-pair', 'pictures %s and %s (distances %s, %s, threshold %s) are reported together %d times' % (show(files[a][0]), show(files[b][0]), dist.get((a, b)), dist.get((b, a)), th, n), res)
                return
    c.count('image_runs')
    c.count('picture_pairs', pairs)
    c.count('similar_pairs', sum(seen.values()))
    c.count('unreadable_pictures', sum(not v for v in ok.values()))
    c.distinct(sorted((k, round(v, 6)) for k, v in dist.items()), level, argv)
    c.sample(argv=res.cmd, pictures=len(files), similar=sum(seen.values()))


def C13(tier):
    chk, bins = start('C13', tier, 'sets of generated pictures (copies, resized, recompressed, noisy, altered and unrelated, in PNG, JPEG and GIF, some damaged) scanned in image mode at every threshold; the distance of every pair is computed apart with the image library; exactly the pairs below the threshold must be reported, once; distinct by distances and options', assume=['libpuzzle computes the same vectors in both programs'])
    bins['img'] = os.path.join(chk.scratch, 'img')
    chk.b.run(['gcc', '-w', '-O2', os.path.join(HARNESS, 'img.c'), '-o', bins['img'], '-lgd', '-lpuzzle', '-lm'])
    run_cases(chk, C13_case, pick(tier, 300, 5000), bins)
    return chk.finish(['image_runs', 'picture_pairs', 'similar_pairs', 'unreadable_pictures', 'large_picture_sets'])


# ------------------------------------------------------------------ C15

def sparse_tar(path, name, size, segs):
    """A PAX archive with one sparse entry (GNU sparse format 1.0): segs are (offset, bytes)."""
    def hdr(n, sz, typ):
        h = bytearray(512)
        h[0:len(n)] = n
        h[100:108], h[108:116], h[116:124] = b'0000644\0', b'0000000\0', b'0000000\0'
        h[124:136], h[136:148] = b'%011o\0' % sz, b'00000000000\0'
        h[148:156] = b' ' * 8
        h[156:157] = typ
        h[257:265] = b'ustar\x0000'
        h[148:156] = b'%06o\0 ' % sum(h)
        return bytes(h)

    def rec(k, v):
        b = b' %s=%s\n' % (k, v)
        n = len(b) + 1
        while len(b'%d' % n) + len(b) != n:
            n += 1
        return b'%d' % n + b
    pad = lambda b: b + b'\0' * (-len(b) % 512)
    pax = rec(b'GNU.sparse.major', b'1') + rec(b'GNU.sparse.minor', b'0') + rec(b'GNU.sparse.name', name) + rec(b'GNU.sparse.realsize', b'%d' % size)
    m = pad(b'%d\n' % len(segs) + b''.join(b'%d\n%d\n' % (o, len(b)) for o, b in segs))
    data = m + b''.join(b for _, b in segs)
    with open(path, 'wb') as f:
        f.write(hdr(b'PaxHeaders/x', len(pax), b'x') + pad(pax) + hdr(b'GNUSparseFile.0/x', len(data), b'0') + pad(data) + b'\0' * 1024)


def sparse_archive(c):
    """Entries with holes, also beyond 2 and 4 GiB."""
    rng = c.rng
    os.makedirs(c.root)
    top = rng.choice([100000, 1 << 31, 1 << 32, (1 << 33) + 5])
    offs = sorted(rng.sample([0, 4096, 65536, top // 2 // 512 * 512, top - 512 & ~511, top + 512 & ~511, top + 40960 & ~511], 4))
    segs, last = [], -1
    for o in offs:
        if o <= last:
            continue
        b = rng.randbytes(rng.choice([1, 511, 512, 3000]))
        segs.append((o, b))
        last = o + len(b)
    size = last + rng.choice([0, 0, 1, 70000])
    segs = [x for k, x in enumerate(segs) if k == 0 or x[0] >= segs[k - 1][0] + len(segs[k - 1][1])]
    size = max(size, segs[-1][0] + len(segs[-1][1]))
    arc = os.fsdecode(c.root) + '/s.tar'
    sparse_tar(arc, b'holes', size, segs)
    p = subprocess.run([c.bins['arc'], arc, 'holes'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(), timeout=120)
    c.evals += 1
    res = Result(p.returncode, p.stdout, p.stderr, ['arc', arc, 'holes'], {})
    t = p.stdout.decode('utf-8', 'replace').split('\t')[0]
    try:
        if res.crashed or p.returncode or t == '-' or not t.startswith('/'):
            c.bad('archive-missing', 'nothing came out for a sparse entry of %d bytes' % size, res)
            return
        n = os.path.getsize(t)
        if n != size:
            c.bad('archive-wrong', 'a sparse entry of %d bytes became %d bytes' % (size, n), res)
            return
        with open(t, 'rb') as f:
            at = 0
            while at < size:
                try:
                    at = os.lseek(f.fileno(), at, os.SEEK_DATA)
                except OSError:
                    break
                end = min(os.lseek(f.fileno(), at, os.SEEK_HOLE), at + (1 << 24))
                os.lseek(f.fileno(), at, os.SEEK_SET)
                got = bytearray()
                while len(got) < end - at:
                    got += os.read(f.fileno(), end - at - len(got)) or b'?'
                want = bytearray(end - at)
                for o, b in segs:
                    lo, hi = max(o, at), min(o + len(b), end)
                    if lo < hi:
                        want[lo - at:hi - at] = b[lo - o:hi - o]
                if got != want:
                    c.bad('archive-wrong', 'the bytes of a sparse entry are wrong between %d and %d' % (at, end), res)
                    return
                at = end
            for o, b in segs:
                f.seek(o)
                if f.read(len(b)) != b:
                    c.bad('archive-wrong', 'the bytes of a sparse entry are wrong at %d' % o, res)
                    return
        c.count('sparse_extractions')
        c.maxi('largest_entry', size)
        c.distinct('sparse', size, [o for o, _ in segs])
    finally:
        if t.startswith('/tmp/ftwin'):
            try:
                os.unlink(t)
            except OSError:
                pass


def C15_case(c):
    import io, tarfile, zipfile
    rng = c.rng
    if c.i % 12 == 11:
        return sparse_archive(c)
    os.makedirs(c.root)
    kind = rng.choice(['tar', 'tar.gz', 'tar.bz2', 'tar.xz', 'zip', 'zip0'])
    ents = []
    for j in range(rng.choice([1, 2, 5, 20])):
        n = rng.choice([0, 1, 511, 512, 513, 10239, 10240, 10241, 65536, 70001, 300000]) if rng.random() < .6 else rng.randrange(0, 5000)
        b = rng.randbytes(n) if rng.random() < .5 else (b'line %d\n' % j) * (n // 8)
        name = rng.choice(['%s%d.txt', 'dir/%s%d', './%s%d', 'a/b/c/%s-%d.bin', '%s %d', 'e\u00e9%s%d', '%s%d/file']) % (''.join(rng.choice('abcdefgh') for _ in range(12)), j)
        if rng.random() < .05:
            name = 'x' * 130 + name
        ents.append((name, b))
    arc = os.fsdecode(c.root) + '/archive.' + kind
    if kind.startswith('zip'):
        with zipfile.ZipFile(arc, 'w', zipfile.ZIP_STORED if kind == 'zip0' else zipfile.ZIP_DEFLATED) as z:
            for n, b in ents:
                z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), b, zipfile.ZIP_STORED if kind == 'zip0' else zipfile.ZIP_DEFLATED)
    else:
        fmt = rng.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT])
        with tarfile.open(arc, 'w:' + kind[4:], format=fmt) as t:
            if rng.random() < .3:
                d = tarfile.TarInfo('dir')
                d.type = tarfile.DIRTYPE
                t.addfile(d)
            for n, b in ents:
                i = tarfile.TarInfo(n)
                i.size, i.mode = len(b), rng.choice([0o644, 0o600, 0o755, 0o400])
                t.addfile(i, io.BytesIO(b))
    damage = rng.choice(['no', 'no', 'cut', 'flip', 'junk', 'missing', 'nodir', 'full'])
    data = open(arc, 'rb').read()
    exact = True                       # whatever comes out must be the right bytes
    if damage == 'cut':
        open(arc, 'wb').write(data[:rng.randrange(len(data))])
    elif damage == 'flip':
        b = bytearray(data)
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        open(arc, 'wb').write(b)
        exact = False
    elif damage == 'junk':
        open(arc, 'wb').write(rng.randbytes(rng.choice([0, 1, 5000])))
    elif damage == 'missing':
        os.unlink(arc)
    known = {}
    for n, b in ents:
        known.setdefault(n, b)
    subs = list(known)
    rng.shuffle(subs)
    subs = subs[:8] + rng.sample(['nothing', 'dir/nothing', subs[0] + 'x', subs[0][:-1], '/' + subs[0], subs[0].upper()], 2)
    subs = [x for x in subs if x and x.isascii()] or ['nothing']      # other names depend on the locale
    mask = rng.choice([0o27, 0o27, 0, 0o77, 0o22, 0o177, 0o222, 0o277, 0o377, 0o400, 0o777])
    env = env_for({'LC_ALL': 'C.UTF-8', 'ARC_UMASK': '%o' % mask})
    if damage == 'nodir':
        env['ARC_REFUSE'] = '1'
    room = None
    if damage == 'full':               # the temporary file cannot grow beyond that: an entry that does not fit yields nothing
        room = rng.choice([0, 1, 511, 512, 4096, 5000, 10240, 65535, 65536, 131072])
        env['ARC_ROOM'] = str(room)
    tmp0 = set(os.listdir('/tmp'))
    p = subprocess.run([c.bins['arc'], arc, *subs], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    c.evals += 1
    res = Result(p.returncode, p.stdout, p.stderr, ['arc', arc, *subs], {})
    lines = p.stdout.decode('utf-8', 'replace').splitlines()
    try:
        if res.crashed or p.returncode or len(lines) != len(subs):
            c.bad('crash', 'extraction crashed (%s, %s)' % (kind, damage), res)
            return
        for sub, line in zip(subs, lines):
            t, dfd, um, *made = line.split('\t')
            what = '%s of a %s archive (%s)' % (sub, kind, damage)
            if dfd != '0':
                c.bad('archive-descriptors', '%s descriptors more after the extraction of %s' % (dfd, what), res)
                return
            if um != '%o' % mask:
                c.bad('archive-umask', 'the file creation mask is %s instead of %o after the extraction of %s' % (um, mask, what), res)
                return
            want = known.get(sub)
            if t == '-':
                if want is not None and (damage == 'no' or room is not None and len(want) <= room):
                    c.bad('archive-missing', 'nothing came out for %s' % what, res)
                    return
                left = [m for m in made if os.path.lexists(m)]
                if left:
                    c.bad('archive-leftover', 'temporary file left behind after a failed extraction of %s: %s' % (what, left), res)
                    return
                c.count('refused_extractions')
                c.count('extractions_without_room', want is not None and room is not None)
                continue
            b = open(t, 'rb').read()
            if not os.path.basename(t).startswith('ftwin') and t not in made:
                c.bad('archive-place', 'extraction went to %s' % t, res)
                return
            others = [m for m in made if m != t and os.path.lexists(m)]
            if others:
                c.bad('archive-leftover', 'further temporary files: %s' % others, res)
                return
            os.unlink(t)
            if want is None and (exact or kind in ('zip', 'zip0')):
                c.bad('archive-wrong', 'an entry that is not in the archive came out: %s' % what, res)
                return
            if want is not None and b != want and (exact or kind in ('zip', 'zip0')):
                c.bad('archive-wrong', 'the bytes of %s are wrong: %d instead of %d bytes' % (what, len(b), len(want)), res)
                return
            c.count('exact_extractions', b == want)
        c.count('damaged_archives', damage != 'no')
        c.distinct(kind, damage, hashlib.sha1(data).hexdigest())
        c.sample(kind=kind, damage=damage, entries=[(n, len(b)) for n, b in ents][:5], asked=subs[:4])
    finally:
        for line in lines:
            for m in line.split('\t')[:1] + line.split('\t')[3:]:
                if m.startswith('/tmp/ftwin'):
                    try:
                        os.unlink(m)
                    except OSError:
                        pass


def C15(tier):
    chk = Check('C15', tier, 'exploration', 'archives (tar plain, gz, bz2, xz; zip stored and deflated) written by Python with entries around block boundaries, also cut, altered, replaced by junk or missing; entries present and absent are extracted one by one; distinct archives', ['entries are regular files; libarchive decodes the formats it knows'])
    bins = {'arc': chk.b.harness('asan', 'arc.c', 'arc', wraps=['mkstemp', 'mkostemp'], guard=True)}
    run_cases(chk, C15_case, pick(tier, 400, 6000), bins)
    return chk.finish(['exact_extractions', 'refused_extractions', 'damaged_archives', 'sparse_extractions', 'extractions_without_room'])


# ------------------------------------------------------------------ C18

VALOPTS = [b'-e', b'-w', b'-i', b'-p', b'-s', b'-m', b'-M', b'-x', b'-j', b'-T', b'--regex-ignore-file', b'--whitelist-regex-file', b'--ignore-list', b'--priority-path', b'--separator', b'--minimal-length', b'--max-size', b'--excessive-size', b'--threads', b'--image-threshold']
BADSIZE = [b'', b'abc', b'-1', b'-5K', b'1X', b'10Q', b'nan', b'inf', b'1e30', b'9223372036854775808', b'8388608T', b'K', b'--', b'5%', b'5Kfoo', b'5KK', b'1BB', b'5K5', b'2MiBi', b'10 K K', b'1Bi', b'3T1', b'7G,']
BADRE = [b'(', b'[', b'a(b', b'*a', b'(?P<', b'a{2,1}', b'[z-a]', b'(?<=a+)b', b'\\', b')']


def C18_case(c):
    rng = c.rng
    dirs, files = M.make_tree(rng, c.root, nfiles=rng.choice([4, 8, 16]), special=False, fam=2, hard=0)
    good = lambda: rng.choice([[b'-a'], [b'-v'], [b'-d'], [b'-n'], [b'-o'], [b'-f'], [b'-j', b'2'], [b'-m', b'1'], [b'-x', b'1K'], [b'-i', b'zzz'], [b'-e', b'zzzz'], [b'-s', b','], [b'-T', b'3'], [b'-c'], [b'--json'], [b'-p', b'/x'], [b'--max-size', b'100M']])
    for _ in range(6):
        pre = [x for _ in range(rng.randrange(0, 4)) for x in good()]
        post = [x for _ in range(rng.randrange(0, 3)) for x in good()]
        k = rng.choice(['unknown', 'noarg', 'threads', 'size', 'threshold', 'regex', 'nopath', 'ghost', 'help', 'good', 'ghost2'])
        want, paths = {1}, [c.root]
        if k == 'unknown':
            bad = [rng.choice([b'-z', b'-Q', b'-5', b'--nothing', b'--hid', b'--jsonx', b'-aq', b'--threads2', b'-g', b'--', b'-']) + b'']
            if bad[0] in (b'--', b'-'):
                bad = [b'-y']
        elif k == 'noarg':
            bad, post, paths = [rng.choice(VALOPTS)], [], []
        elif k == 'threads':
            bad = [rng.choice([b'-j', b'--threads']), rng.choice([b'0', b'257', b'-1', b'abc', b'', b'4x', b'1.5', b'99999999999999999999', b'256x', b'0x4', b'4,', b'4 ', b'4\t', b'4.0', b'1e1', b'+', b'-', b' ', b'4\n', b'4 4', b'00', b'1000', b'2147483648', b'4294967297', b'18446744073709551617', b'-4294967295'])]
        elif k == 'size':
            bad = [rng.choice([b'-m', b'-M', b'-x', b'--max-size', b'--minimal-length', b'--excessive-size']), rng.choice(BADSIZE)]
        elif k == 'threshold':
            bad = [rng.choice([b'-T', b'--image-threshold']), rng.choice([b'0', b'6', b'x', b'', b'9', b'-1', b'a1', b'12', b'1x', b'55', b'3 ', b'1-5', b'2.5', b'5\n', b' 1'])]
        elif k == 'regex':
            bad, want = [rng.choice([b'-e', b'-w', b'--regex-ignore-file', b'--whitelist-regex-file']), rng.choice(BADRE)], {255}
            post = [x for x in post if x not in (b'-e', b'zzzz')]
        elif k == 'nopath':
            bad, paths = [], []
        elif k == 'ghost':
            bad, paths, want = [], [c.root + b'/ghost'], {255}
        elif k == 'ghost2':
            bad, paths, want = [], rng.choice([[c.root, c.root + b'/ghost/x'], [c.root + b'/ghost', c.root]]), {255}
        elif k == 'help':
            bad, want = [rng.choice([b'-h', b'--help', b'-V', b'--version'])], {0}
            paths = rng.choice([[], [c.root], [c.root + b'/ghost']])
        else:
            bad, want = [], {0}
        argv = pre + bad + post + paths
        res = c.run(argv, c.dir)
        if res.crashed:
            return
        if k == 'good':
            exp = c.expect(O(), [c.root])
            if not exp.files:
                continue
        if res.rc not in want:
            c.bad('exit-status', 'exit status %s, expected %s (%s)' % (res.rc, sorted(want), k), res)
            return
        hits = [f for f in files if f in res.out or (f in res.err and b'Progress' not in res.err)]
        if k != 'good' and (any(f in res.out for f in files) or b'"duplicates"' in res.out):
            c.bad('report-on-failure', 'a report was written for a refused command line (%s)' % k, res)
            return
        if want != {0} and not res.err.strip():
            c.bad('silent-refusal', 'a refused command line without any message (%s)' % k, res)
            return
        if k == 'help' and not (res.out + res.err).strip():
            c.bad('help', 'nothing was printed', res)
            return
        c.count('line_' + k)
        c.count('refused', want != {0})
        c.distinct(k, pre, bad, post, len(paths))
        c.sample(argv=res.cmd, exit=res.rc, message=res.err[:120])


def C18(tier):
    chk, bins = start('C18', tier, 'valid command lines with one thing wrong at a random place (unknown option, missing argument, bad number, size, threshold or expression, no path, a path that does not exist), and help and version requests; the run must end with a failure status, a message and no report; distinct command lines')
    run_cases(chk, C18_case, pick(tier, 300, 5000), bins)
    return chk.finish(['refused'] + ['line_' + k for k in ('unknown', 'noarg', 'threads', 'size', 'threshold', 'regex', 'nopath', 'ghost', 'help', 'good', 'ghost2')])


# ------------------------------------------------------------------ C20

def C20_case(c):
    rng = c.rng
    image = c.i % 5 == 4
    o = basic_opts(rng, .4)
    if image:
        os.makedirs(c.root)
        subprocess.run([c.bins['img'].encode(), b'gen', c.root, b'%d' % (rng.randrange(1 << 40))], check=True, stderr=subprocess.DEVNULL)
        argv = [b'-I', b'-T', rng.choice([b'1', b'5', b'5'])] + rng.choice([[], [b'-v']]) + [c.root]
    else:
        many = rng.random() < .5
        M.make_tree(rng, c.root, nfiles=rng.choice([60, 150, 300]) if many else rng.choice([2, 6, 15]), special=False, fam=rng.choice([1, 2, 4]), hard=.1)
        argv = o.argv(rng) + [c.root]
    ref = c.run(argv, c.dir)
    if ref.crashed:
        return
    if ref.rc:
        if not ref.out:
            return
        c.bad('exit-status', 'exit status %s of a run that is not disturbed' % ref.rc, ref)
        return
    exp = None if image else c.expect(o, [c.root])
    lines = lambda b: sorted(b.split(b'\n'))

    def whole(res):
        if image:
            if lines(res.out) != lines(ref.out):
                c.bad('incomplete', 'the run succeeded with another report than the undisturbed run', res)
                return False
            return True
        return c.partition(res, o, exp, what='incomplete')
    if not whole(ref):
        return
    n = len(ref.out)
    ign = {'ignore': [signal.SIGXFSZ]}
    ks = {0, 1, n - 1, n // 2, n, n + 1, 4095, 4096, 4097, n // 4096 * 4096, rng.randrange(n + 1), rng.randrange(n + 1)}
    ks = rng.sample(sorted(k for k in ks if 0 <= k <= n + 1), min(5, len({k for k in ks if 0 <= k <= n + 1})))
    plan = [('limit', k) for k in ks] + [(w, None) for w in rng.sample(['full', 'closed', 'pipe', 'sigpipe', 'nonblock', 'stderr-full', 'stderr-closed', 'stdin-closed'], 4)]
    for what, k in plan:
        f, fds, must = c.dir + b'/out', [], n > 0
        red, lim = {1: f}, {}
        if what == 'limit':
            lim, must = {resource.RLIMIT_FSIZE: k, 'ignore': [signal.SIGXFSZ]}, k < n
        elif what == 'full':
            red = {1: '/dev/full'}
        elif what == 'closed':
            red = {1: None}
        elif what in ('pipe', 'sigpipe'):
            r, w = os.pipe()
            os.close(r)
            fds, red = [w], {1: w}
            lim = {'ignore': [signal.SIGPIPE]} if what == 'pipe' else {}
        elif what == 'nonblock':
            r, w = os.pipe()
            os.set_blocking(w, False)
            try:
                while True:
                    os.write(w, b'x' * 4096)
            except BlockingIOError:
                pass
            fds, red = [r, w], {1: w}
        elif what == 'stderr-full':
            red, must = {1: f, 2: '/dev/full'}, False
        elif what == 'stderr-closed':
            red, must = {1: f, 2: None}, False
        else:
            red, must = {1: f, 0: None}, False
        try:
            res = c.run(argv, c.dir, redirect=red, limits=lim)
        finally:
            for d in fds:
                os.close(d)
        if what == 'sigpipe' and res.rc == -signal.SIGPIPE:
            c.viol.pop()
            c.count('lost_sigpipe')
            continue
        if res.crashed:
            return
        try:
            res.out = open(f, 'rb').read()
            os.unlink(f)
        except OSError:
            res.out = b''
        if must and res.rc == 0:
            c.bad('loss-unreported', 'the report of %d bytes was lost (%s%s) and the run succeeded' % (n, what, '' if k is None else ' after %d bytes' % k), res)
            return
        if not must:
            if res.rc:
                c.bad('exit-status', 'exit status %s although the whole report could be written (%s)' % (res.rc, what), res)
                return
            if not whole(res):
                return
            c.count('complete_reports')
        else:
            c.count('lost_' + what)
        c.distinct(what, k, n, argv)
    c.count('image_reports' if image else 'json_reports' if o.json else 'text_reports')
    c.maxi('longest_report', n)
    c.sample(argv=ref.cmd, report_bytes=n, faults=[list(p) for p in plan])


def C20(tier):
    chk, bins = start('C20', tier, 'text, JSON and image reports of generated trees written to a file that takes only the first k bytes (k around 0, the buffer size, the length of the report and at random), to a full device, a closed descriptor, a pipe without reader and a full non-blocking pipe, and with standard error and input unusable; distinct fault and report', level='fault_enumeration')
    bins['img'] = os.path.join(chk.scratch, 'img')
    chk.b.run(['gcc', '-w', '-O2', os.path.join(HARNESS, 'img.c'), '-o', bins['img'], '-lgd', '-lpuzzle', '-lm'])
    run_cases(chk, C20_case, pick(tier, 240, 4000), bins)
    return chk.finish(['complete_reports', 'lost_limit', 'lost_full', 'lost_closed', 'lost_pipe', 'lost_sigpipe', 'lost_nonblock', 'image_reports', 'json_reports', 'text_reports'])
