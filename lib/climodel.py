"""Workload generator and reference model of the ftwin command line.

The model walks the real directory tree itself and applies the documented rules;
it shares nothing with ftwin's sources. Everything is bytes, as file names are."""
import sys
sys.setrecursionlimit(10000)
import ctypes, hashlib, json, os, random, re, stat as st_mod, time

DEFAULTS = [b'.git/', b'.hg/', b'.svn/', b'build/', b'dist/', b'out/', b'target/', b'bin/', b'*.o', b'*.class', b'*.pyc', b'*.pyo', b'node_modules/', b'vendor/', b'.venv/', b'.DS_Store', b'Thumbs.db', b'*.swp', b'*~', b'.idea/', b'.vscode/']

# ---------------------------------------------------------------- gitignore

def named(name, ch):
    c = bytes([ch])
    return ch < 128 and {b'alpha': c.isalpha(), b'digit': c.isdigit(), b'alnum': c.isalnum(), b'upper': c.isupper(), b'lower': c.islower(), b'space': c in b' \t\n\v\f\r',
                         b'punct': 33 <= ch < 127 and not c.isalnum(), b'xdigit': c in b'0123456789abcdefABCDEF', b'print': 32 <= ch < 127, b'blank': c in b' \t'}[name]


def glob1(p, s):
    """Match one path component against one pattern component (no slashes)."""
    memo = {}

    def m(i, j):
        k = (i, j)
        if k not in memo:
            memo[k] = m_(i, j)
        return memo[k]

    def m_(i, j):
        if i == len(p):
            return j == len(s)
        c = p[i:i + 1]
        if c == b'*':
            while p[i:i + 1] == b'*':
                i += 1
            return any(m(i, k) for k in range(j, len(s) + 1))
        if j == len(s):
            return False
        if c == b'?':
            return m(i + 1, j + 1)
        if c == b'[':
            e, ok = cls(i, s[j])
            if e is None:
                return False
            return ok and m(e, j + 1)
        if c == b'\\' and i + 1 < len(p):
            return p[i + 1] == s[j] and m(i + 2, j + 1)
        return p[i] == s[j] and m(i + 1, j + 1)

    def cls(i, ch):
        k = i + 1
        neg = p[k:k + 1] in (b'!', b'^')
        if neg:
            k += 1
        hit, first = False, True
        while True:
            if k >= len(p):
                return None, False
            c = p[k]
            if c == ord(']') and not first:
                return k + 1, hit != neg
            first = False
            if c == ord('[') and p[k + 1:k + 2] == b':':       # a named class
                e = p.find(b']', k + 2)
                if e > k + 2 and p[e - 1:e] == b':':
                    hit = hit or named(p[k + 2:e - 1], ch)
                    k = e + 1
                    continue
            if c == ord('\\') and k + 1 < len(p):
                k += 1
                c = p[k]
            if p[k + 1:k + 2] == b'-' and p[k + 2:k + 3] not in (b']', b''):
                hi = p[k + 2]
                k2 = k + 3
                if hi == ord('\\'):
                    hi, k2 = p[k + 3], k + 4
                if c <= ch <= hi:
                    hit = True
                k = k2
            else:
                hit = hit or c == ch
                k += 1
    return m(0, 0)


def globpath(pc, sc):
    """Match pattern components against path components; '**' spans directories."""
    memo = {}

    def m(i, j):
        if (i, j) not in memo:
            if i == len(pc):
                r = j == len(sc)
            elif pc[i] == b'**':
                r = len(sc) > j if i + 1 == len(pc) else any(m(i + 1, k) for k in range(j, len(sc) + 1))
            else:
                r = j < len(sc) and glob1(pc[i], sc[j]) and m(i + 1, j + 1)
            memo[i, j] = r
        return memo[i, j]
    return bool(m(0, 0))


class Pattern:
    def __init__(self, line):
        self.ok = False
        s = line
        s = s.lstrip(b' \t')
        while s.endswith(b' ') and not s.endswith(b'\\ '):
            s = s[:-1]
        if not s or s.startswith(b'#'):
            return
        self.neg = s.startswith(b'!')
        if self.neg:
            s = s[1:]
        self.dironly = s.endswith(b'/')
        if self.dironly:
            s = s[:-1]
        if not s.strip(b'/'):
            return
        anchored = b'/' in s
        if s.startswith(b'/'):
            s = s[1:]
        self.comps = [b'**' if re.fullmatch(rb'\*\*+', x) else x for x in s.split(b'/')]
        self.anchored = anchored
        self.ok = True

    def match(self, comps, isdir):
        if self.dironly and not isdir:
            return False
        if self.anchored:
            return globpath(self.comps, comps)
        if self.comps == [b'**']:
            return True
        return glob1(self.comps[0], comps[-1])


def parse_gitignore(data):
    if data.startswith(b'\xef\xbb\xbf'):
        data = data[3:]
    return [q for q in (Pattern(l[:-1] if l.endswith(b'\r') else l) for l in data.split(b'\n')) if q.ok]


DEFAULT_PATTERNS = [Pattern(d) for d in DEFAULTS]


def ignored(stack, comps, isdir):
    """stack: [(depth, patterns)] from the argument's defaults to the nearest directory."""
    for depth, pats in reversed(stack):
        for q in reversed(pats):
            if q.match(comps[depth:], isdir):
                return not q.neg
    return False

# ---------------------------------------------------------------- options


class Opts:
    """One command line. `argv()` renders it; the walk below interprets it."""

    def __init__(self):
        self.hidden = self.icase = self.dsize = self.dry = self.follow = self.json = self.norec = self.rec = self.mem = self.verbose = self.tar = False
        self.ignore_re = self.white_re = self.prio = self.sep = self.minsize = self.maxsize = self.excess = self.threads = None
        self.ilist = []
        self.long = False
        self.extra = []

    def argv(self, rng=None):
        L = {'a': '--hidden', 'c': '--case-unsensitive', 'd': '--display-size', 'n': '--dry-run', 'f': '--follow-symlink', 'J': '--json', 'R': '--no-recurse', 'r': '--recurse-subdir', 'o': '--optimize-memory', 'v': '--verbose', 't': '--tar-cmp',
             'e': '--regex-ignore-file', 'w': '--whitelist-regex-file', 'p': '--priority-path', 's': '--separator', 'm': '--minimal-length', 'M': '--max-size', 'x': '--excessive-size', 'j': '--threads', 'i': '--ignore-list'}
        out = []

        def flag(c):
            out.append([(L[c] if self.long else '-' + c).encode()])

        def opt(c, v):
            out.append([(L[c] if self.long else '-' + c).encode(), v if isinstance(v, bytes) else str(v).encode()])
        for c, v in (('a', self.hidden), ('c', self.icase), ('d', self.dsize), ('n', self.dry), ('f', self.follow), ('J', self.json), ('o', self.mem), ('v', self.verbose), ('t', self.tar)):
            if v:
                flag(c)
        for c, v in (('e', self.ignore_re), ('w', self.white_re), ('p', self.prio), ('s', self.sep), ('m', self.minsize), ('M', self.maxsize), ('x', self.excess), ('j', self.threads)):
            if v is not None:
                opt(c, v)
        for l in self.ilist:
            opt('i', l)
        if rng:
            rng.shuffle(out)
        # of -r and -R the last one counts
        rr = ([b'r'] * bool(self.rec) + [b'R']) if self.norec else ([b'R'] * (self.rec == 2) + [b'r'] if self.rec else [])
        for c in rr:
            at = rng.randrange(at, len(out) + 1) if rng and c != rr[0] else rng.randrange(len(out) + 1) if rng else len(out)
            out.insert(at, [(L[c.decode()].encode() if self.long else b'-' + c)])
            at += 1
        return [x for g in out for x in g] + list(self.extra)


SUFFIX = {b'K': 1 << 10, b'M': 1 << 20, b'G': 1 << 30, b'T': 1 << 40}


def size_of(v):
    if v is None:
        return None
    v = v if isinstance(v, bytes) else str(v).encode()
    m = re.match(rb'^([0-9.]+)\s*([KMGTkmgt]?)', v)
    return int(float(m.group(1)) * SUFFIX.get(m.group(2).upper(), 1))

# ---------------------------------------------------------------- the walk


class Walk:
    """Documented selection rules, applied to the real tree."""

    def __init__(self, opts, cwd, uid=0, gids=(0,), overlay=None):
        self.o, self.cwd, self.uid, self.gids = opts, cwd, uid, set(gids)
        self.overlay = overlay or {}     # absolute path -> None (gone) : faults
        self.files = []                  # (reported path, absolute path)
        fl = re.DOTALL | (re.IGNORECASE if opts.icase else 0)
        self.ig = re.compile(opts.ignore_re, fl) if opts.ignore_re is not None else None
        self.wl = re.compile(opts.white_re, fl) if opts.white_re is not None else None
        self.names = {b'.', b'..'}
        for l in opts.ilist:
            self.names.update(x for x in l.split(b','))
        self.lo = size_of(opts.minsize) or 0
        self.hi = size_of(opts.maxsize) or 0
        self.error = False

    def absp(self, p):
        return p if p.startswith(b'/') else self.cwd + b'/' + p

    def stat(self, p):
        a = self.absp(p)
        if a in self.overlay:
            return None
        try:
            return os.stat(a) if self.o.follow else os.lstat(a)
        except OSError:
            return None

    def may(self, s):
        if self.uid == 0:
            return True
        isd = st_mod.S_ISDIR(s.st_mode)
        bit = 1 if isd else 4
        if s.st_uid == self.uid:
            return bool(s.st_mode >> 6 & bit)
        if s.st_gid in self.gids:
            return bool(s.st_mode >> 3 & bit)
        return bool(s.st_mode & bit)

    def canlist(self, s):
        if self.uid == 0:
            return True
        bit = 5
        if s.st_uid == self.uid:
            return (s.st_mode >> 6 & bit) == bit
        if s.st_gid in self.gids:
            return (s.st_mode >> 3 & bit) == bit
        return (s.st_mode & bit) == bit

    def arg(self, a):
        p = a
        if self.o.json:
            p = os.path.normpath(self.absp(a))
        s = self.stat(p)
        if s is None:
            self.error = True
            return
        self.node(p, s, (), [(0, DEFAULT_PATTERNS)], [], True)

    def node(self, p, s, comps, stack, chain, isarg):
        isd = st_mod.S_ISDIR(s.st_mode)
        if not isarg and ignored(stack, list(comps), isd):
            return
        if not self.may(s):
            return
        if isd:
            if not isarg and self.o.norec:
                return
            if (s.st_dev, s.st_ino) in chain:
                return
            self.dir(p, s, comps, stack, chain + [(s.st_dev, s.st_ino)], isarg)
        elif st_mod.S_ISREG(s.st_mode):
            if not isarg and self.wl and not self.wl.search(p):
                return
            if s.st_size >= self.lo and (self.hi == 0 or s.st_size <= self.hi):
                self.files.append((p, self.absp(p)))

    def dir(self, p, s, comps, stack, chain, isarg):
        a = self.absp(p)
        if not self.canlist(s) or self.overlay.get((b'nolist', a)):
            self.error = self.error or isarg
            return
        gi = a + b'/.gitignore'
        try:
            if gi not in self.overlay and st_mod.S_ISREG(os.stat(gi).st_mode):
                g = os.stat(gi)
                if self.uid == 0 or self.readable(g):
                    stack = stack + [(len(comps), parse_gitignore(open(gi, 'rb').read()))]
        except OSError:
            pass
        for n in sorted(os.listdir(a)):
            if n in self.names or (n.startswith(b'.') and not self.o.hidden):
                continue
            q = p + (b'' if p.endswith(b'/') else b'/') + n
            if self.ig and self.ig.search(q):
                continue
            cs = self.stat(q)
            if cs is None:
                continue
            self.node(q, cs, comps + (n,), stack, chain, False)

    def readable(self, s):
        if s.st_uid == self.uid:
            return bool(s.st_mode & 0o400)
        if s.st_gid in self.gids:
            return bool(s.st_mode & 0o040)
        return bool(s.st_mode & 0o004)


class Expect:
    def __init__(self, opts, args, cwd, **kw):
        w = Walk(opts, cwd, **kw)
        for a in args:
            w.arg(a)
        self.w, self.o = w, opts
        # a file is considered once under each path, however many arguments lead to it
        self.files = list({p: (p, a) for p, a in reversed(w.files)}.values())[::-1]
        self.overlapping = len(w.files) - len(self.files)
        self.content = {}

    def digest(self, absp, override=None):
        absp = os.path.normpath(absp)
        if override is not None and absp in override:
            return override[absp]
        d = self.content.get(absp)
        if d is None:
            with open(absp, 'rb') as f:
                b = f.read()
            d = self.content[absp] = (len(b), hashlib.sha1(b).digest())
        return d

    def groups(self, override=None):
        """Set of frozensets of reported paths, by exact content."""
        by = {}
        for p, a in self.files:
            d = self.digest(a, override)
            if d is None:
                continue
            by.setdefault(d, []).append(p)
        return {frozenset(v): k[0] for k, v in by.items() if len(v) > 1}

    def prioritized(self, p):
        pp = self.o.prio
        if pp is None:
            return False
        if self.o.json:
            pp = b'/' + os.path.normpath(self.w.absp(pp)).strip(b'/') + (b'/' if pp.endswith(b'/') else b'')
            pp = b'/' if pp == b'//' else pp
        if pp and not pp.endswith(b'/') and p[len(pp):len(pp) + 1] not in (b'', b'/'):
            return False
        return p[:len(pp)].lower() == pp.lower() if self.o.icase else p.startswith(pp)


def human(n):
    if n < 1024:
        return b'%d B' % n
    u, x = 0, float(n)
    units = [b'B', b'KiB', b'MiB', b'GiB', b'TiB', b'PiB', b'EiB']
    while x >= 1024 and u < 6:
        x /= 1024
        u += 1
    return ('%.1f' % x).encode() + b' ' + units[u]


def parse_text(out, opts):
    """[(size line or None, [paths])], or a string describing what is malformed."""
    sep = b'\n' if opts.sep is None else (opts.sep[:1] if opts.sep else b'\0')
    groups = []
    if out == b'':
        return groups
    if not out.endswith(b'\n\n'):
        return 'the report does not end with an empty line'
    for g in out[:-2].split(b'\n\n'):
        sz = None
        if opts.dsize:
            if not g.startswith(b'Size: ') or b'\n' not in g:
                return 'a group lacks its size line: %r' % g[:200]
            line, g = g.split(b'\n', 1)
            sz = line[6:]
        groups.append((sz, g.split(sep)))
    return groups


def to_json_path(p):
    """Path as it appears in JSON: every byte that is not part of valid UTF-8 becomes U+FFFD."""
    try:
        return p.decode('utf-8')
    except UnicodeDecodeError:
        pass
    out, i = [], 0
    while i < len(p):
        for n in (1, 2, 3, 4):
            try:
                c = p[i:i + n].decode('utf-8')
            except UnicodeDecodeError:
                continue
            if len(p[i:i + n]) == n:
                out.append(c)
                i += n
                break
        else:
            out.append('\ufffd')
            i += 1
    return ''.join(out)


class XXH128(ctypes.Structure):
    _fields_ = [('lo', ctypes.c_uint64), ('hi', ctypes.c_uint64)]


_x = None


def xxh128(b):
    global _x
    if _x is None:
        _x = ctypes.CDLL('libxxhash.so.0')
        _x.XXH3_128bits.restype = XXH128
        _x.XXH3_128bits.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
    r = _x.XXH3_128bits(b, len(b))
    return '%016x%016x' % (r.hi, r.lo)


def xxh128_file(path):
    import mmap
    xxh128(b'')
    with open(path, 'rb') as f, mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_COPY) as m:
        x = ctypes.c_char.from_buffer(m)
        r = _x.XXH3_128bits(ctypes.cast(ctypes.addressof(x), ctypes.c_char_p), len(m))
        del x
    return '%016x%016x' % (r.hi, r.lo)


def iso(t):
    import datetime
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime('%Y-%m-%dT%H:%M:%SZ').rjust(20, '0')

# ---------------------------------------------------------------- trees

NAMES = [b'a', b'b', b'c', b'd', b'e', b'foo', b'bar', b'baz', b'data', b'img', b'notes', b'log', b'tmp1', b'x y', b'A', b'Foo', b'DATA', b'k-1', b'k_2', b'n[1]', b'p+q', b'(z)', b'$v', b'^u', b'{m}', b'q?', b's*t', b'w\\x', b'\xc3\xa9t\xc3\xa9', b'\xe6\x97\xa5', b"o'k", b'"h"', b'%s%n', b'-dash', b'#h', b'!bang', b'~t', b'i.j', b'=eq', b'@at', b'&and']
EXTS = [b'', b'', b'.txt', b'.c', b'.o', b'.log', b'.jpg', b'.TXT', b'.tmp', b'.pyc', b'~', b'.tar.gz', b'.swp', b'.md', b'.png', b'.class']
DIRS = [b'a', b'b', b'sub', b'sub2', b'dir', b'src', b'lib', b'build', b'bin', b'out', b'target', b'node_modules', b'vendor', b'.git', b'.hid', b'.svn', b'x y', b'Sub', b'deep', b'p.d', b'\xc3\xbc', b'dist', b'log']
SPECIAL = [b'.DS_Store', b'Thumbs.db', b'.hidden', b'.profile', b'core.o', b'build', b'bin', b'README']


def contents(rng, n, big=False):
    """Families of files: equal ones and near misses (one byte differs, anywhere)."""
    pool = []
    sizes = [0, 1, 2, 3, 7, 16, 17, 100, 128, 129, 240, 241, 255, 256, 257, 511, 1000, 1023, 1024, 4095, 4096, 4097, 8192, 10240]
    if big:
        sizes += [65535, 65536, 65537, 131071, 131072, 131073, 200000, 300001]
    for _ in range(n):
        s = rng.choice(sizes)
        base = rng.randbytes(s) if rng.random() < .7 else bytes([rng.randrange(256)]) * s
        pool.append(base)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if s:
                v = bytearray(base)
                pos = rng.choice([0, s - 1, s // 2, rng.randrange(s), min(s - 1, 65535), min(s - 1, 65536), min(s - 1, 4095), min(s - 1, 4096)])
                v[pos] ^= 1 << rng.randrange(8)
                pool.append(bytes(v))
        if s and rng.random() < .2:
            pool.append(base[:-1])
    return pool


def make_tree(rng, root, nfiles=None, names='plain', big=False, links=0.0, special=True, gitignore=0.0, hard=0.05, mtimes=False, depth=4, fam=None):
    os.makedirs(root)
    nfiles = nfiles if nfiles is not None else rng.choice([2, 3, 5, 8, 13, 20, 35])
    pool = contents(rng, fam or max(1, nfiles // 5), big)
    dirs = [root]
    for _ in range(rng.randrange(0, 2 + nfiles // 3)):
        p = rng.choice(dirs)
        if p.count(b'/') - root.count(b'/') >= depth:
            continue
        q = p + b'/' + rng.choice(DIRS if special else [d for d in DIRS if not d.startswith(b'.') and d not in (b'build', b'bin', b'out', b'target', b'node_modules', b'vendor', b'dist')])
        if q not in dirs and not os.path.lexists(q):
            os.mkdir(q)
            dirs.append(q)
    files = []
    for i in range(nfiles):
        d = rng.choice(dirs)
        for _ in range(20):
            n = rng.choice(NAMES) + rng.choice(EXTS)
            if special and rng.random() < .12:
                n = rng.choice(SPECIAL)
            if special and rng.random() < .06:
                n = b'.' + n
            if gitignore and rng.random() < .05:
                n = rng.choice([b' ', b' ', b'a ', b'  ', b' x', b'a:b', b'a[b', b'[', b':', b'a\\'])
            if names in ('wild', 'wild0') and rng.random() < .3:
                n = bytes(rng.choice([c for c in range(1, 256) if c != 47 and (names == 'wild' or c not in (10, 59, 124, 9, 58, 1))]) for _ in range(rng.randrange(1, 12)))
                if rng.random() < .4:
                    n = b''.join(rng.choice([b'a', b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xf4\x8f\xbf\xbf', b'\xf0\x9f', b'\xff', b'\xed\xa0\x80', b'\xc0\x80', b'\xf4\x90\x80\x80', b'\xe2\x82', b'\xef\xbf\xbd', b'\x7f', b'"', b'\\']) for _ in range(rng.randrange(1, 7)))
                if n in (b'.', b'..'):
                    n = b'zz'
            if not special and (n.endswith((b'.o', b'.pyc', b'~', b'.swp', b'.class'))):
                n += b'z'
            if not os.path.lexists(d + b'/' + n):
                break
        else:
            n = b'u%d' % i
        p = d + b'/' + n
        if files and rng.random() < hard:
            try:
                os.link(rng.choice(files), p)
                files.append(p)
                continue
            except OSError:
                pass
        with open(p, 'wb') as f:
            f.write(rng.choice(pool))
        if mtimes:
            t = rng.choice([0, 1, -1, 86399, 951782400, 1709164800, 1e9, 2147483647, 2147483648, 4102444800, rng.randrange(-10**9, 4 * 10**9)])
            os.utime(p, ns=(int(t) * 10**9, int(t) * 10**9 + rng.choice([0, 0, 1000, 999999999, 500000000])))
        files.append(p)
    if links:
        for i in range(rng.randrange(1, 5)):
            if rng.random() > links:
                continue
            d = rng.choice(dirs)
            p = d + b'/ln%d' % i
            k = rng.randrange(7)
            tgt = [lambda: rng.choice(files) if files else root, lambda: rng.choice(dirs), lambda: b'nowhere', lambda: b'.', lambda: b'..', lambda: b'ln%d' % i, lambda: os.path.relpath(rng.choice(files), d) if files else b'x'][k]()
            if not os.path.lexists(p):
                os.symlink(tgt, p)
        if rng.random() < .3:
            p = rng.choice(dirs) + b'/fifo'
            if not os.path.lexists(p):
                os.mkfifo(p)
    if gitignore:
        for d in dirs:
            if rng.random() < gitignore:
                with open(d + b'/.gitignore', 'wb') as f:
                    f.write(rand_gitignore(rng, d, dirs, files))
    return dirs, files


def middling(rng, dirs, files):
    """A family of files of some hundred kilobytes to some megabytes, mostly holes: copies and near misses."""
    s = rng.choice([100001, 262145, 1 << 20, (1 << 20) + 1, (1 << 20) + rng.randrange(1, 9000), 2 << 20, (2 << 20) + rng.randrange(1, 70000), (5 << 20) + rng.randrange(1, 70000), (8 << 20) - 1])
    page, chunk = (s - 1) & ~4095, (s - 1) & ~65535
    out, tag = [], rng.randrange(1 << 30)
    marks = [None, None] + rng.sample([s - 1, s - 2, page, page - 1, chunk, chunk - 1, s // 2, 0, 65536, 131071, rng.randrange(s), max(page, s - 1 - rng.randrange(4096))], rng.randrange(1, 6))
    rng.shuffle(marks)
    for j, m in enumerate(marks):
        p = rng.choice(dirs) + b'/mid%d-%d' % (tag, j)
        with open(p, 'wb') as f:
            f.truncate(s)
            if m is not None:
                f.seek(m)
                f.write(bytes([1 + rng.randrange(2)]))
        out.append(p)
    files += out
    return out


def crowd(rng, dirs, files):
    """Hundreds of files of one size, in groups."""
    n, k = rng.choice([140, 270, 300, 520]), rng.randrange(1, 9)
    kinds = max(1, n // rng.choice([2, 3, 10, 100]))
    tag, out = rng.randrange(1 << 30), []
    for j in range(n):
        p = rng.choice(dirs) + b'/of%d-%d' % (tag, j)
        with open(p, 'wb') as f:
            f.write(b'%04d' % rng.randrange(kinds) + b'.' * k)
        out.append(p)
    files += out
    return out


def odd_times(rng, files):
    for p in files:
        if rng.random() < .6 and os.path.lexists(p):
            t = rng.choice([0, 0, 1, -1, -86400, 1 << 31, 1 << 32, 4102444800])
            os.utime(p, ns=(t * 10**9, t * 10**9 + rng.choice([0, 1, 999999999])), follow_symlinks=False)


def spice(rng, dirs, files, mid=.1, many=.05, times=.15):
    """Sometimes: larger files, many of one size, strange times.  Returns the larger files."""
    out = []
    if rng.random() < mid:
        out = middling(rng, dirs, files)
    if rng.random() < many:
        crowd(rng, dirs, files)
    if rng.random() < times:
        odd_times(rng, files)
    return out


def rand_gitignore(rng, d, dirs, files):
    lines = []
    below = [x[len(d) + 1:] for x in dirs + files if x.startswith(d + b'/')]
    for _ in range(rng.randrange(1, 7)):
        k = rng.randrange(25)
        rel = rng.choice(below) if below else b'foo'
        base = rel.split(b'/')[-1]
        esc = lambda s: re.sub(rb'([\\*?\[#! ])', rb'\\\1', s)
        lead = lambda s: b'\\' + s if s[:1] in (b'#', b'!') else s
        e = esc(base)
        if k == 0:
            l = e
        elif k == 1:
            l = b'/' + esc(rel)
        elif k == 2:
            l = esc(rel)
        elif k == 3:
            l = e + b'/'
        elif k == 4:
            l = b'*' + rng.choice([b'.txt', b'.c', b'.log', b'.o', b'.jpg', b'.tmp', b'a', b'r'])
        elif k == 5:
            l = b'**/' + e
        elif k == 6:
            l = esc(rel.split(b'/')[0]) + b'/**'
        elif k == 7:
            c = rel.split(b'/')
            l = (esc(c[0]) + b'/**/' + esc(c[-1])) if len(c) > 1 else b'**/' + e
        elif k == 8:
            # replace one (plain) byte by ? or a class
            i = rng.randrange(len(base))
            pre, ch, post = esc(base[:i]), base[i:i + 1], esc(base[i + 1:])
            if base[i] >= 128 or ch in b'\\]^-[!*?':
                w = b'?'
            else:
                w = rng.choice([b'?', b'[' + ch + b'q]', b'[!' + ch + b']', b'[a-z]', b'[A-Za-m]', b'[!0-9]', b'[^a]'])
            l = pre + w + post
        elif k == 9:
            l = esc(base[:1]) + b'*'
        elif k == 10:
            l = b'*' + esc(base[-1:])
        elif k == 11:
            l = rng.choice([b'# comment', b'', b'#' + e, b'   ', b'/', b'\\#h', b'\\!bang'])
        elif k == 12:
            l = rng.choice([b'*', b'*/', b'/*', b'/*/', b'**', b'*/*'])
        elif k == 13:
            c = rel.split(b'/')
            c[rng.randrange(len(c))] = rng.choice([b'*', b'?*', b'[a-z]*'])
            l = b'/'.join(x if x in (b'*', b'?*', b'[a-z]*') else esc(x) for x in c)
        elif k == 14:
            l = b''.join((b'\\' + base[i:i + 1]) if rng.random() < .5 or base[i:i + 1] in (b'*', b'?', b'[', b'\\', b' ', b'#', b'!') else base[i:i + 1] for i in range(len(base)))
        elif k in (18, 19):
            # two stars or more: a whole component spans directories, anything else is one star
            c = rel.split(b'/')
            i = rng.randrange(len(c))
            j = rng.randrange(len(c[i]) + 1)
            st = rng.choice([b'**', b'**', b'***'])
            l = rng.choice([
                lambda: b'/'.join(esc(x) for x in c[:i]) + (b'/' if i else b'') + esc(c[i][:j]) + st + esc(c[i][rng.randrange(j, len(c[i]) + 1):]) + b''.join(b'/' + esc(x) for x in c[i + 1:]),
                lambda: st + esc(c[-1][j:]),
                lambda: esc(c[0][:1]) + st + esc(c[-1][-1:]),
                lambda: rng.choice([b'', b'/']) + esc(c[0]) + b'/' + st + esc(c[-1][-2:]),
                lambda: st + b'/' + esc(c[-1])])()
            if re.search(rb'[^/*]\*\*+(/|$)', l):            # Git does not follow its own documentation there
                continue
        elif k == 20:
            # classes with brackets, names and wildcards as members
            i = rng.randrange(len(base))
            ch = base[i:i + 1]
            if base[i] < 128 and ch not in b'\\]^-[!/:':
                w = rng.choice([b'[]' + ch + b']', b'[!]' + ch + b']', b'[^]x]', b'[]*?]', b'[]-a]', b'[[:alpha:]]', b'[[:digit:]_]', b'[![:alpha:]]', b'[[:alnum:]*.]', b'[[:lower:]?]', b'[[:punct:][:space:]]', b'[[:upper:]a-m]', b'[[' + ch + b']', b'[[:' + ch + b']', b'[' + ch + b'[]', b'[\\]' + ch + b']', b'[*' + ch + b']', b'[?' + ch + b'-]', b'[[.' + ch + b']', b'[.' + ch + b'^$]'])
            else:
                w = rng.choice([b'[]?]', b'[[:]', b'[[:]', b'[:[]', b'[[:x]'])
            l = esc(base[:i]) + w + esc(base[i + 1:])
        elif k == 21:
            if rng.random() < .5:
                # lines of many pieces, for any reasonable size of a buffer
                fill = rng.choice([4094, 4095, 4096, 1023, 1024, 8191]) * rng.choice([1, 2, 2, 3, 4])
                lines.append(rng.choice([b'#', b'y']) + b'y' * (fill - 1) + rng.choice([b'*', e, e, b'*/']))
                continue
            l = b'#' + b'x' * rng.choice([4000, 4093, 4094, 4095, 4096, 8190, 9000]) + rng.choice([b'*', b'\t*', b' x/' + e, b'/' + e])
        elif k == 22:
            # what was ignored is taken back, by a pattern for directories or for a place
            c = rel.split(b'/')
            i = rng.randrange(1, len(c) + 1)
            up = b'/'.join(esc(x) for x in c[:i])
            lines.append(rng.choice([b'*', b'/*', esc(c[i - 1]), b'/' + up, esc(c[i - 1]) + b'/', esc(c[i - 1][:1]) + b'*', b'**/' + esc(c[i - 1])]))
            lines.append(b'!' + rng.choice([b'/' + up + b'/', b'/' + up, esc(c[i - 1]) + b'/', b'*/', b'/' + up + b'/*', b'**/' + esc(c[i - 1]) + b'/', esc(c[i - 1])]))
            continue
        elif k == 23:
            # escapes in classes
            i = rng.randrange(len(base))
            ch = base[i:i + 1]
            if base[i] < 128 and ch not in b'/':
                w = rng.choice([b'[\\' + ch + b']', b'[\\' + ch + b'x]', b'[!\\' + ch + b']', b'[\\]' + b'\\' + ch + b']', b'[\\\\' + b'\\' + ch + b']', b'[x\\' + ch + b']', b'[!\\]]', b'[^\\\\]', b'[\\-' + b'\\' + ch + b']', b'[\\a-\\z]', b'[\\!' + b'\\' + ch + b']', b'[\\^' + b'\\' + ch + b']', b'[\\[\\' + ch + b']'])
            else:
                w = b'?'
            l = esc(base[:i]) + w + esc(base[i + 1:])
        elif k >= 16 and b'/' in rel:
            # what looks like a wildcard for any byte must not match a slash
            i = rng.choice([j for j in range(len(rel)) if rel[j:j + 1] == b'/'])
            l = rng.choice([b'', b'/']) + esc(rel[:i]) + rng.choice([b'?', b'*', b'[!x]', b'[+-9]', b'[^a-z]', b'??', b'*?']) + esc(rel[i + 1:])
        else:
            l = b'/' + e + rng.choice([b'', b'/'])
        if base and rng.random() < .06:
            # a pattern much longer than what it matches: letters in a class may be repeated
            i = rng.randrange(len(base))
            if base[i:i + 1].isalnum():
                fill = bytes(x for x in b'QWZ' if x != base[i]) * rng.choice([60, 130, 260, 540, 1000, 1300])
                fill = fill[:4050 - 2 * len(rel)]
                l = esc(base[:i]) + b'[' + fill + base[i:i + 1] + b']' + esc(base[i + 1:])
        if l and l[:1] not in (b'#',) and rng.random() < .3:
            l = b'!' + l
        if rng.random() < .1 and l and not l.endswith(b'\\'):
            l += b' ' * rng.randrange(1, 3)
        if rng.random() < .08:
            l += b'\r'
        lines.append(l)
    if rng.random() < .08:
        for n in (b' ', b'a ', b'a:b', b'a[b'):
            if rng.random() < .7 and not os.path.lexists(d + b'/' + n):
                open(d + b'/' + n, 'wb').close()
                files.append(d + b'/' + n)
        if rng.random() < .4:
            lines.append(rng.choice([b'a[[:]b', b'a[[:]*', b'*[[:]*', b'a[:[]b', b'a[!:[]b']))
        lines.append(rng.choice([b'', b'', b'', b'!']) + rng.choice([b'\\ ', b'\\ ', b'\\  ', b'/\\ ', b'a\\ ', b'\\ \\ ', b'\\ x']))
    if below and rng.random() < .05:
        # only the first bytes of the file are a mark
        lines = rng.choice([[b'# c'], [b''], [b'zz'], [b'# c', b'# d']]) + [b'\xef\xbb\xbf' + rng.choice(below).split(b'/')[-1].replace(b'\\', b'?').replace(b'[', b'?')] + lines
    if rng.random() < .08:
        # long files: what matters comes late
        lines = rng.choice([[b'nothing%d' % j for j in range(rng.choice([20, 70, 140, 300, 1100]))], [b'# note'] * 300 + [b''] * 200]) + lines
    return (b'\xef\xbb\xbf' if rng.random() < .06 else b'') + b'\n'.join(lines) + (b'\n' if rng.random() < .8 else b'')
