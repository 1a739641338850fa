"""C08: virtual file systems behave like a file system.

Oracle 1 (algebra): joining, splitting, extensions, normalisation and
comparison of paths agree with the POSIX path functions, for both string types
and in both the memory and the operating system file system.
Oracle 2 (histories): a tree model (directories and byte strings) is stepped
alongside the real file system; the outcome of every operation, error or not,
and the whole tree afterwards are decided.  The operating system one runs in a
scratch directory with the destructive calls fenced to it.
Oracle 3 (threads): over a shared memory file system each name is created and
removed once, an open file has one holder and no update is lost; nested hooks
of the built-in functions work while any is active and leave no trace."""

import contextlib
import ntpath
import os
import posixpath
import shutil
import threading

from lib.harness import Workload
from lib import gen
from lib.sched import Perturb, Crew, stacks

META = dict(
    id="C08", title="Virtual file systems behave like a file system",
    statement="For any path strings, joining, splitting, splitting extensions, normalising, comparing, hashing and converting virtual file paths give the results of the POSIX path functions, in character and byte form alike.  After any sequence of creating, opening, writing, appending, copying, moving, removing, listing and walking operations the memory and the operating system file systems contain exactly the directories and file contents a tree of names says they should: an operation succeeds exactly when its target and parent allow it, has only its own effect, and a refused operation changes nothing.  Threads sharing the memory file system create each name once and never lose an update, and the hooks that let other modules open virtual paths work while any is active and leave nothing behind.",
    quantifier=dict(over=["histories", "inputs", "schedules"], text="all path strings without a doubled leading separator and all operation sequences on directories and files"),
    why_tests_cant="tests join and normalise a table of paths and run one fixed script per file system, so failed operations, nested trees and repeated use are never compared with a model",
    anchors=dict(files=["pyslet/vfs.py"],
                 mechanism=[dict(name="VirtualFilePath", where="pyslet/vfs.py"), dict(name="MemFilePath", where="pyslet/vfs.py"), dict(name="OSFilePath", where="pyslet/vfs.py")],
                 observe_at=["VirtualFilePath.join/split/splitext/normpath/realpath", "mkdir/makedirs/open/copy/move/remove/rmtree/listdir/walk"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: tree model stepped alongside the real file systems, POSIX path functions as path oracle"
LEVEL_NOTE = "Held on the paths and operation histories generated; a history has up to 60 operations over a small tree."
RULE = ("an algebra case checks a batch of random paths; a history case is a random operation sequence, non-trivial when it had "
        "successful and refused operations and a non-empty final tree; cases are distinct by their operations")
MODULES = ["pyslet/vfs.py"]
REQUIRE = {"path": 2000, "op.ok": 1000, "op.refused": 300, "tree": 1000, "os.history": 30, "mem.history": 30, "openfile": 100, "race.events": 2000, "race.yields": 1000, "hooks": 1000, "drive": 1000}

NAMES = ('a', 'b', 'c.txt', 'd.tar.gz', '.hid', 'x y', u'caf\xe9', u'\u4f60', '...', 'a.', '-', 'A', '..b', '.c.d')


def component(rng):
    if rng.random() < 0.3:
        return gen.pick(rng, ('.', '..', ''))
    if rng.random() < 0.2:
        return ''.join(rng.choice(u'ab.\xe9 ~') for i in range(rng.randint(1, 5)))
    return gen.pick(rng, NAMES)


def pathstr(rng):
    n = rng.randint(1, 6)
    s = '/'.join(component(rng) for i in range(n))
    if rng.random() < 0.4:
        s = '/' + s
    while s.startswith('//'):
        s = s[1:]
    return s


def joined(parts):
    return posixpath.join(*parts) if parts else ''


def algebra(ctx):
    from pyslet import vfs
    rng = ctx.rng
    fs = gen.pick(rng, (vfs.MemFilePath, vfs.OSFilePath))
    log = []
    ctx.witness(fs=fs.__name__, paths=log)
    for step in range(rng.randint(4, 12)):
        s = pathstr(rng)
        log.append(s)
        ctx.count("path")
        form = s.encode('utf-8') if rng.random() < 0.3 else s
        p = fs(form)
        ctx.equal(str(p), s, 'text', 'text form')
        ctx.equal(p.to_bytes(), s.encode('utf-8'), 'bytes', 'byte form of %r' % s)
        ctx.equal(bool(p), bool(s), 'bool', 'truth of %r' % s)
        ctx.equal(p.is_empty(), not s, 'bool', 'emptiness of %r' % s)
        ctx.equal(p.isabs(), s.startswith('/'), 'isabs', 'absoluteness of %r' % s)
        ctx.equal(p.is_dirlike(), s.endswith('/') or s.endswith('/.'), 'dirlike', '%r' % s)
        ctx.equal(p.is_single_component(), '/' not in s, 'single', '%r' % s)
        ctx.equal(str(p.normpath()), posixpath.normpath(s), 'normpath', 'normal form of %r' % s)
        n = p.normpath()
        ctx.equal(str(n.normpath()), str(n), 'normpath-idempotent', 'of %r' % s)
        head, tail = p.split()
        if '//' not in s:
            ctx.equal((str(head), str(tail)), posixpath.split(s), 'split', 'split of %r' % s)
            ctx.equal(str(head.join(tail)), s, 'split-join', 'split then join of %r' % s)
        else:
            ctx.equal(str(tail), posixpath.split(s)[1], 'split', 'last component of %r' % s)
        if s and not s.endswith('/') and not s.endswith('/.'):
            root, ext = p.splitext()
            ctx.equal((str(root), str(ext)), posixpath.splitext(s), 'splitext', 'extension of %r' % s)
        # joins, in the constructor and the method, with any mixture of types
        parts = [pathstr(rng) if rng.random() < 0.6 else component(rng) for i in range(rng.randint(1, 4))]
        expect = joined([s] + parts)
        log.append(parts)

        def arg(x):
            k = rng.randrange(3)
            return x if k == 0 else x.encode('utf-8') if k == 1 else fs(x)
        if not (s == '' and parts[0] == ''):
            ctx.equal(str(p.join(*[arg(x) for x in parts])), expect, 'join', 'join %r %r' % (s, parts))
        clean = [x for x in parts if x]
        if s and clean:
            ctx.equal(str(fs(*[arg(x) for x in [s] + clean])), joined([s] + clean), 'construct', 'construct %r %r' % (s, clean))
        # comparison and hashing
        t = s if rng.random() < 0.5 else pathstr(rng)
        q = fs(t)
        ctx.equal(p == q, s == t, 'eq', '%r == %r' % (s, t))
        ctx.equal(p != q, s != t, 'eq', '%r != %r' % (s, t))
        ctx.equal(p == t, s == t, 'eq', '%r == string %r' % (s, t))
        ctx.equal(p < q, s < t, 'order', '%r < %r' % (s, t))
        ctx.equal(p >= q, s >= t, 'order', '%r >= %r' % (s, t))
        if s == t:
            ctx.equal(hash(p), hash(q), 'hash', 'hash of %r' % s)
            ctx.equal({p: 1}.get(q), 1, 'hash', 'dictionary key %r' % s)
        cwd = str(fs.getcwd())
        if s:
            ctx.equal(str(p.abspath()), posixpath.normpath(posixpath.join(cwd, s)), 'abspath', '%r' % s)
        up = '/'.join(x for x in s.split('/') if x)
        absolute = fs('/' + up)
        ctx.equal(absolute.is_root(), up == '', 'root', '%r' % ('/' + up))
        ctx.equal(str(p), s, 'immutable', 'the path changed')
    ctx.nontrivial((fs.__name__, log))


class Refused(Exception):
    pass


class Tree(object):
    """The model: (names) -> None for a directory, bytes for a file."""

    def __init__(self):
        self.t = {(): None}

    def isdir(self, p):
        return p in self.t and self.t[p] is None

    def isfile(self, p):
        return self.t.get(p) is not None

    def need(self, cond):
        if not cond:
            raise Refused()

    def mkdir(self, p):
        self.need(p not in self.t and self.isdir(p[:-1]))
        self.t[p] = None

    def makedirs(self, p):
        for i in range(len(p) + 1):
            self.need(not self.isfile(p[:i]))
        for i in range(len(p) + 1):
            self.t[p[:i]] = None

    def creatable(self, p):
        self.need(not self.isdir(p) and self.isdir(p[:-1]))

    def listdir(self, p):
        self.need(self.isdir(p))
        return sorted(x[-1] for x in self.t if len(x) == len(p) + 1 and x[:-1] == p)

    def remove(self, p):
        self.need(self.isfile(p))
        del self.t[p]

    def rmtree(self, p):
        self.need(self.isdir(p))
        for x in list(self.t):
            if x[:len(p)] == p:
                del self.t[x]

    def copy(self, p, q):
        self.need(self.isfile(p))
        if self.isdir(q):
            q = q + p[-1:]
        self.need(q != p)
        self.creatable(q)
        self.t[q] = self.t[p]

    def move(self, p, q):
        self.need(p in self.t and self.isdir(q[:-1]))
        if p == q:
            return
        if self.isfile(p):
            self.need(not self.isdir(q))
        else:
            self.need(q[:len(p)] != p)
            self.need(not self.isfile(q) and p[:len(q)] != q)
            self.need(not self.isdir(q) or not self.listdir(q))
        moved = dict((q + x[len(p):], v) for x, v in self.t.items() if x[:len(p)] == p)
        for x in list(self.t):
            if x[:len(p)] == p:
                del self.t[x]
        self.t.update(moved)


@contextlib.contextmanager
def fence(ctx, root):
    """Destructive operating system calls outside root are refused and
    reported, whatever the code under test asks for."""
    from pyslet import vfs
    import builtins
    root = os.path.realpath(root)
    saved = (shutil.rmtree, shutil.copy, os.remove, os.rename)

    def inside(path):
        real = os.path.realpath(os.fspath(path))
        if not (real + '/').startswith(root + '/'):
            ctx.fail('escaped', 'an operation was sent to %r' % path)
            raise OSError('fenced')

    def wrap(fn, n):
        def call(*args, **kw):
            for a in args[:n]:
                inside(a)
            return fn(*args, **kw)
        return call

    def guarded_open(path, mode='r', *args, **kw):
        if isinstance(path, (str, bytes)):
            inside(path)
        return builtins.open(path, mode, *args, **kw)
    shutil.rmtree, shutil.copy = wrap(saved[0], 1), wrap(saved[1], 2)
    os.remove, os.rename = wrap(saved[2], 1), wrap(saved[3], 2)
    vfs.open = guarded_open
    try:
        yield
    finally:
        shutil.rmtree, shutil.copy, os.remove, os.rename = saved
        del vfs.open


def snapshot(base, fs_names):
    """The tree below base, through listdir/isdir/isfile/open."""
    out = {(): None}
    stack = [((), base)]
    while stack:
        names, d = stack.pop()
        for item in d.listdir():
            n = names + (str(item),)
            p = d.join(item)
            if p.isdir() and not p.isfile():
                out[n] = None
                stack.append((n, p))
            elif p.isfile() and not p.isdir():
                f = p.open('rb')
                try:
                    out[n] = f.read()
                finally:
                    f.close()
            else:
                out[n] = 'neither file nor directory'
            if not p.exists():
                out[n] = 'listed but does not exist'
    return out


def body(rng):
    return bytes(rng.choice(b'ab\r\n\x00\xff') for i in range(gen.pick(rng, (0, 1, 3, 10, 200))))


def run(ctx, fs, base, mem):
    rng = ctx.rng
    m = Tree()
    names = [gen.pick(rng, ('a', 'b', 'c', 'ab', u'caf\xe9', 'x y', 'f.txt')) for i in range(4)]
    log = []
    ctx.witness(fs=fs.__name__, history=log)
    ok = refused = 0
    cwd = ()
    if mem:
        base.chdir()
    for step in range(rng.randint(5, 60)):
        def some():
            if m.t and rng.random() < 0.6:
                p = rng.choice(sorted(m.t))
                if rng.random() < 0.4:
                    p = p + (rng.choice(names),)
            else:
                p = tuple(rng.choice(names) for i in range(rng.randint(1, 3)))
            return p if p else (rng.choice(names),)

        def path(p):
            """One of the spellings of a path."""
            k = rng.randrange(6)
            if mem and k == 0 and p[:len(cwd)] == cwd and len(p) > len(cwd):
                return fs(*p[len(cwd):])
            if k == 1:
                return fs(base, '/'.join(p).encode('utf-8'))
            if k == 2 and m.isdir(p[:1]):
                return fs(base, p[0], '..', *p)
            if k == 3:
                return fs(base, '.', *p)
            if k == 4 and op in ('mkdir', 'makedirs', 'rmtree', 'listdir', 'chdir') and not m.isfile(p):
                return base.join(*(p + ('',)))
            return base.join(*p)
        op = gen.pick(rng, ('mkdir', 'mkdir', 'mkdir', 'makedirs', 'write', 'write', 'write', 'append', 'update', 'read', 'remove',
                            'rmtree', 'copy', 'copy', 'move', 'listdir', 'walk', 'chdir', 'held', 'query', 'missing-read'))
        p, q = some(), some()
        if op in ('move', 'walk') and mem or op in ('chdir', 'held') and not mem:
            continue
        if op == 'chdir' and not m.isdir(p):
            # allowed, tests rely on it
            continue
        if op == 'move' and (p[:len(q)] == q and p != q):
            continue
        entry = [op, p, q]
        log.append(entry)
        before = dict(m.t)
        data = body(rng)
        real = path(p)
        target = path(q)

        def io_(mode, fn):
            f = real.open(mode)
            try:
                return fn(f)
            finally:
                f.close()
        try:
            want = None
            if op in ('mkdir', 'makedirs', 'remove', 'rmtree'):
                # the operating system refuses a directory that exists,
                # the memory file system has nothing to do
                m.need(mem or op != 'makedirs' or not m.isdir(p))
                getattr(m, op)(p)
            elif op == 'write':
                m.creatable(p)
                m.t[p] = data
            elif op == 'append':
                m.creatable(p)
                m.t[p] = m.t.get(p, b'') + data
            elif op == 'update':
                m.need(m.isfile(p))
                at = rng.randint(0, len(m.t[p]))
                old = m.t[p]
                m.t[p] = old[:at] + data + old[at + len(data):]
            elif op in ('read', 'missing-read'):
                m.need(m.isfile(p))
                want = m.t[p]
            elif op == 'copy':
                m.copy(p, q)
            elif op == 'move':
                m.move(p, q)
            elif op == 'listdir':
                want = m.listdir(p)
            elif op == 'chdir':
                m.need(m.isdir(p))
            elif op == 'held':
                m.need(m.isfile(p))
            expected = True
        except Refused:
            m.t = before
            expected = False
        try:
            if op in ('mkdir', 'makedirs', 'remove', 'rmtree'):
                getattr(real, op)()
            elif op == 'write':
                def put(f):
                    i = rng.randint(0, len(data))
                    f.write(data[:i])
                    f.write(data[i:])
                io_('wb', put)
            elif op == 'append':
                io_('ab', lambda f: f.write(data))
            elif op == 'update':
                def upd(f):
                    f.seek(at if expected else 0)
                    f.write(data)
                io_('r+b', upd)
            elif op in ('read', 'missing-read'):
                got = io_('rb', lambda f: f.read())
                if expected:
                    ctx.equal(got, want, 'content', 'content of %r' % (p,))
            elif op == 'copy':
                real.copy(target)
            elif op == 'move':
                real.move(target)
            elif op == 'listdir':
                got = sorted(str(x) for x in real.listdir())
                if expected:
                    ctx.equal(got, want, 'listdir', 'listing of %r' % (p,))
            elif op == 'walk':
                seen = {}
                for d, dirs, files in base.walk():
                    for x, v in [(x, None) for x in dirs] + [(x, 1) for x in files]:
                        key = tuple(y for y in str(d)[len(str(base)):].split('/') if y) + (str(x),)
                        ctx.check(key not in seen, 'walk', '%r visited twice' % (key,))
                        seen[key] = v
                ctx.equal(seen, dict((k, None if v is None else 1) for k, v in m.t.items() if k), 'walk', 'the tree walked')
            elif op == 'chdir':
                real.chdir()
                cwd = p
                ctx.equal(str(fs.getcwd().normpath()), str(base.join(*p)), 'chdir', 'working directory')
            elif op == 'held':
                # an open file refuses other handles, removal and rmtree
                f = real.open('rb')
                try:
                    ctx.count("openfile")
                    if m.isdir(p[:-1]) and p[:-1]:
                        ctx.raises(OSError, path(p[:-1]).rmtree, 'held', 'rmtree with an open file')
                    ctx.raises(OSError, real.remove, 'held', 'removing an open file')
                    ctx.equal(f.read(), m.t[p], 'held', 'content read')
                finally:
                    f.close()
            elif op == 'query':
                real = path(p)
                ctx.equal((real.exists(), real.isfile(), real.isdir()), (p in m.t, m.isfile(p), m.isdir(p)), 'query', 'status of %r' % (p,))
            did = True
        except (OSError, IOError) as e:
            did = False
            why = e
        entry.append(expected)
        if expected and not did:
            ctx.fail('refused', '%s %r %r must succeed but raised %r' % (op, p, q, why))
        if did and not expected:
            ctx.fail('allowed', '%s %r %r must be refused' % (op, p, q))
        if expected:
            ok += 1
            ctx.count("op.ok")
        else:
            refused += 1
            ctx.count("op.refused")
        if mem and not m.isdir(cwd):
            # the working directory went away: start again from the base
            base.chdir()
            cwd = ()
        if rng.random() < 0.5 or step < 8:
            ctx.count("tree")
            ctx.equal(snapshot(base, names), m.t, 'tree', 'the tree after %s %r %r' % (op, p, q))
    ctx.equal(snapshot(base, names), m.t, 'tree', 'the final tree')
    for p in (base, base.join(''), base.join('.'), base.join('nosuch', '')) + ((fs(),) if mem else ()):
        ctx.raises((OSError, IOError), lambda: p.open('wb'), 'open-directory', 'opening %r' % str(p))
    ctx.raises((OSError, IOError), base.join('nosuch').rmtree, 'refused', 'rmtree of nothing')
    base.join('nosuch').rmtree(True)
    ctx.raises((OSError, IOError), base.join('nosuch').listdir, 'refused', 'listing nothing')
    ctx.raises(TypeError, lambda: base.join(3), 'type', 'joining a number')
    if ok and refused and len(m.t) > 1:
        ctx.nontrivial((fs.__name__, log))


def mem(ctx):
    from pyslet.vfs import MemFilePath as fs
    ctx.count("mem.history")
    base = fs.mkdtemp(gen.pick(ctx.rng, ('', '.d')), gen.pick(ctx.rng, ('', 'p')))
    other = fs.mkdtemp()
    f = other.join('bystander').open('wb')
    f.write(b'untouched')
    f.close()
    try:
        ctx.check(base.isdir() and not base.listdir(), 'mkdtemp', 'a new directory is empty')
        ctx.check(str(base) != str(other), 'mkdtemp', 'temporary directories differ')
        run(ctx, fs, base, True)
        ctx.equal(snapshot(other, ()), {(): None, ('bystander',): b'untouched'}, 'bystander', 'another directory')
    finally:
        fs('/').chdir()
        base.rmtree(True)
    ctx.check(not base.exists() and not any(k.exists() for k in [base.join('a'), base.join('b')]), 'rmtree', 'the tree is gone')
    ctx.check(other.join('bystander').isfile(), 'bystander', 'another directory survives rmtree')
    other.rmtree()


def osfs(ctx):
    from pyslet.vfs import OSFilePath as fs
    ctx.count("os.history")
    d = os.path.join(ctx.tmpdir(), 'fs')
    os.makedirs(d)
    with fence(ctx, d):
        run(ctx, fs, fs(d), False)
    found = {(): None}
    for top, dirs, files in os.walk(d):
        rel = tuple(x for x in top[len(d):].split('/') if x)
        for x in dirs:
            found[rel + (x,)] = None
        for x in files:
            with open(os.path.join(top, x), 'rb') as f:
                found[rel + (x,)] = f.read()
    ctx.equal(snapshot(fs(d), ()), found, 'tree', 'what the operating system holds')


def drives(ctx):
    """Paths with drive letters, for file systems that have them"""
    from pyslet import vfs

    class DriveSystem(vfs.MemFilePath):
        supports_drives = True
        supports_unc = False
        sep = u'\\'
    rng = ctx.rng

    def word():
        return gen.pick(rng, ('a', 'b.c', u'\xe9', 'd e', '.x', '..', '.', 'a.b.c'))

    def rel():
        return '\\'.join(word() for i in range(rng.randint(1, 4)))

    def path():
        k = rng.randrange(4)
        return (gen.pick(rng, ('C:\\', 'd:\\')) if k < 2 else '\\' if k == 2 else '') + rel()
    log = []
    ctx.witness(paths=log)
    for i in range(rng.randint(2, 8)):
        s = path()
        parts = [path() for j in range(rng.randint(1, 3))]
        log.append((s, parts))
        p = DriveSystem(s)
        ctx.count('drive')
        drive, tail = p.splitdrive()
        ctx.equal((str(drive), str(tail)), ntpath.splitdrive(s), 'drive-split', '%r' % s)
        ctx.equal(p.isabs(), ntpath.splitdrive(s)[1].startswith('\\'), 'drive-isabs', '%r' % s)
        ctx.equal(str(p.join(*parts)), ntpath.join(s, *parts), 'drive-join', 'join %r %r' % (s, parts))
        head, tail = p.split()
        ctx.equal((str(head), str(tail)), ntpath.split(s), 'drive-split', 'split of %r' % s)
        if not s.endswith('\\.'):
            root, ext = p.splitext()
            ctx.equal((str(root), str(ext)), ntpath.splitext(s), 'drive-splitext', '%r' % s)
        ctx.equal(str(p.normpath()), ntpath.normpath(s), 'drive-normpath', '%r' % s)
    ctx.nontrivial(log)


def race(ctx):
    """Threads sharing a memory file system: each name is created once,
    removed once and held open by one thread at a time."""
    from pyslet.vfs import MemFilePath as fs
    rng = ctx.rng
    base = fs.mkdtemp()
    shared = [base.join('s%d' % i) for i in range(rng.randint(1, 3))]
    dirs = [base.join('d%d' % i) for i in range(rng.randint(1, 3))]
    counter = base.join('counter')
    f = counter.open('wb')
    f.write(b'0')
    f.close()
    n = rng.randint(2, 5)
    scripts = [[rng.choice(('mkdir', 'own', 'count', 'count', 'toggle', 'toggle', 'tmp', 'list', 'copy')) for j in range(rng.randint(3, 12))] for i in range(n)]
    ctx.witness(threads=scripts)
    events = []
    made = []
    holders = [0]
    progress = [0]

    def worker(w):
        r = __import__('random').Random(repr((w, scripts[w])))
        mine = {}
        for j, op in enumerate(scripts[w]):
            progress[0] += 1
            if op == 'mkdir':
                d = r.choice(dirs)
                try:
                    d.mkdir()
                    events.append(('mkdir', str(d)))
                except OSError:
                    if not d.isdir():
                        events.append(('bad', 'mkdir refused but %s is not there' % d))
            elif op == 'own':
                p = base.join('w%d-%d' % (w, j))
                f = p.open('wb')
                f.write(('%d.%d' % (w, j)).encode('ascii'))
                f.close()
                mine[str(p)] = ('%d.%d' % (w, j)).encode('ascii')
            elif op == 'copy' and mine:
                p = r.choice(sorted(mine))
                q = base.join('c%d-%d' % (w, j))
                fs(p).copy(q)
                mine[str(q)] = mine[p]
            elif op == 'count':
                try:
                    f = counter.open('r+b')
                except (OSError, IOError):
                    events.append(('busy', None))
                    continue
                holders[0] += 1
                if holders[0] != 1:
                    events.append(('bad', 'two threads hold the same file'))
                k = int(f.read())
                f.seek(0)
                f.write(('%d' % (k + 1)).encode('ascii'))
                holders[0] -= 1
                f.close()
                events.append(('count', k))
            elif op == 'toggle':
                p = r.choice(shared)
                try:
                    if r.random() < 0.5:
                        p.open('ab').close()
                    else:
                        p.remove()
                        events.append(('removed', str(p)))
                except (OSError, IOError):
                    pass
            elif op == 'tmp':
                d = fs.mkdtemp()
                made.append(d)
                events.append(('tmp', str(d)))
            elif op == 'list':
                got = set(str(base.join(x)) for x in base.listdir())
                lost = set(mine) - got
                if lost:
                    events.append(('bad', 'not listed: %r' % lost))
            for p, data in mine.items():
                f = fs(p).open('rb')
                got = f.read()
                f.close()
                if got != data:
                    events.append(('bad', '%s holds %r, expected %r' % (p, got, data)))
    crew = Crew()
    for w in range(n):
        crew.add('t%d' % w, worker, w)
    with Perturb(['pyslet/vfs.py'], rng.random(), prob=gen.pick(rng, (0.0, 0.05, 0.2)), budget=300) as pt:
        crew.start()
        done = crew.join(lambda: progress[0], idle=20)
        ctx.count('race.yields', pt.yields)
    try:
        for name, e, tb in crew.errors[:1]:
            ctx.fail('race-error', '%s raised %r' % (name, e), traceback=tb)
        if not done:
            ctx.fail('race-blocked', '%r did not finish' % crew.alive(), stacks=stacks())
        for kind, what in events:
            if kind == 'bad':
                ctx.fail('race', what)
        for d in dirs:
            k = events.count(('mkdir', str(d)))
            ctx.check(k == (1 if d.isdir() else 0), 'race-mkdir', '%s was created %d times' % (d, k))
        counts = [k for kind, k in events if kind == 'count']
        ctx.equal(sorted(counts), list(range(len(counts))), 'race-count', 'values seen by the holders of the file')
        f = counter.open('rb')
        ctx.equal(f.read(), ('%d' % len(counts)).encode('ascii'), 'race-count', 'final count')
        f.close()
        tmps = [d for kind, d in events if kind == 'tmp']
        ctx.equal(len(set(tmps)), len(tmps), 'race-tmp', 'temporary directories')
        ctx.check(all(d.isdir() for d in made), 'race-tmp', 'temporary directories exist')
        ctx.count('race.events', len(events))
        ctx.nontrivial((scripts, events))
    finally:
        for d in made + [base]:
            d.rmtree(True)


def hooks(ctx):
    """While a ZipHooks is active open accepts virtual paths; afterwards
    everything is as before."""
    import builtins
    from pyslet import vfs
    rng = ctx.rng
    before = (builtins.open, os.stat)
    d = os.path.join(ctx.tmpdir(), 'z')
    os.makedirs(d)
    real = vfs.OSFilePath(d).join('f')
    memd = vfs.MemFilePath.mkdtemp()
    m = memd.join('f')
    for p in (real, m):
        f = p.open('wb')
        f.write(b'data')
        f.close()
    live = []
    log = []
    ctx.witness(history=log)

    def step(r, live, log):
        k = r.randrange(4)
        if k < 2 and len(live) < 4:
            live.append(vfs.ZipHooks())
            log.append('hook')
        elif live:
            h = live.pop(r.randrange(len(live)))
            if k == 2:
                with h:
                    pass
            else:
                h.unhook()
            log.append('unhook')
            ctx.raises(RuntimeError, h.unhook, 'hooks', 'unhooking twice')

    def look(where):
        f = open(os.path.join(d, 'f'), 'rb')
        ctx.equal(f.read(), b'data', 'hooks', 'a plain path while ' + where)
        f.close()
        ctx.equal(os.stat(os.path.join(d, 'f')).st_size, 4, 'hooks', 'status of a plain path while ' + where)
        if live:
            try:
                for p in (real, m):
                    f = open(p, 'rb')
                    ctx.equal(f.read(), b'data', 'hooks', 'a virtual path while ' + where)
                    f.close()
                ctx.equal(os.stat(real).st_size, 4, 'hooks', 'status of a virtual path while ' + where)
            except TypeError as e:
                ctx.fail('hooks', 'a virtual path is not accepted while %s: %r' % (where, e))
        else:
            ctx.check((builtins.open, os.stat) == before, 'hooks', 'the hooks were left in place')
    try:
        for i in range(rng.randint(3, 20)):
            step(rng, live, log)
            look('%d hooks are active' % len(live))
            ctx.count('hooks')
        if rng.random() < 0.3:
            # threads making and releasing hooks of their own
            crew = Crew()

            def body(w):
                r = __import__('random').Random(w)
                own = []
                for i in range(20):
                    step(r, own, [])
                    if own:
                        f = open(real, 'rb')
                        f.close()
                while own:
                    own.pop().unhook()
            for w in range(3):
                crew.add('t%d' % w, body, w)
            with Perturb(['pyslet/vfs.py'], rng.random(), prob=0.1, budget=100):
                crew.start()
                ctx.check(crew.join(lambda: 0, idle=30), 'hooks', 'threads did not finish')
            for name, e, tb in crew.errors[:1]:
                ctx.fail('hooks-thread', '%s raised %r' % (name, e), traceback=tb)
            look('other threads came and went')
        while live:
            live.pop().unhook()
        look('no hook is active')
        ctx.nontrivial(log)
    finally:
        builtins.open, os.stat = before
        memd.rmtree(True)


WORKLOADS = [
    Workload("algebra", algebra, quick=2500, thorough=60000),
    Workload("mem", mem, quick=2500, thorough=50000),
    Workload("os", osfs, quick=800, thorough=20000),
    Workload("drives", drives, quick=300, thorough=5000),
    Workload("race", race, quick=400, thorough=8000),
    Workload("hooks", hooks, quick=200, thorough=2000),
]
