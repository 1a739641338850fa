"""C11: stored streams read back exactly what was written.

Oracle: a bytearray file per stream stepped alongside write/seek/read/flush/
reopen/delete histories over every combination of entity store (memory,
SQLite) and block store (files, entities).  At quiescent points the blocks
held must be exactly those referenced by the block lists."""

import hashlib
import io
import os
import random
import threading

from lib.harness import Workload, VERIF
from lib import gen
from lib.sched import Perturb, Crew, stacks

META = dict(
    id="C11", title="Stored streams read back exactly what was written",
    statement="A stream in a stream store behaves as a byte file under any history of opening (read, write, append, update), writing, seeking, reading, flushing, closing and reopening, with its recorded size exact and its recorded MD5 null or exact.  The block store holds exactly the blocks some stream still references: duplicate content is shared, deleting or overwriting a stream frees what nobody else uses and never what somebody does, also when several threads store and delete streams with common content.",
    quantifier=dict(over=["histories", "schedules"], text="all operation histories over file- and entity-backed stores, memory and SQLite, one or several threads"),
    why_tests_cant="tests write and re-read one stream in place; truncation, append, sparse seeks, sharing between streams and concurrent deletion are never tried",
    anchors=dict(files=["pyslet/blockstore.py"], mechanism=[dict(name="StreamStore, BlockStream, FileBlockStore, EDMBlockStore", where="pyslet/blockstore.py")],
                 observe_at=["StreamStore.open_stream, BlockStream.read/write/seek, BlockStore.retrieve"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: byte-file reference model plus block reference-count invariant at quiescent points"
LEVEL_NOTE = "Held on the executions observed; SQLite and the file system are trusted."
RULE = "each case is one operation history over one to three streams sharing a small content alphabet; non-trivial when at least two blocks were written"
MODULES = ["pyslet/blockstore.py"]
REQUIRE = {"file.write": 2000, "file.sparse": 50, "blocks.audit": 500, "conc.streams": 100}


def make(ctx, rng, kind=None, conc=False):
    from pyslet import blockstore
    from pyslet.odata2 import metadata as edmx
    from pyslet.odata2.memds import InMemoryEntityContainer
    from pyslet.odata2.sqlds import SQLiteEntityContainer
    from pyslet.vfs import OSFilePath

    class Container(SQLiteEntityContainer):

        def ro_name(self, source_path):
            return source_path in (
                ('Streams', 'streamID'), ('BlockLists', 'blockID')) or \
                super().ro_name(source_path)

    kind = kind or gen.pick(rng, ('mem-file', 'mem-mem', 'mem-mem',
                                  'sql-file', 'sql-sql'))
    size = gen.pick(rng, (1, 2, 3, 5, 8, 16, 33))
    d = ctx.tmpdir()
    env = dict(kind=kind, size=size, d=d)

    def load(create):
        doc = edmx.Document()
        with open(os.path.join(VERIF, 'fixtures', 'blockstore.xml'),
                  'rb') as f:
            doc.read(f)
        cdef = doc.root.DataServices['BlockSchema.BlockContainer']
        if kind.startswith('mem'):
            env['container'] = InMemoryEntityContainer(cdef)
        else:
            env['container'] = Container(
                container=cdef, file_path=os.path.join(d, 'bs.db'))
            if create:
                env['container'].create_all_tables()
            c = env['container']
            ctx.cleanup(c.close)
        if kind.endswith('file'):
            bs = blockstore.FileBlockStore(
                dpath=OSFilePath(d).join('blocks'), max_block_size=size)
        else:
            bs = blockstore.EDMBlockStore(
                entity_set=cdef['Blocks'], max_block_size=size)
        ls = blockstore.LockStore(entity_set=cdef['BlockLocks'])
        env.update(doc=doc, cdef=cdef, bs=bs, ls=ls,
                   ss=blockstore.StreamStore(bs, ls, cdef['Streams']))
    if kind.endswith('file'):
        os.mkdir(os.path.join(d, 'blocks'))
    load(True)
    env['load'] = load
    return env


def audit(ctx, env, note=''):
    """Blocks held == blocks referenced, each intact; no lock left behind"""
    cdef = env['cdef']
    refs = {}
    with cdef['BlockLists'].open() as coll:
        for b in coll.itervalues():
            refs[b['hash'].value] = refs.get(b['hash'].value, 0) + 1
    if env['kind'].endswith('file'):
        root = os.path.join(env['d'], 'blocks')
        held = {}
        for dp, dn, fn in os.walk(root):
            for f in fn:
                rel = os.path.relpath(os.path.join(dp, f), root)
                with open(os.path.join(dp, f), 'rb') as fp:
                    data = fp.read()
                if rel.startswith('tmp'):
                    ctx.fail('tmp-left', rel)
                held[rel.replace(os.sep, '')] = data
    else:
        with cdef['Blocks'].open() as coll:
            held = dict((b['hash'].value, b['data'].value)
                        for b in coll.itervalues())
    for h, data in held.items():
        ctx.equal(hashlib.sha256(data).hexdigest(), h, 'block-intact', note)
    ctx.check(set(held) == set(refs), 'blocks-referenced',
              '%s: orphans %r, missing %r' % (
                  note, [held[h] for h in set(held) - set(refs)],
                  sorted(set(refs) - set(held))))
    with cdef['BlockLocks'].open() as coll:
        ctx.equal(len(coll), 0, 'locks-left', note)
    ctx.count('blocks.audit')


def hist(ctx):
    rng = ctx.rng
    env = make(ctx, rng)
    ss = env['ss']
    size = env['size']
    log = []
    ctx.witness(kind=env['kind'], block_size=size, history=log)
    alpha = gen.pick(rng, (b'a', b'ab', b'\0a', bytes(range(256))))
    files = {}      # key -> model bytearray
    blocks = 0

    def datum(n):
        return bytes(gen.pick(rng, alpha) for _ in range(n))

    def check_stream(key):
        s = ss.get_stream(key)
        want = bytes(files[key])
        ctx.equal(s['size'].value, len(want), 'size')
        if s['md5'].value is not None:
            ctx.equal(s['md5'].value, hashlib.md5(want).digest(), 'md5')
            ctx.count('file.md5')
        how = rng.randrange(3)
        with ss.open_stream(s, 'r') as f:
            ctx.check(f.readable() and not f.writable(), 'mode-r')
            if how == 0:
                got = f.read()
            elif how == 1:
                got = io.BufferedReader(f, gen.pick(rng, (1, 5, 100))).read()
            else:
                got = []
                while True:
                    b = f.read(gen.pick(rng, (1, 2, 7, 100)))
                    if not b:
                        break
                    got.append(b)
                got = b''.join(got)
        ctx.equal(got, want, 'content', 'stream %r' % key)

    for step in range(rng.randint(2, 7)):
        op = rng.randrange(8)
        if not files or (op == 0 and len(files) < 3):
            s = ss.new_stream(gen.pick(rng, ('text/plain', 'image/png')))
            ctx.check(s.key() not in files, 'key-unique')
            files[s.key()] = bytearray()
            log.append(('new', s.key()))
        key = gen.pick(rng, sorted(files))
        if op == 1 and rng.random() < 0.7:
            log.append(('delete', key))
            s = ss.get_stream(key)
            ss.delete_stream(s)
            del files[key]
            ctx.raises(KeyError, lambda: ss.get_stream(key), 'deleted')
            audit(ctx, env, 'after delete')
            continue
        mode = gen.pick(rng, ('w', 'w', 'w+', 'w+b', 'a', 'a+', 'r+', 'r+b'))
        log.append(('open', key, mode))
        m = files[key]
        if 'w' in mode:
            del m[:]
        pos = len(m) if 'a' in mode else 0
        stream = ss.get_stream(key)
        f = ss.open_stream(stream, mode)
        ctx.check(f.writable(), 'mode-writable', mode)
        ctx.equal(f.readable(), 'r' in mode or '+' in mode, 'mode-readable')
        for i in range(rng.randint(0, 14)):
            k = rng.randrange(10)
            if k <= 3:
                d = datum(gen.pick(rng, (1, 2, 3, size, size + 1,
                                         3 * size)))
                if rng.random() < 0.2:
                    d = b'a' * len(d)
                log.append(('write', pos, d))
                if pos > len(m):
                    ctx.count('file.sparse')
                rest = d
                while rest:
                    n = f.write(gen.pick(rng, (bytes, bytearray,
                                               memoryview))(rest))
                    ctx.check(isinstance(n, int) and 0 < n <= len(rest),
                              'write-count', repr(n))
                    rest = rest[n:]
                if pos > len(m):
                    m.extend(bytes(pos - len(m)))
                m[pos:pos + len(d)] = d
                pos += len(d)
                ctx.count('file.write')
                blocks += len(d) / size
            elif k <= 6:
                wh = rng.randrange(3)
                lim = len(m) if rng.random() < 0.85 else len(m) + 3 * size
                to = rng.randint(0, lim)
                base = (0, pos, len(m))[wh]
                if rng.random() < 0.05:
                    to = -1
                    ctx.raises((IOError, ValueError), lambda: f.seek(
                        to - base, wh), 'seek-negative')
                    ctx.equal(f.tell(), pos, 'seek-negative')
                    continue
                log.append(('seek', to - base, wh))
                ctx.equal(f.seek(to - base, wh), to, 'seek-result')
                pos = to
            elif k <= 8 and f.readable():
                n = gen.pick(rng, (1, 2, size, 100))
                log.append(('read', n))
                r = f.read(n)
                ctx.check(len(r) <= n and bytes(m[pos:pos + len(r)]) == r,
                          'read', 'at %d: %r' % (pos, r))
                ctx.check(r or pos >= len(m), 'early-eof')
                pos += len(r)
            elif k == 9:
                log.append('flush')
                f.flush()
                s2 = ss.get_stream(key)
                ctx.equal(s2['size'].value, len(m), 'flush-size')
                if s2['md5'].value is not None:
                    ctx.equal(s2['md5'].value, hashlib.md5(
                        bytes(m)).digest(), 'md5')
            ctx.equal(f.tell(), pos, 'tell')
        f.close()
        log.append('close')
        ctx.check(f.closed, 'closed')
        check_stream(key)
        if rng.random() < 0.6:
            audit(ctx, env, 'after close')
    if env['kind'].startswith('sql') and rng.random() < 0.5:
        log.append('restart')
        env['container'].close()
        env['load'](False)
        ss = env['ss']
    for key in sorted(files):
        check_stream(key)
    audit(ctx, env, 'at end')
    for key in sorted(files):
        ss.delete_stream(ss.get_stream(key))
    audit(ctx, env, 'all deleted')
    with env['cdef']['BlockLists'].open() as coll:
        ctx.equal(len(coll), 0, 'block-lists-left')
    if blocks >= 2:
        ctx.nontrivial(repr(log))
        ctx.sample(log[:10])


def store(ctx):
    """The block stores alone against a dictionary"""
    from pyslet import blockstore
    rng = ctx.rng
    env = make(ctx, rng)
    bs = env['bs']
    held = {}
    log = []
    ctx.witness(kind=env['kind'], size=env['size'], history=log)
    for i in range(rng.randint(5, 40)):
        d = bytes(gen.pick(rng, b'abc') for _ in range(rng.randint(
            0, env['size'] + 1)))
        if rng.random() < 0.3:
            d = bytearray(d)
        k = hashlib.sha256(d).hexdigest()
        op = rng.randrange(4)
        log.append((('store', 'store', 'get', 'del')[op], bytes(d)))
        if op <= 1:
            if len(d) > env['size']:
                ctx.raises(blockstore.BlockSize, lambda: bs.store(d),
                           'block-size')
            else:
                ctx.equal(bs.store(d), k, 'block-key')
                held[k] = bytes(d)
        elif op == 2:
            if k in held:
                ctx.equal(bytes(bs.retrieve(k)), held[k], 'block-get')
            else:
                ctx.raises(blockstore.BlockMissing, lambda: bs.retrieve(k),
                           'block-missing')
        else:
            bs.delete(k)
            held.pop(k, None)
    for k in held:
        ctx.equal(bytes(bs.retrieve(k)), held[k], 'block-get')
    ctx.nontrivial(repr(log))


class FastSleep(object):

    def __init__(self, real):
        self.real = real

    def sleep(self, t):
        self.real.sleep(min(t, 0.002))

    def __getattr__(self, name):
        return getattr(self.real, name)


def conc(ctx):
    """Threads storing and deleting streams with common content"""
    from pyslet import blockstore
    rng = ctx.rng
    env = make(ctx, rng, gen.pick(rng, ('mem-file', 'mem-mem')))
    ss = env['ss']
    nt = rng.randint(2, 4)
    pool = [bytes(gen.pick(rng, b'ab') for _ in range(env['size']))
            for _ in range(2)]
    progress = [0]
    seeds = [rng.random() for _ in range(nt)]
    old = blockstore.time
    blockstore.time = FastSleep(old)

    def restore():
        blockstore.time = old
    ctx.cleanup(restore)
    ctx.witness(kind=env['kind'], size=env['size'], threads=nt)

    def body(t):
        r = random.Random(seeds[t])
        mine = {}
        for i in range(8):
            if mine and r.random() < 0.5:
                k = r.choice(sorted(mine))
                ss.delete_stream(ss.get_stream(k))
                del mine[k]
            else:
                data = b''.join(r.choice(pool) for _ in range(
                    r.randint(1, 4)))
                s = ss.new_stream('text/plain')
                with ss.open_stream(s, 'w') as f:
                    rest = data
                    while rest:
                        rest = rest[f.write(rest):]
                mine[s.key()] = data
                ctx.count('conc.streams')
            progress[0] += 1
            for k in mine:
                with ss.open_stream(ss.get_stream(k)) as f:
                    got = f.read()
                if got != mine[k]:
                    raise RuntimeError('stream %r holds %r, wrote %r' % (
                        k, got, mine[k]))
        for k in sorted(mine):
            if r.random() < 0.5:
                ss.delete_stream(ss.get_stream(k))
    crew = Crew()
    for t in range(nt):
        crew.add('t%d' % t, body, t)
    with Perturb(['pyslet/blockstore.py', 'pyslet/odata2/memds.py'],
                 rng.random(), prob=gen.pick(rng, (0, 0.01, 0.05)),
                 budget=600):
        crew.start()
        done = crew.join(lambda: progress[0], idle=90)
    if not done and not crew.errors:
        ctx.fail('blocked-forever', repr(crew.alive()), stacks=stacks())
    if crew.errors:
        name, e, tb = crew.errors[0]
        ctx.fail('conc-error', '%s: %r' % (name, e), traceback=tb)
    audit(ctx, env, 'after threads')
    ctx.nontrivial((env['kind'], nt, env['size'], ctx.case_id))


WORKLOADS = [
    Workload('hist', hist, 700, 10000, cpu=60),
    Workload('store', store, 300, 3000, cpu=60),
    Workload('conc', conc, 100, 1500, cpu=100, wall=400),
]
