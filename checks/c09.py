"""C09: the inter-thread pipe is a bounded lossless FIFO.

Oracle 1 (sequential): a byte-queue model stepped alongside the pipe in
non-blocking and zero-timeout modes; every return value and error is decided.
Oracle 2 (concurrent): writers emit uniquely tagged records, readers log what
they took; conservation, atomicity, per-writer order and end-of-file position
are decided offline; blocking forever is decided on progress counters.
Oracle 3 (wake-up): a thread blocked in each operation must wake for each
event that enables it."""

import errno
import io
import threading
import time

from lib.harness import Workload
from lib import gen
from lib.sched import Perturb, Crew, stacks

META = dict(
    id="C09", title="The inter-thread pipe is a bounded lossless FIFO",
    statement="Every byte a pipe accepts is delivered exactly once and in order, whatever mix of blocking, non-blocking and timed reads, matched reads and writes the threads use, and end of file is reported only after all of it.  Flow control is exact: a write is accepted exactly when fewer than the buffer size bytes are held, the advertised space is always accepted and the reader flag is raised by reads.  No reader, writer or flush stays blocked once data, space, end of file or closing enables it, and timeouts lose no data.",
    quantifier=dict(over=["schedules", "histories"], text="all operation histories and all interleavings of any number of reader and writer threads"),
    why_tests_cant="tests run short scripts with at most one thread at each end, so lost wake-ups, leaked buffer space and torn records go unseen",
    anchors=dict(files=["pyslet/streams.py"], mechanism=[dict(name="Pipe", where="pyslet/streams.py")],
                 observe_at=["Pipe.read/readinto/readmatch/readall/write/flush/canwrite/buffered"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: byte-queue reference model, tagged-record histories under perturbed schedules"
LEVEL_NOTE = "Held on the executions observed; schedules are sampled with line-level delays, not enumerated."
RULE = ("sequential cases are random operation histories, non-trivial when data was written, read and the pipe was full at least once; "
        "concurrent cases are thread crews over one pipe, distinct by configuration and delivery order")
MODULES = ["pyslet/streams.py"]
REQUIRE = {"seq.full": 50, "seq.eof": 50, "conc.records": 2000, "wake.case": 20}


def seq(ctx):
    from pyslet.streams import Pipe
    rng = ctx.rng
    cap = gen.pick(rng, (1, 2, 3, 5, 8, 16, 64))
    zero = rng.random() < 0.3
    p = Pipe(bsize=cap, rblocking=zero, wblocking=zero,
             timeout=0 if zero else None, name='p')
    ctx.witness(cap=cap, zero_timeout=zero)
    m = b''
    eof = closed = False
    flag = None
    full = wrote = got = 0
    log = []
    ctx.witness(history=log)
    pool = gen.pick(rng, (b'ab\r\n', b'\r\n', bytes(range(256)), b'x\n'))

    def blocked(fn, key):
        if zero:
            e = ctx.raises(IOError, fn, key, 'blocked operation')
            ctx.check(e.errno == errno.ETIMEDOUT, key, 'errno %r' % e.errno)
        else:
            ctx.check(fn() is None, key, 'blocked operation must return None')

    for step in range(rng.randint(5, 80)):
        op = rng.randrange(17)
        flagged = None
        if flag is not None and rng.random() < 0.5:
            flag.clear()
            flagged = flag
        if op <= 4:
            n = gen.pick(rng, (0, 1, 1, 2, 3, 5, 9, 20))
            d = bytes(gen.pick(rng, pool) for _ in range(n))
            kind = gen.pick(rng, ('b', 'b', 'a', 'm'))
            log.append(('write', kind, d))
            arg = dict(b=d, a=bytearray(d), m=memoryview(d))[kind]
            if eof or closed:
                ctx.raises(IOError, lambda: p.write(arg), 'write-after-eof')
            elif len(m) >= cap:
                full += 1
                ctx.count('seq.full')
                blocked(lambda: p.write(arg), 'write-full')
            else:
                room = cap - len(m)
                r = p.write(arg)
                want = len(d) if kind != 'a' else min(len(d), room)
                ctx.check(isinstance(r, int) and r >= min(len(d), room) and
                          r <= len(d), 'write-count',
                          'wrote %r of %d with room %d' % (r, len(d), room))
                ctx.equal(r, want, 'write-accepts', kind)
                if kind == 'a':
                    for i in range(len(arg)):
                        arg[i] = 33   # the pipe must hold its own copy
                m += d[:r]
                wrote += r
        elif op <= 7:
            n = gen.pick(rng, (1, 2, 3, 7, 100))
            into = rng.random() < 0.5
            log.append(('readinto' if into else 'read', n))
            if into:
                buf = bytearray(b'#' * n)

                def fn():
                    return p.readinto(buf)
            else:
                def fn():
                    return p.read(n)
            if closed:
                pass
            elif m:
                r = fn()
                if into:
                    ctx.check(isinstance(r, int) and 0 < r <= n, 'read-some',
                              repr(r))
                    ctx.check(bytes(buf[r:]) == b'#' * (n - r),
                              'readinto-overrun', repr(buf))
                    ctx.equal(len(buf), n, 'readinto-resized')
                    r = bytes(buf[:r])
                ctx.check(isinstance(r, bytes) and 0 < len(r) <= n and
                          m.startswith(r), 'read-fifo',
                          'read %r, pipe holds %r' % (r, m))
                m = m[len(r):]
                got += len(r)
                if flagged is not None:
                    ctx.check(flag.is_set(), 'rflag-on-read')
            elif eof:
                ctx.check(not fn() and fn() is not None, 'read-eof')
                ctx.count('seq.eof')
            else:
                blocked(fn, 'read-empty')
        elif op <= 9:
            match = gen.pick(rng, (b'\r\n', b'\n', b'b', b'\r\n\r\n'))
            log.append(('readmatch', match))
            if closed:
                continue
            pos = m.find(match)
            if pos >= 0:
                r = p.readmatch(match)
                ctx.equal(r, m[:pos + len(match)], 'readmatch')
                m = m[len(r):]
                got += len(r)
                if flagged is not None:
                    ctx.check(flag.is_set(), 'rflag-on-read')
            elif eof:
                ctx.equal(p.readmatch(match), b'', 'readmatch-eof')
            elif len(m) >= cap:
                e = ctx.raises(IOError, lambda: p.readmatch(match),
                               'readmatch-full')
                ctx.equal(e.errno, errno.ENOBUFS, 'readmatch-full')
            else:
                blocked(lambda: p.readmatch(match), 'readmatch-blocked')
        elif op == 10:
            log.append('canwrite')
            if eof or closed:
                ctx.raises(IOError, p.canwrite, 'canwrite-eof')
            else:
                c = p.canwrite()
                ctx.equal(c, max(0, cap - len(m)), 'canwrite')
                if c == 0 and flag is not None:
                    ctx.check(not flag.is_set(), 'rflag-clear-on-full')
                if c and rng.random() < 0.6:
                    d = bytearray(gen.pick(rng, pool) for _ in range(c))
                    ctx.equal(p.write(d), c, 'canwrite-accepted')
                    m += bytes(d)
                    wrote += c
        elif op == 11:
            log.append('canread')
            if closed:
                ctx.raises(IOError, p.canread, 'canread-closed')
            else:
                ctx.equal(bool(p.canread()), bool(m) or eof, 'canread')
        elif op == 12:
            log.append('rflag')
            flag = threading.Event()
            p.set_rflag(flag)
            if closed:
                ctx.check(flag.is_set(), 'rflag-closed')
        elif op == 13:
            log.append('flush')
            if closed:
                continue
            if m:
                e = ctx.raises(IOError, p.flush, 'flush-nonempty')
                ctx.check(e.errno in (errno.ETIMEDOUT if zero
                                      else errno.EWOULDBLOCK,),
                          'flush-errno', repr(e))
            else:
                p.flush()
        elif op == 14 and rng.random() < 0.3:
            log.append('eof')
            p.write_eof()
            eof = True
        elif op == 15 and rng.random() < 0.1:
            log.append('close')
            p.close()
            closed = eof = True
            m = b''
            if flag is not None:
                ctx.check(flag.is_set(), 'rflag-closed')
        elif op == 16 and eof and not closed:
            log.append('readall')
            old = p.readblocking()
            r = p.readall() if rng.random() < 0.5 else p.read()
            ctx.equal(r, m, 'readall')
            ctx.equal(p.readblocking(), old, 'readall-mode')
            got += len(r)
            m = b''
        ctx.equal(p.buffered(), len(m), 'buffered', 'after %r' % (log[-1:],))
        ctx.equal(bool(p.empty()), not m, 'empty')
    if not closed:
        # everything accepted must still come out, and then EOF
        if not eof:
            p.write_eof()
        r = p.readall()
        ctx.equal(r, m, 'drain')
        ctx.check(p.read(1) == b'', 'eof-sticky')
        ctx.equal(p.buffered(), 0, 'drained')
    if wrote and got and full:
        ctx.nontrivial(repr(log))
    ctx.sample(log[:12])


def conc(ctx):
    from pyslet.streams import Pipe
    rng = ctx.rng
    nw = gen.pick(rng, (1, 1, 2, 3))
    nr = gen.pick(rng, (1, 1, 1, 2, 3))
    cap = gen.pick(rng, (4, 10, 16, 40, 200))
    timeout = gen.pick(rng, (None, None, None, 0.002))
    recs = rng.randint(8, 30)
    p = Pipe(bsize=cap, timeout=timeout)
    style = [gen.pick(rng, ('block', 'wait', 'array' if nw == nr == 1 else 'block',
                            'flush', 'poll')) for _ in range(nw)]
    rstyle = gen.pick(rng, ('read', 'readinto', 'match', 'mixed', 'wait',
                            'readall')) if nr == 1 else 'match'
    if 'poll' in style:
        # the polling style owns the write blocking mode
        style = ['poll'] * nw
        p.set_writeblocking(False)
        flag = threading.Event()
        p.set_rflag(flag)
    rb = rng.random() < 0.5 and rstyle == 'wait'
    if rb:
        p.set_readblocking(False)
    if rstyle == 'readall':
        # a timeout of readall has nowhere to keep what it already took
        p.timeout = timeout = None
    ctx.witness(nw=nw, nr=nr, cap=cap, timeout=timeout, style=style,
                rstyle=rstyle, recs=recs)
    seeds = [rng.getrandbits(32) for _ in range(nw + nr)]
    progress = [0]
    lock = threading.Lock()
    live = [nw]
    sent = {}
    out = [[] for _ in range(nr)]

    def tick():
        with lock:
            progress[0] += 1

    def retry(fn):
        while True:
            try:
                return fn()
            except IOError as e:
                if e.errno == errno.ETIMEDOUT and timeout is not None:
                    ctx.count('conc.timeouts')
                    continue
                raise

    def writer(w):
        import random
        r = random.Random(seeds[w])
        mine = sent[w] = []
        for i in range(recs):
            rec = ('%d:%d:' % (w, i)).encode() + b'.' * r.choice(
                (0, 1, 5, 11)) + b'\n'
            mine.append(rec)
            st = style[w]
            if st == 'array':
                left = bytearray(rec)
                while left:
                    n = retry(lambda: p.write(left))
                    del left[:n]
                    tick()
            elif st == 'poll':
                while True:
                    c = p.canwrite()
                    if c and p.write(rec) is not None:
                        break
                    if not flag.wait(30):
                        raise RuntimeError('reader flag never set')
            else:
                if st == 'wait':
                    p.write_wait(None)
                n = retry(lambda: p.write(rec))
                if n != len(rec):
                    raise RuntimeError('short write %r' % n)
                if st == 'flush' and r.random() < 0.3:
                    retry(p.flush)
            tick()
        with lock:
            live[0] -= 1
            last = live[0] == 0
        if last:
            p.write_eof()

    def reader(k):
        import random
        r = random.Random(seeds[nw + k])
        log = out[k]
        while True:
            st = rstyle
            if st == 'mixed':
                st = r.choice(('read', 'readinto', 'match'))
            if st == 'readall':
                log.append(p.readall())
                return
            if st == 'wait':
                p.read_wait(None)
            if st in ('read', 'wait'):
                d = retry(lambda: p.read(r.choice((1, 3, 8, 100))))
            elif st == 'readinto':
                b = bytearray(r.choice((1, 3, 8, 100)))
                n = retry(lambda: p.readinto(b))
                d = bytes(b[:n])
            else:
                try:
                    d = retry(lambda: p.readmatch(b'\n'))
                except IOError as e:
                    if e.errno == errno.ENOBUFS and 'array' in style:
                        d = retry(lambda: p.read(3))
                    else:
                        raise
                if not d and rstyle == 'mixed':
                    d = retry(lambda: p.read(50))
            tick()
            if not d:
                return
            log.append(d)

    crew = Crew()
    for w in range(nw):
        crew.add('w%d' % w, writer, w)
    for k in range(nr):
        crew.add('r%d' % k, reader, k)
    with Perturb(['pyslet/streams.py'], rng.random(),
                 prob=gen.pick(rng, (0.0, 0.02, 0.1, 0.3)),
                 maxsleep=gen.pick(rng, (0.0002, 0.002)), budget=400) as pt:
        crew.start()
        done = crew.join(lambda: progress[0], idle=15)
        ctx.count('conc.yields', pt.yields)
    if crew.errors:
        name, e, tb = crew.errors[0]
        ctx.fail('thread-error', '%s raised %r' % (name, e), traceback=tb)
    if not done:
        ctx.fail('blocked-forever', 'no progress with %r unfinished, '
                 'buffered %d' % (crew.alive(), p.buffered()),
                 stacks=stacks())
    if nr == 1:
        total = b''.join(out[0])
        got = [x + b'\n' for x in total.split(b'\n')[:-1]]
        ctx.check(total.endswith(b'\n'), 'torn-record', repr(total[-20:]))
    else:
        got = [d for log in out for d in log]
    ctx.count('conc.records', len(got))
    allsent = [x for w in sent for x in sent[w]]
    ctx.equal(sorted(got), sorted(allsent), 'exactly-once')
    for log in ([got] if nr == 1 else out):
        for w in sent:
            ids = [int(x.split(b':')[1]) for x in log
                   if x.startswith(b'%d:' % w)]
            ctx.check(ids == sorted(ids), 'writer-order', repr(ids))
    ctx.equal(p.buffered(), 0, 'conc-drained')
    ctx.nontrivial((nw, nr, cap, style, rstyle, got))
    if nr > 1 or nw > 1:
        ctx.count('conc.multi')


def wake(ctx):
    """Each blocked operation x each enabling event"""
    from pyslet.streams import Pipe
    rng = ctx.rng
    cases = [
        ('read', 'data'), ('read', 'eof'), ('read', 'close'),
        ('readinto', 'data'), ('readinto', 'eof'), ('readinto', 'close'),
        ('readmatch', 'data'), ('readmatch', 'eof'), ('readmatch', 'close'),
        ('readall', 'eof'), ('readall', 'close'),
        ('read_wait', 'data'), ('read_wait', 'eof'), ('read_wait', 'close'),
        ('write', 'drain'), ('write', 'eof'), ('write', 'close'),
        ('writearray', 'drain'), ('writearray', 'close'),
        ('write_wait', 'drain'), ('write_wait', 'eof'),
        ('write_wait', 'close'), ('flush', 'drain'), ('flush', 'close'),
        ('flush_wait', 'drain'), ('flush_wait', 'close'),
        ('rflag', 'drain'), ('rflag', 'close'),
        ('readmatch', 'other-reader')]
    op, ev = cases[ctx.case_id[2] % len(cases)]
    p = Pipe(bsize=100 if ev == 'data' else 4,
             timeout=gen.pick(rng, (None, 60)))
    drain = gen.pick(rng, ('read', 'readinto', 'readmatch', 'readall'))
    n = gen.pick(rng, (1, 2, 3))
    ctx.witness(op=op, event=ev, threads=n, drain=drain)
    writer_side = op in ('write', 'writearray', 'write_wait', 'flush',
                         'flush_wait', 'rflag')
    if writer_side:
        p.write(b'ab\r\n')
    if ev == 'other-reader':
        p.write(b'zz')
        n = 1
    flag = threading.Event()
    if op == 'rflag':
        p.set_rflag(flag)
        p.canwrite()
    fns = dict(
        read=lambda: p.read(2), readinto=lambda: p.readinto(bytearray(2)),
        readmatch=lambda: p.readmatch(b'\n'), readall=p.readall,
        read_wait=p.read_wait, write=lambda: p.write(b'q'),
        writearray=lambda: p.write(bytearray(b'q')),
        write_wait=p.write_wait, flush=p.flush, flush_wait=p.flush_wait,
        rflag=lambda: flag.wait(50))
    res = []

    def body():
        try:
            res.append(('ok', fns[op]()))
        except IOError as e:
            res.append(('err', e.errno))
    crew = Crew()
    for i in range(n):
        crew.add('t%d' % i, body)
    with Perturb(['pyslet/streams.py'], rng.random(), prob=0.1, budget=50):
        crew.start()
        time.sleep(gen.pick(rng, (0, 0, 0.001, 0.01)))
        early = len(res)
        ctx.check(early == 0, 'blocks-until-enabled', repr(res))
        if ev == 'data':
            for i in range(n):
                p.write(b'ab\n')
        elif ev == 'eof':
            p.write_eof()
        elif ev == 'close':
            p.close()
        elif ev == 'other-reader':
            p.read(1)
            time.sleep(0.005)
            ctx.equal(res, [], 'no-spurious-timeout')
            p.write(b'!\n')
        elif ev == 'drain':
            if op in ('flush', 'flush_wait') or n == 1 or \
                    op in ('write_wait', 'rflag'):
                if drain == 'readall' and not op.startswith('write'):
                    p.read(4)
                elif drain == 'readmatch':
                    p.readmatch()
                elif drain == 'readinto':
                    b = bytearray(10)
                    p.readinto(b)
                else:
                    p.read(4)
            else:
                end = time.time() + 20
                while len(res) < n and time.time() < end:
                    p.read_wait(20)
                    p.read(4)
                    time.sleep(0.001)
                    if len(res) < n and p.empty():
                        time.sleep(0.005)
                        if p.empty():
                            break
        done = crew.join(lambda: len(res), idle=12)
    ctx.count('wake.case')
    ctx.count('wake.%s.%s' % (op, ev))
    if not done:
        ctx.fail('not-woken', '%s still blocked after %s: %r' % (
            op, ev, crew.alive()), stacks=stacks())
    if crew.errors:
        ctx.fail('wake-error', repr(crew.errors[0][1]),
                 traceback=crew.errors[0][2])
    want = None
    if op in ('read', 'readmatch', 'readall', 'readinto') and ev in (
            'eof', 'close'):
        want = ('ok', 0 if op == 'readinto' else b'')
    elif op in ('write', 'writearray', 'write_wait') and ev in (
            'eof', 'close'):
        want = ('err', errno.EPIPE)
    elif op == 'write' and ev == 'drain':
        want = ('ok', 1)
    elif op == 'readmatch' and ev == 'other-reader':
        want = ('ok', b'z!\n')
    elif op == 'rflag':
        want = ('ok', True)
    for r in res:
        if want is not None:
            ctx.equal(r, want, 'wake-result', '%s on %s' % (op, ev))
        elif ev != 'close':
            ctx.equal(r[0], 'ok', 'wake-result', '%s on %s' % (op, ev))
    ctx.nontrivial((op, ev, n, drain))


WORKLOADS = [
    Workload('seq', seq, 8000, 100000, cpu=20, wall=60, blocked=True),
    Workload('conc', conc, 800, 10000, cpu=60, wall=300),
    Workload('wake', wake, 290, 2900, cpu=60, wall=120, blocked=True),
]
