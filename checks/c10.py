"""C10: stream adapters preserve the byte stream.

Oracle: the source's bytes are known; every adapter's output (any mix of read
sizes, peeks, seeks, partial and blocked reads and writes) must be exactly the
corresponding slice, and nothing beyond the adapter's own part of the source
may be consumed."""

import gzip
import io
import random
import zlib

from lib.harness import Workload
from lib import gen

META = dict(
    id="C10", title="Stream adapters preserve the byte stream",
    statement="Buffering, peeking, chunked decoding, gzip coding and decoding and WSGI input wrapping never lose, duplicate, alter or reorder a byte, however the underlying stream fragments or blocks and whatever sizes the caller reads, writes or seeks.  Positions reported and sought agree with the data, and no adapter consumes bytes beyond its own body.",
    quantifier=dict(over=["inputs", "histories"], text="all byte strings, fragmentations, blocked reads/writes and sequences of read, peek, seek and write sizes"),
    why_tests_cant="tests use one fixed payload and a full-size read per adapter, never fragmented or blocked sources",
    anchors=dict(files=["pyslet/streams.py", "pyslet/http/messages.py"],
                 mechanism=[dict(name="BufferedStreamWrapper", where="pyslet/streams.py"),
                            dict(name="GzipEncoder, GzipDecoder, ChunkedReader, WSGIInputWrapper", where="pyslet/http/messages.py")],
                 observe_at=["read/readinto/write/seek/tell/peek of each adapter"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: slice-exact oracle over adapters driven with fragmenting, blocking streams"
LEVEL_NOTE = "Held on the executions observed."
RULE = "each case is one payload, one fragmentation and one operation history on one adapter; non-trivial when the payload is not empty"
MODULES = ["pyslet/streams.py", "pyslet/http/messages.py"]
REQUIRE = {"bsw.read": 500, "bsw.seek": 100, "gzip.enc": 100, "gzip.dec": 100,
           "chunk.done": 100, "wsgi.seek": 100, "wsgi.line": 100}


class Frag(io.RawIOBase):
    """A source making short reads, sometimes blocked; counts consumption"""

    def __init__(self, data, rng, block=0.0, full=False):
        self.data = data
        self.p = 0
        self.rng = rng
        self.block = block
        self.full = full
        self.nones = 0

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.p
        if n and self.block and self.rng.random() < self.block:
            self.nones += 1
            return None
        if n and not self.full:
            n = min(n, self.rng.randint(1, 9))
        d = self.data[self.p:self.p + n]
        self.p += len(d)
        return d

    def readinto(self, b):
        d = self.read(len(b))
        if d is None:
            return None
        b[:len(d)] = d
        return len(d)

    def readline(self, limit=-1):
        i = self.data.find(b'\n', self.p)
        e = len(self.data) if i < 0 else i + 1
        d = self.data[self.p:e]
        self.p = e
        return d


class Sink(io.RawIOBase):
    """A destination making partial and blocked writes"""

    def __init__(self, rng, block):
        self.out = []
        self.rng = rng
        self.block = block

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.rng.random() < self.block:
            return None
        n = self.rng.randint(1, max(1, len(b)))
        self.out.append(b[:n])
        return min(n, len(b))


def payload(rng):
    n = gen.pick(rng, (0, 1, 5, 30, 200, 3000))
    d = gen.data(rng, n)
    if rng.random() < 0.3:
        d = d * 20
    return d


def take(ctx, s, n, how):
    """One read of up to n bytes; returns bytes or None if blocked"""
    if how == 'read':
        return s.read(n)
    buf = bytearray(b'#' * (n + 3))
    mv = memoryview(buf)[:n]
    r = s.readinto(mv)
    if r is None:
        return None
    ctx.check(0 <= r <= n and bytes(buf[r:]) == b'#' * (n + 3 - r),
              'readinto-overrun', 'returned %r for %r' % (r, n))
    return bytes(buf[:r])


def bsw(ctx):
    from pyslet.streams import BufferedStreamWrapper
    rng = ctx.rng
    data = payload(rng)
    src = Frag(data, random.Random(rng.random()),
               block=gen.pick(rng, (0, 0, 0, 0.1)), full=rng.random() < 0.3)
    size = gen.pick(rng, (1, 2, 10, 100, len(data) or 1, len(data) + 1, 8192))
    log = []
    ctx.witness(data=data[:200], length=len(data), size=size, ops=log)
    s = BufferedStreamWrapper(src, size)
    ctx.check(src.p <= size, 'bsw-overread', '%d > %d' % (src.p, size))
    whole = src.nones == 0 and len(data) < size
    ctx.equal(s.seekable(), whole, 'bsw-seekable')
    ctx.equal(s.length, len(data) if whole else None, 'bsw-length')
    buffered = src.p
    pos = 0
    for i in range(rng.randint(1, 40)):
        op = rng.randrange(8)
        n = gen.pick(rng, (1, 2, 5, 17, 100, 10000))
        if op <= 3:
            how = gen.pick(rng, ('read', 'into'))
            log.append((how, n))
            nones = src.nones
            r = take(ctx, s, n, how)
            if r is None:
                ctx.check(src.nones > nones, 'bsw-blocked', 'source was not')
                continue
            ctx.count('bsw.read')
            ctx.check(len(r) <= n and data[max(pos, 0):][:len(r)] == r,
                      'bsw-read', '%r at %d' % (r[:50], pos))
            ctx.check(r or pos >= len(data), 'bsw-early-eof',
                      'at %d of %d' % (pos, len(data)))
            pos += len(r)
        elif op <= 5:
            log.append(('peek', n))
            r = s.peek(n)
            ctx.check(data[pos:pos + n].startswith(r), 'bsw-peek', repr(r))
            if pos < buffered:
                ctx.check(r, 'bsw-peek-empty', 'at %d' % pos)
        elif op == 6:
            wh = gen.pick(rng, (0, 1, 2))
            base = (0, pos, len(data))[wh]
            to = rng.randint(-2, len(data) + 3)
            log.append(('seek', to - base, wh))
            if not whole:
                ctx.raises((io.UnsupportedOperation,), lambda: s.seek(
                    to - base, wh), 'bsw-seek-refused')
                ctx.raises((io.UnsupportedOperation,), s.tell,
                           'bsw-seek-refused')
            elif to < 0:
                ctx.raises((ValueError, IOError),
                           lambda: s.seek(to - base, wh), 'bsw-seek-neg')
            else:
                ctx.equal(s.seek(to - base, wh), to, 'bsw-seek-result')
                pos = to
                ctx.count('bsw.seek')
        elif rng.random() < 0.2 and not src.block:
            log.append('readall')
            ctx.equal(s.read(), data[pos:], 'bsw-readall')
            pos = max(pos, len(data))
        if whole:
            ctx.equal(s.tell(), pos, 'bsw-tell')
    src.block = 0
    ctx.equal(s.read(), data[pos:], 'bsw-rest')
    if data:
        ctx.nontrivial((data, size, repr(log)))
        ctx.sample(dict(n=len(data), size=size, ops=log[:8]))


def gz(ctx):
    from pyslet.http.messages import GzipEncoder, GzipDecoder
    rng = ctx.rng
    data = payload(rng)
    if rng.random() < 0.3:
        data = bytes(rng.getrandbits(8) for _ in range(
            gen.pick(rng, (500, 5000, 40000))))
    ctx.witness(data=data[:200], length=len(data))
    if rng.random() < 0.5:
        src = Frag(data, random.Random(rng.random()),
                   block=gen.pick(rng, (0, 0.2)), full=rng.random() < 0.5)
        e = GzipEncoder(src)
        out = []
        sizes = gen.pick(rng, ((1, 2, 3), (1, 10, 100), (4096,), (50000,)))
        while True:
            nones = src.nones
            r = take(ctx, e, gen.pick(rng, sizes), gen.pick(
                rng, ('read', 'into')))
            if r is None:
                ctx.check(src.nones > nones, 'gzip-blocked')
                continue
            if not r:
                break
            out.append(r)
        z = b''.join(out)
        try:
            back = gzip.decompress(z)
        except Exception as err:
            ctx.fail('gzip-encode', 'output does not decompress: %r' % err,
                     output=z[:500])
        ctx.check(back == data, 'gzip-encode', 'decoded %d bytes of %d' % (
            len(back), len(data)))
        ctx.equal(src.p, len(data), 'gzip-consumed')
        ctx.check(e.read(10) == b'', 'gzip-eof-sticky')
        ctx.count('gzip.enc')
    else:
        buf = io.BytesIO()
        with gzip.GzipFile(filename=gen.pick(rng, ('', 'name.txt')),
                           mode='wb', fileobj=buf, compresslevel=rng.randint(
                               0, 9)) as f:
            f.write(data)
        z = buf.getvalue()
        raw = rng.random() < 0.7
        sink = Sink(random.Random(rng.random()),
                    gen.pick(rng, (0, 0.1, 0.5))) if raw else io.BytesIO()
        d = GzipDecoder(sink)
        for fr in gen.fragments(rng, z):
            tries = 0
            while True:
                n = d.write(fr)
                if n is not None:
                    ctx.equal(n, len(fr), 'gzip-write-count')
                    break
                tries += 1
                if tries > 1000:
                    ctx.fail('gzip-stuck', 'write never accepted')
        for i in range(1000000):
            try:
                d.flush()
                break
            except IOError:
                continue
        else:
            ctx.fail('gzip-flush-stuck')
        out = b''.join(sink.out) if raw else sink.getvalue()
        ctx.check(out == data, 'gzip-decode', 'got %d bytes of %d: %r' % (
            len(out), len(data), out[:100]))
        ctx.count('gzip.dec')
    if data:
        ctx.nontrivial(data)


def chunk_encode(rng, data):
    out = []
    for fr in gen.fragments(rng, data, gen.pick(rng, (1, 5, 16, 300, 5000))):
        h = '%x' % len(fr)
        if rng.random() < 0.3:
            h = h.upper()
        if rng.random() < 0.2:
            h = '0' * rng.randint(1, 3) + h
        if rng.random() < 0.2:
            h += gen.pick(rng, (';ext', ';a=b', ';a="q;r"', ' ; x=1'))
        out.append(h.encode() + b'\r\n' + fr + b'\r\n')
    out.append(gen.pick(rng, (b'0', b'000')) + b'\r\n')
    for i in range(gen.pick(rng, (0, 0, 1, 3))):
        out.append(b'X-T%d: v\r\n' % i)
    out.append(b'\r\n')
    return b''.join(out)


def chunked(ctx):
    from pyslet.http.messages import ChunkedReader
    rng = ctx.rng
    data = payload(rng)
    enc = chunk_encode(rng, data)
    nxt = b'GET / HTTP/1.1\r\nHost: x\r\n\r\n'
    src = Frag(enc + nxt, random.Random(rng.random()),
               full=rng.random() < 0.5)
    c = ChunkedReader(src)
    ctx.witness(encoded=enc[:500])
    out = []
    mode = rng.randrange(3)
    if mode == 0:
        out.append(c.read())
    else:
        sizes = gen.pick(rng, ((1, 2), (1, 7, 64), (8192,)))
        while True:
            r = take(ctx, c, gen.pick(rng, sizes),
                     'read' if mode == 1 else 'into')
            if not r:
                break
            out.append(r)
    got = b''.join(out)
    ctx.check(got == data, 'chunked-decode', 'got %r' % got[:200])
    ctx.equal(src.data[src.p:], nxt, 'chunked-boundary')
    ctx.equal(c.read(5), b'', 'chunked-eof-sticky')
    ctx.equal(src.data[src.p:], nxt, 'chunked-boundary')
    ctx.count('chunk.done')
    if data:
        ctx.nontrivial(enc)
        ctx.sample(enc[:100])


def wsgi(ctx):
    from pyslet.http.messages import WSGIInputWrapper
    rng = ctx.rng
    data = payload(rng)
    if rng.random() < 0.5:
        data = data.replace(b'a', b'\n').replace(b'\xff', b'\n')
    kind = gen.pick(rng, ('length', 'length', 'eof', 'chunked'))
    env = {}
    after = b'NEXT REQUEST'
    cl = None
    if kind == 'length':
        env['CONTENT_LENGTH'] = str(len(data))
        raw = data + after
        cl = len(data)
    elif kind == 'chunked':
        env['HTTP_TRANSFER_ENCODING'] = gen.pick(rng, ('chunked', 'Chunked'))
        raw = chunk_encode(rng, data) + after
    else:
        raw = data
        if rng.random() < 0.5:
            env['CONTENT_LENGTH'] = ''
    src = Frag(raw, random.Random(rng.random()), full=rng.random() < 0.5)
    env['wsgi.input'] = src
    size = gen.pick(rng, (0, 1, 10, 100, 8192))
    log = []
    ctx.witness(kind=kind, data=data[:300], length=len(data), size=size,
                ops=log)
    s = WSGIInputWrapper(env, size)
    limit = min(size, len(data))    # what the wrapper could buffer
    pos = 0
    for i in range(rng.randint(1, 30)):
        op = rng.randrange(9)
        n = gen.pick(rng, (1, 2, 5, 17, 100, 10000))
        if op <= 2:
            how = gen.pick(rng, ('read', 'into'))
            log.append((how, n))
            r = take(ctx, s, n, how)
            ctx.check(len(r) <= n and data[pos:pos + len(r)] == r,
                      'wsgi-read', 'at %d: %r' % (pos, r[:50]))
            ctx.check(r or pos >= len(data), 'wsgi-early-eof',
                      'at %d of %d' % (pos, len(data)))
            pos += len(r)
        elif op == 3:
            lim = gen.pick(rng, (-1, -1, 1, 5, 50))
            log.append(('readline', lim))
            r = s.readline(lim) if lim >= 0 else s.readline()
            e = data.find(b'\n', pos)
            e = len(data) if e < 0 else e + 1
            if lim >= 0:
                e = min(e, pos + lim)
            ctx.equal(r, data[pos:e], 'wsgi-readline')
            pos += len(r)
            ctx.count('wsgi.line')
        elif op == 4 and rng.random() < 0.3:
            log.append('readlines')
            r = s.readlines() if rng.random() < 0.5 else list(s)
            ctx.equal(r, data[pos:].splitlines(True)
                      if b'\r' not in data else
                      [x + b'\n' for x in data[pos:].split(b'\n')[:-1]] +
                      ([data[pos:].split(b'\n')[-1]]
                       if data[pos:].split(b'\n')[-1] else []),
                      'wsgi-readlines')
            pos = max(pos, len(data))
        elif op == 5 and rng.random() < 0.2:
            log.append('read()')
            ctx.equal(s.read(), data[pos:], 'wsgi-readall')
            pos = max(pos, len(data))
        elif op >= 6:
            wh = gen.pick(rng, (0, 0, 1, 2))
            to = gen.pick(rng, (rng.randint(-1, len(data) + 2),
                                rng.randint(0, limit)))
            base = (0, pos, len(data))[wh]
            log.append(('seek', to - base, wh))

            def fn():
                return s.seek(to - base, wh)
            if pos > limit:
                ctx.check(not s.seekable(), 'wsgi-seekable', 'too late')
                ctx.raises(IOError, fn, 'wsgi-seek-refused')
            elif wh == 2 and cl is None:
                ctx.raises(IOError, fn, 'wsgi-seek-end')
            elif to < 0:
                ctx.raises(IOError, fn, 'wsgi-seek-neg')
            else:
                ctx.check(s.seekable(), 'wsgi-seekable', 'at %d' % pos)
                fn()
                pos = to
                ctx.count('wsgi.seek')
        ctx.equal(s.tell(), pos, 'wsgi-tell')
    ctx.equal(s.read(), data[pos:], 'wsgi-rest')
    if kind != 'eof':
        ctx.check(src.p <= len(raw) - len(after), 'wsgi-overread',
                  'consumed %d of %d' % (src.p, len(raw)))
    if data:
        ctx.nontrivial((kind, data, repr(log)))


WORKLOADS = [
    Workload('bsw', bsw, 6000, 80000, cpu=20),
    Workload('gzip', gz, 1500, 20000, cpu=20),
    Workload('chunked', chunked, 3000, 40000, cpu=20),
    Workload('wsgi', wsgi, 5000, 60000, cpu=20),
]
