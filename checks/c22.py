"""C22: messages are delimited exactly under any fragmentation.

Oracle: lib/wire.py, an independent builder and reader of HTTP/1.x
messages."""

import io

from lib.harness import Workload
from lib import gen, wire

META = dict(
    id="C22", title="HTTP messages are delimited exactly under any fragmentation",
    statement="Whatever sequence of messages a peer transmits (content-length, chunked with extensions and trailers, gzip-coded, read-until-close, bodiless by method or status, folded and repeated headers) and however the bytes are cut up and however the body's destination accepts them, a receiver following recv_mode gets the same start line, headers, trailers and body, is told once that the headers and once that the message are complete, and has consumed exactly the bytes of the message.  What a message object sends, from any kind of body and however its source blocks, is a well-formed message carrying that body, and the same again if it is resent.  The wrappers WSGI applications read bodies through give exactly the body and leave the stream at its end.  Malformed framing raises an error and is never taken as a message.",
    quantifier=dict(over=["inputs", "schedules"], text="all message sequences, all fragmentations, all blocking patterns of source and destination"),
    why_tests_cant="tests feed a handful of whole lines and bodies to one message at a time",
    anchors=dict(files=["pyslet/http/messages.py", "pyslet/http/grammar.py", "pyslet/http/params.py"],
                 mechanism=[dict(name="Message.recv/recv_mode, send_start/send_header/send_body", where="pyslet/http/messages.py"),
                            dict(name="Request, Response transfer lengths", where="pyslet/http/messages.py"),
                            dict(name="GzipEncoder, GzipDecoder, ChunkedReader, WSGIInputWrapper", where="pyslet/http/messages.py")],
                 observe_at=["message attributes, entity body, stream position"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: protocol driver fed with fragmented generated message streams, offline comparison with an independent framing model"
LEVEL_NOTE = "Held on the streams and fragmentations observed."
RULE = "a case is distinct by the bytes of the stream and its fragmentation"
MODULES = ["pyslet/http/messages.py"]
REQUIRE = {"received": 1500, "sent": 1200, "fragments": 20000, "blocked writes": 500,
           "blocked reads": 200, "chunked": 300, "gzip": 150, "until close": 100,
           "malformed": 300, "wsgi operations": 3000}


class PartialSink(io.RawIOBase):
    """accepts some of the data, sometimes none of it"""

    def __init__(self, ctx):
        io.RawIOBase.__init__(self)
        self.ctx = ctx
        self.rng = ctx.rng
        self.got = []

    def writable(self):
        return True

    def write(self, b):
        if self.rng.random() < 0.3:
            self.ctx.count('blocked writes')
            return None
        n = len(b)
        if n > 1 and self.rng.random() < 0.5:
            n = self.rng.randrange(1, n)
        self.got.append(bytes(b[:n]))
        return n

    def value(self):
        return b''.join(self.got)


class FileLike(object):
    """has only write and flush"""

    def __init__(self):
        self.got = []

    def write(self, b):
        self.got.append(bytes(b))

    def flush(self):
        pass

    def value(self):
        return b''.join(self.got)


class PartialSource(io.RawIOBase):

    def __init__(self, ctx, data):
        io.RawIOBase.__init__(self)
        self.ctx = ctx
        self.rng = ctx.rng
        self.data = data
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.rng.random() < 0.3:
            self.ctx.count('blocked reads')
            return None
        n = min(len(b), len(self.data) - self.pos)
        if n > 1 and self.rng.random() < 0.5:
            n = self.rng.randrange(1, n)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def body_data(rng):
    c = rng.random()
    if c < 0.15:
        return b''
    if c < 0.6:
        n = rng.randrange(1, 60)
    elif c < 0.9:
        n = rng.randrange(60, 2000)
    else:
        n = rng.randrange(2000, 40000)
    if rng.random() < 0.4:
        return bytes(gen.pick(rng, b'\r\n0-:aGET /') for i in range(n))
    return rng.randbytes(n)


NAMES = (b'Host', b'X-Test', b'x-test', b'Accept', b'X-A', b'User-Agent', b'Via', b'X-B.c', b'Warning')
REASONS = (b'OK', b'No Content', b'', b'I\'m (a teapot', b'"quoted', b'caf\xe9', b'Not  Found', b'a/b=c;d', b'12', b'Moved \\o/', b'Fine (really)')


def header_lines(rng, n):
    """([raw lines], [(lower name, value)])"""
    lines = []
    hs = []
    for i in range(n):
        name = gen.pick(rng, NAMES)
        parts = [gen.pick(rng, (b'a', b'value one', b'"q, ,"', b'', b'x;y=z', b'caf\xe9', b'a:b', b'http://x/y?z')) for j in range(gen.pick(rng, (1, 1, 1, 2, 3)))]
        raw = name + b':' + gen.pick(rng, (b' ', b'', b'\t', b'   ')) + parts[0]
        for p in parts[1:]:
            raw += b'\r\n' + gen.pick(rng, (b' ', b'\t', b'   ')) + (p or b'z')
        raw += gen.pick(rng, (b'', b'', b' '))
        lines.append(raw + b'\r\n')
        hs.append((name.lower(), wire.norm(b' '.join([parts[0]] + [p or b'z' for p in parts[1:]]))))
    return lines, hs


def make_message(ctx, rng, kind, last):
    """one message to receive: (bytes, expectation)"""
    e = dict(kind=kind, trailers=[], gzip=False, chunked=False, close=False)
    version = (1, 1) if rng.random() < 0.85 else (1, 0)
    e['version'] = version
    v = b'HTTP/%d.%d' % version
    body = body_data(rng)
    lines, hs = header_lines(rng, rng.randrange(0, 5))
    if kind == 'request':
        e['method'] = gen.pick(rng, ('GET', 'PUT', 'POST', 'HEAD', 'DELETE', 'OPTIONS', 'PATCH', 'X-FOO'))
        e['uri'] = gen.pick(rng, ('/', '*', '/a/b?c=d', 'http://h:80/x', '/%20caf%C3%A9', '/a;b'))
        start = e['method'].encode() + b' ' + e['uri'].encode() + b' ' + v
        bodiless = False
    else:
        e['to'] = gen.pick(rng, ('GET', 'GET', 'POST', 'HEAD'))
        e['status'] = gen.pick(rng, (200, 200, 201, 404, 500, 100, 101, 204, 304, 206, 302))
        e['reason'] = gen.pick(rng, REASONS)
        start = v + b' %d ' % e['status'] + e['reason']
        bodiless = e['to'] == 'HEAD' or e['status'] // 100 == 1 or e['status'] in (204, 304)
    c = rng.random()
    payload = b''
    conn = False
    if bodiless:
        body = b''
        if c < 0.5:
            lines.append(b'Content-Length: %d\r\n' % rng.randrange(100))
        elif c < 0.7:
            lines.append(b'Transfer-Encoding: chunked\r\n')
    elif c < 0.4:
        lines.append(gen.pick(rng, (b'Content-Length', b'content-length', b'CONTENT-LENGTH')) + b': %d\r\n' % len(body))
        if rng.random() < 0.1:
            lines.append(b'Transfer-Encoding: identity\r\n')
        payload = body
    elif c < 0.8:
        e['chunked'] = True
        te = gen.pick(rng, (b'chunked', b'Chunked', b'chunked', b'gzip, chunked', b'gzip,chunked', b'x, chunked'))
        if te.startswith(b'x'):
            te = b'chunked'
        lines.append(b'Transfer-Encoding: ' + te + b'\r\n')
        if rng.random() < 0.15:
            # must be ignored
            lines.append(b'Content-Length: %d\r\n' % rng.randrange(50))
        if rng.random() < 0.25:
            e['trailers'] = [(gen.pick(rng, (b'x-trail', b'x-sum')), gen.pick(rng, (b'1', b'a b')))]
        payload = body
        if te.startswith(b'gzip'):
            e['gzip'] = True
            payload = wire.compress(rng, body)
        payload = wire.chunked(rng, payload, e['trailers'])
    elif kind == 'response' and last:
        e['close'] = True
        payload = body
        if c < 0.85:
            lines.append(b'Transfer-Encoding: gzip\r\n')
            e['gzip'] = True
            payload = wire.compress(rng, body)
        if rng.random() < 0.5:
            lines.append(b'Connection: close\r\n')
            conn = True
    elif kind == 'response':
        lines.append(b'Content-Length: 0\r\n')
        body = b''
    else:
        # no length: no body
        body = b''
    if not conn and rng.random() < 0.1:
        lines.append(b'Connection: ' + gen.pick(rng, (b'close', b'Close', b'x, close', b'keep-alive')) + b'\r\n')
    rng.shuffle(lines)
    head = start + b'\r\n' + b''.join(lines) + b'\r\n'
    _, e['headers'], n = wire.split_head(head)
    assert n == len(head)
    e['body'] = body
    data = (b'\r\n' * (rng.randrange(3) if kind == 'request' and rng.random() < 0.2 else 0)) + head + payload
    return data, e


def grouped(headers):
    d = {}
    for n, v in headers:
        d.setdefault(n, []).append(v)
    return d


def receiver(ctx, rng, e):
    """(message, sink or None, log of the hooks)"""
    from pyslet.http import messages
    log = []

    class Req(messages.Request):

        def handle_headers(self):
            log.append('headers')
            super(Req, self).handle_headers()

        def handle_message(self):
            log.append('message')
            super(Req, self).handle_message()

    class Res(messages.Response):

        def handle_headers(self):
            log.append('headers')
            super(Res, self).handle_headers()

        def handle_message(self):
            log.append('message')
            super(Res, self).handle_message()

    sink = gen.pick(rng, (None, PartialSink(ctx), FileLike(), io.BytesIO()))
    if e['kind'] == 'request':
        m = Req(entity_body=sink)
    else:
        q = messages.Request()
        q.set_method(e['to'])
        q.set_request_uri('/')
        m = Res(q, entity_body=sink)
    return m, sink, log


def sink_value(m, sink):
    if sink is None:
        return m.entity_body.getvalue()
    if isinstance(sink, io.BytesIO):
        return sink.getvalue()
    return sink.value()


class Feed(object):
    """the stream as the driver sees it"""

    def __init__(self, rng, data):
        self.rng = rng
        self.frags = wire.fragments(rng, data)
        self.nfrags = len(self.frags)
        self.buf = b''
        self.used = 0
        self.i = 0

    def more(self):
        if self.i < len(self.frags):
            self.buf += self.frags[self.i]
            self.i += 1
            return True
        return False

    def take(self, n):
        d = self.buf[:n]
        self.buf = self.buf[n:]
        self.used += n
        return d

    def line(self):
        at = 0
        while True:
            i = self.buf.find(b'\r\n', at)
            if i >= 0:
                return self.take(i + 2)
            at = max(0, len(self.buf) - 1)
            if not self.more():
                return None


def drive(ctx, m, feed, limit=200000):
    """Runs the receive protocol until the message is complete; returns
    False if the stream ends first"""
    m.start_receiving()
    spins = 0
    while True:
        spins += 1
        if spins > limit:
            ctx.fail('progress', "the message never completes")
        mode = m.recv_mode()
        if mode is None:
            return True
        if mode == m.RECV_LINE:
            l = feed.line()
            if l is None:
                return False
            m.recv(l)
        elif mode == m.RECV_HEADERS:
            lines = []
            while not lines or lines[-1] != b'\r\n':
                l = feed.line()
                if l is None:
                    return False
                lines.append(l)
            m.recv(lines)
        elif mode == m.RECV_ALL:
            if not feed.buf and not feed.more():
                m.recv(b'')
                if m.recv_mode() == m.RECV_ALL:
                    ctx.fail('until-close', "the end of the connection does not complete the message")
            else:
                m.recv(feed.take(len(feed.buf)))
        elif mode == 0:
            m.recv(None)
        else:
            if not feed.buf and not feed.more():
                return False
            n = min(mode, len(feed.buf))
            m.recv(feed.take(n))


def compare(ctx, m, sink, log, e):
    if e['kind'] == 'request':
        ctx.equal(m.method, e['method'], 'start', "method")
        ctx.equal(m.request_uri, e['uri'], 'start', "request URI")
    else:
        ctx.equal(m.status, e['status'], 'start', "status")
        ctx.equal(m.reason, e['reason'].decode('latin-1'), 'start', "reason")
    ctx.equal((m.protocol.major, m.protocol.minor), e['version'], 'start', "version")
    want = grouped(e['headers'] + e['trailers'])
    ctx.equal(sorted(force(n) for n in m.get_headerlist()), sorted(want), 'headers', "names")
    for n, vs in want.items():
        got = m.get_header(n, list_mode=True)
        ctx.equal([wire.norm(v) for v in got], vs, 'headers', "values of %r" % n)
        ctx.equal(wire.norm(m.get_header(n.upper())), wire.norm(b', '.join(vs)), 'headers', "combined value of %r" % n)
    ctx.equal(sink_value(m, sink), e['body'], 'body', "body (%s)" % ('chunked' if e['chunked'] else 'close' if e['close'] else 'plain'))
    ctx.equal(log, ['headers', 'message'], 'hooks', "hooks called")
    alive = e['version'] > (1, 0) and b'close' not in wire.tokens(e['headers'], b'connection')
    ctx.equal(bool(m.keep_alive), alive, 'keep-alive', "keep_alive")


def force(n):
    return n if isinstance(n, bytes) else n.encode('latin-1')


def case_receive(ctx):
    rng = ctx.rng
    kind = gen.pick(rng, ('request', 'response'))
    n = rng.randrange(1, 5)
    msgs = [make_message(ctx, rng, kind, i == n - 1) for i in range(n)]
    data = b''.join(d for d, e in msgs)
    tail = b'' if msgs[-1][1]['close'] else gen.pick(rng, (b'', b'GET / HTT', b'\r\n', b'\x00\xff'))
    feed = Feed(rng, data + tail)
    ctx.witness(stream=data[:1500], expected=[dict(e, body=e['body'][:80]) for d, e in msgs], fragments=[len(f) for f in feed.frags[:40]])
    ctx.nontrivial((data, feed.frags[:3]))
    ctx.count('fragments', feed.nfrags)
    end = 0
    for d, e in msgs:
        end += len(d)
        m, sink, log = receiver(ctx, rng, e)
        try:
            done = drive(ctx, m, feed)
        except Exception as ex:
            if type(ex).__name__ == 'Violation':
                raise
            ctx.fail('refused', "a well-formed message is refused: %s(%s)" % (type(ex).__name__, ex), exc=repr(ex))
        ctx.check(done, 'progress', "the message is complete but the receiver waits for more")
        ctx.equal(feed.used, end, 'position', "bytes consumed")
        compare(ctx, m, sink, log, e)
        ctx.count('received')
        for k in ('chunked', 'gzip'):
            if e[k]:
                ctx.count(k)
        if e['close']:
            ctx.count('until close')
        if rng.random() < 0.1 and not isinstance(sink, (PartialSink, FileLike)):
            # the same object can receive another message
            log[:] = []
            f2 = Feed(rng, d)
            ctx.check(drive(ctx, m, f2), 'progress', "second reception is not completed")
            m.keep_alive = bool(m.keep_alive)
            ctx.equal(sink_value(m, sink), e['body'], 'body', "body after the second reception")
            ctx.equal(f2.used, len(d), 'position', "bytes consumed by the second reception")


def case_malformed(ctx):
    """broken framing never looks like a message"""
    rng = ctx.rng
    kind = gen.pick(rng, ('request', 'response'))
    e = dict(kind=kind, to='POST')
    start = b'POST /x HTTP/1.1\r\n' if kind == 'request' else b'HTTP/1.1 200 OK\r\n'
    body = body_data(rng)[:500] or b'x'
    what = gen.pick(rng, ('size', 'crlf', 'start', 'header', 'length', 'te', 'truncated', 'gzip', 'version'))
    head = start + b'Transfer-Encoding: chunked\r\n\r\n'
    if what == 'size':
        bad = gen.pick(rng, (b'', b'g', b'-5', b'+5', b'0x5', b'5 5', b'1_0', b';x', b'5,', b'\xb2', b'5h', b'-0', b'"5"'))
        data = head + wire.chunked(rng, body)[:-5] if rng.random() < 0.3 else head
        if not data.endswith(b'\r\n'):
            data = head
        data += bad + b'\r\n' + b'hello\r\n0\r\n\r\n'
    elif what == 'crlf':
        n = len(body)
        data = head + b'%x\r\n' % n + body + gen.pick(rng, (b'XX', b'X\r\n', b'\n\r', b' \r\n', b'0\r\n')) + b'\r\n0\r\n\r\n'
    elif what == 'start':
        if kind == 'request':
            start = gen.pick(rng, (b'GET /\r\n', b'GET\r\n', b'G(T / HTTP/1.1\r\n', b'GET / x HTTP/1.1\r\n', b'GET / HTTP/1\r\n', b'GET / HTTP1.1\r\n', b'GET / http//1.1\r\n', b'\x00 / HTTP/1.1\r\n', b' \r\n', b'GET / HTTP/1.1 x\r\n', b'GET / HTTP/-1.1\r\n'))
        else:
            start = gen.pick(rng, (b'HTTP/1.1\r\n', b'200 OK\r\n', b'XTTP/1.1 200 OK\r\n', b'HTTP/1 200 OK\r\n', b' \r\n', b'<html>\r\n', b'HTTP/1.x 200 OK\r\n', b'SSH-2.0-OpenSSH\r\n'))
        data = start + b'Content-Length: 1\r\n\r\nx'
    elif what == 'header':
        bad = gen.pick(rng, (b'no colon here\r\n', b'X\r\n', b'=\r\n'))
        data = start + b'X-A: 1\r\n' * rng.randrange(2) + bad + b'Content-Length: 1\r\n\r\nx'
    elif what == 'length':
        bad = gen.pick(rng, (b'-1', b'x', b'1x', b'', b'+1', b'1 1', b'0x1', b'1.0', b'1_0', b'\xb2'))
        data = start + b'Content-Length: ' + bad + b'\r\n\r\nxxxxxxxxxxxxxxx'
    elif what == 'te':
        bad = gen.pick(rng, (b'chunked, chunked', b'chunked, gzip', b'(', b'unknown-coding, chunked'))
        data = start + b'Transfer-Encoding: ' + bad + b'\r\n\r\n' + wire.chunked(rng, body)
    elif what == 'version':
        data = (b'POST /x HTTP/a.b\r\n' if kind == 'request' else b'HTTP/a.b 200 OK\r\n') + b'Content-Length: 0\r\n\r\n'
    elif what == 'gzip':
        z = bytearray(wire.compress(rng, body))
        c = rng.random()
        if c < 0.5:
            z = z[:rng.randrange(1, len(z))]
        elif c < 0.8:
            z[-1 - rng.randrange(8)] ^= 1 << rng.randrange(8)
        else:
            z[rng.randrange(3)] ^= 1 << rng.randrange(8)
        try:
            wire.gunzip(bytes(z))
        except wire.Framing:
            pass
        else:
            return
        data = start + b'Transfer-Encoding: gzip, chunked\r\n\r\n' + wire.chunked(rng, bytes(z))
    else:
        # cut anywhere: never complete (unless read until close)
        full, e = make_message(ctx, rng, kind, False)
        data = full[:rng.randrange(len(full))] if full else b''
        m, sink, log = receiver(ctx, rng, e)
        ctx.witness(stream=data, what=what)
        done = drive(ctx, m, Feed(rng, data))
        ctx.check(not done, 'truncated', "a truncated message is taken as complete")
        ctx.check('message' not in log, 'truncated', "handle_message called for a truncated message")
        ctx.count('malformed')
        ctx.nontrivial(data)
        return
    ctx.witness(stream=data[:1000], what=what)
    ctx.nontrivial(data)
    m, sink, log = receiver(ctx, rng, e)
    feed = Feed(rng, data)
    from pyslet.http import messages, grammar
    try:
        done = drive(ctx, m, feed)
    except (messages.HTTPException, grammar.BadSyntax, ValueError, IOError, EOFError, NotImplementedError):
        ctx.count('malformed')
        ctx.check('message' not in log, 'malformed', "handle_message called for a malformed message")
        return
    except Exception as ex:
        if type(ex).__name__ == 'Violation':
            raise
        ctx.fail('malformed-error', "malformed %s raises %s(%s)" % (what, type(ex).__name__, ex))
    ctx.fail('malformed', "malformed %s is %s" % (what, "taken as a message" if done else "not noticed"))


def send_all(ctx, m):
    out = [m.send_start(), m.send_header()]
    blocked = 0
    n = 0
    while True:
        d = m.send_body()
        n += 1
        if n > 100000:
            ctx.fail('progress', "send_body never ends")
        if d is None:
            blocked += 1
            continue
        ctx.check(isinstance(d, bytes), 'send-type', "send_body returned %r" % (d,))
        if not d:
            break
        out.append(d)
    ctx.equal(m.send_body(), b'', 'send-type', "send_body after the end")
    return b''.join(out)


def case_send(ctx):
    rng = ctx.rng
    from pyslet.http import messages, params
    body = body_data(rng)
    kind = gen.pick(rng, ('request', 'response'))
    to10 = rng.random() < 0.25
    c = rng.random()
    seekable = True
    known = False
    asked = False
    if c < 0.15:
        entity = None
        body = b''
        known = True
    elif c < 0.4:
        entity = body
        known = True
    elif c < 0.7:
        entity = io.BytesIO(b'skip' + body)
        entity.seek(4)
    else:
        entity = PartialSource(ctx, body)
        seekable = False
    te = None
    cl = False
    r = rng.random()
    if r < 0.25:
        te = gen.pick(rng, ('chunked', 'gzip, chunked', 'chunked', 'gzip, gzip, chunked'))
    elif r < 0.4 and entity is not None:
        cl = True
    status = 200
    method = gen.pick(rng, ('POST', 'PUT', 'OPTIONS', 'PATCH'))
    bodiless = False
    if kind == 'request':
        if entity is None and rng.random() < 0.6:
            method = gen.pick(rng, ('GET', 'HEAD', 'DELETE'))
            te = None
        m = messages.Request(entity_body=entity)
        m.set_method(method)
        m.set_request_uri('/a?b')
        m.set_header('Host', 'example.com')
        uri = '/a?b'
        proto = params.HTTP_1p0 if to10 else params.HTTP_1p1
    else:
        q = messages.Request()
        if entity is None and rng.random() < 0.4:
            method = 'HEAD'
        q.set_method(method)
        q.set_request_uri('/')
        if to10:
            q.set_protocol('HTTP/1.0')
        proto = q.protocol
        m = messages.Response(q, entity_body=entity)
        status = gen.pick(rng, (200, 201, 404, 500))
        if entity is None and rng.random() < 0.4:
            status = gen.pick(rng, (204, 304, 100))
        bodiless = method == 'HEAD' or status in (204, 304, 100)
        if bodiless:
            te = None
        reason = gen.pick(rng, (None, 'Fine', 'caf\xe9', 'a (b'))
        m.set_status(status, reason)
    hs = []
    for i in range(rng.randrange(4)):
        n, v = gen.pick(rng, ('X-A', 'X-B', 'Via', 'x-c')), gen.pick(rng, ('1', 'a, b', 'x y', 'caf\xe9'))
        old = [h for h in hs if h[0] == n.lower().encode()]
        if rng.random() < 0.5 and old:
            m.set_header(n, v, True)
        else:
            m.set_header(n, v)
            hs = [h for h in hs if h[0] != n.lower().encode()]
        hs.append((n.lower().encode(), v.encode('latin-1')))
    if te:
        m.set_transfer_encoding(te)
    if cl:
        m.set_content_length(len(body))
    if rng.random() < 0.1:
        m.set_connection(['close'])
        asked = True
    ctx.witness(kind=kind, method=method, status=status, te=te, cl=cl, to10=to10, entity=type(entity).__name__, body=body[:100], size=len(body))
    toolong = False
    try:
        m.start_sending(proto)
    except messages.HTTPException as e:
        # a request of unknown length to a server that needs one
        toolong = (kind == 'request' and to10 and not known and not cl)
        ctx.check(toolong, 'send-refused', "start_sending: %s" % e)
        ctx.check(not seekable or len(body) >= m.MAX_READAHEAD, 'send-refused', "start_sending: %s" % e)
        ctx.count('sent')
        return
    data = send_all(ctx, m)
    ctx.witness(wire=data[:600])
    ctx.nontrivial((kind, data, proto.minor))
    resp_to = None if kind == 'request' else method
    try:
        w = wire.read_message(data, 0, resp_to)
    except wire.Framing as e:
        ctx.fail('framing', "what was sent is not a message: %s" % e)
    ctx.equal(w['end'], len(data), 'framing', "end of the message")
    ctx.check(not w.get('both'), 'framing', "both Content-Length and Transfer-Encoding sent")
    ctx.equal(w['body'], b'' if bodiless else body, 'sent-body', "body on the wire")
    if to10:
        ctx.check(not wire.tokens(w['headers'], b'transfer-encoding'), 'sent-10', "transfer coding sent to an HTTP/1.0 peer")
    closes = b'close' in wire.tokens(w['headers'], b'connection')
    if w['close']:
        ctx.count('until close')
        ctx.check(closes and not m.keep_alive, 'sent-close', "message delimited by close sent on a persistent connection")
    ctx.equal(closes, bool(to10 or asked or w['close']), 'sent-close', "Connection: close")
    ctx.check(closes or m.keep_alive, 'sent-close', "keep_alive and the Connection header disagree")
    got = grouped(w['headers'])
    for n, vs in grouped(hs).items():
        ctx.equal(got.get(n), vs, 'sent-headers', "header %r" % n)
    if kind == 'request':
        ctx.equal(w['start'].split(b' ')[:2], [method.encode(), uri.encode()], 'sent-start')
    else:
        ctx.check(w['start'].startswith(b'HTTP/1.1 %d ' % status), 'sent-start', "start line %r" % w['start'])
        if reason is not None:
            ctx.equal(w['start'].split(b' ', 2)[2], reason.encode('latin-1'), 'sent-start', "reason")
    ctx.count('sent')
    if b'chunked' in wire.tokens(w['headers'], b'transfer-encoding'):
        ctx.count('chunked')
    if b'gzip' in wire.tokens(w['headers'], b'transfer-encoding'):
        ctx.count('gzip')
    # and the library reads it back
    e = dict(kind=kind, method=method, uri='/a?b', to=method, status=status, reason=w['start'].split(b' ', 2)[2],
             version=(1, 1), headers=w['headers'], trailers=[], body=w['body'], close=w['close'],
             chunked=True)
    r, sink, log = receiver(ctx, rng, e)
    feed = Feed(rng, data)
    ctx.count('fragments', feed.nfrags)
    ctx.check(drive(ctx, r, feed), 'progress', "the sent message is not received completely")
    ctx.equal(feed.used, len(data), 'position', "bytes consumed")
    compare(ctx, r, sink, log, e)
    ctx.count('received')
    # resending gives the same message
    if seekable and rng.random() < 0.4:
        if rng.random() < 0.5:
            m.start_sending(proto)
            m.send_start()
            m.send_header()
            for i in range(rng.randrange(3)):
                m.send_body()
        m.start_sending(proto)
        again = send_all(ctx, m)
        w2 = wire.read_message(again, 0, resp_to)
        ctx.equal((w2['start'], sorted(w2['headers']), w2['body'], w2['end']),
                  (w['start'], sorted(w['headers']), w['body'], len(again)), 'resend', "resent message")
    elif not seekable and body and not bodiless:
        from pyslet.http.messages import HTTPException
        if not (to10 and kind == 'request'):
            ctx.raises(HTTPException, lambda: m.start_sending(proto), 'resend', "resending a body that cannot be rewound")


def case_forbidden(ctx):
    """messages that cannot have a body do not send one"""
    rng = ctx.rng
    from pyslet.http import messages
    body = b'x' + body_data(rng)[:100]
    entity = body if rng.random() < 0.5 else io.BytesIO(body)
    if rng.random() < 0.4:
        m = messages.Request(entity_body=entity)
        m.set_method(gen.pick(rng, ('GET', 'HEAD', 'DELETE', 'get')))
        m.set_request_uri('/')
        what = m.method
    else:
        what = gen.pick(rng, ('HEAD', 100, 101, 204, 304))
        q = messages.Request()
        q.set_method(what if what == 'HEAD' else gen.pick(rng, ('GET', 'POST')))
        q.set_request_uri('/')
        m = messages.Response(q, entity_body=entity)
        m.set_status(200 if what == 'HEAD' else what)
    if rng.random() < 0.5:
        m.set_content_length(len(body))
    ctx.witness(what=what, kind=type(m).__name__)
    ctx.nontrivial((what, body))

    def send():
        m.start_sending()
        return send_all(ctx, m)
    ctx.raises(messages.HTTPException, send, 'forbidden', "a body sent with %s" % what)
    ctx.count('malformed')


def case_short(ctx):
    """a body that is not as long as its declared length"""
    rng = ctx.rng
    from pyslet.http import messages
    body = body_data(rng)
    n = rng.randrange(0, len(body) + 50)
    if n == len(body):
        n += 1
    stream = rng.random() < 0.7
    entity = io.BytesIO(body) if stream else body
    if rng.random() < 0.5:
        m = messages.Request(entity_body=entity)
        m.set_method('PUT')
        m.set_request_uri('/')
        resp_to = None
    else:
        q = messages.Request()
        q.set_method('GET')
        q.set_request_uri('/')
        m = messages.Response(q, entity_body=entity)
        m.set_status(200)
        resp_to = 'GET'
    m.set_content_length(n)
    ctx.witness(declared=n, actual=len(body), stream=stream)
    ctx.nontrivial((n, len(body), stream, resp_to))
    try:
        m.start_sending()
        data = send_all(ctx, m)
    except messages.HTTPException:
        ctx.count('malformed')
        return
    # never silently leave the peer waiting
    try:
        w = wire.read_message(data, 0, resp_to)
        ctx.equal(w['end'], len(data), 'length', "end of the message")
        ctx.equal(w['body'], body[:n], 'length', "body on the wire")
    except wire.Framing as e:
        ctx.fail('length', "a message shorter than its declared length was sent without an error: %s" % e)
    ctx.count('malformed')


def case_byteranges(ctx):
    """multipart/byteranges without a length ends at its last boundary"""
    rng = ctx.rng
    from pyslet.http import messages
    b = gen.pick(rng, (b'B', b'aab', b'THIS', b'--', b'a-a', b'-'))
    delim = b'\r\n--' + b + b'--'
    pieces = []
    for i in range(rng.randrange(1, 30)):
        pieces.append(gen.pick(rng, (b'\r', b'\n', b'-', b'\r\n--', b, delim[:rng.randrange(1, len(delim))], b'x', b'\r\r\n-')))
    body = b''.join(pieces)
    tail = gen.pick(rng, (b'', b'\r\n', b' junk', delim))
    data = body + delim + tail
    want = data[:data.index(delim) + len(delim)]
    head = b'HTTP/1.1 206 Partial\r\nContent-Type: multipart/byteranges; boundary="' + b + b'"\r\n\r\n'
    log = []
    m, sink, log = receiver(ctx, rng, dict(kind='response', to='GET'))
    feed = Feed(rng, head + data)
    ctx.witness(boundary=b, data=data, fragments=[len(f) for f in feed.frags[:60]])
    ctx.nontrivial((data, len(feed.frags)))
    ctx.count('fragments', feed.nfrags)
    ctx.check(drive(ctx, m, feed), 'progress', "the last boundary does not complete the message")
    ctx.equal(sink_value(m, sink), want, 'byteranges', "body")
    ctx.equal(log, ['headers', 'message'], 'hooks', "hooks called")
    ctx.check(not m.keep_alive, 'keep-alive', "connection kept alive after a message without a length")
    ctx.count('received')


class Dribble(object):
    """a wsgi.input which returns short reads"""

    def __init__(self, rng, data, short):
        self.rng = rng
        self.data = data
        self.pos = 0
        self.short = short

    def read(self, n=-1):
        left = len(self.data) - self.pos
        if n is None or n < 0:
            n = left
        n = min(n, left)
        if self.short and n > 1 and self.rng.random() < 0.5:
            n = self.rng.randrange(1, n)
        d = self.data[self.pos:self.pos + n]
        self.pos += n
        return d

    def readline(self, n=-1):
        i = self.data.find(b'\n', self.pos)
        e = len(self.data) if i < 0 else i + 1
        if n is not None and n >= 0:
            e = min(e, self.pos + n)
        d = self.data[self.pos:e]
        self.pos = e
        return d


def case_wsgi(ctx):
    rng = ctx.rng
    from pyslet.http import messages
    body = body_data(rng)
    if rng.random() < 0.5:
        body = bytes(gen.pick(rng, b'ab\n') for i in range(rng.randrange(200)))
    nxt = gen.pick(rng, (b'', b'GET / HTTP/1.1\r\nHost: x\r\n\r\n'))
    c = rng.random()
    env = {}
    if c < 0.45:
        env['CONTENT_LENGTH'] = str(len(body))
        data = body + nxt
        end = len(body)
        how = 'length'
        if rng.random() < 0.2:
            env['HTTP_TRANSFER_ENCODING'] = gen.pick(rng, ('identity', 'Identity'))
    elif c < 0.85:
        env['HTTP_TRANSFER_ENCODING'] = gen.pick(rng, ('chunked', 'Chunked'))
        if rng.random() < 0.3:
            env['CONTENT_LENGTH'] = str(rng.randrange(100))
        coded = wire.chunked(rng, body, gen.pick(rng, ((), ((b'X-T', b'1'),))))
        data = coded + nxt
        end = len(coded)
        how = 'chunked'
    else:
        if rng.random() < 0.3:
            env['CONTENT_LENGTH'] = ''
        data = body
        end = len(body)
        how = 'eof'
    src = Dribble(rng, data, rng.random() < 0.5)
    env['wsgi.input'] = src
    size = gen.pick(rng, (0, 1, 10, 100, 8192))
    ctx.witness(how=how, body=body[:200], size=len(body), seek_size=size)
    ctx.nontrivial((how, body, size))
    f = messages.WSGIInputWrapper(env, seek_size=size)
    pos = 0
    log = []
    for i in range(rng.randrange(1, 12)):
        op = gen.pick(rng, ('read', 'read', 'readline', 'seek', 'tell', 'readinto', 'rline', 'readlines'))
        n = gen.pick(rng, (0, 1, 3, 20, 500, 9000))
        ctx.count('wsgi operations')
        log.append((op, n))
        ctx.witness(operations=log[-20:])
        if op == 'read':
            d = f.read(n)
            ctx.check(len(d) <= n, 'wsgi-read', "read(%d) returned %d bytes" % (n, len(d)))
            ctx.equal(d, body[pos:pos + len(d)], 'wsgi-read', "read(%d) at %d" % (n, pos))
            if n and not d:
                ctx.equal(pos >= len(body), True, 'wsgi-eof', "end of file at %d of %d" % (pos, len(body)))
            pos += len(d)
        elif op == 'readinto':
            b = bytearray(n)
            k = f.readinto(b)
            ctx.equal(bytes(b[:k]), body[pos:pos + k], 'wsgi-read', "readinto(%d) at %d" % (n, pos))
            if n and not k:
                ctx.equal(pos >= len(body), True, 'wsgi-eof', "end of file at %d of %d" % (pos, len(body)))
            pos += k
        elif op in ('readline', 'rline'):
            limit = n if op == 'rline' else -1
            d = f.readline(limit)
            m = io.BytesIO(body)
            m.seek(pos)
            ctx.equal(d, m.readline(limit), 'wsgi-line', "readline(%d) at %d" % (limit, pos))
            pos += len(d)
        elif op == 'readlines':
            if rng.random() < 0.3:
                m = io.BytesIO(body)
                m.seek(pos)
                ctx.equal(f.readlines(), m.readlines(), 'wsgi-line', "readlines at %d" % pos)
                pos = len(body)
        elif op == 'tell':
            ctx.equal(f.tell(), pos, 'wsgi-tell', "tell")
        else:
            to = rng.randrange(0, min(len(body), size) + 1) if min(len(body), size) else 0
            can = pos <= min(size, len(body))
            whence = gen.pick(rng, (0, 1, 2))
            if whence == 2 and how != 'length':
                ctx.raises(IOError, lambda: f.seek(0, 2), 'wsgi-seek', "seek from an unknown end")
                continue
            ctx.equal(bool(f.seekable()), can, 'wsgi-seek', "seekable at %d" % pos)
            try:
                f.seek(to - (0, pos, len(body))[whence], whence)
                ok = True
            except IOError:
                ok = False
            ctx.equal(ok, can, 'wsgi-seek', "seek to %d from %d" % (to, pos))
            if ok:
                pos = to
    rest = f.read()
    ctx.equal(rest, body[pos:], 'wsgi-read', "the rest at %d" % pos)
    ctx.equal(f.read(10), b'', 'wsgi-eof', "read at the end")
    ctx.equal(src.pos, end, 'wsgi-position', "position of the underlying stream")


def case_wsgi_bad(ctx):
    rng = ctx.rng
    from pyslet.http import messages
    body = bytes(gen.pick(rng, b'ab\n') for i in range(rng.randrange(1, 50)))
    bad = gen.pick(rng, (b'-5', b'+5', b'0x5', b'1_0', b'g', b'', b'5 5', b'\xb2'))
    coded = b'%x\r\n' % len(body) + body
    if rng.random() < 0.5:
        data = coded + b'\r\n' + bad + b'\r\nhello\r\n0\r\n\r\n'
    else:
        data = coded + gen.pick(rng, (b'XX\r\n', b'x\r\n', b'0\r\n')) + b'0\r\n\r\n'
    ctx.witness(stream=data)
    ctx.nontrivial(data)
    try:
        f = messages.WSGIInputWrapper({'wsgi.input': io.BytesIO(data), 'HTTP_TRANSFER_ENCODING': 'chunked'}, seek_size=gen.pick(rng, (0, 100)))
        got = f.read()
    except (ValueError, IOError, messages.HTTPException):
        ctx.count('malformed')
        return
    ctx.fail('wsgi-malformed', "malformed chunks are read as %r" % got)


WORKLOADS = [
    Workload('receive', case_receive, 1200, 12000),
    Workload('malformed', case_malformed, 900, 6000),
    Workload('send', case_send, 2000, 16000),
    Workload('byteranges', case_byteranges, 400, 3000),
    Workload('forbidden', case_forbidden, 200, 1000),
    Workload('short', case_short, 300, 2000),
    Workload('wsgi', case_wsgi, 1000, 8000),
    Workload('wsgi-bad', case_wsgi_bad, 150, 800),
]
