"""C24: the HTTP server answers every request once, in order.

Oracle: raw sockets and lib/wire.py's independent reader against the plan
that each application call followed, and against what it recorded."""

import io
import os
import socket
import threading
import time

from lib.harness import Workload
from lib import gen, wire, sched

META = dict(
    id="C24", title="The HTTP server answers every request exactly once and in order",
    statement="On every connection, however its bytes are cut up and however many requests are sent ahead, each complete well-formed request reaches the application exactly once with the method, path, query, headers and body the client sent, and is answered by exactly one final response, in the order of the requests, carrying the status, headers and body the application produced in a framing any HTTP reader can decode.  A request that cannot be read is answered by at most one error response and ends the connection; part of a request body is never presented as all of it, and part of a response never as all of it, also when the application or the peer fails or stalls.  The server closes the connection when asked to; connections do not affect each other; connections over the limit are refused with 503.",
    quantifier=dict(over=["inputs", "schedules", "fault_sequences"], text="all request sequences, applications, fragmentations and failures"),
    why_tests_cant="tests send fixed requests one at a time through a mock socket",
    anchors=dict(files=["pyslet/http/server.py"],
                 mechanism=[dict(name="Connection.handle_requests, handle_responses", where="pyslet/http/server.py"),
                            dict(name="ServerRequest.handle_headers", where="pyslet/http/server.py"),
                            dict(name="ServerResponse.launch_app, start_response", where="pyslet/http/server.py")],
                 observe_at=["bytes received by the client", "calls of the application"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: raw socket clients with fragmented pipelined traffic and faults against the real server; per-request exactly-once, ordering and content monitors on both ends"
LEVEL_NOTE = "Held on the exchanges observed."
RULE = "a case is distinct by its requests, plans and cuts"
MODULES = ["pyslet/http/server.py"]
REQUIRE = {"responses": 1500, "pipelined": 400, "body requests": 300, "chunked requests": 100, "chunked responses": 200,
           "bodiless responses": 100, "app failures": 40, "malformed": 80, "cut short": 30, "refused": 10, "continues": 30, "slow readers": 20}


class Plan(object):

    def __repr__(self):
        return repr({k: (v if not isinstance(v, (bytes, str)) or len(v) < 60 else '%d bytes' % len(v))
                     for k, v in list(self.__dict__.items()) + [('pieces', [len(i) for i in self.pieces])]
                     if k not in ('raw', 'calls', 'closed', 'got', 'calls_body') and v not in (None, False, 0)})


class AppError(Exception):
    pass


class Site(object):
    """a server, its application, and the record of its calls"""

    def __init__(self, ctx, con_max=None, app=True, protocol=None, app_timeout=10, timeout=10, idle=10):
        from pyslet.http import server, params
        self.ctx = ctx
        self.lock = threading.Lock()
        self.plans = {}
        self.stray = []

        class Quiet(server.Server):
            daemon_threads = True
            errors = []

            def handle_error(self, request, client_address):
                import traceback
                self.errors.append(traceback.format_exc())

        kw = dict(authorities=['127.0.0.1', 'Example.com:8080'])
        if protocol:
            kw['protocol'] = params.HTTPVersion.from_str(protocol)
        self.server = Quiet(0, max_connections=con_max, app=self.app if app else None, **kw)
        self.server.errors = []
        self.server.app_timeout = app_timeout
        self.server.connection_timeout = timeout
        self.server.idle_timeout = idle
        self.port = self.server.server_address[1]
        t = threading.Thread(target=self.server.serve_forever, args=(0.01,), daemon=True)
        t.start()
        self.socks = []
        ctx.cleanup(self.stop)

    def stop(self):
        for s in self.socks:
            try:
                s.close()
            except OSError:
                pass
        self.server.shutdown()
        self.server.server_close()

    def connect(self):
        s = socket.create_connection(('127.0.0.1', self.port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(25)
        self.socks.append(s)
        return s

    def app(self, environ, start_response):
        rid = environ.get('HTTP_X_RID')
        p = self.plans.get(rid)
        if p is None:
            with self.lock:
                self.stray.append(rid)
            start_response("404 Not Found", [])
            return []
        call = dict(environ={k: v for k, v in environ.items() if not k.startswith('wsgi.')}, body=None, error=None)
        with self.lock:
            p.calls.append(call)
        if p.delay:
            time.sleep(p.delay)
        if p.read_when == 'before':
            self.consume(p, environ['wsgi.input'], call)
        if p.fail == 'start':
            raise AppError("told to")
        headers = list(p.headers)
        if p.cl:
            headers.append(('Content-Length', str(len(p.body))))
        if p.twice:
            start_response("299 First thoughts", [('X-First', '1'), ('X-Id', 'wrong')])
            try:
                raise AppError("second thoughts")
            except AppError:
                import sys
                write = start_response('%d %s' % (p.status, p.reason), headers, sys.exc_info())
        else:
            write = start_response('%d %s' % (p.status, p.reason), headers)
        if p.fail == 'started':
            raise AppError("told to")
        if p.read_when == 'after':
            self.consume(p, environ['wsgi.input'], call)
        pieces = list(p.pieces)
        if p.style == 'write':
            for i in pieces:
                write(i)
            return Body(p, [])
        if p.style == 'mixed':
            write(pieces[0])
            return Body(p, pieces[1:])
        if p.style == 'list':
            return pieces
        if p.style == 'gen':
            return self.generate(p, pieces)
        return Body(p, pieces)

    def generate(self, p, pieces):
        try:
            for k, i in enumerate(pieces):
                if p.fail == 'middle' and k == len(pieces) // 2:
                    raise AppError("told to")
                if p.pause:
                    time.sleep(p.pause)
                yield i
        finally:
            p.closed += 1

    def consume(self, p, stream, call):
        out = []
        try:
            how = p.read
            if how == 'all':
                out.append(stream.read())
            elif how == 'blocks':
                while True:
                    b = stream.read(p.block)
                    if not b:
                        break
                    out.append(b)
            elif how == 'lines':
                while True:
                    b = stream.readline()
                    if not b:
                        break
                    out.append(b)
            elif how == 'exact':
                n = int(call['environ'].get('CONTENT_LENGTH', '0'))
                out.append(stream.read(n))
                if len(out[0]) < n:
                    call['error'] = 'short'
                    return
            elif how == 'some':
                out.append(stream.read(p.block))
                call['some'] = out[0]
                return
            else:
                return
            call['body'] = b''.join(out)
        except Exception as e:
            call['error'] = repr(e)
            raise


class Body(object):
    """an iterable with a length and close"""

    def __init__(self, plan, pieces):
        self.plan = plan
        self.pieces = pieces

    def __iter__(self):
        for k, i in enumerate(self.pieces):
            if self.plan.fail == 'middle' and k == len(self.pieces) // 2:
                raise AppError("told to")
            yield i

    def close(self):
        self.plan.closed += 1


def make_plan(ctx, site, rid, fail=0.0, method=None):
    rng = ctx.rng
    p = Plan()
    p.id = rid
    p.calls = []
    p.closed = 0
    p.method = method or gen.pick(rng, ('GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'X-ODD'))
    p.protocol = 'HTTP/1.1' if rng.random() < 0.93 else 'HTTP/1.0'
    segs = [gen.pick(rng, ('a', 'b%20c', 'x+y', 'a%2Fb', '~u', 'caf%C3%A9', "it's", 'a;p=1', 'm:n', '@')) for i in range(rng.randrange(0, 4))]
    p.path = '/' + '/'.join(segs)
    p.query = gen.pick(rng, (None, None, '', 'a=1&b=2', 'q=%20%26', 'x/y?z'))
    p.target = p.path + ('' if p.query is None else '?' + p.query)
    p.host = gen.pick(rng, ('127.0.0.1', '127.0.0.1', 'example.com:8080', 'EXAMPLE.COM:8080'))
    p.absolute = rng.random() < 0.15
    p.close = rng.random() < 0.06
    p.reqheaders = [('X-RID', rid)]
    for n, v in (('Accept', 'text/html, */*;q=0.1'), ('X-Thing', 'a  "b, c"'), ('x-lower', ''), ('Cookie', 'a=b; c="d"'),
                 ('If-None-Match', '"x", W/"y"'), ('X-Latin', 'caf\xe9')):
        if rng.random() < 0.2:
            p.reqheaders.append((n, v))
    if rng.random() < 0.15:
        p.reqheaders += [('X-Multi', 'one'), ('X-Multi', 'two, three')]
    p.reqbody = None
    p.reqchunked = False
    if p.method in ('POST', 'PUT', 'PATCH', 'OPTIONS') and rng.random() < 0.9:
        p.reqbody = gen.data(rng, gen.pick(rng, (0, 10, 300, 9000, 120000)))
        if rng.random() < 0.3:
            p.reqbody = p.reqbody.replace(b'\n', b'\r\n')
        p.reqchunked = p.protocol == 'HTTP/1.1' and rng.random() < 0.4
        if rng.random() < 0.5:
            p.reqheaders.append(('Content-Type', gen.pick(rng, ('text/plain; charset=utf-8', 'application/octet-stream', 'application/x-www-form-urlencoded'))))
    p.read = gen.pick(rng, ('all', 'blocks', 'lines', 'exact', 'some', 'none'))
    if p.read == 'exact' and p.reqchunked:
        p.read = 'all'
    p.read_when = gen.pick(rng, ('before', 'before', 'after'))
    p.block = gen.pick(rng, (1, 7, 1000, 50000))
    if p.reqbody and len(p.reqbody) > 5000:
        p.block = max(p.block, 500)
    p.delay = gen.pick(rng, (0, 0, 0, 0.003))
    p.pause = gen.pick(rng, (0, 0, 0.001))
    p.status = gen.pick(rng, (200, 200, 200, 201, 202, 204, 304, 400, 404, 500, 503, 299, 418))
    p.reason = gen.pick(rng, ('OK', 'Not (quite) right', 'Say "hi', '', 'caf\xe9', 'a, b; c'))
    p.headers = [('X-Id', rid), ('Content-Type', 'text/plain')]
    if rng.random() < 0.2:
        p.headers += [('Set-Cookie', 'a=b; Path=/'), ('Set-Cookie', 'c=d')]
    if rng.random() < 0.2:
        p.headers.append(('X-Out', gen.pick(rng, ('', 'a, b', 'caf\xe9'))))
    n = gen.pick(rng, (0, 1, 1, 2, 5))
    p.pieces = [gen.data(rng, gen.pick(rng, (1, 20, 3000, 100000))) for i in range(n)]
    if rng.random() < 0.1:
        p.pieces.insert(rng.randrange(len(p.pieces) + 1), b'')
    p.style = gen.pick(rng, ('list', 'gen', 'body', 'write', 'mixed'))
    if p.style == 'mixed' and not p.pieces:
        p.style = 'list'
    if p.status in (204, 304):
        p.pieces = []
        if p.style == 'mixed':
            p.style = 'body'
    p.body = b''.join(p.pieces)
    p.cl = rng.random() < 0.35 and p.status not in (204, 304)
    p.twice = rng.random() < 0.05
    p.fail = None
    if rng.random() < fail:
        p.fail = gen.pick(rng, ('start', 'started', 'middle'))
        if p.fail == 'middle' and (len(p.pieces) < 2 or not all(p.pieces) or p.style not in ('gen', 'body') or p.method == 'HEAD'):
            p.fail = 'start'
    p.expect = False
    p.raw = None
    site.plans[rid] = p
    return p


def encode(ctx, p):
    """the head and the body as bytes"""
    rng = ctx.rng
    target = p.target
    host = p.host
    if p.absolute:
        target = 'http://' + p.host + p.target
        host = gen.pick(rng, (p.host, 'ignored.example.com'))
    hs = list(p.reqheaders)
    if p.protocol == 'HTTP/1.1' or rng.random() < 0.5 or p.host != '127.0.0.1':
        hs.insert(rng.randrange(len(hs) + 1), (gen.pick(rng, ('Host', 'host', 'HOST')), host))
    body = b''
    if p.reqbody is not None:
        if p.reqchunked:
            hs.append(('Transfer-Encoding', gen.pick(rng, ('chunked', 'Chunked'))))
            body = wire.chunked(rng, p.reqbody, [(b'X-Trailer', b'1')] if rng.random() < 0.2 else ())
            ctx.count('chunked requests')
        else:
            hs.append(('Content-Length', str(len(p.reqbody))))
            body = p.reqbody
        ctx.count('body requests')
    if p.close:
        hs.append(('Connection', gen.pick(rng, ('close', 'Close'))))
    if p.expect:
        hs.append(('Expect', gen.pick(rng, ('100-continue', '100-Continue'))))
    out = [b'%s %s %s\r\n' % (p.method.encode(), target.encode(), p.protocol.encode())]
    for n, v in hs:
        out.append(n.encode() + gen.pick(rng, (b': ', b': ', b':', b':  ')) + v.encode('latin-1') + b'\r\n')
    out.append(b'\r\n')
    head = b''.join(out)
    if rng.random() < 0.05:
        head = b'\r\n' + head
    return head, body


class Reader(threading.Thread):

    def __init__(self, sock):
        threading.Thread.__init__(self, daemon=True)
        self.sock = sock
        self.data = b''
        self.eof = False
        self.cond = threading.Condition()
        self.start()

    def run(self):
        try:
            while True:
                d = self.sock.recv(65536)
                with self.cond:
                    if not d:
                        break
                    self.data += d
                    self.cond.notify_all()
        except OSError:
            pass
        with self.cond:
            self.eof = True
            self.cond.notify_all()

    def wait(self, pred, timeout=20):
        end = time.time() + timeout
        with self.cond:
            while not pred(self.data, self.eof):
                t = end - time.time()
                if t <= 0 or self.eof:
                    return pred(self.data, self.eof)
                self.cond.wait(t)
            return True


def send(ctx, rng, sock, data, pace=True):
    try:
        for f in wire.fragments(rng, data, None if len(data) < 3000 else gen.pick(rng, (500, 5000, 100000))):
            sock.sendall(f)
            if pace and rng.random() < 0.02:
                time.sleep(0.001)
    except OSError:
        pass


def final(p):
    """does this exchange end the connection?"""
    return p.protocol == 'HTTP/1.0' or p.close or p.fail


def parse_until(data, pos, methods):
    """reads one final response per method: [(interims, message)], rest"""
    out = []
    for m in methods:
        interims = []
        while True:
            if pos >= len(data):
                return out, pos
            r = wire.read_message(data, pos, m)
            pos = r['end']
            if 100 <= int(r['start'].split()[1]) < 200:
                interims.append(r)
                continue
            break
        out.append((interims, r))
    return out, pos


def unescape(path):
    import urllib.parse
    return urllib.parse.unquote(path)


def check_call(ctx, site, p):
    """what the application was told"""
    what = "%s %s (%r)" % (p.method, p.target, p)
    ctx.equal(len(p.calls), 1, 'app-calls', "%s: application calls" % what)
    c = p.calls[0]
    e = c['environ']
    ctx.equal(e.get('REQUEST_METHOD'), p.method, 'environ', "%s: REQUEST_METHOD" % what)
    ctx.equal(e.get('SCRIPT_NAME', '') + e.get('PATH_INFO', ''), unescape(p.path), 'environ', "%s: PATH_INFO" % what)
    ctx.equal(e.get('QUERY_STRING', ''), p.query or '', 'environ', "%s: QUERY_STRING" % what)
    ctx.equal(e.get('SERVER_PROTOCOL'), p.protocol, 'environ', "%s: SERVER_PROTOCOL" % what)
    ctx.equal(e.get('REMOTE_ADDR'), '127.0.0.1', 'environ', "%s: REMOTE_ADDR" % what)
    for k, v in e.items():
        ctx.check(isinstance(v, str), 'environ', "%s: environ[%r] is %r" % (what, k, v))
    seen = {}
    for n, v in p.reqheaders:
        seen.setdefault(n.lower(), []).append(v)
    for n, vs in seen.items():
        key = n.upper().replace('-', '_')
        key = key if key == 'CONTENT_TYPE' else 'HTTP_' + key
        ctx.equal(' '.join((e.get(key) or '').split()), ' '.join(', '.join(vs).split()), 'environ', "%s: %s" % (what, key))
    if 'HTTP_HOST' in e:
        ctx.equal(e['HTTP_HOST'].lower(), p.host.lower(), 'environ', "%s: HTTP_HOST" % what)
    if p.reqbody is not None and not p.reqchunked:
        ctx.equal(e.get('CONTENT_LENGTH'), str(len(p.reqbody)), 'environ', "%s: CONTENT_LENGTH" % what)
    if c['body'] is not None:
        ctx.equal(c['body'], p.reqbody or b'', 'request-body', "%s: body read by the application" % what)
    if 'some' in c:
        ctx.check((p.reqbody or b'').startswith(c['some']), 'request-body', "%s: start of the body" % what)
        ctx.equal(len(c['some']), min(p.block, len(p.reqbody or b'')), 'request-body', "%s: size read" % what)
    if p.fail != 'start':
        ctx.check(c['error'] is None, 'request-body', "%s: reading the body failed with %s" % (what, c['error']))


def check_response(ctx, p, m, truncated=False):
    what = "%s %s (%r)" % (p.method, p.target, p)
    parts = m['start'].split(b' ', 2)
    ctx.check(parts[0] in (b'HTTP/1.1', b'HTTP/1.0'), 'status-line', "%s: %r" % (what, m['start']))
    ctx.count('responses')
    if p.fail in ('start', 'started'):
        ctx.equal(int(parts[1]), 500, 'app-failure', "%s: status after the application raised" % what)
        ctx.count('app failures')
        return
    ctx.equal(int(parts[1]), p.status, 'status', "%s: status" % what)
    ctx.equal(parts[2] if len(parts) > 2 else b'', p.reason.encode('latin-1'), 'status', "%s: reason" % what)
    names = []
    for n, v in p.headers:
        if n.lower() not in names:
            names.append(n.lower())
    for n in names:
        want = [wire.norm(v.encode('latin-1')) for k, v in p.headers if k.lower() == n]
        ctx.equal(wire.values(m['headers'], n.encode()), want, 'headers', "%s: header %s" % (what, n))
    ctx.check(not wire.values(m['headers'], b'x-first'), 'headers', "%s: headers of the first start_response were kept" % what)
    if p.method == 'HEAD' or p.status in (204, 304):
        ctx.count('bodiless responses')
        ctx.equal(m['body'], b'', 'body', "%s: body" % what)
        if p.method == 'HEAD' and p.cl:
            ctx.equal(wire.values(m['headers'], b'content-length'), [b'%d' % len(p.body)], 'headers', "%s: Content-Length" % what)
        return
    ctx.equal(m['body'], p.body, 'body', "%s: body" % what)
    if wire.tokens(m['headers'], b'transfer-encoding'):
        ctx.count('chunked responses')
        ctx.check(p.protocol != 'HTTP/1.0', 'framing', "%s: transfer coding sent to an HTTP/1.0 client" % what)
        ctx.check('both' not in m, 'framing', "%s: both Content-Length and Transfer-Encoding" % what)


def converse(ctx, site, plans, sock, rng, tail=b'', half=True):
    """sends everything and returns all that comes back"""
    r = Reader(sock)
    raw = b''.join(p.raw for p in plans) + tail
    send(ctx, rng, sock, raw)
    if half:
        try:
            sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        done = r.wait(lambda d, eof: eof)
    else:
        def complete(d, eof):
            if eof:
                return True
            try:
                return len(parse_until(d, 0, [p.method for p in plans])[0]) == len(plans)
            except (wire.Framing, ValueError, IndexError):
                return False
        done = r.wait(complete)
    if not done:
        ctx.fail('hang', "the server did not finish %r; got %r" % (plans, r.data[-300:]), stacks=sched.stacks())
    return r


def judge(ctx, site, plans, data, closed, strict=True):
    """data against the plans"""
    ctx.count('pipelined', len(plans) - 1)
    pos = 0
    for k, p in enumerate(plans):
        what = "request %d of %d: %r" % (k + 1, len(plans), p)
        try:
            out, end = parse_until(data, pos, [p.method])
        except wire.Framing as e:
            if p.fail == 'middle':
                ctx.count('app failures')
                check_call(ctx, site, p)
                return plans[:k + 1]
            ctx.fail('framing', "%s: %s in %r" % (what, e, data[pos:pos + 200]))
        if not out and p.fail in ('middle', 'started', 'start') and strict:
            # may have hung up before anything was written
            if p.fail == 'middle':
                return plans[:k + 1]
        ctx.check(out, 'unanswered', "%s: no response" % what)
        interims, m = out[0]
        ctx.check(not interims or p.expect, 'interim', "%s: %r" % (what, [i['start'] for i in interims]))
        if p.fail == 'middle':
            # cut short without the client being able to tell?
            hidden = m['close'] and (p.protocol == 'HTTP/1.0' or m['start'].startswith(b'HTTP/1.0'))
            ctx.check(hidden or (p.cl and m['body'] == p.body), 'cut-short', "%s: an incomplete response looks complete" % what)
        else:
            check_response(ctx, p, m)
        check_call(ctx, site, p)
        pos = m['end']
        if final(p) or m['close'] or b'close' in wire.tokens(m['headers'], b'connection'):
            ctx.check(closed, 'close', "%s: the connection was left open" % what)
            if p.close:
                ctx.check(b'close' in wire.tokens(m['headers'], b'connection') or p.protocol == 'HTTP/1.0', 'close',
                          "%s: no Connection: close in the response" % what)
            ctx.equal(len(data), pos, 'extra', "%s: data after the last response %r" % (what, data[pos:pos + 100]))
            return plans[:k + 1]
    ctx.equal(len(data), pos, 'extra', "data after the last response: %r" % data[pos:pos + 100])
    return plans


def settle(ctx, site, plans):
    """close of the iterable happens after the response was sent"""
    end = time.time() + 5
    for p in plans:
        if p.style == 'list' or not p.calls or p.fail in ('start', 'started'):
            continue
        want = 0 if p.fail in ('start', 'started') else 1
        while p.closed < want and time.time() < end:
            time.sleep(0.002)
        ctx.equal(p.closed, want, 'app-close', "%r: close calls on the application's iterable" % p)


def case_pipeline(ctx):
    rng = ctx.rng
    site = Site(ctx, protocol=gen.pick(rng, (None,) * 12 + ('HTTP/1.0',)))
    ncon = gen.pick(rng, (1, 1, 2, 4))
    fail = gen.pick(rng, (0, 0, 0.1, 0.3))
    jobs = []
    rid = 0
    for c in range(ncon):
        plans = []
        for i in range(rng.randrange(1, 7)):
            rid += 1
            p = make_plan(ctx, site, 'r%d' % rid, fail)
            head, body = encode(ctx, p)
            p.raw = head + body
            plans.append(p)
        jobs.append((plans, gen.pick(rng, (True, False)), rng.randrange(1 << 30)))
    ctx.witness(connections=[[repr(p) for p in plans] for plans, half, seed in jobs])
    ctx.nontrivial([(half, [p.raw for p in plans], [repr(p) for p in plans]) for plans, half, seed in jobs])
    results = [None] * ncon
    errors = []

    def go(k):
        import random
        try:
            plans, half, seed = jobs[k]
            results[k] = converse(ctx, site, plans, site.connect(), random.Random(seed), half=half)
        except BaseException as e:
            errors.append(e)
    ts = [threading.Thread(target=go, args=(k,), daemon=True) for k in range(ncon)]
    with sched.Perturb(('pyslet/http/server.py', 'pyslet/streams.py'), rng.randrange(1 << 30)):
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    for e in errors:
        raise e
    if any(t.is_alive() for t in ts):
        ctx.fail('hang', "connections not served", stacks=sched.stacks())
    for (plans, half, seed), r in zip(jobs, results):
        ends = any(final(p) for p in plans) 
        closed = r.eof
        if not half and not closed:
            # give it time to close
            if ends or b'onnection: close' in r.data:
                r.wait(lambda d, eof: eof, 5)
            closed = r.eof
        if len(plans) > 1 or True:
            data = r.data
        settle(ctx, site, judge(ctx, site, plans, data, closed or (not ends and half)))
    ctx.check(not site.server.errors, 'server-error', "the server's connection thread failed: %s" % site.server.errors[:1])
    ctx.equal(site.stray, [], 'environ', "requests without their own headers")


def case_malformed(ctx):
    """good requests, then a bad one"""
    rng = ctx.rng
    site = Site(ctx)
    plans = []
    for i in range(rng.randrange(0, 4)):
        p = make_plan(ctx, site, 'r%d' % i)
        p.close = False
        p.protocol = 'HTTP/1.1'
        head, body = encode(ctx, p)
        p.raw = head + body
        plans.append(p)
    bad = gen.pick(rng, (
        b'GET\r\n\r\n', b'GET /\r\n\r\n', b'G@T / HTTP/1.1\r\n\r\n', b'GET / HTTP/x\r\n\r\n', b'GET / FTP/1.1\r\n\r\n',
        b'GET / HTTP/1.1\r\nHost 127.0.0.1\r\n\r\n', b'GET / HTTP/1.1 x\r\n\r\n', b'\x00\x01\x02\r\n\r\n', b'GET relative HTTP/1.1\r\nHost: 127.0.0.1\r\n\r\n',
        b'GET ftp://127.0.0.1/ HTTP/1.1\r\n\r\n', b'GET http://u:p@127.0.0.1/ HTTP/1.1\r\n\r\n', b'GET /%zz HTTP/1.1\r\nHost: 127.0.0.1\r\n\r\n',
        b'POST / HTTP/1.1\r\nHost: 127.0.0.1\r\nContent-Length: x\r\n\r\n', b'POST / HTTP/1.1\r\nHost: 127.0.0.1\r\nContent-Length: -1\r\n\r\n',
        b'POST / HTTP/1.1\r\nHost: 127.0.0.1\r\nTransfer-Encoding: sdch, chunked\r\n\r\n0\r\n\r\n',
        b'POST / HTTP/1.1\r\nHost: 127.0.0.1\r\nTransfer-Encoding: ,\r\n\r\n',
        b'GET /' + b'a' * 9000 + b' HTTP/1.1\r\nHost: 127.0.0.1\r\n\r\n',
        b'GET / HTTP/1.1\r\nHost: 127.0.0.1\r\nX-Long: ' + b'a' * 9000 + b'\r\n\r\n',
        b'GET / HTTP/1.1\r\nHost: 127.0.0.1\r\n' + b''.join(b'X-%d: %s\r\n' % (k, b'a' * 1000) for k in range(20)) + b'\r\n'))
    after = gen.pick(rng, (b'', b'GET /after HTTP/1.1\r\nHost: 127.0.0.1\r\nX-RID: r0\r\n\r\n'))
    ctx.witness(plans=[repr(p) for p in plans], bad=bad[:100], after=after)
    ctx.nontrivial((bad, after, [p.raw for p in plans]))
    r = converse(ctx, site, plans, site.connect(), rng, tail=bad + after)
    data = r.data
    try:
        out, pos = parse_until(data, 0, [p.method for p in plans] + ['GET'])
    except wire.Framing as e:
        ctx.fail('framing', "%s in %r" % (e, data[-300:]))
    ctx.equal(len(out), len(plans) + 1, 'unanswered', "responses to %d good requests and %r; the last data %r" % (len(plans), bad[:60], data[-200:]))
    for p, (interims, m) in zip(plans, out):
        check_response(ctx, p, m)
        check_call(ctx, site, p)
    status = int(out[-1][1]['start'].split()[1])
    ctx.check(400 <= status < 600, 'malformed', "%r answered with %d" % (bad[:60], status))
    ctx.equal(len(data), pos, 'extra', "data after the response to %r: %r" % (bad[:60], data[pos:pos + 100]))
    ctx.equal(site.stray, [], 'malformed', "the application was called for a bad request")
    ctx.check(not site.server.errors, 'server-error', "the server's connection thread failed: %s" % site.server.errors[:1])
    ctx.count('malformed')


def case_short(ctx):
    """request bodies that are cut short or corrupt"""
    rng = ctx.rng
    site = Site(ctx, timeout=gen.pick(rng, (10, 0.3)))
    p = make_plan(ctx, site, 'r1', method=gen.pick(rng, ('POST', 'PUT')))
    p.protocol = 'HTTP/1.1'
    p.reqbody = gen.data(rng, gen.pick(rng, (1, 50, 5000))) + b'tail'
    p.reqchunked = rng.random() < 0.5
    if p.read == 'exact' and p.reqchunked:
        p.read = 'all'
    head, body = encode(ctx, p)
    how = gen.pick(rng, ('fin', 'fin', 'rst', 'corrupt', 'stall'))
    if how == 'stall':
        site.server.connection_timeout = 0.3
    if how == 'corrupt':
        if not p.reqchunked:
            how = 'fin'
        else:
            n = len(p.reqbody)
            bad = gen.pick(rng, (b'zz\r\nabc\r\n0\r\n\r\n', b'%x\r\n' % 3 + b'abcd\r\n0\r\n\r\n', b'\r\n', b'-3\r\nabc\r\n0\r\n\r\n'))
            body = b'%x\r\n' % n + p.reqbody + b'\r\n' + bad
    if how != 'corrupt':
        cut = rng.randrange(len(body))
        body = body[:cut]
    ctx.witness(plan=repr(p), how=how, body=len(body))
    ctx.nontrivial((repr(p), how, body))
    ctx.count('cut short')
    sock = site.connect()
    r = Reader(sock)
    send(ctx, rng, sock, head + body)
    if how == 'fin':
        sock.shutdown(socket.SHUT_WR)
    elif how == 'rst':
        time.sleep(rng.random() * 0.02)
        import struct
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        # the reader still has it open
        sock.shutdown(socket.SHUT_RDWR)
    if not r.wait(lambda d, eof: eof, 20):
        ctx.fail('hang', "the connection was not closed after part of a request", stacks=sched.stacks())
    end = time.time() + 5
    while p.calls and p.calls[0]['body'] is None and p.calls[0]['error'] is None and p.read in ('all', 'blocks', 'lines', 'exact') and time.time() < end:
        time.sleep(0.002)
    ctx.check(len(p.calls) <= 1, 'app-calls', "%d application calls" % len(p.calls))
    for c in p.calls:
        ctx.check(c['body'] is None, 'cut-short-request', "%r: %d of %d bytes (%s) were presented as the whole body" %
                  (p, len(c['body'] or b''), len(p.reqbody), how))
    if how == 'rst':
        return
    data = r.data
    try:
        out, pos = parse_until(data, 0, [p.method])
    except wire.Framing:
        return
    if out:
        ctx.equal(len(data), pos, 'extra', "data after the response to part of a request: %r" % data[pos:pos + 100])
        st = int(out[0][1]['start'].split()[1])
        if p.read in ('all', 'blocks', 'lines', 'exact') and p.read_when == 'before':
            ctx.check(st >= 400, 'cut-short-request', "%r answered with %d" % (p, st))


def case_limit(ctx):
    rng = ctx.rng
    n = rng.randrange(1, 4)
    site = Site(ctx, con_max=n)
    socks = []
    ctx.witness(limit=n)
    req = b'GET /x HTTP/1.1\r\nHost: 127.0.0.1\r\nX-RID: none\r\n\r\n'
    closes = rng.randrange(1, n + 1)
    ctx.nontrivial((n, closes, ctx.rng.randrange(1 << 30)))

    def ask(s):
        r = Reader(s)
        send(ctx, rng, s, req)
        ok = r.wait(lambda d, eof: eof or b'\r\n\r\n' in d)
        ctx.check(ok, 'hang', "no answer")
        return r
    for i in range(n):
        s = site.connect()
        r = ask(s)
        ctx.check(r.data.startswith(b'HTTP/1.1 404'), 'limit', "connection %d of %d: %r" % (i + 1, n, r.data[:80]))
        socks.append(s)
    for i in range(rng.randrange(1, 3)):
        s = site.connect()
        r = Reader(s)
        ctx.check(r.wait(lambda d, eof: eof), 'hang', "connection over the limit not closed")
        ctx.check(r.data.startswith(b'HTTP/1.1 503'), 'limit', "connection over the limit of %d: %r" % (n, r.data[:80]))
        wire.read_message(r.data, 0, 'GET')
        ctx.count('refused')
    for s in socks[:closes]:
        s.shutdown(socket.SHUT_RDWR)
    end = time.time() + 5
    for i in range(closes):
        while True:
            s = site.connect()
            r = Reader(s)
            send(ctx, rng, s, req)
            r.wait(lambda d, eof: eof or b'\r\n\r\n' in d)
            if r.data.startswith(b'HTTP/1.1 404'):
                break
            ctx.check(time.time() < end, 'limit', "closed connections still count: %r" % r.data[:60])
            time.sleep(0.01)
    ctx.check(not site.server.errors, 'server-error', "the server's connection thread failed: %s" % site.server.errors[:1])


def case_expect(ctx):
    """clients that wait for 100 Continue"""
    rng = ctx.rng
    site = Site(ctx)
    sock = site.connect()
    r = Reader(sock)
    plans = []
    log = []
    for i in range(rng.randrange(1, 4)):
        p = make_plan(ctx, site, 'r%d' % i, method=gen.pick(rng, ('POST', 'PUT')))
        p.protocol = 'HTTP/1.1'
        p.close = False
        p.expect = True
        if p.reqbody is None:
            p.reqbody = b''
        head, body = encode(ctx, p)
        p.raw = head
        p.calls_body = body
        plans.append((p, head, body))
    ctx.witness(plans=[repr(p) for p, h, b in plans])
    ctx.nontrivial([(repr(p), h, b) for p, h, b in plans])
    pos = 0
    for p, head, body in plans:
        what = repr(p)
        ctx.count('continues')
        t0 = time.time()
        send(ctx, rng, sock, head)
        ok = r.wait(lambda d, eof: eof or b'\r\n\r\n' in d[pos:])
        ctx.check(ok and len(r.data) > pos, 'expect', "%s: nothing came back before the body was sent" % what)
        first = wire.read_message(r.data + b'', pos, 'HEAD')
        st = int(first['start'].split()[1])
        if st == 100:
            pos = first['end']
            send(ctx, rng, sock, body)
        elif body:
            ctx.check(st >= 400, 'expect', "%s: final status %d in place of 100 Continue" % (what, st))
            ok = r.wait(lambda d, eof: eof)
            ctx.check(ok, 'expect', "%s: refused but the connection stays open" % what)

        def complete(d, eof):
            try:
                m = wire.read_message(d, pos, p.method)
                return eof or not m['close']
            except (wire.Framing, IndexError, ValueError):
                return eof
        if not r.wait(complete):
            ctx.fail('hang', "%s: no final response: %r" % (what, r.data[pos:pos + 200]), stacks=sched.stacks())
        try:
            m = wire.read_message(r.data, pos, p.method)
        except wire.Framing as e:
            ctx.fail('framing', "%s: %s in %r" % (what, e, r.data[pos:pos + 200]))
        check_response(ctx, p, m)
        if st == 100:
            check_call(ctx, site, p)
        else:
            ctx.equal(len(p.calls), 1, 'app-calls', "%s: application calls" % what)
            c = p.calls[0]
            if body and p.reqbody:
                ctx.check(not c['body'], 'cut-short-request', "%s: body never sent but read" % what)
        pos = m['end']
        ctx.check(time.time() - t0 < 4, 'expect', "%s: took %.1f s (%d)" % (what, time.time() - t0, st))
        if r.eof or b'close' in wire.tokens(m['headers'], b'connection'):
            break


def case_slow(ctx):
    """an application that does not answer in time"""
    rng = ctx.rng
    site = Site(ctx, app_timeout=0.15)
    p = make_plan(ctx, site, 'r1', method='GET')
    p.delay = 0.6
    p.protocol = 'HTTP/1.1'
    head, body = encode(ctx, p)
    p.raw = head + body
    ctx.witness(plan=repr(p))
    ctx.nontrivial((repr(p), p.raw))
    other = make_plan(ctx, site, 'r2')
    other.delay = 0
    head, body = encode(ctx, other)
    other.raw = head + body
    s = site.connect()
    r = Reader(s)
    send(ctx, rng, s, p.raw)
    r2 = converse(ctx, site, [other], site.connect(), rng)
    judge(ctx, site, [other], r2.data, True)
    ctx.check(r.wait(lambda d, eof: eof), 'hang', "connection of an application that timed out left open")
    m = wire.read_message(r.data, 0, 'GET')
    ctx.equal(int(m['start'].split()[1]), 500, 'slow', "status for an application that timed out")
    ctx.equal(len(r.data), m['end'], 'extra', "data after the response")
    ctx.count('app failures')


def case_blocked(ctx):
    """one connection waiting for input must not hold up another"""
    rng = ctx.rng
    site = Site(ctx)
    p = make_plan(ctx, site, 'r1', method='POST')
    p.protocol = 'HTTP/1.1'
    p.reqbody = gen.data(rng, 300) + b'z'
    p.read = 'all'
    p.read_when = 'before'
    p.style = gen.pick(rng, ('list', 'body'))
    head, body = encode(ctx, p)
    others = []
    for i in range(3):
        o = make_plan(ctx, site, 'o%d' % i)
        h, b = encode(ctx, o)
        o.raw = h + b
        others.append(o)
    ctx.witness(plan=repr(p), others=[repr(o) for o in others])
    ctx.nontrivial((repr(p), [o.raw for o in others]))
    s = site.connect()
    r = Reader(s)
    k = rng.randrange(len(body))
    send(ctx, rng, s, head + body[:k])
    end = time.time() + 5
    while not p.calls and time.time() < end:
        time.sleep(0.001)
    for o in others:
        t0 = time.time()
        r2 = converse(ctx, site, [o], site.connect(), rng)
        judge(ctx, site, [o], r2.data, True)
        ctx.check(time.time() - t0 < 4, 'held-up', "a request took %.1f s while another connection was waiting for its client" % (time.time() - t0))
    send(ctx, rng, s, body[k:])
    s.shutdown(socket.SHUT_WR)
    ctx.check(r.wait(lambda d, eof: eof), 'hang', "no end")
    judge(ctx, site, [p], r.data, True)


def case_reader(ctx):
    """clients that read slowly or not at all"""
    rng = ctx.rng
    stall = rng.random() < 0.3
    site = Site(ctx, timeout=0.3 if stall else 10)
    plans = []
    for i in range(rng.randrange(1, 3)):
        p = make_plan(ctx, site, 'r%d' % i, method=gen.pick(rng, ('GET', 'POST')))
        p.protocol = 'HTTP/1.1'
        p.close = False
        p.twice = False
        p.status = 200
        p.pieces = [gen.data(rng, 1000) * gen.pick(rng, (1, 300, 1000)) for k in range(rng.randrange(1, 6))] + [b'end' * 700000]
        p.body = b''.join(p.pieces)
        p.style = gen.pick(rng, ('list', 'gen', 'body', 'write'))
        head, body = encode(ctx, p)
        p.raw = head + body
        plans.append(p)
    ctx.witness(plans=[repr(p) for p in plans], stall=stall)
    ctx.nontrivial((stall, [(repr(p), p.raw) for p in plans]))
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
    s.connect(('127.0.0.1', site.port))
    s.settimeout(25)
    site.socks.append(s)
    send(ctx, rng, s, b''.join(p.raw for p in plans))
    time.sleep(rng.random() * 0.05)
    got = []
    if stall:
        n = rng.randrange(200000)
        while n > 0:
            d = s.recv(4096)
            got.append(d)
            n -= len(d)
        time.sleep(1.2)
    want = None
    try:
        while True:
            d = s.recv(gen.pick(rng, (1000, 20000)))
            if not d:
                break
            got.append(d)
            if d.endswith(b'end') and not stall or d.endswith(b'end\r\n0\r\n\r\n'):
                try:
                    if len(parse_until(b''.join(got), 0, [p.method for p in plans])[0]) == len(plans):
                        break
                except wire.Framing:
                    pass
    except socket.timeout:
        ctx.fail('hang', "nothing more is sent after %d bytes" % sum(map(len, got)), stacks=sched.stacks())
    except OSError:
        pass
    data = b''.join(got)
    ctx.count('slow readers')
    if not stall:
        judge(ctx, site, plans, data, False)
        return
    try:
        out, pos = parse_until(data, 0, [p.method for p in plans])
    except wire.Framing:
        return
    for p, (i, m) in zip(plans, out):
        check_response(ctx, p, m)


def case_default(ctx):
    """no application, unknown hosts"""
    rng = ctx.rng
    site = Site(ctx, app=rng.random() < 0.5)
    none = site.server.authorities['127.0.0.1'] is None
    raw = b''
    want = []
    for i in range(rng.randrange(1, 5)):
        host = gen.pick(rng, (b'127.0.0.1', b'elsewhere.com', b'example.com', b'example.com:8080', None))
        absolute = gen.pick(rng, (None, None, b'127.0.0.1', b'elsewhere.com', b'example.com:8080'))
        target = b'/x' if absolute is None else b'http://' + absolute + gen.pick(rng, (b'/x', b''))
        m = gen.pick(rng, (b'GET', b'HEAD', b'POST'))
        body = gen.data(rng, 200) if m == b'POST' else b''
        raw += b'%s %s HTTP/1.1\r\n' % (m, target)
        if host:
            raw += b'Host: ' + host + b'\r\n'
        if m == b'POST':
            raw += b'Content-Length: %d\r\n' % len(body)
        raw += b'\r\n' + body
        known = (absolute or host or b'127.0.0.1') in (b'127.0.0.1', b'example.com:8080')
        want.append((m.decode(), 404 if known else 400))
    ctx.witness(raw=raw, want=want)
    ctx.nontrivial(raw)
    s = site.connect()
    r = Reader(s)
    send(ctx, rng, s, raw)
    s.shutdown(socket.SHUT_WR)
    ctx.check(r.wait(lambda d, eof: eof), 'hang', "no end")
    try:
        out, pos = parse_until(r.data, 0, [m for m, st in want])
    except wire.Framing as e:
        ctx.fail('framing', "%s in %r" % (e, r.data[-300:]))
    ctx.equal([int(m['start'].split()[1]) for i, m in out], [st for m, st in want], 'authority', "statuses")
    ctx.equal(pos, len(r.data), 'extra', "data after the last response")


WORKLOADS = [
    Workload('pipeline', case_pipeline, 400, 4000, cpu=60, wall=120),
    Workload('malformed', case_malformed, 120, 1200, cpu=60, wall=120),
    Workload('short', case_short, 100, 1200, cpu=60, wall=120),
    Workload('limit', case_limit, 20, 150, cpu=60, wall=120),
    Workload('expect', case_expect, 80, 900, cpu=60, wall=120),
    Workload('slow', case_slow, 16, 100, cpu=60, wall=120),
    Workload('blocked', case_blocked, 40, 400, cpu=60, wall=120),
    Workload('reader', case_reader, 40, 300, cpu=60, wall=120),
    Workload('default', case_default, 60, 500, cpu=60, wall=120),
]
