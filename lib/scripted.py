"""A loopback HTTP/1.1 server that misbehaves as told.

Every request names itself in its path (/r/<id>) and is answered as the
script says for that id and attempt.  Independent of the library."""

import select
import socket
import struct
import threading
import time

from lib import wire


class Step(object):
    """what to do with one attempt of one request"""

    def __init__(self, **kw):
        self.kind = 'ok'
        self.framing = 'cl'
        self.status = 200
        self.body = b''
        self.interim = ()
        self.frag = None
        self.pause = 0
        self.close = None        # None, 'header', 'silent'
        self.hold = False
        self.headers = []
        self.cut = 0
        self.rst = False
        self.__dict__.update(kw)

    def __repr__(self):
        return repr({k: v for k, v in self.__dict__.items() if not callable(v) and v not in (None, (), [], 0, False)})


class Server(object):

    def __init__(self, ctx, script, rng, host='127.0.0.1'):
        self.ctx = ctx
        self.script = script
        self.rng = rng
        self.lock = threading.Lock()
        self.attempts = {}
        self.log = []
        self.problems = []
        self.socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.socket.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.socket.bind((host, 0))
        self.socket.listen(64)
        self.port = self.socket.getsockname()[1]
        self.stopping = False
        self.conns = []
        self.threads = []
        self.nconns = 0
        self.overlap = 0
        t = threading.Thread(target=self.accept, daemon=True)
        t.start()

    def stop(self):
        self.stopping = True
        try:
            self.socket.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.socket.close()
        with self.lock:
            conns = list(self.conns)
        for c in conns:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        for t in self.threads:
            t.join(5)

    def accept(self):
        while not self.stopping:
            try:
                c, addr = self.socket.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            with self.lock:
                self.conns.append(c)
                self.nconns += 1
                n = self.nconns
            t = threading.Thread(target=self.serve, args=(c, n), daemon=True)
            self.threads.append(t)
            t.start()

    def serve(self, c, n):
        try:
            self.serve1(c, n)
        except (OSError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass
            with self.lock:
                if c in self.conns:
                    self.conns.remove(c)

    def serve1(self, c, n):
        buf = b''
        held = []
        eof = False
        while not self.stopping:
            # a whole head
            while True:
                while buf[:2] == b'\r\n':
                    buf = buf[2:]
                if b'\r\n\r\n' in buf:
                    break
                if held:
                    r, w, e = select.select([c], [], [], 0.03)
                    if not r:
                        c.sendall(b''.join(held))
                        self.ctx.count('batched', len(held))
                        held = []
                d = c.recv(65536)
                if not d:
                    if buf:
                        with self.lock:
                            self.log.append(('partial', n, None, buf[:200]))
                    return
                buf += d
            try:
                start, headers, pos = wire.split_head(buf)
                method, uri, version = start.split(b' ')
                rid = int(uri.rsplit(b'/', 1)[1].split(b'?')[0])
            except (wire.Framing, ValueError, IndexError) as e:
                with self.lock:
                    self.problems.append("unreadable request %r: %s" % (buf[:200], e))
                return
            with self.lock:
                k = self.attempts.get(rid, 0)
                self.attempts[rid] = k + 1
                self.log.append(('head', n, rid, method.decode('latin-1')))
            steps = self.script[rid]
            step = steps[min(k, len(steps) - 1)]
            if step.kind == 'early':
                # answers without reading the body
                c.sendall(b''.join(held) + self.response(step, rid, k, method))
                time.sleep(0.01)
                self.drain(c)
                return
            if b'100-continue' in wire.tokens(headers, b'expect'):
                if step.kind == 'refuse':
                    c.sendall(b''.join(held) + b'HTTP/1.1 417 No\r\nContent-Length: 2\r\n\r\nNO')
                    held = []
                    # the client hangs up or sends another request
                    buf = buf[pos:]
                    continue
                c.sendall(b''.join(held) + b'HTTP/1.1 100 Continue\r\n\r\n')
                held = []
            while True:
                try:
                    m = wire.read_message(buf)
                    break
                except wire.Framing:
                    d = c.recv(65536)
                    if not d:
                        with self.lock:
                            self.log.append(('cut', n, rid, method.decode('latin-1')))
                        return
                    buf += d
            buf = buf[m['end']:]
            with self.lock:
                self.log.append(('request', n, rid, method.decode('latin-1'), m['body'], k, m))
            if buf:
                self.ctx.count('pipelined')
            if step.kind == 'drop':
                if step.rst:
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                if held:
                    c.sendall(b''.join(held))
                return
            if step.kind == 'stall':
                # never answers
                while not self.stopping:
                    d = c.recv(65536)
                    if not d:
                        return
                return
            data = self.response(step, rid, k, method)
            if step.kind == 'garbage':
                data = step.body
            if step.kind == 'cut':
                data = data[:1 + int(step.cut * (len(data) - 2))]
                held.append(data)
                c.sendall(b''.join(held))
                if step.rst:
                    time.sleep(0.005)
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                return
            if step.kind == 'spurious':
                data += b'HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nBOGUS'
            held.append(data)
            if step.hold and not step.close and step.framing != 'close':
                continue
            data = b''.join(held)
            held = []
            if step.frag:
                pos = 0
                while pos < len(data):
                    c.sendall(data[pos:pos + step.frag])
                    pos += step.frag
                    if step.pause:
                        time.sleep(step.pause)
            else:
                c.sendall(data)
            if step.close or step.framing == 'close' or version == b'HTTP/1.0' or b'close' in wire.tokens(headers, b'connection'):
                self.drain(c)
                return

    def drain(self, c):
        """an orderly close"""
        c.shutdown(socket.SHUT_WR)
        c.settimeout(2)
        try:
            while c.recv(65536):
                pass
        except OSError:
            pass

    def response(self, step, rid, k, method):
        body = step.body
        if callable(body):
            body = body(rid, k)
        out = [b'HTTP/1.1 %d Interim\r\n\r\n' % s for s in step.interim]
        nobody = method == b'HEAD' or step.status in (204, 304)
        hs = [b'HTTP/1.1 %d Status (x"\r\nX-Id: %d\r\nX-Attempt: %d\r\n' % (step.status, rid, k)]
        for h in step.headers:
            hs.append(h + b'\r\n')
        if step.framing == 'close' and not nobody:
            hs.append(b'Connection: close\r\n' if step.close == 'header' else b'')
            payload = body
        elif step.framing in ('chunked', 'gzip') and not nobody:
            payload = body
            if step.framing == 'gzip':
                payload = wire.compress(self.rng, body)
            hs.append(b'Transfer-Encoding: %schunked\r\n' % (b'gzip, ' if step.framing == 'gzip' else b''))
            payload = wire.chunked(self.rng, payload)
        else:
            hs.append(b'Content-Length: %d\r\n' % len(body))
            payload = body
        if step.close == 'header' and step.framing != 'close':
            hs.append(b'Connection: close\r\n')
        return b''.join(out + hs) + b'\r\n' + (b'' if nobody else payload)
