"""An HTTP/1.1 server for a WSGI application, independent of the library."""

import io
import socket
import threading
from http.server import BaseHTTPRequestHandler
from socketserver import TCPServer, ThreadingMixIn
from urllib.parse import unquote_to_bytes


class Handler(BaseHTTPRequestHandler):

    protocol_version = 'HTTP/1.1'
    disable_nagle_algorithm = True

    def __getattr__(self, name):
        if name.startswith('do_'):
            return self.handle_any
        raise AttributeError(name)

    def log_message(self, *args):
        pass

    def body(self):
        if 'chunked' in self.headers.get('Transfer-Encoding', '').lower():
            out = b''
            while True:
                n = int(self.rfile.readline().split(b';')[0], 16)
                out += self.rfile.read(n)
                self.rfile.readline()
                if not n:
                    return out
        return self.rfile.read(int(self.headers.get('Content-Length') or 0))

    def handle_any(self):
        body = self.body()
        path, _, query = self.path.partition('?')
        env = {'REQUEST_METHOD': self.command, 'SCRIPT_NAME': '', 'PATH_INFO': unquote_to_bytes(path).decode('latin-1'),
               'QUERY_STRING': query, 'SERVER_NAME': '127.0.0.1', 'SERVER_PORT': str(self.server.server_address[1]),
               'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.input': io.BytesIO(body),
               'wsgi.errors': io.StringIO(), 'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False,
               'CONTENT_LENGTH': str(len(body))}
        for n, v in self.headers.items():
            n = n.upper().replace('-', '_')
            if n == 'TRANSFER_ENCODING':
                # already removed
                continue
            env[n if n in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + n] = v
        if 'CONTENT_LENGTH' in env:
            env['CONTENT_LENGTH'] = str(len(body))
        got = []
        data = self.server.app(env, lambda s, h, e=None: got.append((s, h)))
        out = b''.join(data)
        if hasattr(data, 'close'):
            data.close()
        status, headers = got[-1]
        self.server.log.append((self.command, self.path, body, int(status[:3]), out))
        code, _, reason = status.partition(' ')
        self.send_response_only(int(code), reason)
        names = set()
        for n, v in headers:
            names.add(n.lower())
            self.send_header(n, v)
        if 'content-length' not in names and int(code) not in (204, 304):
            self.send_header('Content-Length', str(len(out)))
        self.end_headers()
        if self.command != 'HEAD':
            self.wfile.write(out)
        self.wfile.flush()


class Server(ThreadingMixIn, TCPServer):

    allow_reuse_address = True
    daemon_threads = True
    block_on_close = False

    def __init__(self, app=None):
        TCPServer.__init__(self, ('127.0.0.1', 0), Handler)
        self.app = app
        self.log = []
        self.thread = threading.Thread(target=self.serve_forever, args=(0.02,))
        self.thread.daemon = True

    @property
    def root(self):
        return 'http://127.0.0.1:%d/' % self.server_address[1]

    def handle_error(self, request, address):
        import traceback
        self.log.append(('ERROR', traceback.format_exc()[-1500:], b'', 0, b''))

    def start(self):
        self.thread.start()

    def stop(self):
        self.shutdown()
        self.thread.join()
        self.server_close()
