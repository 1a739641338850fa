"""C41: WSGI dispatch, request data and static files.

Oracle: the definition of path patterns, the contents of the directory
being served (with secrets outside it) and the request that was made."""

import io
import os
import json
from urllib.parse import quote, quote_plus

from lib.harness import Workload
from lib import gen

META = dict(
    id="C41", title="WSGI dispatch and static files stay inside their mount",
    statement="Each request path reaches the most specific registered method that matches it (names before single wildcards before trailing ones, from the left), or 404 when none does; exceptions raised by a method turn into the matching status.  Static requests return the exact bytes, length, date and type of a file of the directory being served, and never read anything outside of it or with a name outside the documented syntax.  Query, form, content and URLs are given as they were sent, with the documented limits.",
    quantifier=dict(over=["inputs"], text="all patterns, paths and requests"),
    why_tests_cant="tests use a few fixed paths",
    anchors=dict(files=["pyslet/wsgi.py"],
                 mechanism=[dict(name="WSGIApp.__call__", where="pyslet/wsgi.py"),
                            dict(name="WSGIApp.static_page", where="pyslet/wsgi.py"),
                            dict(name="WSGIContext", where="pyslet/wsgi.py")],
                 observe_at=["WSGI responses"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated applications and requests, each response compared online with a model of the dispatcher and the directory"
LEVEL_NOTE = "Held on the requests observed."
RULE = "each case is an application; distinct by its patterns and paths"
MODULES = ["pyslet/wsgi.py"]
REQUIRE = {"dispatched": 2500, "not-found": 600, "wild": 1000, "files": 180, "escapes": 800, "forms": 400, "errors": 150}

SEGS = ('a', 'b', 'c', 'home', 'x.png')


def call(app, path, method='GET', query='', body=b'', ctype=None, script='', extra=None, wrapper=False, dribble=0):
    class Input(io.BytesIO):
        def read(self, n=-1):
            return io.BytesIO.read(self, min(n, dribble) if dribble and n > 0 else n)
    env = {'REQUEST_METHOD': method, 'SCRIPT_NAME': script, 'PATH_INFO': path, 'QUERY_STRING': query,
           'SERVER_NAME': 'www.example.com', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'REMOTE_ADDR': '127.0.0.1',
           'HTTP_HOST': 'evil.example.org', 'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.input': Input(body),
           'wsgi.errors': io.StringIO(), 'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False,
           'CONTENT_LENGTH': str(len(body))}
    if ctype:
        env['CONTENT_TYPE'] = ctype
    env.update(extra or {})
    got = {}

    def start(status, headers, exc_info=None):
        got['status'] = status
        got['headers'] = headers
        return lambda data: None
    fn = app.call_wrapper if wrapper else app
    data = b''.join(fn(env, start))
    h = {}
    for n, v in got['headers']:
        h.setdefault(n.lower(), []).append(v)
    return int(got['status'][:3]), h, data


def new_app(wsgi, root=None, static=None):
    class App(wsgi.WSGIApp):
        static_files = static
        settings = {'WSGIApp': {'canonical_root': root}}
    return App


# patterns are lists of segments, as tuples after the leading slash

def rank(pattern, path):
    """the precedence of a pattern for a path, None if it does not match"""
    p, s = pattern.split('/'), path.split('/')
    best = None
    if len(p) == len(s) and all(x == '*' or x == y for x, y in zip(p, s)):
        best = [0 if x == y and x != '*' else 1 for x, y in zip(p, s)] + [0]
    if p[-1] == '*' and len(p) > 1:
        head = p[:-1]
        if len(s) >= len(head) and all(x == '*' or x == y for x, y in zip(head, s)):
            r = [0 if x == y and x != '*' else 1 for x, y in zip(head, s)] + [2]
            if best is None or r < best:
                best = r
    return best


def case_dispatch(ctx):
    rng = ctx.rng
    from pyslet import wsgi
    import logging
    logging.disable(logging.CRITICAL)
    app = new_app(wsgi)()
    patterns = {}
    n = rng.choice((1, 2, 3, 5, 8, 12))
    segs = SEGS[:rng.randrange(2, 6)]
    for i in range(n):
        p = ''.join('/' + gen.pick(rng, segs + ('*', '*')) for k in range(rng.randrange(1, 5)))
        if rng.random() < 0.1:
            p = gen.pick(rng, ('/', '/' + segs[0] + '/', '/*', ''))
        patterns[p] = i
    wrapper = rng.random() < 0.2

    def method(p):
        def page(context):
            context.set_status(200)
            return app.text_response(context, p)
        return page
    # registration in any order, and again
    for p in patterns:
        if rng.random() < 0.1:
            app.set_method(p, method('replaced'))
    for p in patterns:
        app.set_method(p, method(p))
    for i in range(40):
        s = ''.join('/' + gen.pick(rng, segs + ('zz',)) for k in range(rng.randrange(1, 6)))
        if rng.random() < 0.15:
            s = gen.pick(rng, ('/', '', s + '/', s + '/'))
        ranks = sorted((r, p) for p, r in ((p, rank(p, s)) for p in patterns) if r is not None)
        ctx.witness(patterns=sorted(patterns), path=s)
        code, h, data = call(app, s, wrapper=wrapper)
        if ranks:
            ctx.count("dispatched")
            if '*' in ranks[0][1]:
                ctx.count("wild")
            ctx.equal((code, data.decode()), (200, ranks[0][1]), "dispatch", "with the patterns %s, the path %s reaches" % (sorted(patterns), s))
        else:
            ctx.count("not-found")
            ctx.equal(code, 404, "dispatch-404", "with the patterns %s, the path %s gets the status" % (sorted(patterns), s))
    ctx.nontrivial("d:%s" % sorted(patterns))


def case_static(ctx):
    rng = ctx.rng
    from pyslet import wsgi
    import logging
    logging.disable(logging.CRITICAL)
    top = ctx.tmpdir()
    root = os.path.join(top, 'www')
    os.mkdir(root)
    secret = b'SECRET-%d' % rng.randrange(10 ** 9)
    files = {}
    odd = {}

    def put(rel, data, table):
        path = os.path.join(root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data)
        t = rng.choice((0, 1, 10 ** 9 + rng.randrange(10 ** 8)))
        os.utime(path, (t, t))
        table[rel] = (data, t)
    for i in range(rng.randrange(2, 7)):
        d = ''.join(gen.pick(rng, ('css/', 'img/', 'a-b/', 'X1/', 'docs/deep/')) for k in range(rng.randrange(3)))
        n = gen.pick(rng, ('index', 'logo', 'a', 'B2', 'x-y', '0')) + '.' + gen.pick(rng, ('html', 'css', 'txt', 'ico', 'png', 'xyzzy', 'js', 'gz', 'HTML'))
        size = rng.choice((0, 1, 10, 1000, 9000))
        put(d + n, bytes(rng.randrange(256) for k in range(size)), files)
    for n in ('noext', '.hidden', 'two.dots.txt', 'under_score.txt', 'sp ace.txt', '.git/config.txt', 'a.b/x.txt', '-x.txt', 'é.txt', 'x.t~'):
        if rng.random() < 0.6:
            put(n, secret, odd)
    for p in ('outside.txt', 'www2/x.txt', 'www.txt'):
        path = os.path.join(top, p)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(secret)
    app = new_app(wsgi, static=root)()
    app.set_method('/*', app.static_page)
    if rng.random() < 0.5:
        app.MAX_CHUNK = rng.choice((1, 7, 64, 1000))
    types = {'html': 'text/html', 'HTML': 'text/html', 'css': 'text/css', 'txt': 'text/plain', 'ico': 'image/vnd.microsoft.icon', 'png': 'image/png', 'xyzzy': 'application/octet-stream'}
    for rel in files:
        data, t = files[rel]
        path = '/' + rel
        if rng.random() < 0.2:
            path = path.replace('/', '//')
        ctx.count("files")
        ctx.witness(files=sorted(files), path=path)
        code, h, got = call(app, path)
        ctx.equal(code, 200, "file-status", "the file %s is served with the status" % rel)
        ctx.check(got == data, "file-data", "the file %s is served with other data" % rel)
        ctx.equal(h.get('content-length'), [str(len(data))], "file-length", "Content-Length of %s" % rel)
        import email.utils
        ctx.equal(h.get('last-modified'), [email.utils.formatdate(t, usegmt=True)], "file-date", "Last-Modified of %s" % rel)
        ext = rel.split('.')[-1]
        if ext in types:
            ctx.equal(h.get('content-type'), [types[ext]], "file-type", "Content-Type of %s" % rel)
        if ext == 'gz':
            ctx.equal(h.get('content-encoding'), ['gzip'], "file-encoding", "Content-Encoding of %s" % rel)
    outs = ['outside.txt', 'www2/x.txt', 'www.txt']
    for i in range(25):
        r = rng.random()
        if r < 0.3 and odd:
            path = '/' + gen.pick(rng, sorted(odd))
        elif r < 0.75:
            up = gen.pick(rng, ('..', '..', '...', '.', '%2e%2e', '..\\', '..;', '.. ', '..\0', '~', '..%00'))
            parts = [gen.pick(rng, ('css', 'img', up, up, '', 'a-b')) for k in range(rng.randrange(4))] + [up] + gen.pick(rng, outs).split('/')
            path = gen.pick(rng, ('/', '//', '')) + gen.pick(rng, ('/', '/', '\\')).join(parts)
        elif r < 0.85:
            path = gen.pick(rng, ('', '/', '//')) + os.path.join(top, gen.pick(rng, outs))
        else:
            rel = gen.pick(rng, sorted(files))
            path = '/' + gen.pick(rng, (rel + '/', rel + 'x', rel[:-1], rel.split('.')[0], os.path.dirname(rel), rel + '.txt', rel + '\n', rel + '\0', rel.replace('.', '..'), rel + ' ', './' + rel, 'nosuch/' + rel, rel + '/x.txt'))
            if path[1:] in files or path.strip('/') == rel and not path.endswith('/'):
                continue
        ctx.count("escapes")
        ctx.witness(files=sorted(files), path=path)
        code, h, got = call(app, path)
        ctx.check(secret not in got, "escape", "the path %r returns a file it must not" % path)
        ctx.equal(code, 404, "escape-status", "the path %r gets the status" % path)
    none = new_app(wsgi)()
    none.set_method('/*', none.static_page)
    ctx.equal(call(none, '/outside.txt')[0], 404, "no-static", "without a directory a static file gets the status")
    ctx.nontrivial("s:%s" % sorted(files))


def case_requests(ctx):
    rng = ctx.rng
    from pyslet import wsgi
    import logging
    logging.disable(logging.CRITICAL)
    root = gen.pick(rng, (None, 'https://www.good.com:8443'))
    app = new_app(wsgi, root)()
    seen = {}

    class Boom(Exception):
        pass

    def grab(context):
        seen.clear()
        seen['query'] = dict(context.get_query())
        seen['query2'] = dict(context.get_query())
        seen['url'] = str(context.get_url())
        seen['root'] = str(context.get_app_root())
        what = seen_what[0]
        if what == 'content':
            seen['content'] = context.get_content()
            seen['content2'] = context.get_content()
        elif what == 'form':
            seen['form'] = {n: context.get_form_string(n) for n in NAMES}
            seen['long'] = {}
            for n in NAMES:
                try:
                    seen['long'][n] = context.get_form_long(n)
                except wsgi.BadRequest:
                    seen['long'][n] = 'bad'
        elif what is not None:
            raise what
        context.set_status(200)
        return app.html_response(context, 'ok')
    app.set_method('/*', grab)
    NAMES = ('a', 'b', 'c', 'd e')
    seen_what = [None]
    for i in range(20):
        pairs = [(gen.pick(rng, NAMES), gen.pick(rng, ('1', '42', '-7', 'x y', 'é', 'a&b=c', '+', '%', 'zz', '1x', '', '123456789012345678901'))) for k in range(rng.randrange(5))]
        enc = '&'.join('%s=%s' % (quote_plus(n), quote_plus(v)) for n, v in pairs)
        qpairs = [(n, v) for n, v in ((gen.pick(rng, NAMES), gen.pick(rng, ('1', 'x y', 'é', 'a,b', '&'))) for k in range(rng.randrange(4)))]
        query = '&'.join('%s=%s' % (quote_plus(n), quote_plus(v)) for n, v in qpairs)
        path = '/' + gen.pick(rng, ('', 'a', 'a/b c', 'a;b', 'a,b/', "x'y", 'a%b'))
        script = gen.pick(rng, ('', '/app', '/my app', '/a/b'))
        what = gen.pick(rng, (None, 'content', 'form', 'form', 'form', wsgi.BadRequest(), wsgi.PageNotFound('x'), wsgi.PageNotAuthorized(),
                              wsgi.MethodNotAllowed(), Boom('x'), Boom('é\n'), KeyError('k')))
        seen_what[0] = what
        seen.clear()
        ctx.witness(path=path, query=query, what=repr(what), body=enc)
        if what == 'content':
            body = bytes(rng.randrange(256) for k in range(rng.choice((0, 1, 10, 3000))))
            if rng.random() < 0.15:
                body = b'x' * rng.choice((64 * 1024, 64 * 1024 + 1, 100000))
            code, h, data = call(app, path, 'POST', query, body + b'', 'application/octet-stream', script, dribble=rng.choice((0, 1000)))
        else:
            body = b''
            code, h, data = call(app, path, 'POST', query, enc.encode(), 'application/x-www-form-urlencoded', script)
        ctx.equal(h.get('content-length'), [str(len(data))], "length", "Content-Length of the response")
        ctx.equal(len(h.get('content-type', [])), 1, "type", "number of Content-Type headers")
        if isinstance(what, Exception):
            ctx.count("errors")
            want = {wsgi.BadRequest: 400, wsgi.PageNotFound: 404, wsgi.PageNotAuthorized: 403, wsgi.MethodNotAllowed: 405}.get(type(what), 500)
            ctx.equal(code, want, "error-status", "a method raising %r gives the status" % what)
            continue
        if len(body) > 64 * 1024:
            ctx.equal(code, 400, "content-limit", "content of %d bytes gives the status" % len(body))
            continue
        ctx.equal((code, data), (200, b'ok'), "page", "the response is")
        want = {}
        for n, v in qpairs:
            want[n] = want[n] + ',' + v if n in want else v
        ctx.equal(seen['query'], want, "query", "the query %s is read as" % query)
        ctx.equal(seen['query2'], want, "query-again", "the query %s is read again as" % query)
        base = root or 'http://www.example.com'
        from pyslet.rfc2396 import URI
        ctx.equal(seen['root'], base + quote(script) + '/', "app-root", "the application root is")
        url = base + quote(script) + quote(path) + ('?' + query if query else '')
        ctx.equal(seen['url'], url, "url", "the URL is")
        if what == 'content':
            ctx.check(seen['content'] == body and seen['content2'] == body, "content", "the content read differs from the %d bytes sent" % len(body))
        elif what == 'form':
            ctx.count("forms")
            for n in NAMES:
                vs = [v for m, v in pairs if m == n]
                ctx.equal(seen['form'][n], ','.join(vs), "form", "the field %s of %s is" % (n, enc))
                if not vs:
                    lw = None
                else:
                    try:
                        lw = int(','.join(vs))
                    except ValueError:
                        lw = 'bad'
                ctx.equal(seen['long'][n], lw, "form-long", "the integer field %s of %s is" % (n, enc))
        ctx.nontrivial("r:%s:%s:%s" % (path, query, enc))
    # responses
    for i in range(6):
        kind = gen.pick(rng, ('html', 'json', 'text', 'redirect'))
        data = gen.text(rng, 20)
        raw = rng.random() < 0.4
        loc = 'http://www.example.com/' + quote(data) + "?a=1&b='x'"
        code0 = gen.pick(rng, (200, 201, 404, 303, 302, 301))

        def page(context):
            if kind == 'redirect':
                return app.redirect_page(context, loc, code0)
            context.set_status(code0)
            return getattr(app, kind + '_response')(context, data.encode('utf-8') if raw else data)
        app.set_method('/r', page)
        ctx.witness(kind=kind, data=data, raw=raw)
        code, h, got = call(app, '/r', wrapper=rng.random() < 0.3)
        ctx.equal(code, code0, "response-status", "the status is")
        ctx.equal(h.get('content-length'), [str(len(got))], "response-length", "Content-Length is")
        if kind == 'redirect':
            ctx.equal(h.get('location'), [loc], "location", "Location is")
            import html
            ctx.check(loc in html.unescape(got.decode('ascii')), "redirect-page", "the redirect page has no link to %s" % loc)
        else:
            ctx.equal(got.decode('utf-8'), data, "response-data", "the data sent by %s_response is" % kind)
            want = {'html': 'text/html', 'json': 'application/json', 'text': 'text/plain'}[kind]
            if not raw and kind != 'json':
                want += '; charset=utf-8'
            ctx.equal(h.get('content-type'), [want], "response-type", "the type sent by %s_response is" % kind)


WORKLOADS = [
    Workload("dispatch", case_dispatch, 250, 2500),
    Workload("static", case_static, 200, 900),
    Workload("requests", case_requests, 90, 1200),
]
