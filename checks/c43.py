"""C43: browser sessions of SessionApp.

Oracle: a model of the browsers (which cookies the application issued to
them, what is in those cookies and how old they are)."""

import io
import json
import re
import html
from urllib.parse import quote_plus, urlsplit, parse_qs, urlencode

from lib.harness import Workload
from lib import gen

META = dict(
    id="C43", title="Sessions are only established by the browser that owns them",
    statement="A session protected page runs with the session of the request's cookie only if this application signed that cookie and it is neither older than the timeout nor, before the session is established, than two minutes; any other cookie (forged, altered, expired, missing) gives a session with a new id and is never an error.  Establishing a session changes its id, and established ids never appear in URLs.  POST requests reach the page only with the token of their own cookie.  The cookie test redirects only when the signature of its parameters is for this browser, the cookie matches, and the target is in the application; everything else is refused and clears the cookie.",
    quantifier=dict(over=["histories", "inputs"], text="all histories of requests of several browsers, all forged cookies and parameters"),
    why_tests_cant="tests follow two fixed exchanges with one well behaved browser",
    anchors=dict(files=["pyslet/wsgi.py"],
                 mechanism=[dict(name="SessionApp.session_wrapper", where="pyslet/wsgi.py"),
                            dict(name="SessionApp.set_session", where="pyslet/wsgi.py"),
                            dict(name="SessionApp.ctest", where="pyslet/wsgi.py"),
                            dict(name="SessionApp.wlaunch", where="pyslet/wsgi.py")],
                 observe_at=["WSGI responses", "context.session in pages"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: histories of browsers, attackers and clocks (back-dated cookies) against an application whose pages report their session; every response compared online with a model"
LEVEL_NOTE = "Held on the histories observed."
RULE = "each case is a history of requests; distinct by its steps"
MODULES = ["pyslet/wsgi.py"]
REQUIRE = {"pages": 900, "resumed": 250, "established": 150, "expired": 150, "forged": 400, "posts-refused": 200, "posts-accepted": 60, "redirected": 150, "ctest-refused": 300, "merged": 40}

UAS = ["Mozilla/5.0 (X11)", "Mozilla/5.0", "curl/7", "", "Op\u00e9ra"]


class App(object):
    """The application under test and the request function"""

    def __init__(self, ctx):
        from pyslet import wsgi
        import optparse
        rng = ctx.rng
        self.ctx = ctx
        self.root = rng.choice(["http://localhost:8080", "https://www.example.com:8443", "https://www.example.com", "http://www.example.com"])
        self.script = rng.choice(['', '', '/app', '/a/b.py', '/sp ace'])
        self.timeout = rng.choice((600, 600, 30, 3600))
        self.names = {'cookie': rng.choice(('sid', 'sid', 'S')), 'cookie_test': rng.choice(('ctest', 'ctest', 'T'))}
        self.token = 'csrftoken'
        names = self.names
        timeout = self.timeout
        root = self.root
        log = self.log = []
        custom = rng.random() < 0.4
        if custom:
            self.token = names['csrftoken'] = rng.choice(('tok', 'csrf'))

        class Test(wsgi.SessionApp):
            settings_file = None

            @classmethod
            def setup(cls, options=None, args=None, **kwargs):
                super(Test, cls).setup(options, args, **kwargs)

            def init_dispatcher(self):
                wsgi.SessionApp.init_dispatcher(self)
                for p in ('/', '/page', '/sub/page/*'):
                    self.set_method(p, self.page)

            @wsgi.session_decorator
            def page(self, context):
                s = context.session
                log.append(('page', s.sid, s.established))
                context.set_status(200)
                return self.json_response(context, json.dumps([s.sid, s.established]))

            def establish_session(self, context):
                old = context.session.sid
                super(Test, self).establish_session(context)
                log.append(('establish', old, context.session.sid))

            def merge_session(self, context, merge_session):
                log.append(('merge', context.session.sid, merge_session.sid))

        # the settings come from a file
        d = ctx.tmpdir()
        fn = d + '/settings.json'
        with open(fn, 'w') as f:
            json.dump({'WSGIApp': {'canonical_root': root}, 'SessionApp': dict(names, timeout=timeout)}, f)
        Test.settings_file = fn
        p = optparse.OptionParser()
        Test.add_options(p)
        options, args = p.parse_args(['--memory'])
        Test.setup(options=options, args=args)
        ctx.cleanup(Test.data_source.close)
        self.app = Test()
        # everything the application issued, and sids ever seen
        self.issued = {}
        self.sids = set()
        self.fixed = set()
        ctx.witness(root=self.root, script=self.script, timeout=timeout, names=names)

    def session(self, value):
        """The session in a cookie this application signed, or None"""
        try:
            m = self.app.app_cipher.check_signature(value)
        except ValueError:
            return None
        if not m:
            return None
        from pyslet import wsgi
        try:
            return wsgi.CookieSession(m.decode('utf-8'))
        except ValueError:
            return None

    def craft(self, sid, established, age):
        """A cookie this application issued age seconds ago"""
        from pyslet import iso8601 as iso
        import time
        t = iso.TimePoint.from_now_utc()
        t = iso.TimePoint.from_unix_time(t.get_unixtime() - age).with_zone(0)
        s = "%s-%s-%s" % (sid, '1' if established else '0', t.get_calendar_string(basic=True))
        return self.app.app_cipher.ascii_sign(s.encode('utf-8'))

    def request(self, path, query='', cookies=(), ua='', method='GET', form=None):
        ctx = self.ctx
        body = urlencode(form).encode('ascii') if form else b''
        env = {'REQUEST_METHOD': method, 'SCRIPT_NAME': self.script, 'PATH_INFO': path, 'QUERY_STRING': query,
               'SERVER_NAME': 'internal', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.url_scheme': 'http',
               'wsgi.input': io.BytesIO(body), 'CONTENT_LENGTH': str(len(body)), 'wsgi.errors': io.StringIO(), 'wsgi.version': (1, 0),
               'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False}
        if form is not None:
            env['CONTENT_TYPE'] = 'application/x-www-form-urlencoded'
        if ua:
            env['HTTP_USER_AGENT'] = ua
        if cookies:
            env['HTTP_COOKIE'] = '; '.join('%s=%s' % c for c in cookies)
        got = []
        del self.log[:]
        out = b''.join(self.app(env, lambda s, h, e=None: got.append((s, h))))
        ctx.check(len(got) == 1, "start-response", "start_response was called %d times" % len(got))
        status = int(got[0][0].split(' ')[0])
        ctx.check(status != 500, "server-error", "%s %s?%s cookies=%s gives %s %s" % (method, path, query, cookies, got[0][0], out[:300]))
        h = {}
        for k, v in got[0][1]:
            h.setdefault(k.lower(), []).append(v)
        r = Response(status, h, out, list(self.log))
        scheme = urlsplit(self.root).scheme
        for c in h.get('set-cookie', []):
            parts = [x.strip() for x in c.split(';')]
            name, value = parts[0].split('=', 1)
            at = {}
            for x in parts[1:]:
                k, sep, v = x.partition('=')
                at[k.lower()] = v
            ctx.check(name not in r.cookies, "cookie-twice", "cookie %s set twice" % name)
            r.cookies[name] = (value, at)
            ctx.check(at.get('path', '').rstrip('/') == self.script.replace(' ', '%20').rstrip('/') and at.get('path', '').startswith('/'), "cookie-path", "%s for %r" % (c, self.script))
            if name == self.names['cookie']:
                ctx.check('httponly' in at, "cookie-httponly", c)
                ctx.check(('secure' in at) == (scheme == 'https'), "cookie-secure", "%s for %s" % (c, self.root))
                if at.get('max-age') != '0':
                    s = self.session(value)
                    ctx.check(s is not None, "cookie-signed", "the session cookie %s does not verify" % c)
                    ctx.check(-5 < s.age() < 5 or s.sid in self.old, "cookie-date", "the session cookie is dated %s" % s.last_seen)
                    ctx.check('max-age' not in at and 'expires' not in at, "cookie-session", "session cookie %s persists" % c)
                    self.issued[value] = s
                    if s.established:
                        self.fixed.add(s.sid)
            else:
                ctx.check(name == self.names['cookie_test'] and at.get('max-age') == '8640000', "cookie-test", "cookie set: %s" % c)
        # established ids must not leak into URLs
        for text in [x for x in h.get('location', [])] + [out.decode('utf-8', 'replace')] * ('page' not in [e[0] for e in r.log]):
            for sid in self.fixed:
                ctx.check(sid not in text, "sid-exposed", "the established id %s is in %s" % (sid, text[:300]))
        return r

    old = ()

    def url(self, path, query=''):
        from urllib.parse import quote
        return self.root + quote(self.script) + quote(path) + ('?' + query if query else '')

    def split(self, url):
        """path and query of a URL of this application"""
        s = urlsplit(url)
        from urllib.parse import unquote
        base = unquote(s.path)
        self.ctx.check((s.scheme + '://' + s.netloc) == self.root and base.startswith(self.script + '/'), "redirect-root", "redirected to %s outside %s%s" % (url, self.root, self.script))
        return base[len(self.script):], s.query


class Response(object):

    def __init__(self, status, headers, body, log):
        self.status = status
        self.headers = headers
        self.body = body
        self.log = log
        self.cookies = {}
        self.location = headers.get('location', [None])[0]

    def __repr__(self):
        return "%d location=%s cookies=%s log=%s %s" % (self.status, self.location, self.cookies, self.log, self.body[:80])


class Browser(object):

    def __init__(self, app, ua, blocked=False):
        self.app = app
        self.ua = ua
        self.jar = {}
        self.blocked = blocked

    def send(self, path, query='', method='GET', form=None):
        r = self.app.request(path, query, sorted(self.jar.items()), self.ua, method, form)
        self.accept(r)
        return r

    def accept(self, r):
        if not self.blocked:
            for k, (v, at) in r.cookies.items():
                if at.get('max-age') == '0':
                    self.jar.pop(k, None)
                else:
                    self.jar[k] = v

    @property
    def sid(self):
        return self.jar.get(self.app.names['cookie'])

    @sid.setter
    def sid(self, v):
        self.jar[self.app.names['cookie']] = v


def expect_page(app, b, cookie, has_test, r, method='GET'):
    """The response to a page request that carried cookie (a value or None)"""
    ctx = app.ctx
    # whose session?
    s = app.session(cookie) if cookie is not None else None
    pages = [e for e in r.log if e[0] == 'page']
    if not has_test:
        ctx.equal(r.status, 303, "no-test-cookie", "without the test cookie the status is")
        ctx.check(not pages, "page-without-test", "the page ran without the test cookie")
        p, q = app.split(r.location)
        ctx.equal(p, '/ctest', "no-test-cookie", "redirected to")
        ctx.check(app.names['cookie_test'] in r.cookies and app.names['cookie'] in r.cookies, "cookies-set", "cookies set: %s" % r.cookies)
        new = app.issued[r.cookies[app.names['cookie']][0]]
        ctx.check(not new.established and new.sid not in app.sids, "new-session", "the new session is %s" % new)
        app.sids.add(new.sid)
        return None
    ctx.check(r.status == 200 and len(pages) == 1, "page", "the page was not run: %r" % r)
    ctx.count("pages")
    sid, est = pages[0][1:]
    limit = None
    if s is not None:
        limit = app.timeout if s.established else 120
        age = s.age()
        if age > limit + 3:
            s = None
            ctx.count("expired")
        elif age > limit - 3:
            # undecided
            app.sids.add(sid)
            return sid
    if s is not None and s.established:
        ctx.equal(sid, s.sid, "resumed", "the session of the page is")
        ctx.check(est, "resumed-state", "an established session is no longer established")
        ctx.count("resumed")
    elif s is not None:
        ctx.check(est, "established", "the session was not established")
        ctx.check(sid not in app.sids and sid != s.sid, "new-id", "establishing kept the id %s" % s.sid)
        ctx.check(('establish', s.sid, sid) in r.log, "establish-hook", "establish_session was not called for %s: %s" % (s.sid, r.log))
        ctx.count("established")
    else:
        ctx.check(sid not in app.sids, "session-given", "a request with the cookie %r was given the existing session %s" % (cookie, sid))
    app.sids.add(sid)
    ctx.check(app.names['cookie'] in r.cookies and app.issued[r.cookies[app.names['cookie']][0]].sid == sid and app.issued[r.cookies[app.names['cookie']][0]].established == est,
              "cookie-kept", "the session of the page is %s, the cookie set %s" % (sid, r.cookies))
    return sid


PATHS = ('/', '/page', '/sub/page/x', '/sub/page/y z')
QUERIES = ('', 'a=1', 'a=1&b=%C3%A9', 'return=/&s=1', 'x=%26%3D')


def launch(app, b, path, query):
    """A whole exchange of a well behaved browser"""
    ctx = app.ctx
    cookie = b.sid
    has = app.names['cookie_test'] in b.jar
    r = b.send(path, query)
    sid = expect_page(app, b, cookie, has, r)
    if has:
        return sid
    p, q = app.split(r.location)
    if not b.blocked:
        # the test succeeds
        old = app.session(b.sid)
        r = b.send(p, q)
        ctx.check(r.status == 303, "ctest", "the cookie test gives %r" % r)
        ctx.equal(r.location, app.url(path, query), "ctest-target", "the cookie test redirects to")
        ctx.count("redirected")
        new = app.session(b.sid)
        ctx.check(new.established and new.sid != old.sid and new.sid not in app.sids, "ctest-established", "after the test the session is %s" % new)
        app.sids.add(new.sid)
        cookie = b.sid
        r = b.send(path, query)
        sid = expect_page(app, b, cookie, True, r)
        ctx.equal(sid, new.sid, "launched", "the session of the page launched is")
        return sid
    # cookies are blocked: the test page offers a new window
    r = b.send(p, q)
    ctx.check(r.status == 200 and not r.cookies and not r.log, "ctest-blocked", "with cookies blocked the test gives %r" % r)
    m = re.search('href=["\']([^"\']*)["\']', r.body.decode('utf-8'))
    ctx.check(m is not None, "ctest-link", "no link in %r" % r.body)
    url = html.unescape(m.group(1))
    p, q = app.split(url)
    ctx.equal(p, '/wlaunch', "ctest-link", "the test page links to")
    if ctx.rng.random() < 0.5:
        # still blocked
        r = b.send(p, q)
        ctx.check(r.status == 303, "wlaunch-blocked", "%r" % r)
        p, q = app.split(r.location)
        ctx.equal(p, '/ctest', "wlaunch-blocked", "redirected to")
        r = b.send(p, q)
        ctx.check(r.status == 200 and b'href' not in r.body and not r.log, "cfail", "with cookies blocked again: %r" % r)
        return None
    # cookies work in the new window
    w = b if ctx.rng.random() < 0.5 else Browser(app, b.ua)
    w.blocked = False
    had = dict(w.jar)
    cookie = w.sid
    r = w.send(p, q)
    ctx.check(r.status == 303, "wlaunch", "%r" % r)
    if app.names['cookie_test'] in had:
        ctx.equal(r.location, app.url(path, query), "wlaunch-target", "redirects to")
        return None
    p, q = app.split(r.location)
    ctx.equal(p, '/ctest', "wlaunch", "redirected to")
    r = w.send(p, q)
    ctx.check(r.status == 303, "wlaunch-ctest", "%r" % r)
    ctx.equal(r.location, app.url(path, query), "wlaunch-target", "redirects to")
    ctx.count("redirected")
    new = app.session(w.sid)
    ctx.check(new.established and new.sid not in app.sids, "wlaunch-established", "after the test the session is %s" % new)
    app.sids.add(new.sid)
    cookie = w.sid
    r = w.send(path, query)
    ctx.equal(expect_page(app, w, cookie, True, r), new.sid, "launched", "the session of the page launched is")
    return new.sid


def forged(app, rng, others):
    """A cookie value this application did not issue"""
    from checks.c42 import alter
    r = rng.random()
    base = rng.choice(others) if others else app.craft('crafted.%d' % rng.randrange(10 ** 6), True, 5)
    if r < 0.5:
        v = alter(rng, base, '-')
    elif r < 0.6:
        v = '-'.join(base.split('-', 3)[:3]) + '-abc-1-20300101T000000Z'
    elif r < 0.7:
        # not signed at all
        v = rng.choice(['x', 'abc-1-20300101T000000Z', '0-0-0-0', '-', '---', '0', 'é', '0---', '1-%s-%s-a' % ('0' * 8, '0' * 64), '99999999999-00000000-00-a', '-5-00000000-00-a'])
    elif r < 0.85:
        # signed, but not a session
        m = rng.choice([b'', b'x', b'abc', b'abc-1', b'abc-1-', b'abc-1-x', b'\xff-1-20300101T000000Z', b'abc-1-2015', b'abc-0-20159999T000000Z', b'a-1-20150101T000000Zhttp://localhost/'])
        v = app.app.app_cipher.ascii_sign(m)
    else:
        # signed by another application
        from pyslet import wsgi
        c = wsgi.AppCipher(0, b'another', app.app.container['AppKeys'])
        v = c.ascii_sign(b'abc-1-20300101T000000Z')
    return ''.join(c if 0x21 <= ord(c) < 0x7f and c not in '",;\\' or 0xa0 <= ord(c) < 256 else '0' for c in v)


def case_history(ctx):
    rng = ctx.rng
    app = App(ctx)
    browsers = [Browser(app, rng.choice(UAS), rng.random() < 0.2) for i in range(rng.randint(1, 3))]
    steps = []
    ctx.witness(steps=steps)
    test = app.names['cookie_test']
    for n in range(rng.randint(6, 20)):
        b = rng.choice(browsers)
        path, query = rng.choice(PATHS), rng.choice(QUERIES)
        op = rng.choice(('visit', 'visit', 'visit', 'post', 'post', 'forge', 'forge', 'age', 'age', 'lose', 'steal'))
        steps.append((op, browsers.index(b), path, query))
        if op == 'visit':
            launch(app, b, path, query)
        elif op == 'post':
            cookie = b.sid
            s = app.session(cookie) if cookie is not None else None
            real = s.sid if s is not None else None
            kind = rng.random()
            others = sorted(app.sids)
            tok = real if kind < 0.5 else rng.choice([None, '', 'x', 'None', real[:-1] if real else 'y', real + ' ' if real else 'z', rng.choice(others) if others else 'q'])
            form = {'a': '1'}
            if tok is not None:
                form[app.token] = tok
            steps.append(('token', tok))
            r = b.send(path, query, method=rng.choice(('POST', 'POST', 'post')), form=form)
            if real is not None and tok == real:
                expect_page(app, b, cookie, test in b.jar and r.status != 303, r)
                ctx.count("posts-accepted")
            else:
                ctx.equal(r.status, 403, "csrf", "POST with the token %r for the session %r gives" % (tok, real))
                ctx.check(not [e for e in r.log if e[0] == 'page'], "csrf-page", "the page ran")
                ctx.count("posts-refused")
                if app.names['cookie'] in r.cookies:
                    app.sids.add(app.issued[r.cookies[app.names['cookie']][0]].sid)
        elif op == 'forge':
            v = forged(app, rng, [x for x in app.issued])
            steps.append(v)
            cookies = [(app.names['cookie'], v), (test, '0')]
            if rng.random() < 0.3:
                cookies.reverse()
            r = app.request(path, query, cookies, b.ua)
            ctx.count("forged")
            if not v.isascii():
                # a malformed header
                ctx.check(r.status in (200, 400), "malformed", "%r" % r)
                for e in r.log:
                    ctx.check(e[0] != 'page' or e[1] not in app.sids, "session-given", "the malformed cookie %r gives %s" % (v, e))
                continue
            expect_page(app, b, v, True, r)
        elif op == 'age':
            # time passes
            est = rng.random() < 0.7
            sid = 'id%d.%d' % (n, rng.randrange(10 ** 6))
            limit = app.timeout if est else 120
            age = rng.choice((0, 5, limit - 10, limit - 5, limit + 5, limit + 10, 125, 115, 10 * limit, 10 ** 6))
            v = app.craft(sid, est, age)
            app.sids.add(sid)
            steps.append((sid, est, age))
            r = app.request(path, query, [(app.names['cookie'], v), (test, '0')], b.ua)
            expect_page(app, b, v, True, r)
        elif op == 'lose':
            if rng.random() < 0.5:
                b.jar.pop(test, None)
            else:
                b.jar.pop(app.names['cookie'], None)
        else:
            # an attacker's link for the cookie test is opened by b
            a = Browser(app, rng.choice(UAS))
            r = a.send(path, query)
            app.sids.add(app.session(a.sid).sid)
            p, q = app.split(r.location)
            before = app.session(b.sid) if b.sid else None
            if test not in b.jar:
                continue
            page = rng.choice(('/ctest', '/wlaunch'))
            r = b.send(page, q)
            if page == '/ctest' or a.ua != b.ua:
                ctx.check(r.status == 400, "fixation", "another browser's link gives %r" % r)
                ctx.count("ctest-refused")
                if r.cookies:
                    ctx.check(r.cookies[app.names['cookie']][1].get('max-age') == '0', "fixation-cookie", "cookies %s" % r.cookies)
            else:
                ctx.check(r.status == 303, "wlaunch-merge", "%r" % r)
                now = app.session(b.sid)
                ctx.check(now.sid != app.session(a.sid).sid, "fixed", "the session of the attacker's link was taken over")
                app.sids.add(now.sid)
    ctx.nontrivial(tuple(map(str, steps)) + (app.root, app.script))


def case_ctest(ctx):
    """Parameters and cookies of the test pages"""
    rng = ctx.rng
    app = App(ctx)
    test, name = app.names['cookie_test'], app.names['cookie']
    from checks.c42 import alter
    host = urlsplit(app.root).netloc
    for n in range(12):
        page = rng.choice(('/ctest', '/ctest', '/wlaunch'))
        ua = rng.choice(UAS)
        sid = 'q%d.%d' % (n, rng.randrange(10 ** 6))
        sids = app.sids
        qest = rng.random() < 0.08
        qage = rng.choice((0, 5, 60))
        smsg = app.app.app_cipher.check_signature(app.craft(sid, qest, qage)).decode()
        good = app.url(rng.choice(PATHS), rng.choice(QUERIES))
        inside = True
        ret = good
        if rng.random() < 0.2:
            inside = False
            ret = rng.choice(['http://evil.example.com/', good.replace('://', '://x.', 1), good.replace(host, host.split(':')[0] + ':9', 1), 'https://evil.example.com/?' + good,
                              app.root + '@evil.example.com/', app.root + '.evil.example.com/', ('https' if app.root.startswith('http:') else 'http') + good[good.index(':'):],
                              app.root + '0/', 'ftp' + good[good.index(':'):], 'http://localhost.evil/'])
        sig = app.app.app_cipher.sign((smsg + ret + ua).encode('utf-8'))
        par = {'return': ret, 's': smsg, 'sig': sig}
        ok = inside and not qest
        sigok = True
        why = 'inside=%s established=%s' % (inside, qest)
        missing = False
        r = rng.random()
        if r < 0.1:
            missing = True
            del par[rng.choice(sorted(par))]
        elif r < 0.2:
            k = rng.choice(sorted(par))
            v = par[k]
            par[k] = alter(rng, v, '-')
            sigok = False
            if k == 'sig':
                try:
                    app.app.app_cipher.check_signature(par[k], (smsg + ret + ua).encode('utf-8'))
                    sigok = True
                except ValueError:
                    pass
            why += ' altered %s' % k
        sent_ua = ua
        if rng.random() < 0.12:
            sent_ua = rng.choice([u for u in UAS if u != ua])
            why += ' other browser'
            sigok = False
        framed = rng.random() < 0.3
        if framed:
            par['framed'] = rng.choice(('1', '1', '0'))
        has = rng.random() < 0.75
        cookies = [(test, '0')] if has else []
        # the session cookie
        ck = rng.choice(('same', 'same', 'same', 'none', 'other', 'forged', 'old', 'established', 'estab-same'))
        cage = 0
        value = None
        if ck == 'same':
            cage = rng.choice((0, 5, 60))
            value = app.craft(sid, False, cage)
        elif ck == 'old':
            cage = rng.choice((130, 1000))
            value = app.craft(sid, False, cage)
        elif ck == 'other':
            value = app.craft(sid + 'x', False, 0)
        elif ck == 'established':
            value = app.craft(sid + 'y', True, rng.choice((0, 5, 5, app.timeout + 10)))
        elif ck == 'estab-same':
            value = app.craft(sid, True, 0)
        elif ck == 'forged':
            value = forged(app, rng, [app.craft(sid, False, 0)])
            if not value.isascii():
                continue
            try:
                app.app.app_cipher.check_signature(value)
                continue
            except ValueError:
                pass
        if value is not None:
            cookies.append((name, value))
        app.sids.update((sid, sid + 'x', sid + 'y'))
        app.old = (sid, )
        ctx.witness(page=page, params=par, cookies=cookies, ua=ua, sent_ua=sent_ua, cookie=ck, why=why)
        what = "%s %s cookie=%s %s" % (page, par, ck, why)
        r = app.request(page, urlencode(par), cookies, sent_ua)
        merged = [e for e in r.log if e[0] == 'merge']
        given = r.cookies.get(name)
        cleared = given is not None and given[1].get('max-age') == '0'
        if missing or '' in par.values():
            ctx.equal(r.status, 400, "missing-parameter", what)
            ctx.count("ctest-refused")
            continue
        if page == '/ctest' and not has:
            ctx.equal(r.status, 200, "ctest-blocked", what)
            ctx.check(not r.cookies and not r.log, "ctest-blocked", "%s gives %r" % (what, r))
            m = re.search('href=["\']([^"\']*)["\']', r.body.decode('utf-8'))
            if par.get('framed') == '1':
                ctx.check(m is None, "cfail", "%s gives %r" % (what, r))
            else:
                p, q = app.split(html.unescape(m.group(1)))
                got = dict((k, v[0]) for k, v in parse_qs(q, keep_blank_values=True).items())
                ctx.equal((p, got), ('/wlaunch', {k: par[k] for k in ('return', 's', 'sig')}), "ctest-link", what)
            continue
        good_request = ok and sigok
        if page == '/ctest':
            good_request = good_request and ck in ('same', 'old')
        if not good_request:
            ctx.check(r.status == 400, "ctest-accepted", "%s gives %r" % (what, r))
            ctx.check(cleared or (given is None and page == '/wlaunch' and not inside), "ctest-cookie", "%s sets %s" % (what, given))
            ctx.check(not r.log and not r.location, "ctest-accepted", "%s gives %r" % (what, r))
            ctx.count("ctest-refused")
            continue
        ctx.check(r.status == 303, "ctest-refused", "%s gives %r" % (what, r))
        if page == '/wlaunch' and not has:
            p, q = app.split(r.location)
            got = dict((k, v[0]) for k, v in parse_qs(q, keep_blank_values=True).items())
            ctx.equal((p, got), ('/ctest', dict({k: par[k] for k in ('return', 's', 'sig')}, framed='1')), "wlaunch-redirect", what)
            s = app.issued[given[0]]
            ctx.check(s.sid == sid and not s.established and test in r.cookies, "wlaunch-cookies", "%s sets %s" % (what, r.cookies))
            ctx.check(not merged, "merge", "%s merges %s" % (what, merged))
            continue
        ctx.equal(r.location, ret, "ctest-location", what)
        ctx.count("redirected")
        s = app.issued[given[0]]
        if page == '/wlaunch':
            ctx.check(merged == [('merge', s.sid, sid)], "merge", "%s merges %s, session %s" % (what, merged, s.sid))
            ctx.count("merged")
            valid = app.session(value) if value is not None else None
            if valid is not None and valid.age() < (app.timeout if valid.established else 120):
                if valid.established:
                    ctx.equal(s.sid, valid.sid, "merged-session", what)
                else:
                    ctx.check(s.established and s.sid not in app.sids, "merged-session", "%s: the session is %s" % (what, s))
            else:
                ctx.check(s.sid not in app.sids, "merged-session", "%s: the session is %s" % (what, s))
        else:
            ctx.check(not merged, "merge", "%s merges %s" % (what, merged))
            ctx.check(s.sid not in app.sids and s.established == (ck == 'same'), "ctest-session", "%s: the session is %s" % (what, s))
            if ck == 'same':
                ctx.check(('establish', sid, s.sid) in r.log, "establish-hook", "%s: %s" % (what, r.log))
        app.sids.add(s.sid)
        ctx.nontrivial((what, value))


WORKLOADS = [
    Workload("history", case_history, 600, 6000),
    Workload("ctest", case_ctest, 300, 3000),
]
