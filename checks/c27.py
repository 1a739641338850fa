"""C27: credentials stay in their protection space.

Oracle: a server for several origins which records what each request
carries, and a model of which credentials apply to what."""

import base64
import socket
import threading

from lib.harness import Workload
from lib import gen, wire

META = dict(
    id="C27", title="Credentials are only sent inside their protection space",
    statement="A client sends credentials only to the scheme, host and port they were set up for: in answer to a Basic challenge for their realm (any, if they have none), or unasked for URLs at or below the folder of a path where they succeeded before.  A request refused with 401 is repeated with credentials that match a challenge, at most once with each; credentials refused again are dropped and others tried, and the 401 is delivered when none are left.  An Authorization header is never carried to another host, port or scheme by a redirect, and credentials added for one client are sent exactly as given.",
    quantifier=dict(over=["histories"], text="all histories of requests, challenges and redirects"),
    why_tests_cant="tests challenge one URL of one host once",
    anchors=dict(files=["pyslet/http/auth.py", "pyslet/http/client.py", "pyslet/http/messages.py"],
                 mechanism=[dict(name="Credentials.match_challenge, BasicCredentials.test_url, add_success_path", where="pyslet/http/auth.py"),
                            dict(name="ClientRequest.send_header, finished, resend; Client.find_credentials", where="pyslet/http/client.py")],
                 observe_at=["Authorization headers received by the servers, final responses"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated sites, challenges and redirects; every Authorization header on the wire is judged by an online model"
LEVEL_NOTE = "Held on the histories observed."
RULE = "each case is a history of requests; distinct by its text"
MODULES = ["pyslet/http/auth.py", "pyslet/http/client.py"]
REQUIRE = {"requests on the wire": 1500, "challenges": 400, "credentials sent": 500, "sent unasked": 150, "redirects": 100, "to another origin": 40, "paths": 5000, "refused": 60, "matches": 2000}

HOSTS = ('one.example.com', 'two.example.com', 'localhost')
PATHS = ('/', '/a', '/a/', '/a/x', '/a/y', '/a/b/x', '/a/b/', '/b', '/b/x', '/ab/x', '/a/../b/x', '/a//x', '/a//b/x', '/x', '/a/b/c/d', '/a/./x')


class Site(object):

    """several origins on one or two ports.  answer(host, port, path, auth)
    gives (status, headers)"""

    def __init__(self, nports, answer):
        self.answer = answer
        self.lock = threading.Lock()
        self.log = []
        self.bad = []
        self.stopping = False
        self.socks = []
        self.conns = []
        for i in range(nports):
            s = socket.socket()
            s.bind(('127.0.0.1', 0))
            s.listen(32)
            self.socks.append(s)
            threading.Thread(target=self.accept, args=(s,), daemon=True).start()
        self.ports = [s.getsockname()[1] for s in self.socks]

    def stop(self):
        self.stopping = True
        for s in self.socks + self.conns:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            try:
                s.close()
            except OSError:
                pass

    def accept(self, s):
        port = s.getsockname()[1]
        while not self.stopping:
            try:
                c, a = s.accept()
            except OSError:
                return
            self.conns.append(c)
            threading.Thread(target=self.serve, args=(c, port), daemon=True).start()

    def serve(self, c, port):
        buf = b''
        try:
            while True:
                while b'\r\n\r\n' not in buf:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                start, headers, pos = wire.split_head(buf)
                while True:
                    try:
                        m = wire.read_message(buf)
                        break
                    except wire.Framing:
                        d = c.recv(65536)
                        if not d:
                            raise
                        buf += d
                buf = buf[m['end']:]
                method, path, version = start.decode('latin-1').split(' ')
                host = [v for k, v in headers if k.lower() == b'host'][0].decode('latin-1')
                auth = [v for k, v in headers if k.lower() == b'authorization']
                with self.lock:
                    status, hs = self.answer(host.split(':')[0].lower(), port, path, auth)
                    self.log.append((host.split(':')[0].lower(), port, path, auth, status, method))
                c.sendall(('HTTP/1.1 %d X\r\nContent-Length: 0\r\n%s\r\n' % (status, ''.join(h + '\r\n' for h in hs))).encode('latin-1'))
        except (OSError, ValueError, IndexError, wire.Framing) as e:
            if not self.stopping:
                self.bad.append("%s: %s %r" % (type(e).__name__, e, buf[:200]))
        finally:
            c.close()


def normalise(path):
    """segments of a path with dots removed"""
    out = []
    segs = path.split('/')[1:]
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..':
            if out:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return out


def folder(path):
    return normalise(path or '/')[:-1]


def covered(path, folders):
    """whether the path is in one of the folders, None if undecided"""
    n = normalise(path or '/')
    return any(n[:len(f)] == f and len(n) > len(f) for f in folders)


def b64(u, p):
    return base64.b64encode(('%s:%s' % (u, p)).encode('latin-1')).decode('ascii')


def site_case(ctx):
    from pyslet.http import client as http, auth
    from pyslet.rfc2396 import URI
    rng = ctx.rng
    realms = {}           # (host, port, path) -> (realm, user) or None
    redirects = {}        # (host, port, path) -> url
    users = {}            # (host, port, realm) -> userid:password accepted
    nports = gen.pick(rng, (1, 2))
    extra = {}

    def answer(host, port, path, got):
        k = (host, port, path)
        realm = realms.get(k)
        if realm is not None:
            want = users.get((host, port, realm))
            if not (got and want and got[-1] == b'Basic ' + want.encode('ascii')):
                hs = []
                if extra.get(k) == 'digest':
                    hs.append('WWW-Authenticate: Digest realm="%s", nonce="x", qop="auth,auth-int"' % realm)
                elif extra.get(k) == 'other':
                    hs.append('WWW-Authenticate: Basic realm="other"')
                if extra.get(k) == 'nochallenge':
                    return 401, []
                if extra.get(k) == 'onlydigest':
                    return 401, ['WWW-Authenticate: Digest realm="%s", nonce="x"' % realm]
                hs.append('WWW-Authenticate: %s realm="%s"' % (gen.pick(rng, ('Basic', 'Basic', 'basic')), realm))
                if extra.get(k) == 'fold':
                    hs = ['WWW-Authenticate: Digest realm="%s", nonce="x", Basic realm="%s", New realm="z"' % (realm, realm)]
                return 401, hs
        if k in redirects:
            return 302, ['Location: ' + redirects[k]]
        return 200, []

    site = Site(nports, answer)
    ctx.cleanup(site.stop)
    spaces = [(h, p) for h in HOSTS for p in site.ports]
    rnames = ('R1', 'R 2', 'r1', 'Äé')
    paths = [gen.pick(rng, PATHS) for i in range(8)]
    for h, p in spaces:
        zone = [gen.pick(rng, (None, 'R1', 'R1', 'R 2', 'Äé')) for i in range(4)]
        for path in set(paths):
            realms[(h, p, path)] = zone[folder_key(path) % 4]
            if rng.random() < 0.3:
                extra[(h, p, path)] = gen.pick(rng, ('digest', 'other', 'nochallenge', 'onlydigest', 'fold'))
        for r in rnames:
            if rng.random() < 0.8:
                users[(h, p, r)] = b64(gen.pick(rng, ('u', 'user', 'ü')), gen.pick(rng, ('p', 'a:b', '', 'pé')))
    for i in range(rng.randrange(4)):
        s, t = gen.pick(rng, spaces), gen.pick(rng, spaces)
        redirects[s + (gen.pick(rng, paths),)] = 'http://%s:%d%s' % (t + (gen.pick(rng, paths),))
    real = socket.getaddrinfo

    def resolve(host, *args, **kw):
        h = host.decode() if isinstance(host, bytes) else host
        return real('127.0.0.1' if h.lower() in HOSTS else host, *args, **kw)

    socket.getaddrinfo = resolve
    try:
        client = http.Client()
        ctx.cleanup(client.close)
        creds = []
        for i in range(rng.randrange(1, 5)):
            h, p = gen.pick(rng, spaces)
            realm = gen.pick(rng, (None, None, 'R1', 'R 2', 'Äé'))
            good = users.get((h, p, realm or gen.pick(rng, rnames)))
            tok = good if good and rng.random() < 0.75 else b64('bad', 'bad%d' % i)
            c = auth.BasicCredentials()
            space = URI.from_octets('http://%s:%d/x?y' % (h if rng.random() < 0.7 else h.upper(), p)).get_canonical_root()
            c.protectionSpace = space if rng.random() < 0.8 else str(space)
            c.realm = realm
            c.userid, c.password = base64.b64decode(tok).decode('latin-1').split(':', 1)
            client.add_credentials(c)
            creds.append(dict(space=(h, p), realm=realm, tok=tok, ok=[], live=True))
        history = []
        world = dict(realms={'%s:%d%s' % k: (v, extra.get(k)) for k, v in realms.items() if v}, users=repr(users), redirects={'%s:%d%s' % k: v for k, v in redirects.items()},
                     creds=[{k: repr(v) for k, v in c.items()} for c in creds])
        for step in range(14):
            h, p = gen.pick(rng, spaces)
            path = gen.pick(rng, paths)
            url = 'http://%s:%d%s' % (h if rng.random() < 0.8 else h.upper(), p, path)
            own = None
            method = gen.pick(rng, ('GET', 'GET', 'HEAD', 'POST'))
            history.append((method, url))
            n = len(site.log)
            request = http.ClientRequest(url, method, entity_body=b'body' if method == 'POST' else None)
            if rng.random() < 0.1:
                own = b64('own', 'o')
                a = auth.BasicCredentials()
                a.set_basic_credentials(own)
                request.set_authorization(a)
                history[-1] += ('own',)
            ctx.witness(world=world, history=history)
            client.process_request(request)
            with site.lock:
                seen = site.log[n:]
            ctx.check(seen, 'lost', "nothing sent for %s: status %s, %s" % (url, request.status, request.error))
            if request.status == 0 and request.error: raise request.error
            ctx.check(not site.bad, 'unreadable', "%s" % site.bad)
            tried = set()
            prev = None
            origin = None
            keep = None          # what a request may carry on from the last
            for host, port, pth, got, status, meth in seen:
                ctx.count("requests on the wire")
                here = (host, port)
                ctx.check(len(got) <= 1, 'several', "several Authorization headers")
                what = "to %s:%d%s (%d of the requests made for %s)" % (host, port, pth, seen.index((host, port, pth, got, status, meth)) + 1, url)
                if prev is not None and prev['here'] != here:
                    own = keep = None
                    tried = set()
                    ctx.count("to another origin")
                if prev is not None and prev['used'] is not None:
                    settle(ctx, prev)
                tok = None
                if got:
                    ctx.check(got[0].startswith(b'Basic '), 'scheme', "Authorization %r %s" % (got[0], what))
                    tok = got[0][6:].decode('latin-1')
                    ctx.count("credentials sent")
                used = None
                if prev is not None and prev['status'] == 401:
                    # a repeat with matching credentials
                    ctx.check(prev['path'] == pth and prev['here'] == here and meth == prev['meth'], 'repeat', "a 401 for %s was followed by a request %s" % (prev['path'], what))
                    cands = [c for c in creds if c['live'] and c['space'] == here and c['tok'] == tok and (c['realm'] is None or c['realm'] in prev['offers'])]
                    ctx.check(cands, 'challenge', "Authorization %r %s, which none of the credentials for its challenges %r give" % (tok, what, prev['offers']))
                    used = cands[0]
                    tried.add(id(used))
                elif tok is not None and tok == own or tok is not None and tok == keep:
                    pass
                elif tok is not None:
                    cands = [c for c in creds if c['live'] and c['space'] == here and c['tok'] == tok]
                    ctx.check(cands, 'space', "Authorization %r sent unasked %s" % (tok, what))
                    cands = [c for c in cands if covered(pth, c['ok'])]
                    ctx.check(cands, 'prefix', "Authorization %r sent unasked %s, but it succeeded in %s only" % (
                        tok, what, [c['ok'] for c in creds if c['tok'] == tok and c['space'] == here]))
                    ctx.count("sent unasked")
                elif prev is None and own is None:
                    c = [c for c in creds if c['live'] and c['space'] == here and covered(pth, c['ok']) and '//' not in pth]
                    ctx.check(not c, 'unasked', "no Authorization %s though credentials succeeded in %s" % (what, [x['ok'] for x in c]))
                offers = []
                if status == 401:
                    ctx.count("challenges")
                    x = extra.get((host, port, pth))
                    r = realms[(host, port, pth)]
                    offers = [] if x in ('nochallenge', 'onlydigest') else [r, 'other'] if x == 'other' else [r]
                if status == 302:
                    ctx.count("redirects")
                prev = dict(here=here, path=pth, status=status, offers=offers, used=used, meth=meth, tried=set(tried))
                keep = tok
            # nothing was left to try
            if prev['used'] is not None:
                settle(ctx, prev)
            if prev['status'] == 401:
                left = [c for c in creds if c['live'] and c['space'] == prev['here'] and (c['realm'] in prev['offers'] or (c['realm'] is None and prev['offers']))]
                ctx.check(not left, 'untried', "401 for %s:%d%s delivered though %s could be tried" % (prev['here'] + (prev['path'], left)))
                ctx.count("refused")
            if not (prev['status'] == 302 and method == 'POST'):
                ctx.equal(request.status, prev['status'], 'status', "status of %s" % url)
        ctx.nontrivial(repr(history) + repr(world))
    finally:
        socket.getaddrinfo = real


def settle(ctx, p):
    """the outcome of trying credentials"""
    if p['status'] == 401:
        p['used']['live'] = False
    else:
        p['used']['ok'].append(folder(p['path']))


def folder_key(path):
    import zlib
    return zlib.crc32('/'.join(folder(path)).encode())


SEGS = ('a', 'b', 'ab', '.', '..', '', 'A', 'a%20b')


def path_case(ctx):
    from pyslet.http import auth
    from pyslet.rfc2396 import URI
    rng = ctx.rng
    for _ in range(30):
        c = auth.BasicCredentials()
        c.protectionSpace = URI.from_octets('http://h.example.com')
        c.realm = None
        c.userid, c.password = 'u', 'p'
        good = []
        for i in range(rng.randrange(1, 5)):
            p = '/' + '/'.join(gen.pick(rng, SEGS if rng.random() < 0.3 else SEGS[:3]) for k in range(gen.pick(rng, (1, 2, 3, 4))))
            if rng.random() < 0.1:
                p = gen.pick(rng, ('', '/'))
            c.add_success_path(p)
            good.append(p)
        ctx.witness(succeeded=good)
        ctx.nontrivial(repr(good))
        folders = [folder(p) for p in good]
        for i in range(8):
            p = '/' + '/'.join(gen.pick(rng, SEGS if rng.random() < 0.3 else SEGS[:3]) for k in range(gen.pick(rng, (1, 2, 3, 4))))
            if rng.random() < 0.3:
                p = gen.pick(rng, good) + gen.pick(rng, ('', '/', '/a', 'x', '/..', '/../a'))
            if not p.startswith('/'):
                continue
            host = gen.pick(rng, ('http://h.example.com',) * 4 + ('http://H.EXAMPLE.com', 'http://h.example.com:80', 'http://h.example.com:8080', 'https://h.example.com', 'http://x.h.example.com',
                                                                  'http://u@h.example.com', 'http://h.example.com.evil.org', 'http://h.example.co'))
            ctx.count("paths")
            want = covered(p, folders)
            space = host in ('http://h.example.com', 'http://H.EXAMPLE.com', 'http://h.example.com:80')
            ctx.witness(succeeded=good, url=host + p)
            if host == 'http://u@h.example.com':
                continue
            try:
                url = URI.from_octets(host + p)
            except ValueError:
                continue
            got = bool(c.test_url(url))
            ctx.equal(bool(c.match(url=url)), got, 'paths:match', "match() and test_url() of %s%s" % (host, p))
            if got and not (want and space):
                ctx.fail('paths:leak', "%s%s after success at %s" % (host, p, good))
            # whether a path climbing above the root is covered is undecided
            if '..' not in p and not any('..' in g for g in good):
                ctx.equal(got, want and space, 'paths', "whether %s%s is covered after success at %s" % (host, p, good))
    for _ in range(30):
        c = auth.BasicCredentials()
        space, realm = gen.pick(rng, ('http://a.com', 'http://b.com', 'https://a.com')), gen.pick(rng, (None, 'x', 'X', 'é'))
        c.protectionSpace = URI.from_octets(space)
        c.realm = realm
        cspace, crealm = gen.pick(rng, ('http://a.com', 'http://b.com')), gen.pick(rng, ('x', 'X', 'é', 'Default'))
        scheme = gen.pick(rng, ('Basic', 'Basic', 'Basic', 'Digest'))
        if rng.random() < 0.5:
            ch = auth.Challenge.from_str(b'%s realm="%s"' % (scheme.encode(), crealm.encode('latin-1')))
        elif scheme == 'Basic':
            ch = auth.BasicChallenge(('realm', crealm, True))
        else:
            ch = auth.Challenge(scheme, ('realm', crealm, True))
        ch.protectionSpace = URI.from_octets(cspace)
        want = scheme == 'Basic' and space == cspace and realm in (None, crealm)
        ctx.witness(space=space, realm=realm, challenge=str(ch), cspace=cspace)
        ctx.count("matches")
        ctx.equal(bool(c.match_challenge(ch)), want, 'match', "whether credentials for %s %r match %s of %s" % (space, realm, ch, cspace))
        ctx.equal(bool(c.match(challenge=ch)), want, 'match', "match(): whether credentials for %s %r match %s of %s" % (space, realm, ch, cspace))


WORKLOADS = [
    Workload("sites", site_case, quick=500, thorough=6000, blocked=True),
    Workload("paths", path_case, quick=200, thorough=1500),
]
