"""C05: URI parsing, escaping and canonicalisation are lossless.

Oracle: URIs are generated from components, so the decomposition is known;
the generic syntax is also split with the regular expression of RFC 2396
appendix B.  Equality is decided on an independently computed key of the
components (case of scheme and host, default ports, unreserved escapes)."""

import re

from lib.harness import Workload
from lib import gen

META = dict(
    id="C05", title="URI parsing, escaping and canonicalisation are lossless",
    statement="Parsing a URI preserves its octets and decomposes it into exactly the components (scheme, authority, user info, host, port, path, query, fragment, opaque part, URN namespace and name) that reassemble it, and strings with characters a URI cannot contain are refused.  Escaping then unescaping any data is the identity and produces only allowed characters; canonicalisation is idempotent, equates exactly the URIs that differ only in insignificant ways, and agrees with comparison and hashing.  File URLs convert to file paths and back without loss.",
    quantifier=dict(over=["inputs"], text="every URI, every byte string and every file path"),
    why_tests_cant="tests use the RFC examples; loss shows for particular component combinations and octets",
    anchors=dict(files=["pyslet/rfc2396.py", "pyslet/urn.py", "pyslet/http/params.py"],
                 mechanism=[dict(name="URI.from_octets/canonicalize", where="pyslet/rfc2396.py"),
                            dict(name="escape_data/unescape_data/canonicalize_data", where="pyslet/rfc2396.py"),
                            dict(name="FileURL", where="pyslet/rfc2396.py"),
                            dict(name="URN", where="pyslet/urn.py"),
                            dict(name="HTTPURL", where="pyslet/http/params.py")],
                 observe_at=["attributes and str() of URI instances, comparison, hash, results of the escape functions"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: component-wise model, RFC regular expression and inverse-function oracles over generated URIs, data and paths"
LEVEL_NOTE = "Held on the URIs and data observed."
RULE = "each case is one URI, one family of equivalent URIs, one byte string or one path; distinct by the strings used"
MODULES = ["pyslet/rfc2396.py", "pyslet/urn.py", "pyslet/http/params.py"]
REQUIRE = {"uri": 3000, "pair": 5000, "equal-pair": 800, "data": 3000,
           "urn": 1000, "fileurl": 1000, "bad": 1000}

ALNUM = 'abcxyzABCXYZ0189'
UNRES = ALNUM + "-_.!~*'()"
RES = ";/?:@&=+$,[]"
RFC = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$',
                 re.S)


def chars(rng, alphabet, n, esc=0.15):
    out = []
    for i in range(n):
        if rng.random() < esc:
            b = gen.pick(rng, (0x2f, 0x25, 0x41, 0x7e, 0xe9, 0x3f, 0x23, 0,
                               0x2e, rng.randrange(256)))
            out.append(gen.pick(rng, ('%%%02X', '%%%02x')) % b)
        else:
            out.append(gen.pick(rng, alphabet))
    return ''.join(out)


def rscheme(rng, known=None):
    s = gen.pick(rng, known or ('x-pys', 'a', 'foo+bar', 'z.1-b', 'mail'))
    if rng.random() < 0.3:
        s = ''.join(c.upper() if rng.random() < 0.5 else c for c in s)
    return s


def rauthority(rng):
    """returns (userinfo, host, port) and the authority string"""
    user = None if rng.random() < 0.6 else chars(
        rng, UNRES + ';:&=+$,', rng.randint(0, 5))
    host = gen.pick(rng, ('h', 'example.com', 'WWW.Example.COM', '1.2.3.4',
                          '[::1]', 'localhost', 'a-b.c'))
    port = None if rng.random() < 0.5 else gen.pick(
        rng, ('80', '443', '8080', '', '080', '65535'))
    s = ''
    if user is not None:
        s += user + '@'
    s += host
    if port is not None:
        s += ':' + port
    return user, host, port, s


def rpath(rng):
    """absolute path, '' for none"""
    if rng.random() < 0.15:
        return ''
    n = rng.randint(1, 4)
    return ''.join('/' + (gen.pick(rng, ('.', '..', '')) if rng.random() < 0.15
                          else chars(rng, UNRES + ":@&=+$,;", rng.randint(0, 4)))
                   for i in range(n))


def rquery(rng):
    return None if rng.random() < 0.6 else chars(
        rng, UNRES + RES, rng.randint(0, 6))


def case_parse(ctx):
    from pyslet import rfc2396 as uri
    rng = ctx.rng
    kind = rng.randrange(6)
    scheme = authority = opaque = None
    user = host = port = None
    abspath = relpath = None
    query = rquery(rng)
    frag = rquery(rng)
    known = None
    if kind in (0, 1):
        known = kind == 0 and ('http', 'https') or None
        scheme = rscheme(rng, known)
        user, host, port, authority = rauthority(rng)
        p = rpath(rng)
        abspath = p or None
        s = '%s://%s%s' % (scheme, authority, p)
    elif kind == 2:
        scheme = rscheme(rng)
        abspath = rpath(rng) or '/'
        if abspath.startswith('//'):
            abspath = '/a' + abspath
        s = '%s:%s' % (scheme, abspath)
    elif kind == 3:
        scheme = rscheme(rng)
        opaque = gen.pick(rng, UNRES + ';:&=+$,') + chars(
            rng, UNRES + RES, rng.randint(0, 6))
        query = None
        s = '%s:%s' % (scheme, opaque)
    elif kind == 4:
        p = rpath(rng)
        if rng.random() < 0.4:
            user, host, port, authority = rauthority(rng)
            abspath = p or None
            s = '//%s%s' % (authority, p)
        else:
            abspath = p or '/'
            if abspath.startswith('//'):
                abspath = '/a' + abspath
            s = abspath
    else:
        n = rng.randint(0, 3)
        relpath = '/'.join(
            chars(rng, UNRES + "@&=+$,;" + (':' if i else ''),
                  rng.randint(1, 4)) for i in range(n))
        s = relpath
    if query is not None:
        s += '?' + query
    if frag is not None:
        s += '#' + frag
    ctx.witness(uri=s)
    ctx.nontrivial(s)
    ctx.count('uri')
    src = gen.pick(rng, (s, s.encode('ascii')))
    u = uri.URI.from_octets(src)
    want = dict(scheme=scheme, authority=authority, abs_path=abspath,
                rel_path=relpath, query=query, fragment=frag,
                opaque_part=opaque)
    got = {k: getattr(u, k) for k in want}
    ctx.check(got == want, 'components', "%r parsed as %r, expected %r" % (
        s, got, want))
    ctx.equal(str(u), s, 'octets', "str(URI)")
    ctx.equal(u.octets, s.split('#')[0], 'octets', ".octets")
    ctx.equal(u.is_absolute(), scheme is not None, 'absolute', s)
    if scheme is not None:
        ctx.equal(u.scheme_specific_part,
                  s.split('#')[0][len(scheme) + 1:], 'ssp', s)
    # RFC 2396 appendix B
    m = RFC.match(s)
    if opaque is None:
        path = u.abs_path if u.abs_path is not None else u.rel_path
        ctx.equal((u.scheme, u.authority, path or '', u.query, u.fragment),
                  (m.group(2), m.group(4), m.group(5), m.group(7),
                   m.group(9)), 'rfc-regex', s)
    if isinstance(u, uri.ServerBasedURL) and authority is not None:
        ctx.count('server')
        ctx.equal((u.userinfo, u.host, u.port), (user, host, port), 'server',
                  s)
        ctx.equal(u.get_addr(), (host, int(port) if port else
                                 u.DEFAULT_PORT), 'addr', s)
        ctx.equal(u.DEFAULT_PORT,
                  443 if scheme.lower() == 'https' else 80, 'port', s)
    if known:
        ctx.check(isinstance(u, uri.ServerBasedURL), 'class', s)
    if authority is not None:
        ctx.equal(uri.split_server(authority), (user, host, port), 'split',
                  authority)
    # file name
    path = abspath or relpath
    if path and opaque is None:
        name = path.split('/')[-1]
        try:
            wantname = unesc(name).decode('utf-8')
        except UnicodeDecodeError:
            wantname = None
        if wantname is not None:
            ctx.equal(u.get_file_name(), wantname, 'file-name', s)
    # extraction from text
    if frag is None:
        for tail in (' and', '<', '#x', '%zz', '%4', 'é', '"'):
            ctx.equal(uri.parse_uric(s + tail), len(s), 'parse_uric',
                      repr(s + tail))


def unesc(s):
    return re.sub(rb'%([0-9a-fA-F]{2})', lambda m: bytes(
        [int(m.group(1), 16)]), s.encode('ascii'))


def case_bad(ctx):
    from pyslet import rfc2396 as uri
    rng = ctx.rng
    base = gen.pick(rng, ('http://h/a/b?q', 'x:abc', 'a/b', '/p;x?y', 'a#f',
                          '//h/x', 'urn:isbn:123'))
    bad = gen.pick(rng, ' <>"{}|\\^`\t\n\x7f\x00')
    k = rng.randrange(3)
    if k == 0:
        bad = gen.pick(rng, ('%', '%4', '%zz', '%g1', '%1g', '%-1', '% 1'))
        s = base + bad
    elif k == 1:
        i = rng.randint(0, len(base))
        s = base[:i] + bad + base[i:]
    else:
        s = base + '#a#b'
    ctx.witness(uri=s)
    ctx.nontrivial(s)
    ctx.count('bad')
    ctx.raises(uri.URIException, lambda: uri.URI.from_octets(s), 'bad',
               repr(s))
    # characters outside ASCII: strict or UTF-8
    c = gen.pick(rng, 'é€ßŁ一𝄞ÿ\u0080')
    i = rng.randint(0, 3)
    t = 'x/yz'
    t = t[:i] + c + t[i:]
    ctx.raises(uri.URIException, lambda: uri.URI.from_octets(t, strict=True),
               'strict', repr(t))
    want = ''.join(x if ord(x) < 128 else ''.join(
        '%%%02X' % b for b in x.encode('utf-8')) for x in t)
    ctx.equal(str(uri.URI.from_octets(t)), want, 'encode-unicode', repr(t))
    urn = gen.pick(rng, ('urn:', 'urn:a', 'urn:-a:b', 'urn::b', 'urn:urn:x',
                         'urn:UrN:x', 'urn:/b', 'URN:a_b:c', 'urn:a:b&c',
                         'urn:a:[', 'urn:' + 'a' * 33 + ':x', 'urn:a:~'))
    ctx.raises(uri.URIException, lambda: uri.URI.from_octets(urn), 'bad-urn',
               repr(urn))


def case_escape(ctx):
    from pyslet import rfc2396 as uri
    rng = ctx.rng
    d = gen.data(rng, 40)
    tests = dict(
        default=(uri.is_reserved, set(RES)),
        r2396=(uri.is_reserved_2396, set(";/?:@&=+$,")),
        r1738=(uri.is_reserved_1738, set(";/?:@&=")),
        segment=(uri.is_path_segment_reserved, set("/;=?")),
        query=(uri.is_query_reserved, set(";/?:@&=+$,")),
        authority=(uri.is_authority_reserved, set(";:@?/")),
        none=(lambda c: False, set()))
    alloweds = dict(
        default=(uri.is_allowed, set(RES + "-_.!~*'()")),
        a2396=(uri.is_allowed_2396, set(";/?:@&=+$,-_.!~*'()")),
        a1738=(uri.is_allowed_1738, set(";/?:@&=$-_.+!*'(),")))
    ctx.witness(data=d)
    ctx.nontrivial(d)
    for name, (test, rset) in tests.items():
        for an, (allow, aset) in alloweds.items():
            ctx.count('data')
            e = uri.escape_data(d, test, allow)
            want = ''.join(
                chr(b) if (b < 128 and (chr(b).isalnum() or chr(b) in aset)
                           and chr(b) not in rset) else '%%%02X' % b
                for b in d)
            ctx.equal(e, want, 'escape', "%s/%s %r" % (name, an, d))
            ctx.equal(uri.unescape_data(e), d, 'unescape', repr(e))
            ctx.equal(uri.parse_uric(e, 0, allow), len(e), 'escape-allowed',
                      repr(e))
    ctx.equal(uri.escape_data(d), uri.escape_data(d, uri.is_reserved,
                                                  uri.is_allowed), 'escape')
    t = ''.join(chr(b) for b in d if b < 128)
    ctx.equal(uri.unescape_data(uri.escape_data(t)), t.encode(), 'escape-text',
              repr(t))
    if t != ''.join(chr(b) for b in d):
        ctx.raises(UnicodeEncodeError, lambda: uri.escape_data(
            d.decode('latin-1')), 'escape-nonascii', repr(d))
    # lenient unescaping loses nothing
    e = chars(rng, UNRES + RES + '%', rng.randint(0, 12), 0.3)
    out = uri.unescape_data(e)
    if '%' not in re.sub('%[0-9a-fA-F]{2}', '', e):
        ctx.equal(out, unesc(e), 'unescape', repr(e))
    else:
        n = len(re.findall('%[0-9a-fA-F]{2}', e))
        ctx.check(len(e) - 2 * n <= len(out), 'unescape-loses',
                  "%r -> %r" % (e, out))
    # canonicalisation of data
    e = chars(rng, UNRES + RES + ' <>"{}|\\^`\x01', rng.randint(0, 12), 0.4)
    c = uri.canonicalize_data(e)
    want = re.sub('%..', lambda m: (
        chr(int(m.group()[1:], 16)) if chr(int(m.group()[1:], 16)) in
        PLAIN else m.group().upper()), e)
    want = re.sub('[ <>"{}|\\\\^`\x01]', lambda m: '%%%02X' % ord(m.group()),
                  want)
    ctx.equal(c, want, 'canonicalize_data', repr(e))
    ctx.equal(uri.canonicalize_data(c), c, 'canonicalize_data-idempotent',
              repr(e))
    ctx.equal(uri.unescape_data(c), uri.unescape_data(e),
              'canonicalize_data-value', repr(e))
    keep = uri.canonicalize_data(e, lambda c: False)
    ctx.equal(uri.unescape_data(keep), uri.unescape_data(e),
              'canonicalize_data-value', repr(e))
    ctx.equal(len(re.findall('%', keep)), len(re.findall('%', e)) +
              len(re.findall('[ <>"{}|\\\\^`\x01]', e)),
              'canonicalize_data-keep', repr((e, keep)))


PLAIN = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
            "-_.!~*'()")


def normesc(s, plain=PLAIN):
    return re.sub('%..', lambda m: (
        chr(int(m.group()[1:], 16)) if chr(int(m.group()[1:], 16)) in
        plain else m.group().upper()), s)


def key(s):
    """independent identity of a URI string (no opaque http)"""
    m = RFC.match(s)
    scheme, auth, path, query, frag = m.group(2, 4, 5, 7, 9)
    sl = scheme.lower() if scheme else None
    if sl in ('http', 'https', 'file') and auth is not None:
        dp = dict(http='80', https='443').get(sl)
        user = None
        if '@' in auth:
            user, auth = auth.split('@', 1)
        pm = re.match('^(.*):([0-9]*)$', auth)
        port = None
        if pm:
            auth, port = pm.groups()
        if port:
            port = str(int(port))
        if not port or port == dp:
            port = None
        auth = (user, auth.lower(), port)
        if sl != 'file':
            path = normesc(path) or '/'
            query = None if query is None else normesc(query)
        return (sl, auth, path, query, frag)
    if sl == 'urn':
        nid, nss = path.split(':', 1)
        if query is not None:
            nss += '?' + query
        return (sl, nid.lower(), normesc(nss, ()))
    return (sl, auth, path, query, frag or None)


def vary(rng, s):
    """A variation of s, perhaps insignificant"""
    k = rng.randrange(9)
    if k == 0:
        m = RFC.match(s)
        if m.group(2):
            return m.group(2).swapcase() + s[len(m.group(2)):]
    elif k == 1:
        m = RFC.match(s)
        if m.group(4):
            i, j = m.span(4)
            return s[:i] + m.group(4).swapcase() + s[j:]
    elif k == 2:
        m = RFC.match(s)
        if m.group(4) and '@' not in m.group(4) and ':' not in m.group(4):
            j = m.end(4)
            return s[:j] + gen.pick(rng, (':80', ':', ':443', ':080')) + s[j:]
    elif k == 3:
        i = rng.randrange(len(s))
        m = RFC.match(s)
        a, b = m.span(5)
        if a <= i < b and s[i] in PLAIN and '%' not in s[max(0, i - 2):i]:
            return s[:i] + '%%%02x' % ord(s[i]) + s[i + 1:]
    elif k == 4:
        return re.sub('%..', lambda m: m.group().swapcase(), s)
    elif k == 5:
        m = RFC.match(s)
        if not m.group(5) and m.group(4):
            j = m.end(4)
            return s[:j] + '/' + s[j:]
    elif k == 6:
        m = RFC.match(s)
        a, b = m.span(5)
        return s[:a] + s[a:b].swapcase() + s[b:]
    elif k == 7:
        m = RFC.match(s)
        if '%2F' in s[m.start(5):]:
            return s.replace('%2F', '/')
    return s + 'x' if '?' in s or '#' in s else s + '?'


def case_canon(ctx):
    from pyslet import rfc2396 as uri
    rng = ctx.rng
    kind = rng.randrange(7)
    if kind < 3:
        s = '%s://%s%s' % (rscheme(rng, ('http', 'https')),
                           rauthority(rng)[3], rpath(rng))
    elif kind == 3:
        s = '%s://%s%s' % (rscheme(rng, ('file',)), rauthority(rng)[3],
                           rpath(rng))
    elif kind == 4:
        s = '%s:%s:%s' % (rscheme(rng, ('urn',)),
                          gen.pick(rng, ('isbn', 'x-A', 'A1')),
                          chars(rng, ALNUM + "()+,-.:=@;$_!*'/?", 5, 0.3))
    elif kind == 5:
        s = rscheme(rng) + ':' + (rpath(rng) or 'ab')
    else:
        s = '/a' + rpath(rng)
    if kind != 4:
        q, f = rquery(rng), gen.pick(rng, (None, 'f', 'F'))
        s += ('' if q is None else '?' + q) + ('' if f is None else '#' + f)
    fam = [s]
    for i in range(5):
        t = fam[rng.randrange(len(fam))]
        v = vary(rng, t)
        if kind == 4 and ('#' in v or v.count(':') < 2 or
                          '%' in v.split(':')[1]):
            continue
        fam.append(v)
    ctx.witness(family=fam)
    ctx.nontrivial(fam)
    us = [uri.URI.from_octets(t) for t in fam]
    for t, u in zip(fam, us):
        c = u.canonicalize()
        ctx.equal(str(c.canonicalize()), str(c), 'idempotent', t)
        ctx.check(key(str(c)) == key(t), 'canonical-value',
                  "%s canonicalised to %s" % (t, c))
        ctx.check(c == u and u.match(c) and type(c) is type(u),
                  'canonical-equal', "%s %s" % (t, c))
        ctx.check(u == t, 'string-equal', t)
        ctx.equal(str(u), t, 'unchanged', t)
        root = u.get_canonical_root() if kind not in (4, 6) else None
        if root is not None:
            m = RFC.match(t)
            k = key('%s://%s' % (m.group(2), m.group(4))) if m.group(
                4) is not None else (m.group(2).lower(), None, '', None, None)
            ctx.equal(key(str(root)), k, 'root', t)
    for t, u in zip(fam, us):
        for t2, u2 in zip(fam, us):
            ctx.count('pair')
            same = key(t) == key(t2)
            ctx.check((u == u2) == same and (u != u2) == (not same),
                      'equality', "%s == %s: %r, expected %r" % (
                          t, t2, u == u2, same))
            if same:
                if t != t2:
                    ctx.count('equal-pair')
                ctx.check(hash(u) == hash(u2), 'hash', "%s %s" % (t, t2))
            ctx.check((u < u2) + (u == u2) + (u > u2) == 1 and
                      (u <= u2) == (not u > u2) and
                      (u >= u2) == (not u < u2), 'order',
                      "%s %s" % (t, t2))


def case_urn(ctx):
    from pyslet import rfc2396 as uri
    from pyslet import urn
    rng = ctx.rng
    nid = gen.pick(rng, ALNUM) + gen.text(rng, 20, ALNUM + '-')
    if nid.lower() == 'urn':
        nid = 'x'
    t = gen.text(rng, 10, gen.pick(rng, (gen.ASCII, gen.UNI + 'ab%',
                                         "()+,-.:=@;$_!*'%/?#")))
    nss = urn.translate_to_urnchar(t)
    ctx.witness(nid=nid, text=t)
    ctx.nontrivial((nid, t))
    ctx.count('urn')
    plain = set(ALNUM) | PLAIN - set('~') | set("()+,-.:=@;$_!*'")
    want = ''.join(c if c in plain else ''.join(
        '%%%02X' % b for b in c.encode('utf-8')) for c in t)
    ctx.equal(nss, want, 'urn-translate', repr(t))
    ctx.equal(urn.translate_from_urnchar(nss), t, 'urn-roundtrip', repr(t))
    ctx.equal(urn.translate_to_urnchar(t.encode('utf-8')), nss,
              'urn-translate', "from bytes %r" % t)
    x = urn.translate_to_urnchar(t, lambda c: c in '.:')
    ctx.check('.' not in x and ':' not in x, 'urn-reserved', repr(x))
    ctx.equal(urn.translate_from_urnchar(x), t, 'urn-roundtrip', repr(t))
    u = urn.URN(nid=nid, nss=nss)
    v = uri.URI.from_octets('urn:%s:%s' % (nid, nss))
    ctx.check(type(v) is urn.URN, 'urn-class', str(v))
    ctx.equal((v.nid, v.nss, str(v)), (nid, nss, str(u)), 'urn-parse', nss)
    ctx.check(u == v and hash(u) == hash(v), 'urn-equal', str(u))
    w = uri.URI.from_octets('URN:%s:%s' % (nid.swapcase(), re.sub(
        '%..', lambda m: m.group().lower(), nss)))
    ctx.check(u == w and hash(u) == hash(w), 'urn-lexical',
              "%s %s" % (u, w))
    for bad in ('a%', 'a%4', '%zz', '%+1', '% 1', 'a b', '%00', 'a<'):
        ctx.raises(ValueError, lambda: urn.translate_from_urnchar(bad),
                   'urn-bad', bad)
    ctx.raises(ValueError, lambda: urn.translate_to_urnchar('a\x00'),
               'urn-zero')


def case_file(ctx):
    from pyslet import rfc2396 as uri
    from pyslet import vfs
    rng = ctx.rng
    n = rng.randint(0, 4)
    segs = []
    for i in range(n):
        s = gen.text(rng, 8, gen.pick(rng, (gen.ASCII, gen.UNI + 'ab',
                                            '%2F;?#:.~a')), 1)
        s = s.replace('/', '_').replace('\x00', '_')
        if s in ('.', '..'):
            s = 'dot'
        segs.append(s)
    dirlike = rng.random() < 0.3 and n > 0
    p = '/' + '/'.join(segs) + ('/' if dirlike else '')
    ctx.witness(path=p)
    ctx.nontrivial(p)
    ctx.count('fileurl')
    want = 'file:///' + '/'.join(segescape(s) for s in segs) + (
        '/' if dirlike else '')
    u = uri.URI.from_path(p)
    ctx.check(isinstance(u, uri.FileURL), 'file-class', repr(u))
    ctx.equal(str(u), want, 'file-url', p)
    got = u.get_pathname()
    if isinstance(got, bytes):
        got = got.decode('utf-8')
    ctx.equal(got, p, 'file-roundtrip', str(u))
    got = u.get_pathname(force8bit=True)
    ctx.equal(got, p.encode('utf-8'), 'file-8bit', str(u))
    vp = vfs.OSFilePath(p)
    ctx.equal(str(uri.URI.from_virtual_path(vp)), want, 'virtual-url', p)
    ctx.check(u.get_virtual_file_path() == vp, 'virtual-roundtrip', str(u))
    ctx.equal(u.get_file_name(), '' if (dirlike or not segs) else segs[-1],
              'file-name', p)
    v = uri.URI.from_octets(str(u))
    ctx.check(v == u and type(v) is uri.FileURL, 'file-parse', str(u))
    loc = uri.URI.from_octets(str(u).replace('file:///', 'file://localhost/'))
    ctx.equal(loc.host, 'localhost', 'file-host')
    ctx.raises((ValueError, uri.URIException), lambda: uri.URI.from_octets(
        'file://unknown.host/x').get_pathname(), 'file-unknown-host')


def segescape(s):
    """what may not stand for itself in a path segment"""
    ok = set("-_.!~*'()" ":@&+$,[]")
    return ''.join(chr(b) if b < 128 and (chr(b).isalnum() or chr(b) in ok)
                   else '%%%02X' % b for b in s.encode('utf-8'))


WORKLOADS = [
    Workload('parse', case_parse, 6000, 120000),
    Workload('bad', case_bad, 2000, 20000),
    Workload('escape', case_escape, 1200, 20000),
    Workload('canon', case_canon, 2500, 40000),
    Workload('urn', case_urn, 2000, 20000),
    Workload('file', case_file, 2000, 20000),
]
