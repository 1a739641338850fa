"""C21: HTTP header values.

Oracle: lib/hdr.py, an independent reading of RFC 2616's grammar."""

from lib.harness import Workload
from lib import gen, hdr

META = dict(
    id="C21", title="HTTP header values round-trip and bad syntax is rejected",
    statement="Every header value a message can carry (HTTP versions, dates in the three formats, media types and ranges, accept lists, language tags, entity tags, product tokens, transfer and content codings, chunk headers, Allow, Accept-Ranges, Cache-Control and Content-Range values, challenges and basic credentials, lengths and digests) is read as RFC 2616's grammar says, however it is folded and spaced; the object it makes formats to text that parses back to an equal object, equal objects hash alike, and setting a header from an object and getting it again gives an equal object.  Values outside the grammar raise a syntax error (BadSyntax, ParserError, ProtocolError for impossible transfer codings) and nothing else.",
    quantifier=dict(over=["inputs"], text="all values of the grammar and corruptions of them"),
    why_tests_cant="tests read a few dozen values, hardly any of them malformed or with awkward characters",
    anchors=dict(files=["pyslet/http/grammar.py", "pyslet/http/params.py", "pyslet/http/messages.py", "pyslet/http/auth.py"],
                 mechanism=[dict(name="OctetParser, WordParser, quote_string, format_parameters", where="pyslet/http/grammar.py"),
                            dict(name="ParameterParser and the parameter classes", where="pyslet/http/params.py"),
                            dict(name="HeaderParser, header getters and setters of Message, Request and Response", where="pyslet/http/messages.py"),
                            dict(name="Challenge, BasicCredentials", where="pyslet/http/auth.py")],
                 observe_at=["attributes and text of the value objects, exceptions"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated and corrupted header values judged by an independent recogniser, round-trip and exception monitors"
LEVEL_NOTE = "Held on the values observed."
RULE = "each case is a batch of values; distinct by their text"
MODULES = ["pyslet/http/grammar.py", "pyslet/http/params.py", "pyslet/http/messages.py", "pyslet/http/auth.py"]
REQUIRE = {"valid": 6000, "malformed": 3000, "objects": 6000, "dates": 800, "messages": 500}

DAYS = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
WEEKDAYS = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday')
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')
TOKENS = ('text', 'plain', 'x', 'charset', 'utf-8', 'gzip', 'a.b+c', '1', 'Q', "it's", '!#$%&', '~', '*x', 'q0', 'W', 'html', 'bytes', 'chunked', '0x1F')


def token(rng):
    if rng.random() < 0.7:
        return gen.pick(rng, TOKENS)
    return gen.text(rng, 6, hdr.TCHARS, 1)


def alpha(rng):
    return gen.text(rng, gen.pick(rng, (2, 3, 8)), 'abcxyzENUSgb', 1)


def qtext(rng):
    """the bytes of a quoted string's value"""
    c = rng.random()
    if c < 0.15:
        return b''
    if c < 0.3:
        return token(rng).encode('ascii')
    if c < 0.7:
        return gen.text(rng, 8, 'ab "\\,;=()/<>@\t é\xff', 0).encode('latin-1')
    return bytes(rng.randrange(256) for i in range(rng.randrange(8)))


def quote(rng, v):
    out = bytearray(b'"')
    for b in v:
        if b in b'"\\' or (b < 32 and b != 9) or b == 127:
            out += b'\\' + bytes((b,))
        elif b < 128 and rng.random() < 0.05:
            out += b'\\' + bytes((b,))
        else:
            out.append(b)
    return bytes(out) + b'"'


def ws(rng, need=False, none=False):
    if none:
        return b''
    c = rng.random()
    if c < 0.6:
        return b' ' if need else b''
    return gen.pick(rng, (b' ', b'  ', b'\t', b'\r\n ', b' \r\n\t', b'\r\n  '))


def value(rng):
    if rng.random() < 0.5:
        return token(rng).encode('ascii')
    return quote(rng, qtext(rng))


def params(rng, strict=False, optional=False, names=None):
    out = b''
    seen = {'q'}
    for i in range(gen.pick(rng, (0, 0, 1, 2, 3))):
        n = gen.pick(rng, names) if names else token(rng)
        if n.lower() in seen:
            continue
        seen.add(n.lower())
        out += ws(rng) + b';' + ws(rng) + n.encode('ascii')
        if optional and rng.random() < 0.3:
            continue
        out += ws(rng, none=strict) + b'=' + ws(rng, none=strict) + value(rng)
    return out


def comma_list(rng, item, n=None):
    n = rng.randrange(1, 4) if n is None else n
    out = []
    for i in range(n):
        out.append(ws(rng) + item(rng) + ws(rng))
        if rng.random() < 0.08:
            out.append(ws(rng))
    return b','.join(out)


def qpart(rng):
    if rng.random() < 0.5:
        return b''
    q = gen.pick(rng, ('0', '1', '0.5', '0.25', '0.125', '1.0', '1.000', '0.0', '0.001', '0.', '1.', '0.80'))
    return ws(rng) + b';' + ws(rng) + gen.pick(rng, (b'q', b'Q')) + ws(rng) + b'=' + ws(rng) + q.encode()


def g_media_type(rng):
    return ws(rng) + token(rng).encode() + b'/' + token(rng).encode() + params(rng, True) + ws(rng)


def g_range(rng):
    t = gen.pick(rng, ('*/*', 'text/*', 'image/*', None, None))
    if t is None:
        t = token(rng) + '/' + token(rng)
    a, b = t.split('/')
    return a.encode() + ws(rng) + b'/' + ws(rng) + b.encode() + params(rng)


def g_accept(rng):
    def item(rng):
        q = qpart(rng)
        return g_range(rng) + q + (params(rng, optional=True) if q else b'')
    return comma_list(rng, item)


def g_tokens(rng):
    return comma_list(rng, lambda r: (token(r) if r.random() < 0.9 else '*').encode() + qpart(r))


def g_lang(rng):
    return '-'.join(alpha(rng) for i in range(gen.pick(rng, (1, 1, 2, 3)))).encode()


def g_langs(rng):
    return comma_list(rng, lambda r: (g_lang(r) if r.random() < 0.9 else b'*') + qpart(r))


def g_tokenlist(rng):
    return comma_list(rng, lambda r: token(r).encode())


def g_te(rng):
    t = token(rng)
    return t.encode() + (b'' if t.lower() == 'chunked' else params(rng))


def g_chunk(rng):
    return (b'%x' if rng.random() < 0.5 else b'%X') % gen.pick(rng, (0, 1, 10, 255, 65535, rng.getrandbits(40))) + params(rng, optional=True)


def g_product(rng):
    t = token(rng).encode()
    if rng.random() < 0.7:
        t += ws(rng) + b'/' + ws(rng) + gen.pick(rng, ('1.0', '2.17b3', '1', '0.8.30', 'a', token(rng))).encode()
    return t


def g_products(rng):
    return b' '.join(g_product(rng) for i in range(rng.randrange(1, 4)))


def g_etag(rng):
    return (b'W/' if rng.random() < 0.5 else b'') + quote(rng, qtext(rng))


def g_version(rng):
    return b'HTTP/%d.%d' % (gen.pick(rng, (0, 1, 1, 2, 12)), gen.pick(rng, (0, 1, 9, 25)))


def g_content_range(rng):
    a = rng.randrange(1000)
    return (b'bytes ' + ws(rng) + (b'*' if rng.random() < 0.3 else b'%d-%d' % (a, a + rng.randrange(-1, 1000))) + ws(rng) + b'/' + ws(rng) +
            (b'*' if rng.random() < 0.3 else b'%d' % rng.randrange(3000)))


def g_cc(rng):
    seen = set()

    def item(rng):
        while True:
            c = gen.pick(rng, ('no-store', 'no-cache', 'private', 'max-age', 'max-stale', 's-maxage', 'min-fresh', 'public', 'x1', 'x2', 'x3'))
            if c not in seen:
                break
        seen.add(c)
        eq = ws(rng) + b'=' + ws(rng)
        n = (c if rng.random() < 0.8 else c.upper()).encode()
        if c in ('max-age', 's-maxage', 'min-fresh', 'max-stale'):
            if c == 'max-stale' and rng.random() < 0.3:
                return n
            return n + eq + b'%d' % rng.randrange(100000)
        if c in ('no-cache', 'private') and rng.random() < 0.5:
            return n + eq + quote(rng, b', '.join(token(rng).encode() for i in range(rng.randrange(1, 4))))
        if c[0] == 'x' and rng.random() < 0.7:
            return n + eq + value(rng)
        return n
    return comma_list(rng, item)


def g_challenge(rng):
    ps = []
    seen = set()
    for n in ('realm', token(rng), token(rng))[:rng.randrange(1, 4)]:
        if n.lower() not in seen:
            seen.add(n.lower())
            ps.append(n.encode() + ws(rng) + b'=' + ws(rng) + value(rng))
    rng.shuffle(ps)
    return gen.pick(rng, (b'Basic', b'Digest', b'x-scheme', b'basic')) + b' ' + (ws(rng) + b',' + ws(rng)).join(ps)


def g_challenges(rng):
    return (ws(rng) + b',' + ws(rng)).join(g_challenge(rng) for i in range(rng.randrange(1, 4)))


def _params(p):
    return dict((k, (n, v)) for k, (n, v) in p.items())


def _canon(p):
    return sorted(_params(p).items())


def _lib(ctx):
    from pyslet.http import auth, grammar, messages, params
    from pyslet.unicode5 import ParserError
    errors = (grammar.BadSyntax, ParserError)

    def challenge(c):
        ps = [(n, bytes(v), bool(q)) for n, v, q in c]
        if not any(n.lower() == 'realm' for n, v, q in ps):
            ctx.fail('realm', 'challenge without a realm')
        return c.scheme, ps

    def ranges(a):
        return sorted(((i.range.type, i.range.subtype, _canon(i.range.parameters), i.q, _canon(i.params)) for i in a), key=repr)

    def acc_tokens(a):
        return sorted((i.token, i.q) for i in a)

    def upgrade(src):
        p = messages.HeaderParser(src)
        v = p.require_product_token_list()
        p.require_end()
        return v

    M, P = messages, params
    # name: (generator, oracle, parser, view, comparable)
    kinds = dict(
        media_type=(g_media_type, hdr.media_type, P.MediaType.from_str, lambda o: (o.type, o.subtype, _params(o.parameters)), True),
        accept=(g_accept, hdr.accept, M.AcceptList.from_str, ranges, False),
        accept_charset=(g_tokens, hdr.accept_tokens, M.AcceptCharsetList.from_str, acc_tokens, False),
        accept_encoding=(g_tokens, hdr.accept_tokens, M.AcceptEncodingList.from_str, acc_tokens, False),
        accept_language=(g_langs, hdr.accept_langs, M.AcceptLanguageList.from_str, acc_tokens, False),
        accept_ranges=(g_tokenlist, hdr.tokens, M.AcceptRanges.from_str, lambda o: [t.decode('ascii') for t in o], True),
        allow=(g_tokenlist, hdr.tokens, M.Allow.from_str, lambda o: [t.decode('ascii') for t in o], True),
        cache_control=(g_cc, hdr.cache_control, M.CacheControl.from_str, lambda o: [(d[0].decode('ascii'), d[1]) if isinstance(d, tuple) else (d.decode('ascii'), None) for d in o], False),
        content_range=(g_content_range, hdr.content_range, M.ContentRange.from_str, lambda o: (o.first_byte, o.last_byte, o.total_len), False),
        language=(lambda r: ws(r) + g_lang(r) + ws(r), hdr.lang, P.LanguageTag.from_str, lambda o: (o.primary,) + tuple(o.subtags), True),
        languages=(lambda r: comma_list(r, g_lang), hdr.lang_list, P.LanguageTag.list_from_str, lambda o: [(t.primary,) + tuple(t.subtags) for t in o], None),
        transfer=(g_te, hdr.te, P.TransferEncoding.from_str, lambda o: (o.token, _params(o.parameters)), True),
        transfers=(lambda r: comma_list(r, g_te), hdr.te_list, P.TransferEncoding.list_from_str, lambda o: [(t.token, _params(t.parameters)) for t in o], None),
        chunk=(g_chunk, hdr.chunk, P.Chunk.from_str, lambda o: (o.size, _params(o.extensions)), True),
        product=(g_product, hdr.product, P.ProductToken.from_str, lambda o: (o.token, o.version), True),
        products=(g_products, hdr.products, P.ProductToken.list_from_str, lambda o: [(t.token, t.version) for t in o], None),
        upgrade=(lambda r: comma_list(r, g_product), hdr.upgrade, upgrade, lambda o: [(t.token, t.version) for t in o], None),
        etag=(g_etag, hdr.etag, P.EntityTag.from_str, lambda o: (o.tag, o.weak), True),
        version=(g_version, hdr.version, P.HTTPVersion.from_str, lambda o: (o.major, o.minor), True),
        challenge=(g_challenge, lambda s: hdr.challenges(s, True), auth.Challenge.from_str, challenge, False),
        challenges=(g_challenges, hdr.challenges, auth.Challenge.list_from_str, lambda o: [challenge(c) for c in o], False),
    )
    return kinds, errors


def _expect(kind, v):
    if kind == 'accept_ranges':
        low = [t.lower() for t in v]
        if not v:
            raise hdr.Maybe("empty")
        if 'none' in low:
            if len(v) > 1:
                raise hdr.Bad("none") if set(low) - {'none'} else hdr.Maybe("none twice")
            return []
    if kind == 'accept':
        return sorted(((t, s, _canon(ps), q, _canon(ext)) for t, s, ps, q, ext in v), key=repr)
    if kind == 'allow':
        return [t.upper() for t in v]
    if kind in ('challenge', 'challenges'):
        out = []
        for s, ps in ([v] if kind == 'challenge' else v):
            if s.lower() == 'basic':
                s = 'Basic'
            if not any(n == 'realm' for n, x, q in ps):
                if any(n.lower() == 'realm' for n, x, q in ps):
                    pass
                else:
                    ps = ps + [('realm', b'Default', True)]
            out.append((s, ps))
        return out[0] if kind == 'challenge' else out
    return v


def _text(obj):
    """the value's text, joined by commas (or spaces) for lists"""
    if isinstance(obj, list):
        return ', '.join(str(o) for o in obj).encode('latin-1')
    return str(obj).encode('latin-1')


def _judge(ctx, kind, src, kinds, errors):
    g, oracle, parse, view, comparable = kinds[kind]
    try:
        want = _expect(kind, oracle(src))
        verdict = 'ok'
    except hdr.Bad as e:
        verdict = 'bad'
        want = str(e)
    except hdr.Maybe:
        verdict = 'maybe'
    arg = src
    if ctx.rng.random() < 0.2 and all(b < 128 for b in src):
        arg = src.decode('ascii')
    ctx.witness(kind=kind, source=repr(src), verdict=verdict)
    try:
        obj = parse(arg)
    except errors as e:
        ctx.check(verdict != 'ok', 'rejected:' + kind, 'well formed %s %r raised %s' % (kind, src, e))
        if verdict == 'bad':
            ctx.count('malformed')
        return None
    except (ValueError, TypeError, AttributeError, KeyError, IndexError) as e:
        ctx.fail('error:' + kind, '%s %r raised %s: %s' % (kind, src, type(e).__name__, e))
        return None
    if verdict == 'bad':
        ctx.fail('accepted:' + kind, 'malformed %s %r accepted as %r (%s)' % (kind, src, view(obj), want))
        ctx.count('malformed')
        return None
    if verdict == 'ok':
        ctx.equal(view(obj), want, 'value:' + kind, '%s %r' % (kind, src))
        ctx.count('valid')
    # round trip of anything accepted
    sep = b' ' if kind == 'products' else None
    text = _text(obj)
    if kind == 'products':
        text = b' '.join(str(o).encode('latin-1') for o in obj)
    try:
        again = parse(text)
    except errors as e:
        if text.strip() or verdict == 'ok':
            ctx.fail('roundtrip:' + kind, '%r formats to %r which does not parse: %s' % (src, text, e))
        return None
    ctx.equal(view(again), view(obj), 'roundtrip:' + kind, '%r formatted to %r' % (src, text))
    if comparable:
        ctx.check(again == obj and not (again != obj) and hash(again) == hash(obj), 'equal:' + kind, '%r and %r parse to unequal objects' % (src, text))
    elif comparable is None:
        ctx.check(again == obj, 'equal:' + kind, '%r and %r parse to unequal objects' % (src, text))
    ctx.count('objects')
    return obj


POOL = [bytes((b,)) for b in b'"\\(),;=/ \t*-.:0aZ[]'] + [b'\r\n', b'\r\n ', b'\r', b'\n', b'\x00', b'\x7f', b'\xe9', b'\xff', b'q=', b'W/', b';q=2', b'""', b',,', b'GMT']


def corrupt(rng, s):
    for i in range(gen.pick(rng, (1, 1, 1, 2, 4))):
        p = rng.randrange(len(s) + 1)
        c = rng.random()
        if c < 0.4:
            s = s[:p] + gen.pick(rng, POOL) + s[p:]
        elif c < 0.7:
            s = s[:p] + s[p + rng.randrange(1, 3):]
        elif c < 0.9:
            s = s[:p] + gen.pick(rng, POOL) + s[p + 1:]
        else:
            s = s[:p]
    return s


def values(ctx):
    rng = ctx.rng
    kinds, errors = _lib(ctx)
    names = sorted(kinds)
    for i in range(120):
        kind = gen.pick(rng, names)
        src = kinds[kind][0](rng)
        if rng.random() < 0.5:
            _judge(ctx, kind, src, kinds, errors)
        elif rng.random() < 0.9:
            _judge(ctx, kind, corrupt(rng, src), kinds, errors)
        else:
            # a value of some other kind
            _judge(ctx, kind, kinds[gen.pick(rng, names)][0](rng), kinds, errors)
    ctx.sample(repr(src))
    ctx.nontrivial(repr((kind, src)))


def dates(ctx):
    import datetime
    from pyslet.http import params, grammar
    from pyslet.unicode5 import ParserError
    from pyslet import iso8601 as iso
    rng = ctx.rng
    errors = (grammar.BadSyntax, ParserError)

    def rfc1123(d):
        return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year, d.hour, d.minute, d.second)

    for i in range(25):
        y = gen.pick(rng, (1, 1582, 1900, 1969, 1970, 1990, 1999, 2000, 2024, 2100, 9999, rng.randrange(1, 9999), rng.randrange(1990, 2069)))
        d = datetime.datetime(y, 1, 1) + datetime.timedelta(days=rng.randrange(365), seconds=rng.randrange(86400))
        if rng.random() < 0.2:
            d = d.replace(hour=23, minute=59, second=59)
        want = (d.year // 100, d.year % 100, d.month, d.day, d.hour, d.minute, d.second)
        forms = [rfc1123(d), '%s %s %2d %02d:%02d:%02d %04d' % (DAYS[d.weekday()], MONTHS[d.month - 1], d.day, d.hour, d.minute, d.second, d.year)]
        if 1990 <= d.year < 2070:
            forms.append('%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (WEEKDAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year % 100, d.hour, d.minute, d.second))
        objs = []
        for f in forms:
            ctx.witness(date=f)
            try:
                o = params.FullDate.from_http_str(f if rng.random() < 0.5 else f.encode())
            except errors as e:
                ctx.fail('date:rejected', '%r: %s' % (f, e))
                continue
            ctx.equal(tuple(o.get_calendar_time_point()), want, 'date:value', f)
            ctx.equal(o.get_zone()[0], 0, 'date:zone', f)
            ctx.equal(str(o), forms[0], 'date:text', f)
            ctx.equal(o.to_bytes(), forms[0].encode(), 'date:text', f)
            objs.append(o)
            ctx.count('dates')
        ctx.check(all(o == objs[0] and hash(o) == hash(objs[0]) for o in objs), 'date:equal', 'forms of one date are not equal: %r' % forms)
        # a time point in another zone
        z = gen.pick(rng, (0, 0, 60, -300, 330, -720, 840, 1))
        if 2 <= d.year <= 9998:
            loc = d + datetime.timedelta(minutes=z)
            tp = iso.TimePoint.from_str(loc.strftime('%Y').rjust(4, '0')[-4:] + loc.strftime('-%m-%dT%H:%M:%S') + ('Z' if z == 0 else '%s%02d:%02d' % ('-' if z < 0 else '+', abs(z) // 60, abs(z) % 60)))
            fd = params.FullDate(tp)
            ctx.equal(str(fd), forms[0], 'date:shift', 'zone %d' % z)
            ctx.check(params.FullDate.from_http_str(str(fd)) == tp, 'date:shift', 'zone %d not equal after a round trip' % z)
        # malformed dates
        f = gen.pick(rng, forms)
        kind = rng.randrange(9)
        if kind == 0:
            bad = f.replace(f[:3], DAYS[(d.weekday() + rng.randrange(1, 7)) % 7], 1) if f is not (forms + [None, None])[2] else f.replace(WEEKDAYS[d.weekday()], WEEKDAYS[(d.weekday() + 1) % 7])
        elif kind == 1:
            bad = f.replace('%02d:%02d:%02d' % (d.hour, d.minute, d.second), gen.pick(rng, ('25:00:00', '00:60:00', '12:00', '1:2:3:4', '12.00.00', 'aa:bb:cc', '12:00:61', '-1:00:00')))
        elif kind == 2:
            bad = forms[0].replace(' %02d %s' % (d.day, MONTHS[d.month - 1]), gen.pick(rng, (' 31 Feb', ' 32 Jan', ' 00 Jan', ' 31 Apr', ' 1x Jan', ' Jan 01', ' 30 Feb')))
        elif kind == 3:
            bad = f.replace(MONTHS[d.month - 1], gen.pick(rng, ('Foo', '11', 'J', '')))
        elif kind == 4:
            bad = f + gen.pick(rng, (' x', ';', ' 2000', ',', '"'))
        elif kind == 5:
            bad = forms[0].replace('GMT', gen.pick(rng, ('EST', '', '+0000', '"GMT"', ',')))
        elif kind == 6:
            bad = forms[0].replace(' %04d ' % d.year, gen.pick(rng, (' 12345 ', ' x ', ' , ', ' ; ', ' -1 ')))
        elif kind == 7:
            bad = f[:rng.randrange(len(f) - 4)]
        else:
            bad = gen.pick(rng, ('', '0', 'now', '1994-11-06T08:49:37Z', 'Sun', ',', 'Sun,', '"Sun"', 'Mon, 01'))
        if bad not in forms:
            ctx.witness(date=bad)
            try:
                o = params.FullDate.from_http_str(bad)
                ctx.fail('date:accepted', 'malformed date %r accepted as %s' % (bad, o))
            except errors:
                ctx.count('malformed')
        c = corrupt(rng, f.encode())
        ctx.witness(date=repr(c))
        try:
            o = params.FullDate.from_http_str(c)
        except errors:
            pass
        else:
            ctx.check(params.FullDate.from_http_str(str(o)) == o, 'date:roundtrip', '%r' % c)
    ctx.nontrivial(repr(tuple(forms)))


def build(ctx):
    """objects made by their constructors"""
    from pyslet.http import auth, messages as M, params as P
    rng = ctx.rng

    def pdict():
        out = {}
        for i in range(gen.pick(rng, (0, 1, 2))):
            n = token(rng)
            if n.lower() != 'q':
                out[n.lower()] = (n, qtext(rng))
        return out

    for i in range(60):
        t, s = token(rng), token(rng)
        a, b = rng.randrange(1000), rng.randrange(1000)
        q = gen.pick(rng, (0, 0.0, 0.5, 0.125, 0.001, 1.0, 1, 0.8))
        up = (lambda x: x.upper() if rng.random() < 0.3 else x)
        kind = rng.randrange(14)
        view = None
        if kind == 0:
            o = P.MediaType(up(t), s, pdict())
        elif kind == 1:
            o = M.MediaRange(*gen.pick(rng, (('*', '*'), (up(t), '*'), (up(t), s, pdict()))))
        elif kind == 2:
            o = M.AcceptItem(M.MediaRange(t, s, pdict()), q)
            view = (lambda x: (x.range, x.q, x.params))
        elif kind == 3:
            o = gen.pick(rng, (M.AcceptCharsetItem, M.AcceptEncodingItem))(t, q)
            view = (lambda x: (x.token, x.q))
        elif kind == 4:
            o = P.TransferEncoding(up(t), pdict())
        elif kind == 5:
            o = P.Chunk(a, pdict())
        elif kind == 6:
            o = P.ProductToken(t, gen.pick(rng, (None, s, '1.0.3')))
            view = (lambda x: (x.token, x.version))
        elif kind == 7:
            o = P.EntityTag(qtext(rng), rng.random() < 0.5)
            view = (lambda x: (x.tag, x.weak))
        elif kind == 8:
            o = P.LanguageTag(*[alpha(rng) for j in range(rng.randrange(1, 4))])
        elif kind == 9:
            o = M.Allow(*[token(rng) for j in range(rng.randrange(4))])
        elif kind == 10:
            o = M.AcceptRanges(*[x for x in (t, s) if x.lower() != 'none'])
        elif kind == 11:
            o = M.ContentRange(*gen.pick(rng, ((None, None, None), (None, None, a), (a, a + b), (a, a + b, a + b + 1))))
            view = (lambda x: (x.first_byte, x.last_byte, x.total_len))
        elif kind == 12:
            o = M.CacheControl(*gen.pick(rng, ((('max-age', a),), ('no-store', ('private', (t, s))), (('x', qtext(rng).decode('latin-1')), 'public'), ('no-cache', ('s-maxage', 0)))))
            view = list
        else:
            o = auth.Challenge(gen.pick(rng, ('Digest', 'X')), ('realm', qtext(rng), rng.random() < 0.5), (t, qtext(rng), rng.random() < 0.5))
            if t.lower() == 'realm':
                continue
            view = (lambda x: (x.scheme, [(n, v) for n, v, z in x]))
        text = o.to_bytes() if hasattr(o, 'to_bytes') else str(o).encode('latin-1')
        ctx.equal(str(o).encode('latin-1'), text, 'build:str', type(o).__name__)
        ctx.witness(object=repr(view(o) if view else o), text=repr(text))
        ctx.check(isinstance(repr(o), str), 'build:repr', 'repr')
        try:
            o2 = type(o).from_str(text)
        except ValueError as e:
            ctx.fail('build:rejected', '%s formatted as %r: %s' % (type(o).__name__, text, e))
            continue
        if view:
            ctx.equal(repr(view(o2)) if kind == 12 else view(o2), repr(view(o)) if kind == 12 else view(o), 'build:value', '%r' % text)
        if kind not in (11, 12, 13):
            ctx.check(o == o2 and hash(o) == hash(o2), 'build:equal', '%s %r' % (type(o).__name__, text))
        try:
            hdr.words(text)
        except hdr.Bad as e:
            ctx.fail('build:syntax', '%s formatted as %r: %s' % (type(o).__name__, text, e))
        ctx.count('objects')
    # ordering and equality
    def compare(a, b, ka, kb, what):
        got = (a < b, a == b, a > b, a <= b, a >= b, a != b)
        ctx.equal(got, (ka < kb, ka == kb, ka > kb, ka <= kb, ka >= kb, ka != kb), 'order:' + what, '%s and %s' % (a, b))
        if ka == kb and not isinstance(b, str):
            ctx.equal(hash(a), hash(b), 'order:hash', '%s and %s' % (a, b))

    for i in range(6):
        va, vb = [[gen.pick(rng, (0, 1, 2, 9, 10, 30, 200)) for j in range(rng.randrange(1, 4))] for k in '12']
        sa, sb = ['.'.join(('0' if rng.random() < 0.1 else '') + str(x) for x in v) for v in (va, vb)]
        compare(P.ProductToken('Apache', sa), P.ProductToken('Apache', sb), va, vb, 'product')
        # a qualifier makes a version earlier
        m = gen.pick(rng, ('a', 'b1', 'rc2', 'dev'))
        compare(P.ProductToken('x', sa + m), P.ProductToken('x', sa), 0, 1, 'product')
        n = rng.randrange(9)
        compare(P.ProductToken('x', sa + 'b%d' % n), P.ProductToken('x', sa + 'b%d' % (n + 3)), 0, 1, 'product')
        compare(P.ProductToken('x', sa + 'a9'), P.ProductToken('x', sa + 'b1'), 0, 1, 'product')
        compare(P.ProductToken('x', '.'.join(str(x) for x in va[:-1] + ['a3'])), P.ProductToken('x', '.'.join(str(x) for x in va[:-1] + ['0a3'])), 0, 1, 'product')
        ha, hb = [(rng.randrange(3), gen.pick(rng, (0, 1, 2, 12))) for k in '12']
        compare(P.HTTPVersion(*ha), P.HTTPVersion(*hb), ha, hb, 'version')
        compare(P.HTTPVersion(*ha), 'HTTP/%d.%d' % hb, ha, hb, 'version')
        ta, tb = [(gen.pick(rng, ('text', 'TEXT', 'image')), gen.pick(rng, ('a', 'B', 'b'))) for k in '12']
        compare(P.MediaType(*ta), P.MediaType(*tb), [x.lower() for x in ta], [x.lower() for x in tb], 'media')
        compare(P.MediaType(*ta), '/'.join(tb), [x.lower() for x in ta], [x.lower() for x in tb], 'media')
        la, lb = [[gen.pick(rng, ('en', 'EN', 'fr', 'US')) for j in range(rng.randrange(1, 4))] for k in '12']
        compare(P.LanguageTag(*la), P.LanguageTag(*lb), [x.lower() for x in la], [x.lower() for x in lb], 'language')
        ea, eb = [(gen.pick(rng, (b'a', b'b')), rng.random() < 0.5) for k in '12']
        ctx.equal(P.EntityTag(*ea) == P.EntityTag(*eb), ea == eb, 'order:etag', '%s %s' % (ea, eb))
        ctx.equal(M.Allow('a', 'B') == M.Allow('b', 'A'), True, 'order:allow', 'allow')
    # basic credentials
    for i in range(8):
        c = auth.BasicCredentials()
        c.userid = gen.text(rng, 8, 'abé @=/', 0)
        c.password = gen.text(rng, 8, 'ab:é"\\ ', 0)
        c2 = auth.Credentials.from_str(str(c) if rng.random() < 0.5 else c.to_bytes())
        ctx.equal((c2.scheme, c2.userid, c2.password), ('Basic', c.userid, c.password), 'credentials', str(c))
        bad = gen.pick(rng, ('Basic', 'Basic =', 'Basic a', 'Basic abcde', 'Basic YWJj', '', ',', 'Basic "x"', 'Basic YTpi, x'))
        from pyslet.http.grammar import BadSyntax
        from pyslet.unicode5 import ParserError
        try:
            auth.Credentials.from_str(bad)
            if bad in ('Basic', 'Basic a', 'Basic abcde', 'Basic YWJj', ''):
                ctx.fail('credentials:accepted', repr(bad))
        except (BadSyntax, ParserError):
            ctx.count('malformed')
    ctx.nontrivial(repr(text))


def messages(ctx):
    """the headers of a message against a dictionary"""
    from pyslet.http import auth, grammar, messages as M, params as P
    from pyslet.unicode5 import ParserError
    from pyslet import rfc2396 as uri
    import hashlib
    rng = ctx.rng
    req = M.Request()
    resp = M.Response(req)
    model = {}
    names = ('X-One', 'x-two', 'Allow', 'ETAG', 'Vary')
    for i in range(30):
        n = gen.pick(rng, names)
        n2 = gen.pick(rng, (n, n.lower(), n.upper()))
        v = gen.text(rng, 6, 'ab c,é', 1).strip() or 'x'
        arg_n = n2 if rng.random() < 0.5 else n2.encode()
        c = rng.random()
        if c < 0.35:
            resp.set_header(arg_n, v if rng.random() < 0.5 else v.encode('latin-1'))
            model[n.lower()] = [v]
        elif c < 0.75:
            resp.set_header(arg_n, ' ' + v + ' ', append_mode=True)
            model.setdefault(n.lower(), []).append(v)
        else:
            resp.set_header(arg_n, None)
            model.pop(n.lower(), None)
        n = gen.pick(rng, names)
        want = model.get(n.lower())
        ctx.equal(resp.has_header(n.swapcase()), want is not None, 'header:has', n)
        ctx.equal(resp.get_header(n.upper()), None if want is None else ', '.join(want).encode('latin-1'), 'header:get', n)
        got = resp.get_header(n.lower().encode(), list_mode=True)
        ctx.equal(None if got is None else list(got), None if want is None else [w.encode('latin-1') for w in want], 'header:list', n)
        ctx.equal([h.lower() for h in resp.get_headerlist()], sorted(k.encode() for k in model), 'header:names', 'headers')
    # typed accessors
    msg = gen.pick(rng, (M.Request(), M.Response(req)))
    d = P.FullDate.from_http_str('Sun, 06 Nov 1994 08:49:37 GMT')
    mt = P.MediaType('text', 'plain', {'n': ('n', qtext(rng))})
    digest = hashlib.md5(qtext(rng)).digest()
    toks = sorted(set(x.lower() for x in (token(rng), token(rng))))
    n = gen.pick(rng, (0, 1, 4096, rng.getrandbits(50)))
    lang = [P.LanguageTag(alpha(rng), alpha(rng)), P.LanguageTag('en')]
    te = gen.pick(rng, ([], [P.TransferEncoding('gzip', {'a': ('a', qtext(rng))})])) + [P.TransferEncoding()]
    up = [P.ProductToken(token(rng), '1.0'), P.ProductToken('h2c')]
    cr = M.ContentRange(1, 5, n + 6)
    cc = M.CacheControl('no-store', ('max-age', n), ('private', ('a', 'b')))
    loc = uri.URI.from_octets('http://example.com/a?b=c')
    cred = auth.BasicCredentials()
    cred.userid, cred.password = 'u', gen.text(rng, 6, 'a:é', 0)
    allow = M.Allow('GET', token(rng))
    pairs = [
        ('date', d, None), ('last_modified', d, None), ('content_type', mt, None), ('content_md5', digest, None),
        ('content_length', n, None), ('content_language', lang, []), ('transfer_encoding', te, None), ('upgrade', up, []),
        ('content_range', cr, None), ('cache_control', cc, None), ('content_location', loc, None), ('allow', allow, None),
        ('connection', set(toks), set()), ('content_encoding', toks, []), ('expect_continue', True, False)]
    if isinstance(msg, M.Response):
        et = P.EntityTag(qtext(rng), rng.random() < 0.5)
        ch = [auth.Challenge('Digest', ('realm', qtext(rng), True), ('nonce', qtext(rng), False)), auth.BasicChallenge(('realm', qtext(rng), True))]
        pairs += [('etag', et, None), ('location', loc, None), ('age', n, None), ('accept_ranges', M.AcceptRanges('bytes'), None), ('www_authenticate', ch, [])]
    else:
        pairs += [('accept', M.AcceptList.from_str('text/*;q=0.5, a/b; x="é"; q=0; e'.encode('latin-1')), None),
                  ('accept_charset', M.AcceptCharsetList.from_str('utf-8, *;q=0.1'), None),
                  ('accept_encoding', M.AcceptEncodingList.from_str('gzip;q=0.25, identity;q=0'), None),
                  ('authorization', cred, None)]
    rng.shuffle(pairs)

    def view(v):
        if isinstance(v, (list, tuple)) and v and isinstance(v[0], auth.Challenge):
            return [str(x) for x in v]
        if isinstance(v, (M.AcceptList, M.AcceptTokenList, M.CacheControl, M.ContentRange, auth.Credentials)):
            return str(v)
        return v

    for name, v, none in pairs:
        get = getattr(msg, 'get_' + name)
        set_ = getattr(msg, 'set_' + name)
        had = msg.has_header('Connection') and name == 'upgrade'
        conn = msg.get_connection()
        ctx.witness(header=name, value=repr(view(v)))
        ctx.equal(get(), none, 'absent:' + name, name) if name != 'connection' else None
        set_(v)
        ctx.equal(view(get()), view(v), 'accessor:' + name, name)
        if name == 'upgrade':
            ctx.equal(msg.get_connection(), conn | {'upgrade'}, 'accessor:connection', 'upgrade')
        # text can stand for some values
        if name in ('allow', 'cache_control', 'accept', 'accept_charset', 'accept_encoding', 'accept_ranges', 'location'):
            t = str(v)
            # character strings must be ASCII
            set_(t if t.isascii() else t.encode('latin-1'))
            ctx.equal(view(get()), view(v), 'accessor:' + name, name + ' from text')
        if name in ('authorization', 'accept', 'accept_charset', 'accept_encoding', 'accept_ranges'):
            continue
        if rng.random() < 0.5:
            set_(False if name == 'expect_continue' else None)
            ctx.equal(get(), none, 'removed:' + name, name)
            if name == 'upgrade':
                ctx.equal(msg.get_connection(), conn | {'upgrade'}, 'removed:connection', 'removing upgrade')
        ctx.count('messages')
    # hostile values in the wild
    errors = (grammar.BadSyntax, ParserError, M.ProtocolError)
    hostile = {'content_length': ('Content-Length', ('', '-1', '+1', '1_0', '0x1', '1 2', '1,1', '\xb2', '1.0')),
               'content_md5': ('Content-MD5', ('', 'x', 'YQ==', '====', 'abcd\xe9')),
               'transfer_encoding': ('Transfer-Encoding', ('chunked, gzip', 'chunked, chunked', 'gzip chunked', ';', 'gzip;a', '"x"')),
               'date': ('Date', ('', '0', 'Sun, 31 Feb 1994 08:49:37 GMT')),
               'content_range': ('Content-Range', ('', 'bytes', 'bytes 1-/2', 'bytes -', 'items 1-2/3', 'bytes 1-2', 'bytes a-b/c')),
               'content_type': ('Content-Type', ('', 'text', 'text/', '/', 'text/plain;', 'text/plain; a', 't\xe9xt/plain', 'text/plain; a="')),
               'age': ('Age', ('', '-1', 'x', ';', '1.5')),
               'etag': ('ETag', ('', 'x', 'W/x', '"', '"a', 'W"x"', '"a" "b"')),
               'accept_ranges': ('Accept-Ranges', ('', 'bytes;', 'none, bytes', 'bytes bits')),
               'www_authenticate': ('WWW-Authenticate', ('Basic realm=', 'Basic realm="', 'Basic =x', 'Basic realm="x" y="z"')),
               'allow': ('Allow', ('GET POST', '"GET"', 'GET;', '/')),
               'cache_control': ('Cache-Control', ('max-age=x', 'max-age=', '=1', 'no-store no-cache', 'x="')),
               }
    msg = M.Response(req)
    for name, (h, vals) in sorted(hostile.items()):
        v = gen.pick(rng, vals)
        msg.set_header(h, v)
        ctx.witness(header=h, value=v)
        try:
            got = getattr(msg, 'get_' + name)()
            ctx.fail('accepted:' + name, '%s: %r accepted as %r' % (h, v, view(got)))
        except errors:
            ctx.count('malformed')
    ctx.nontrivial(repr((sorted(model.items()), [n for n, v, x in pairs])))


WORKLOADS = [
    Workload("values", values, quick=1500, thorough=60000),
    Workload("dates", dates, quick=400, thorough=12000),
    Workload("build", build, quick=800, thorough=30000),
    Workload("messages", messages, quick=800, thorough=30000),
]
