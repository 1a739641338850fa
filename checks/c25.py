"""C25: content negotiation.

Oracle: qualities computed from the ranges by their definition."""

from lib.harness import Workload
from lib import gen

META = dict(
    id="C25", title="Content negotiation picks a best acceptable alternative",
    statement="For every Accept, Accept-Charset, Accept-Encoding and Accept-Language value and every list of alternatives, the one selected has the greatest quality among those offered, where an alternative's quality is that of the most specific range that matches it (names compared without case, wildcards least specific, all parameters of a media range, the longest matching language prefix), the first offered winning a tie; nothing is selected when every alternative has quality 0 or matches no range, except that iso-8859-1 has quality 1 and identity is minimally acceptable when not mentioned.  Ranges sort with the more specific first.  A data service answers in a type the request prefers most among those it can produce, and refuses with 406 exactly when it can produce none.",
    quantifier=dict(over=["inputs"], text="all preference lists x alternatives"),
    why_tests_cant="tests follow the examples of the RFC, which have one matching range for each alternative",
    anchors=dict(files=["pyslet/http/messages.py", "pyslet/http/params.py", "pyslet/odata2/server.py"],
                 mechanism=[dict(name="MediaRange, AcceptList.select_type", where="pyslet/http/messages.py"),
                            dict(name="AcceptTokenList.select_token and its subclasses", where="pyslet/http/messages.py"),
                            dict(name="LanguageTag.partial_match", where="pyslet/http/params.py"),
                            dict(name="Server.content_negotiation", where="pyslet/odata2/server.py")],
                 observe_at=["values returned, order of ranges, responses of a service"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated preference lists and alternatives, selections judged against qualities computed from the definition"
LEVEL_NOTE = "Held on the lists observed."
RULE = "each case is a batch of preference lists; distinct by their text"
MODULES = ["pyslet/http/messages.py", "pyslet/http/params.py", "pyslet/odata2/server.py"]
REQUIRE = {"media lists": 2500, "tokens lists": 2500, "selections": 12000, "nothing acceptable": 800, "negotiated": 1200, "refused 406": 80}

TYPES = ('text', 'image', 'application', '~x', 'zz', 'Text', '!', '|')
SUBS = ('plain', 'html', 'png', 'xml', '~', '~~', 'zz', 'atom+xml', 'PLAIN', '|')
PNAMES = ('charset', 'level', 'a', 'odata')
PVALUES = ('utf-8', '1', '2', 'x y', '"', '')
TOKENS = ('utf-8', 'UTF-8', 'iso-8859-1', 'ISO-8859-1', 'gzip', 'identity', 'Identity', '~', '~a', '|x', 'zz', 'a', 'compress', '!')
TAGS = ('en', 'en-GB', 'en-US', 'EN-gb', 'fr', 'en-US-texas', 'en-US-tex', 'x-y-z', 'i-x', 'zh', 'e', 'engb')


def qtext(rng):
    q = gen.pick(rng, (0, 1000, 1000, 500, 1, 999, 250, rng.randrange(1001)))
    s = gen.pick(rng, ('%.3f', '%.3f', '%g'))
    return q, s % (q / 1000.0)


def quoted(v):
    if v and all(c.isalnum() or c == '-' for c in v):
        return v
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')


def params(rng, n):
    names = list(PNAMES)
    rng.shuffle(names)
    return [(p, gen.pick(rng, PVALUES)) for p in names[:n]]


def flip(rng, s):
    c = rng.random()
    return s.upper() if c < 0.15 else s.title() if c < 0.2 else s


def media_text(rng, t, s, ps):
    return '%s/%s' % (flip(rng, t), flip(rng, s)) + ''.join(';%s=%s' % (flip(rng, p), quoted(v)) for p, v in ps)


def quality(t, s, ps, ranges):
    """ranges: (type, subtype, params, q).  The qualities it could have, None
    for undecided"""
    best = None
    for rt, rs, rp, q in ranges:
        if rt != '*' and rt.lower() != t.lower():
            continue
        if rs != '*' and rs.lower() != s.lower():
            continue
        if not set(rp) <= set(ps):
            continue
        k = (rt != '*', rs != '*', len(rp))
        if best is None or k > best[0]:
            best = (k, [(tuple(sorted(rp)), q)])
        elif k == best[0]:
            best[1].append((tuple(sorted(rp)), q))
    if best is None:
        return 0
    if len(set(x[0] for x in best[1])) > 1:
        return None                        # equally specific, not the same
    return max(x[1] for x in best[1])


def qtail(rng, q, s):
    if q == 1000 and rng.random() < 0.6:
        return ''
    sp = lambda: gen.pick(rng, ('', '', ' '))
    return sp() + ';' + sp() + gen.pick(rng, 'qqQ') + '=' + s


def judge(ctx, key, got, offers, quals, what):
    """offers: values; quals: their qualities"""
    ctx.count("selections")
    best = max(quals) if quals else 0
    if best == 0:
        ctx.count("nothing acceptable")
        ctx.check(got is None, key + ':none', "%s: selected %r though nothing is acceptable" % (what, got))
        return
    want = offers[quals.index(best)]
    if not ctx.check(got is not None, key + ':missed', "%s: nothing selected, expected %r" % (what, want)):
        return
    ctx.check(got == want, key, "%s: selected %r, expected %r" % (what, got, want))


def media_case(ctx):
    from pyslet.http import messages, params as p
    rng = ctx.rng
    for _ in range(20):
        ranges, texts = [], []
        for i in range(gen.pick(rng, (1, 2, 3, 4, 6))):
            c = rng.random()
            if c < 0.2:
                t = s = '*'
            else:
                t = gen.pick(rng, TYPES[:3] if rng.random() < 0.7 else TYPES)
                s = '*' if c < 0.4 else gen.pick(rng, SUBS[:3] if rng.random() < 0.6 else SUBS)
            ps = params(rng, gen.pick(rng, (0, 0, 0, 1, 2)))
            q, qs = qtext(rng)
            ranges.append((t, s, ps, q))
            texts.append(media_text(rng, t, s, ps) + qtail(rng, q, qs))
        src = gen.pick(rng, (',', ', ', ' , ')).join(texts)
        how = rng.randrange(4)
        ctx.witness(accept=src, how=how)
        if how == 0:
            al = messages.AcceptList(*[messages.AcceptItem.from_str(x) for x in texts])
        elif how == 1:
            al = messages.AcceptList(*[
                messages.AcceptItem(messages.MediaRange(t, s, dict((n, (n, v.encode('ascii'))) for n, v in ps)), q / 1000.0) for t, s, ps, q in ranges])
        elif how == 2:
            r = messages.Request()
            r.set_header('Accept', src)
            al = r.get_accept()
        else:
            al = messages.AcceptList.from_str(src)
        ctx.count("media lists")
        ctx.nontrivial('%d:%s' % (how, src))
        for _ in range(4):
            offers, names = [], []
            for i in range(gen.pick(rng, (0, 1, 2, 3, 5))):
                if rng.random() < 0.7:
                    t, s, ps, q = gen.pick(rng, ranges)
                    ps = [x for x in ps if rng.random() < 0.85]
                    ps += [x for x in params(rng, 1) if rng.random() < 0.4 and x[0] not in dict(ps)]
                    t = gen.pick(rng, TYPES) if t == '*' else t
                    s = gen.pick(rng, SUBS) if s == '*' else s
                else:
                    t, s, ps = gen.pick(rng, TYPES), gen.pick(rng, SUBS), params(rng, gen.pick(rng, (0, 0, 1, 2)))
                offers.append((t, s, ps))
                names.append(media_text(rng, t, s, ps))
            quals = [quality(t, s, ps, ranges) for t, s, ps in offers]
            if None in quals:
                ctx.count("undecided")
                continue
            mts = [p.MediaType.from_str(n) for n in names]
            ctx.witness(accept=src, offers=names, how=how)
            try:
                got = al.select_type(mts)
            except Exception as e:
                ctx.fail('media:crash', "%r from %r: %s" % (names, src, e))
                continue
            # by identity: equal media types may be offered in different cases
            i = [k for k, m in enumerate(mts) if m is got]
            judge(ctx, 'media', None if got is None else i[0] if i else str(got), list(range(len(mts))), quals, "%r from %r" % (names, src))
        # the order of the ranges
        items = list(al)
        keys = []
        for x in items:
            r = x.range
            keys.append((str(r.type) != '*', str(r.type).lower(), str(r.subtype) != '*', str(r.subtype).lower(), len(r.parameters)))
        for i in range(len(keys)):
            for j in range(i):
                a, b = keys[j], keys[i]
                ok = not (b[0] and not a[0])
                if a[0] and b[0] and a[1] == b[1]:
                    ok = not (b[2] and not a[2]) and not (a[2:4] == b[2:4] and b[4] > a[4])
                ctx.check(ok, 'media:order', "%s sorts before %s in %r" % (items[j].range, items[i].range, src))
        ctx.equal(len(items), len(ranges), 'media:len', "items of %r" % src)


def token_case(ctx):
    from pyslet.http import messages
    rng = ctx.rng
    for _ in range(20):
        kind = gen.pick(rng, ('charset', 'encoding', 'language', 'token'))
        pool = TAGS if kind == 'language' else TOKENS
        ranges, texts = [], []
        for i in range(gen.pick(rng, (1, 2, 3, 4, 6))):
            t = '*' if rng.random() < 0.25 else gen.pick(rng, pool)
            q, qs = qtext(rng)
            if kind == 'language' and any(t.lower() == x[0].lower() for x in ranges):
                continue
            ranges.append((t, q))
            texts.append(t + qtail(rng, q, qs))
        src = gen.pick(rng, (',', ', ', ' , ')).join(texts)
        cls, item = dict(charset=(messages.AcceptCharsetList, messages.AcceptCharsetItem), encoding=(messages.AcceptEncodingList, messages.AcceptEncodingItem),
                         language=(messages.AcceptLanguageList, messages.AcceptLanguageItem), token=(messages.AcceptTokenList, messages.AcceptToken))[kind]
        how = rng.randrange(4)
        ctx.witness(kind=kind, accept=src, how=how)
        if how == 0:
            al = cls(*[item.from_str(x) for x in texts])
        elif how == 1:
            al = cls(*[item(t, q / 1000.0) for t, q in ranges])
        elif how == 2 and kind in ('charset', 'encoding'):
            r = messages.Request()
            r.set_header('Accept-' + kind.title(), src)
            al = r.get_accept_charset() if kind == 'charset' else r.get_accept_encoding()
        else:
            al = cls.from_str(src)
        ctx.count("tokens lists")
        ctx.nontrivial('%s:%d:%s' % (kind, how, src))
        for _ in range(4):
            offers = [gen.pick(rng, pool) if rng.random() < 0.6 else flip(rng, gen.pick(rng, ranges)[0]).replace('*', 'en')
                      for i in range(gen.pick(rng, (0, 1, 2, 3, 5)))]
            quals = []
            for o in offers:
                o = o.lower()
                if kind == 'language':
                    quals.append(longest(o, ranges))
                    continue
                m = [q for t, q in ranges if t.lower() == o] or [q for t, q in ranges if t == '*']
                if m:
                    quals.append(max(m))
                elif kind == 'charset' and o == 'iso-8859-1':
                    quals.append(1000)
                elif kind == 'encoding' and o == 'identity':
                    quals.append(0.5)
                else:
                    quals.append(0)
            ctx.witness(kind=kind, accept=src, offers=offers, how=how)
            try:
                got = al.select_token(list(offers))
            except Exception as e:
                ctx.fail('token:%s:crash' % kind, "%r from %r: %s" % (offers, src, e))
                continue
            if kind == 'language':
                got = got if got is None else str(got).lower()
                judge(ctx, 'token:language', got, [o.lower() for o in offers], quals, "%r from %r" % (offers, src))
                from pyslet.http import params as p
                tags = [p.LanguageTag.from_str(o) for o in offers]
                got = al.select_language(tags)
                i = [k for k, m in enumerate(tags) if m is got]
                judge(ctx, 'language', None if got is None else i[0] if i else str(got), list(range(len(tags))), quals, "%r from %r" % (offers, src))
            else:
                judge(ctx, 'token:' + kind, got and got.lower(), [o.lower() for o in offers], quals, "%s %r from %r" % (kind, offers, src))
        toks = [str(x.token) for x in al]
        if kind != 'language':
            ctx.check('*' not in toks or set(toks[toks.index('*'):]) == {'*'}, 'token:order', "order of %s: %r" % (src, toks))
        ctx.equal(sorted(t.lower() for t in toks), sorted(t.lower() for t, q in ranges), 'token:items', "items of %r" % src)


def longest(o, ranges):
    best = (-1, 0)
    for t, q in ranges:
        n = 0 if t == '*' else len(t.split('-'))
        if (t == '*' or (o + '-').startswith(t.lower() + '-')) and n > best[0]:
            best = (n, q)
    return best[1]


UNIVERSE = ('application/xml', 'text/xml;charset=utf-8', 'text/plain;charset=utf-8', 'application/atom+xml', 'application/atom+xml;type=feed',
            'application/atom+xml;type=entry', 'application/json', 'application/atomsvc+xml', 'application/octet-stream', 'octet/stream', 'image/png',
            'text/plain;charset=iso-8859-1', 'text/html', 'application/json;odata=verbose', 'application/xhtml+xml')


def split_type(s):
    from pyslet.http import params as p
    t = p.MediaType.from_str(s)
    return str(t.type), str(t.subtype), [(k.lower(), v.decode('latin-1')) for k, v in ((k, t[k]) for k in t.parameters)]


def service_case(ctx):
    from lib import odsrv
    rng = ctx.rng
    srv, doc, cont = odsrv.server()
    with srv.model.DataServices['NS.DB.Things'].open() as coll:
        e = coll.new_entity()
        e.set_key('k')
        e['S'].set_from_value('text')
        e['N'].set_from_value(3)
        e['B'].set_from_value(b'\x00\x01')
        e['R'].set_from_value('r')
        e['Home']['Zip'].set_from_value('z')
        coll.insert_entity(e)
    ctype = gen.pick(rng, ('image/png', 'text/html', 'application/json', 'text/plain;charset=iso-8859-1'))
    r = odsrv.call(ctx, srv, 'POST', '/svc/Files', {'Content-Type': ctype, 'Slug': 'f'}, b'data')
    if not ctx.check(r.code == 201, 'svc:stream', "creating a stream gave %s" % r.code):
        return
    with srv.model.DataServices['NS.DB.Files'].open() as coll:
        fk = [odsrv.pct(k) for k in coll][0]
    for path in ('/svc/', '/svc/$metadata', '/svc/Things', "/svc/Things('k')", "/svc/Things('k')/N", "/svc/Things('k')/N/$value", "/svc/Things('k')/B/$value", "/svc/Things('k')/Home",
                 '/svc/Things/$count', "/svc/Files('%s')/$value" % fk, "/svc/Things('k')/Many", "/svc/Things('k')/$links/Many"):
        offers = {}
        for u in UNIVERSE:
            ctx.witness(path=path, accept=u)
            r = odsrv.call(ctx, srv, 'GET', path, {'Accept': u})
            if r.code == 200:
                got = r.headers.get('content-type')
                if not ctx.check(got is not None, 'svc:type', "%s: no Content-Type" % path):
                    continue
                offers[got] = split_type(got)
                ctx.check(quality(*(split_type(got) + ([split_type(u) + (1000,)],))) != 0, 'svc:unacceptable', "%s with Accept: %s answered as %s" % (path, u, got))
            else:
                ctx.equal(r.code, 406, 'svc:status', "%s with Accept: %s" % (path, u))
        ctx.check(len(offers) > 0, 'svc:nothing', "%s cannot be had in any type" % path)
        for _ in range(12):
            ranges, texts = [], []
            for i in range(gen.pick(rng, (1, 2, 3, 5))):
                t, s, ps = split_type(gen.pick(rng, UNIVERSE if rng.random() < 0.5 else sorted(offers)))
                c = rng.random()
                if c < 0.1:
                    t = s = '*'
                if c < 0.3:
                    s = '*'
                if c < 0.6:
                    ps = []
                q, qs = qtext(rng)
                ranges.append((t, s, ps, q))
                texts.append(media_text(rng, t, s, ps) + qtail(rng, q, qs))
            src = ', '.join(texts)
            ctx.witness(path=path, accept=src)
            ctx.nontrivial(path + src)
            quals = dict((o, quality(*(offers[o] + (ranges,)))) for o in offers)
            if None in quals.values():
                continue
            best = max(quals.values())
            r = odsrv.call(ctx, srv, 'GET', path, {'Accept': src})
            ctx.count("negotiated")
            if r.code == 406:
                ctx.count("refused 406")
                ctx.check(best == 0, 'svc:refused', "%s with Accept: %s refused though it can be had as %s" % (path, src, [o for o in offers if quals[o] == best]))
            elif ctx.check(r.code == 200, 'svc:status', "%s with Accept: %s: %s" % (path, src, r.code)):
                got = r.headers.get('content-type', 'x/x')
                q = quality(*(split_type(got) + (ranges,)))
                if q is None:
                    continue
                ctx.check(q > 0, 'svc:unacceptable', "%s with Accept: %s answered as %s" % (path, src, got))
                ctx.check(q >= best, 'svc:worse', "%s with Accept: %s answered as %s rather than %s" % (path, src, got, [o for o in offers if quals[o] == best]))


WORKLOADS = [
    Workload("media types", media_case, quick=600, thorough=8000),
    Workload("tokens and languages", token_case, quick=600, thorough=8000),
    Workload("service", service_case, quick=30, thorough=150),
]
