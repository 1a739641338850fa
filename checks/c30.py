"""C30: OData URIs.

Oracle: URIs are composed from known parts with an independent encoder."""

from lib.harness import Workload
from lib import gen, odexpr
from lib.odexpr import LITERALS, fmt_literal, from_edm, gen_value, same, show, to_edm

META = dict(
    id="C30", title="OData URIs decompose into path, keys and options faithfully",
    statement="Every resource URI, whatever characters its keys and options contain and however they are percent-encoded, splits into exactly the path segments, typed key predicates, path option ($links, $count, $value, $metadata, $batch), system query options and custom parameters it was composed from, relative to the service root; URIs outside the service root are recognised as such.  Formatting keys, expand and select rules and system query options gives text that parses back to the same thing.  Anything else raises ServerError (or a derived class) or ValueError and nothing else: unknown or misplaced path options, unknown or unsupported system query options, options without values, malformed values and key predicates.",
    quantifier=dict(over=["inputs"], text="all URIs composed of names, key predicates of every type, path options and query options in every legal encoding, plus corruptions of them"),
    why_tests_cant="tests use a few dozen URIs, nearly all with plain characters",
    anchors=dict(files=["pyslet/odata2/core.py"],
                 mechanism=[dict(name="ODataURI, parse_expand_option, parse_select_option, parse_orderby_option, format_expand, format_key_dict", where="pyslet/odata2/core.py")],
                 observe_at=["attributes of ODataURI, formatted strings, exceptions"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated URIs compared with the parts they were composed from; exception monitor over corrupted URIs"
LEVEL_NOTE = "Held on the URIs observed."
RULE = "each case is a batch of URIs; distinct by their text"
MODULES = ["pyslet/odata2/core.py"]
REQUIRE = {"uris": 8000, "keys": 5000, "options": 8000, "formatted": 8000, "malformed": 3000, "corrupted": 3000, "foreign": 300}

UNRESERVED = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~'
NAMES = ('Products', 'P', 'Order_Details', 'Éléments', 'a1', 'NS.Products', '商品', 'value', 'links', 'count')
OPTIONS = {
    None: ('expand', 'filter', 'format', 'orderby', 'skip', 'top', 'skiptoken', 'inlinecount', 'select'),
    'links': ('format', 'skip', 'top', 'skiptoken', 'inlinecount'),
    'metadata': (), 'batch': (),
    'count': ('expand', 'filter', 'orderby', 'skip', 'top'),
    'count1': ('expand', 'filter'),
    'value': ('format',),
}


def enc(rng, s, safe, p=None):
    """percent encodes all but safe characters (and some of these)"""
    if p is None:
        p = gen.pick(rng, (0, 0, 0.1, 1))
    out = []
    for c in s:
        if (c in UNRESERVED or c in safe) and rng.random() >= p * (0.3 if c in UNRESERVED else 1):
            out.append(c)
        else:
            for b in c.encode('utf-8'):
                h = '%%%02X' % b
                out.append(h.lower() if rng.random() < 0.2 else h)
    return ''.join(out)


def key(rng):
    t = gen.pick(rng, LITERALS)
    v = gen_value(rng, t)
    if t in ('Double', 'Single') and v != v:
        v = 1.5
    return t, v, fmt_literal(rng, t, v)


def predicate(rng):
    """(expected dict of (type, value), text)"""
    m = rng.randrange(8)
    if m < 2:
        return None, ''
    if m == 2:
        return {}, '()'
    if m < 6:
        t, v, s = key(rng)
        name = gen.pick(rng, ('', '', 'Id'))
        return {name: (t, v)}, '(%s%s)' % (name + '=' if name else '', s)
    out, parts = {}, []
    for n in rng.sample(('A', 'B', 'Key_1', 'É'), rng.randint(2, 4)):
        t, v, s = key(rng)
        out[n] = (t, v)
        parts.append('%s=%s' % (n, s))
    return out, '(%s)' % ','.join(parts)


def plain(rng, e):
    """without parameters"""
    if e[0] == 'param':
        return ('lit', e[1], gen_value(rng, e[1])) if e[1] in LITERALS else ('lit', None, None)
    return tuple(plain(rng, x) if isinstance(x, tuple) and x and x[0] in odexpr.NODES else
                 [plain(rng, y) for y in x] if isinstance(x, list) else x for x in e)


def rules(rng, depth, star):
    out = {}
    for n in rng.sample(('A', 'B', 'C_c', 'Élan', 'NS.D'), rng.randint(1, 3)):
        out[n] = rules(rng, depth - 1, star) if depth and rng.random() < 0.4 else None
    if star and rng.random() < 0.3:
        out['*'] = None
    return out


def flat(r):
    out = []
    for n, v in r.items():
        out.extend([n] if not v else ['%s/%s' % (n, x) for x in flat(v)])
    return out


def wsp(rng):
    return gen.pick(rng, ('', '', ' '))


def option(rng, name):
    """(checker of the parsed value, decoded text, canonical value or None)"""
    from pyslet.odata2 import core
    from pyslet.http import params, messages
    if name == 'expand':
        r = rules(rng, 2, False)
        parts = flat(r)
        rng.shuffle(parts)
        return (lambda v: v == r), ','.join(parts)
    if name == 'select':
        r = rules(rng, 2, True)
        parts = flat(r)
        rng.shuffle(parts)
        return (lambda v: v == r), ','.join(wsp(rng) + p + wsp(rng) for p in parts)
    if name == 'filter':
        s = show(rng, plain(rng, odexpr.g_bool(rng, rng.randint(0, 2))))[1]
        return (lambda v: str(v) == str(core.CommonExpression.from_str(s))), s
    if name == 'orderby':
        parts, want = [], []
        for i in range(rng.randint(1, 3)):
            s = show(rng, plain(rng, odexpr.g_num(rng, 1)))[1]
            d = gen.pick(rng, ('', ' asc', ' desc', ' DESC'))
            parts.append(s + d)
            want.append((str(core.CommonExpression.from_str(s)), -1 if d.lower() == ' desc' else 1))
        return (lambda v: [(str(e), d) for e, d in v] == want), ','.join(wsp(rng) + p + wsp(rng) for p in parts)
    if name in ('top', 'skip'):
        n = gen.pick(rng, (0, 1, 10, 2 ** 31 - 1, rng.randint(0, 10 ** 6)))
        return (lambda v: v == n), '%i' % n
    if name == 'inlinecount':
        s = gen.pick(rng, ('none', 'allpages'))
        return (lambda v: v == getattr(core.InlineCount, s)), s
    if name == 'format':
        s = gen.pick(rng, ('json', 'atom', 'xml', 'JSON', 'application/json', 'application/atom+xml;type=entry', 'text/xml'))
        full = {'json': 'application/json', 'atom': 'application/atom+xml', 'xml': 'application/xml'}.get(s.lower(), s)
        return (lambda v: str(v) == str(messages.AcceptList.from_str(full))), s
    s = gen.text(rng, 12)
    return (lambda v: v == s), s


def compose(rng):
    """a dictionary of expectations including the uri"""
    prefix = gen.pick(rng, ('', '/x.svc', '/OData/OData.svc'))
    form = gen.pick(rng, ('abs', 'path', 'rel'))
    safe = "'()=,;@&+$!*" + ('' if form == 'rel' else ':')
    path, segs = [], []
    opt = gen.pick(rng, (None, None, None, 'links', 'metadata', 'batch', 'count', 'value'))
    links = None
    if opt not in ('metadata', 'batch'):
        for i in range(rng.randint(1, 3)):
            n = gen.pick(rng, NAMES)
            k, s = predicate(rng)
            path.append((n, k))
            segs.append(enc(rng, n, '') + enc(rng, s, safe))
        if opt == 'links':
            segs.append(gen.pick(rng, ('$links', '$LINKS')))
            links = gen.pick(rng, NAMES)
            k, s = predicate(rng)
            path.append((links, k))
            segs.append(enc(rng, links, '') + enc(rng, s, safe))
    if opt and opt != 'links':
        segs.append('$' + opt)
    root = not segs or (opt is None and rng.random() < 0.05)
    if root:
        path, segs = [], []
    supported = OPTIONS['count1' if opt == 'count' and path and path[-1][1] else opt]
    q, expected = [], {}
    for name in rng.sample(supported, rng.randint(0, min(4, len(supported)))):
        check, s = option(rng, name)
        expected[name] = (check, s)
        q.append(enc(rng, '$', '$', 0) + name + '=' + enc(rng, s, "'()=,;@+$!*:/?"))
    params = {}
    for i in range(rng.choice((0, 0, 1, 2))):
        n = gen.pick(rng, ('x', 'y', 'my param', 'É'))
        if n not in params:
            t, v, s = key(rng)
            params[n] = (t, v)
            q.append(enc(rng, n, '') + '=' + enc(rng, s, "'()=,;@+!*:/?"))
    rng.shuffle(q)
    rp = '/' + '/'.join(segs)
    u = rp if form != 'rel' else rp[1:]
    if form == 'rel' and not prefix and not u:
        u, form = '/', 'path'
    if form != 'rel':
        u = prefix + u
    if form == 'abs':
        u = 'http://example.com' + u
    if q:
        u += '?' + '&'.join(q)
    return dict(uri=u, prefix=prefix, path=path, opt=opt, links=links, options=expected, params=params, resource=rp)


def keys_match(got, want):
    if want is None or got is None:
        return got is want
    return set(got) == set(want) and all(same(from_edm(got[k]), want[k]) for k in want)


def case_uri(ctx):
    from pyslet.odata2 import core
    rng = ctx.rng
    seen = []
    for i in range(12):
        c = compose(rng)
        ctx.witness(uri=c['uri'], prefix=c['prefix'])
        seen.append(c['uri'])
        try:
            u = core.ODataURI(c['uri'], c['prefix'])
        except (core.ServerError, ValueError) as err:
            ctx.fail('rejected', '%r (root %r): %s: %s' % (c['uri'], c['prefix'], type(err).__name__, err))
        ctx.count('uris')
        ctx.equal(u.resource_path, c['resource'], 'resource', c['uri'])
        ctx.check(len(u.nav_path) == len(c['path']) and all(
            g[0] == w[0] and keys_match(g[1], w[1]) for g, w in zip(u.nav_path, c['path'])), 'path', '%r: got %r, expected %r' % (
                c['uri'], [(n, k and {x: from_edm(y) for x, y in k.items()}) for n, k in u.nav_path], c['path']))
        opt = None if u.path_option is None else core.PathOption.to_str(u.path_option)
        ctx.equal(opt, c['opt'], 'path-option', c['uri'])
        ctx.equal(u.links_property, c['links'], 'links', c['uri'])
        got = {core.SystemQueryOption.to_str(o): v for o, v in u.sys_query_options.items()}
        ctx.equal(sorted(got), sorted(c['options']), 'options', c['uri'])
        for name, (check, s) in c['options'].items():
            ctx.count('options')
            ctx.check(check(got[name]), 'option-' + name, '%r: $%s=%r parsed as %s' % (c['uri'], name, s, got[name]))
        for n, (t, v) in c['params'].items():
            ctx.check(same(from_edm(u.get_param_value(n)), (t, v)), 'param', '%r: %s is %r, expected %r' % (
                c['uri'], n, from_edm(u.get_param_value(n)), (t, v)))
        ctx.check(u.get_param_value('missing').value is None, 'param-missing')
        # formatting
        for n, k in c['path']:
            if k:
                ctx.count('keys')
                d = {x: to_edm(t, v) for x, (t, v) in k.items()}
                s = core.ODataURI.format_key_dict(d)
                for text in (n_enc(n) + s, '/x/' + n_enc(n) + s):
                    back = core.ODataURI(text, '' if text[0] == '/' else '/root')
                    want = k if len(k) > 1 else {'': list(k.values())[0]}
                    ctx.check(keys_match(back.nav_path[-1][1], want) and back.nav_path[-1][0] == n, 'format-key', '%r formats as %r, parsed as %r' % (
                        k, s, {x: from_edm(y) for x, y in (back.nav_path[-1][1] or {}).items()}))
                    ctx.count('formatted')
        texts = {}
        for name, (check, s) in c['options'].items():
            if name == 'expand':
                s = core.format_expand(got[name])
            elif name == 'select':
                s = core.format_select(got[name])
            elif name == 'filter':
                s = str(got[name])
            elif name == 'orderby':
                s = core.CommonExpression.orderby_to_str(got[name])
            texts[getattr(core.SystemQueryOption, name)] = s
        if texts and not (c['opt'] in ('links', 'count', 'value')):
            q = core.ODataURI.format_sys_query_options(texts)
            back = core.ODataURI('/P?' + q)
            ctx.equal(sorted(back.sys_query_options), sorted(texts), 'format-options', q)
            for name, (check, s) in c['options'].items():
                v = back.sys_query_options[getattr(core.SystemQueryOption, name)]
                ctx.count('formatted')
                ctx.check(check(v), 'format-' + name, '$%s=%r formatted as %r, parsed as %s' % (name, s, q, v))
    ctx.nontrivial(repr(seen))
    ctx.sample(dict(uris=seen[:4]))


def n_enc(n):
    return ''.join(c if c in UNRESERVED else ''.join('%%%02X' % b for b in c.encode('utf-8')) for c in n)


def malformed(rng):
    """(uri, what) of a certainly malformed uri"""
    m = rng.randrange(16)
    k = "(%s)" % enc(rng, key(rng)[2], "'")
    opt = gen.pick(rng, ('count', 'value', 'metadata', 'batch'))
    if m == 0:
        return '/P?$%s=1' % gen.pick(rng, ('unknown', 'Filter', 'tops', '', '%24top')), 'unknown option'
    if m == 1:
        return '/P?$%s' % gen.pick(rng, OPTIONS[None]), 'option without a value'
    if m == 2:
        return '/P%s/$%s/Q' % (k, opt), 'path option not last'
    if m == 3:
        return '/P%s/$links' % k, '$links last'
    if m == 4:
        return '/P%s/$links/Q/R' % k, 'segments after $links/Q'
    if m == 5:
        return '/P%s/$links/$%s' % (k, opt), '$links followed by an option'
    if m == 6:
        return '/P%s/$%s' % (k, gen.pick(rng, ('unknown', 'counts', ''))), 'unknown path option'
    if m == 7:
        return '/P%s/$%s' % (k, gen.pick(rng, ('metadata', 'batch'))), '$metadata or $batch after a path'
    if m == 8:
        return '/%s/$%s' % (gen.pick(rng, ('$count', '$value', '$metadata', '$batch')), opt), 'two path options'
    if m == 9:
        return '/$links/Q', 'starts with $links'
    if m == 10:
        o = gen.pick(rng, ('metadata', 'batch', 'links', 'count'))
        bad = gen.pick(rng, sorted(set(OPTIONS[None]) - set(OPTIONS[o])))
        s = option(rng, bad)[1]
        path = {'links': '/P(1)/$links/Q', 'count': '/P/$count'}.get(o, '/$' + o)
        return '%s?$%s=%s' % (path, bad, enc(rng, s, '', 0)), 'unsupported option'
    if m == 11:
        return '/P(%s)' % enc(rng, gen.pick(rng, ("'a", "a'", "1,", ",1", "A=1,2", "A=", "A=1,B=", "1 2", "xyz", "A=1,,B=2", "A=1,B=2,", "A=1=2", "=1",
                                               "datetime'x'", "guid'0'", "X'0'", "'a'b'", "1,2")), "'(),="), 'key predicate'
    if m == 12:
        return '/P?$%s=%s' % (gen.pick(rng, ('top', 'skip')), gen.pick(rng, ('-1', 'x', '', '1.5', '1%20', '0x1', '%2B1'))), 'not a number'
    if m == 13:
        return '/P?$inlinecount=%s' % gen.pick(rng, ('x', '', 'all')), 'inlinecount'
    if m == 14:
        return '/P?$%s=%s' % (gen.pick(rng, ('expand', 'select')), gen.pick(rng, ('', 'A,', ',A', 'A//B', '/A', 'A/', 'A%20B', '1A', "'A'", 'A/*/B'))), 'path list'
    return '/P?$%s=%s' % (gen.pick(rng, ('filter', 'orderby')), enc(rng, gen.pick(rng, (
        '', 'A eq', 'eq 1', '(A', 'A)', "'a", 'A eq 1 B', 'foo(A)', 'A,,B', 'length(', 'not', "A eq 'b''", 'A and', '1 add')), '')), 'expression'


def case_malformed(ctx):
    from pyslet import rfc2396 as uri
    from pyslet.odata2 import core
    rng = ctx.rng
    seen = []
    for i in range(10):
        u, what = malformed(rng)
        prefix = gen.pick(rng, ('', '/x.svc'))
        ctx.witness(uri=u, what=what)
        seen.append(u)
        try:
            core.ODataURI(prefix + u, prefix)
        except (core.ServerError, ValueError):
            ctx.count('malformed')
        except Exception as err:
            ctx.fail('error-type', '%r (%s): %s: %s' % (u, what, type(err).__name__, err))
        else:
            ctx.fail('accepted', '%r (%s) was accepted' % (u, what))
    for i in range(10):
        # corruptions
        c = compose(rng)
        u = list(c['uri'])
        for j in range(rng.randint(1, 3)):
            p = rng.randrange(len(u) + 1)
            if rng.random() < 0.5:
                u[p:p + 1] = []
            else:
                u[p:p] = gen.pick(rng, ("'", '(', ')', ',', '=', '/', '$', '&', '?', '%25', '%27', '%', '%C3', '%00', '%zz', ' ', '+', '$count', '$links/', 'é'))
        u = ''.join(u)
        ctx.witness(uri=u)
        seen.append(u)
        try:
            core.ODataURI(u, c['prefix'])
        except (core.ServerError, ValueError):
            pass
        except uri.URIException:
            # not a URI at all
            ctx.raises(uri.URIException, lambda: uri.URI.from_octets(u), 'corrupt-error-type', u)
        except Exception as err:
            ctx.fail('corrupt-error-type', '%r: %s: %s' % (u, type(err).__name__, err))
        ctx.count('corrupted')
    # outside the service root
    for u, prefix in (('/x.svc2/P', '/x.svc'), ('/y/P', '/x'), ('/x/P', '/x.svc'), ('http://h/', '/x.svc'), ('/x.svc%s/P' % gen.pick(rng, ('a', '(1)', '.')), '/x.svc'),
                      ('/X.SVC/P', '/x.svc')):
        ctx.count('foreign')
        ctx.equal(core.ODataURI(u, prefix).resource_path, None, 'foreign', '%r for root %r' % (u, prefix))
    ctx.nontrivial(repr(seen))
    ctx.sample(dict(uris=seen[:8]))


WORKLOADS = [
    Workload("uri", case_uri, quick=900, thorough=12000, cpu=40),
    Workload("malformed", case_malformed, quick=500, thorough=6000, cpu=40),
]
