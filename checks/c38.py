"""C38: requests to the OData server.

Oracle: a model of the data held (dictionaries), updated as the protocol
prescribes and compared with every response and, after every change or refused
request, with the container itself."""

import base64
import datetime
import json
import re

from lib.harness import Workload
from lib import gen
from lib.odrep import ATOM, ET, Dn, Mn, RELATED, DNS, eq, fmt_json, fmt_text, esc, parse_text, text_of, value, write_json, write_xml
from lib.odsrv import (
    ROOT, THING, SPEC, FULL, NAVS, TYPES, DEFAULT, KEYS, Model, call, compare, gen_values, json_values, key_of_href, new_key, pct, pred,
    same, server, snapshot, unquote, whole, xml_values)

META = dict(
    id="C38", title="The OData server reflects the data service faithfully",
    statement="Every request answered by the server returns exactly what the underlying data holds - entities, collections with their filter, order, page, count, selection and expansion, properties, raw values, links and media, as JSON or XML as asked for - or changes it as the protocol prescribes (POST inserts and links, PUT replaces, MERGE changes only what is given, DELETE removes or nulls), and nothing else; missing resources get 404, malformed or impossible requests get 4xx, never 5xx, and change nothing.",
    quantifier=dict(over=["histories", "inputs"], text="all request histories, in every representation and protocol version"),
    why_tests_cant="tests use a fixed service and a scripted sequence of requests",
    anchors=dict(files=["pyslet/odata2/server.py", "pyslet/odata2/core.py", "pyslet/odata2/memds.py"],
                 mechanism=[dict(name="Server.__call__, get_resource, handle_request, read_entity, return_*", where="pyslet/odata2/server.py")],
                 observe_at=["WSGI responses", "contents of the container after each request"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: random request histories against the WSGI application, every response and the data afterwards compared with a model"
LEVEL_NOTE = "Held on the histories observed."
RULE = "each case is a history of requests; distinct by the requests"
MODULES = ["pyslet/odata2/server.py", "pyslet/odata2/core.py", "pyslet/odata2/csdl.py", "pyslet/odata2/memds.py"]
REQUIRE = {"collection": 300, "entity": 300, "property": 300, "links": 200, "post": 200, "put": 100, "merge": 100, "delete": 100, "bad": 500, "media": 100, "pages": 60}


class Session(object):
    """one history"""

    def __init__(self, ctx, cls=None):
        self.ctx, self.rng = ctx, ctx.rng
        self.app, self.doc, self.container = server(cls)
        self.m = Model()
        self.log = []
        self.version = 2
        if self.rng.random() < 0.3:
            self.app.topmax = self.rng.randint(1, 3)

    def send(self, method, path, headers={}, body=b''):
        h = dict(headers)
        self.version = 2
        x = self.rng.random()
        if x < 0.2:
            h['MaxDataServiceVersion'] = '1.0'
            self.version = 1
        elif x < 0.4:
            h['MaxDataServiceVersion'] = '2.0; test'
            h['DataServiceVersion'] = '1.0'
        self.log.append('%s /svc/%s %r' % (method, path, h))
        self.ctx.witness(log=self.log[-6:], body=body[:600].decode('utf-8', 'replace'))
        r = call(self.ctx, self.app, method, '/svc/' + path, h, body)
        self.log.append('%d %r' % (r.code, r.body[:200]))
        self.ctx.witness(log=self.log[-6:], body=body[:600].decode('utf-8', 'replace'), response=r.body[:800].decode('utf-8', 'replace'))
        self.ctx.check(r.code < 500, 'server error', '%s %s: %d %r' % (method, path, r.code, r.body[:300]))
        return r

    def ok(self, method, path, code, headers={}, body=b'', key=None):
        r = self.send(method, path, headers, body)
        self.ctx.check(r.code == code, '%s:status' % (key or method), '%s %s: %d, expected %d: %r' % (method, path, r.code, code, r.body[:300]))
        if code != 204:
            self.ctx.equal(r.headers.get('dataserviceversion', '')[:3], '%d.0' % self.version, 'version header') if code < 300 else None
        return r

    def want_json(self):
        """headers (or query) and whether the response should be JSON"""
        j = self.rng.random() < 0.5
        if j:
            return {'Accept': gen.pick(self.rng, ('application/json', 'application/json;q=0.9, text/html;q=0.1', 'application/json, */*;q=0.1'))}, True
        return gen.pick(self.rng, ({}, {'Accept': '*/*'}, {'Accept': 'application/atom+xml, application/xml'})), False

    def audit(self, key):
        compare(self.ctx, self.m, snapshot(self.doc), key)

    # ------------------------------------------------------- picking things

    def path(self, s, k):
        """a path to an entity, perhaps through a link"""
        rng = self.rng
        if rng.random() < 0.3:
            if s == 'Parts':
                via = [(t, 'Many') for t, p in self.m.many if p == k] + [(t, 'One') for t in self.m.one if self.m.one[t] == k]
                if via:
                    t, n = gen.pick(rng, sorted(via))
                    return 'Things%s/%s%s' % (pred(rng, 'Things', t), n, pred(rng, s, k) if n == 'Many' else '')
            elif s == 'Things':
                via = sorted(p for t, p in self.m.many if t == k)
                if via:
                    return 'Parts%s/Of%s' % (pred(rng, 'Parts', gen.pick(rng, via)), pred(rng, s, k))
        return s + pred(rng, s, k)

    def any(self, s):
        ks = sorted(self.m.e[s])
        return gen.pick(self.rng, ks) if ks else None

    # --------------------------------------------------- reading responses

    def entity_json(self, obj, s, names, expand, where):
        """the key; obj must be the entity it says it is"""
        ctx = self.ctx
        ctx.check(isinstance(obj, dict) and '__metadata' in obj, where + ':metadata', repr(obj)[:200])
        s, k = key_of_href(ctx, obj['__metadata']['uri'], where, s)
        ctx.equal(obj['__metadata']['type'], 'NS.' + TYPES[s], where + ':type')
        ctx.check(k in self.m.e[s], where + ':entity', 'unexpected %s%r' % (s, k))
        v = whole(s, k, self.m.e[s][k])
        want = dict((n, v[n]) for n in (v if names is None else names) if n in v)
        got = json_values(ctx, obj, s, want, where)
        for n in want:
            ctx.check(same({n: FULL[s][n]}, {n: got[n]}, {n: want[n]}), where + ':values', '%s%r.%s is %r, expected %r' % (s, k, n, got[n], want[n]))
        navs = [n for n in NAVS[s] if names is None or n in names or n in expand]
        ctx.equal(sorted(x for x in obj if x != '__metadata'), sorted(list(want) + navs), where + ':names')
        for n in navs:
            if n not in expand:
                ctx.equal(list(obj[n]), ['__deferred'], where + ':deferred')
                ctx.equal(obj[n]['__deferred']['uri'], obj['__metadata']['uri'] + '/' + n, where + ':deferred')
                continue
            t, many = NAVS[s][n]
            inner = obj[n]
            if many:
                inner = inner['results'] if self.version == 2 else inner
                ctx.check(isinstance(inner, list), where + ':expanded', repr(inner)[:100])
            else:
                inner = [] if inner is None else [inner]
            names2 = None if names is None else sorted(FULL[t]) if n in names else [x.split('/')[1] for x in names if x.startswith(n + '/')]
            got = sorted(self.entity_json(x, t, names2 or None, {}, where + ':expanded') for x in inner)
            ctx.equal(got, self.m.linked(s, k, n), where + ':expanded', '%s%r/%s' % (s, k, n))
        return k

    def entity_atom(self, el, s, names, expand, where):
        ctx = self.ctx
        ctx.equal(el.tag, ATOM + 'entry', where + ':tag')
        s, k = key_of_href(ctx, el.find(ATOM + 'id').text, where, s)
        ctx.check(k in self.m.e[s], where + ':entity', 'unexpected %s%r' % (s, k))
        ctx.equal([x.get('term') for x in el.findall(ATOM + 'category')], ['NS.' + TYPES[s]], where + ':type')
        v = whole(s, k, self.m.e[s][k])
        want = dict((n, v[n]) for n in (v if names is None else names) if n in v)
        content = el.find(ATOM + 'content')
        if s == 'Files':
            ctx.equal((content.get('src'), content.get('type')), (el.find(ATOM + 'id').text + '/$value', self.m.streams[k][0]), where + ':media')
            ps = el.find(Mn + 'properties')
        else:
            ps = content.find(Mn + 'properties')
        got = xml_values(ctx, ps, FULL[s], where)
        ctx.equal(sorted(got), sorted(want), where + ':names')
        for n in want:
            ctx.check(same({n: FULL[s][n]}, {n: got[n]}, {n: want[n]}), where + ':values', '%s%r.%s is %r, expected %r' % (s, k, n, got[n], want[n]))
        links = dict((x.get('rel'), x) for x in el.findall(ATOM + 'link'))
        for n in NAVS[s]:
            x = links.get(RELATED + n)
            ctx.check(x is not None, where + ':link', n)
            ctx.equal(x.get('href'), el.find(ATOM + 'id').text + '/' + n, where + ':link')
            inner = x.findall(Mn + 'inline')
            ctx.equal(len(inner), 1 if n in expand else 0, where + ':inline', n)
            if n in expand:
                t, many = NAVS[s][n]
                es = inner[0].findall('%sfeed/%sentry' % (ATOM, ATOM)) if many else inner[0].findall(ATOM + 'entry')
                names2 = None if names is None else sorted(FULL[t]) if n in names else [y.split('/')[1] for y in names if y.startswith(n + '/')]
                got = sorted(self.entity_atom(y, t, names2 or None, {}, where + ':expanded') for y in es)
                ctx.equal(got, self.m.linked(s, k, n), where + ':expanded', '%s%r/%s' % (s, k, n))
        return k

    def parse(self, r, j, where):
        """JSON (d) or XML according to the content type"""
        ct = r.headers.get('content-type', '')
        if j:
            self.ctx.check(ct.startswith('application/json'), where + ':content type', ct)
            try:
                o = r.json()
            except ValueError as err:
                self.ctx.fail(where + ':json', '%s: %r' % (err, r.body[:200]))
            self.ctx.equal(list(o), ['d'], where + ':d')
            return o['d']
        self.ctx.check('xml' in ct, where + ':content type', ct)
        try:
            return r.xml()
        except ET.ParseError as err:
            self.ctx.fail(where + ':xml', '%s: %r' % (err, r.body[:200]))


# ------------------------------------------------------------ request parts

def gen_filter(rng, s):
    """(expression, predicate on whole values)"""
    x = rng.random()
    if x < 0.3:
        a, b = gen_filter(rng, s), gen_filter(rng, s)
        if rng.random() < 0.5:
            return '(%s) and (%s)' % (a[0], b[0]), lambda v: bool(a[1](v) and b[1](v))
        # the service's two-valued logic: a null operand gives false
        return '(%s) or (%s)' % (a[0], b[0]), lambda v: None not in (a[1](v), b[1](v)) and bool(a[1](v) or b[1](v))
    num = [n for n, t in sorted(FULL[s].items()) if t in ('Int32', 'Int64')]
    txt = [n for n, t in sorted(FULL[s].items()) if t == 'String']
    if num and rng.random() < 0.5:
        n, c = gen.pick(rng, num), rng.randint(-3, 5)
        op = gen.pick(rng, ('eq', 'ne', 'gt', 'le'))
        f = dict(eq=lambda a: a == c, ne=lambda a: a != c, gt=lambda a: a is not None and a > c, le=lambda a: a is not None and a <= c)[op]
        return '%s %s %d' % (n, op, c), lambda v: f(v[n])
    n = gen.pick(rng, txt)
    c = gen.text(rng, 2, "ab'% +&=#", 1)
    lit = "'%s'" % c.replace("'", "''")
    if rng.random() < 0.5:
        return '%s eq %s' % (n, lit), lambda v: v[n] == c
    return 'startswith(%s,%s)' % (n, lit), lambda v: None if v[n] is None else v[n].startswith(c)


def query(rng, *parts):
    parts = [p for p in parts if p]
    rng.shuffle(parts)
    return '?' + '&'.join(parts) if parts else ''


def enc(rng, s):
    out = pct(s, safe="()',$/*" if rng.random() < 0.5 else '')
    return out.replace('%20', '+') if False else out


def gen_expand(rng, s):
    """(names or None, navigation properties expanded, options)"""
    navs = sorted(NAVS[s])
    expand = rng.sample(navs, rng.randint(0, len(navs))) if navs and rng.random() < 0.4 else []
    names = None
    if rng.random() < 0.4:
        names = rng.sample(sorted(FULL[s]), rng.randint(1, len(FULL[s])))
        names += expand
        if rng.random() < 0.2 and navs:
            names = list(set(names + [gen.pick(rng, navs)]))
    opts = ['$expand=' + ','.join(expand) if expand else '',
            '$select=' + ','.join(names) if names is not None else '']
    return names, expand, opts


# ----------------------------------------------------------------- requests

def get_collection(z):
    """GET on a collection, following next links"""
    rng, ctx, m = z.rng, z.ctx, z.m
    s = gen.pick(rng, ('Things', 'Things', 'Parts', 'Files'))
    path, keys = s, sorted(m.e[s])
    if rng.random() < 0.3:
        o, n = gen.pick(rng, [(o, n) for o in ('Things', 'Parts') for n in NAVS[o] if NAVS[o][n][1]])
        k = z.any(o)
        if k is None:
            return
        s = NAVS[o][n][0]
        path, keys = o + pred(rng, o, k) + '/' + n, m.linked(o, k, n)
    ctx.count("collection")
    names, expand, opts = gen_expand(rng, s)
    vals = dict((k, whole(s, k, m.e[s][k])) for k in keys)
    if rng.random() < 0.4:
        expr, f = gen_filter(rng, s)
        opts.append('$filter=' + enc(rng, expr))
        keys = [k for k in keys if f(vals[k])]
    total = len(keys)
    ordered = rng.random() < 0.5
    if ordered:
        order = []
        for n in rng.sample([n for n, t in FULL[s].items() if t in ('String', 'Int32', 'Int64')], 1):
            if n not in KEYS[s]:
                order.append((n, gen.pick(rng, (1, -1))))
        order += [(n, gen.pick(rng, (1, -1))) for n in sorted(KEYS[s])]
        for n, d in reversed(order):
            keys.sort(key=lambda k: (vals[k][n] is not None, vals[k][n] if vals[k][n] is not None else 0), reverse=d < 0)
        opts.append('$orderby=' + enc(rng, ','.join('%s%s' % (n, gen.pick(rng, ('', ' asc')) if d > 0 else ' desc') for n, d in order)))
    count = rng.random() < 0.3
    if count:
        opts.append('$inlinecount=allpages')
    elif rng.random() < 0.2:
        opts.append('$inlinecount=none')
    if rng.random() < 0.2 and not expand and names is None:
        r = z.ok('GET', path + '/$count' + query(rng, *[o for o in opts if o.startswith('$filter')]), 200, {}, key='count')
        ctx.equal(r.body, b'%d' % total, 'count')
        return
    if ordered:
        if rng.random() < 0.3:
            n = rng.randint(0, 4)
            opts.append('$skip=%d' % n)
            keys = keys[n:]
        if rng.random() < 0.3:
            n = rng.randint(0, 4)
            opts.append('$top=%d' % n)
            keys = keys[:n]
    h, j = z.want_json()
    if rng.random() < 0.2:
        opts.append('$format=' + ('json' if j else 'atom'))
        h = {'Accept': 'text/plain'}
    elif rng.random() < 0.1:
        opts.append('custom=1')
    href = path + query(rng, *opts)
    seen, pages = [], 0
    while href is not None:
        r = z.ok('GET', href, 200, h, key='collection')
        d = z.parse(r, j, 'collection')
        if j:
            if z.version == 2 and True:
                ctx.check(isinstance(d, dict), 'collection:shape', repr(d)[:100])
                if not pages:
                    ctx.equal(d.get('__count'), total if count else None, 'collection:inlinecount')
                items, nxt = d['results'], d.get('__next')
                nxt = nxt['uri'] if isinstance(nxt, dict) else nxt
            else:
                ctx.check(isinstance(d, list), 'collection:shape', repr(d)[:100])
                items, nxt = d, None
            got = [z.entity_json(x, s, names, expand, 'collection') for x in items]
        else:
            ctx.equal(d.tag, ATOM + 'feed', 'collection:feed')
            if not pages:
                ctx.equal([text_of(x) for x in d.findall(Mn + 'count')], [str(total)] if count else [], 'collection:inlinecount')
            got = [z.entity_atom(x, s, names, expand, 'collection') for x in d.findall(ATOM + 'entry')]
            nxt = [x.get('href') for x in d.findall(ATOM + 'link') if x.get('rel') == 'next']
            ctx.check(len(nxt) < 2, 'collection:next', repr(nxt))
            nxt = nxt[0] if nxt else None
        ctx.check(len(got) <= z.app.topmax, 'collection:page', '%d entities in a page' % len(got))
        seen += got
        pages += 1
        if j and z.version == 1:
            # this version can't say that there are more
            if len(got) == z.app.topmax and len(keys) > len(seen):
                keys = [k for k in (keys if ordered else sorted(seen)) if k in seen]
            break
        if nxt is None:
            break
        ctx.count("pages")
        ctx.check(nxt.startswith(ROOT) and pages <= len(keys) + 1, 'collection:next', nxt)
        href = nxt[len(ROOT):]
        # the link does not carry the format
        h = {'Accept': 'application/json'} if j else {}
    if ordered:
        ctx.equal(seen, keys, 'collection:order', path)
    else:
        ctx.equal(sorted(seen), sorted(keys), 'collection:entities', path)


def get_entity(z):
    rng, ctx, m = z.rng, z.ctx, z.m
    s = gen.pick(rng, ('Things', 'Things', 'Parts', 'Files'))
    k = z.any(s)
    if k is None:
        return
    ctx.count("entity")
    path = z.path(s, k)
    names, expand, opts = gen_expand(rng, s)
    h, j = z.want_json()
    if rng.random() < 0.1:
        r = z.ok('GET', path + '/$count', 200, {}, key='count')
        ctx.equal(r.body, b'1', 'count', 'of a single entity')
        return
    r = z.ok('GET', path + query(rng, *opts), 200, h, key='entity')
    d = z.parse(r, j, 'entity')
    # the only expansion is in version 2 form for single entities
    v, z.version = z.version, 2
    got = z.entity_json(d, s, names, expand, 'entity') if j else z.entity_atom(d, s, names, expand, 'entity')
    z.version = v
    ctx.equal(got, k, 'entity:key')
    if s == 'Parts' and (names is None or 'V' in names):
        etag = r.headers.get('etag')
        ctx.equal(etag is not None, m.e[s][k]['V'] is not None, 'entity:etag')
        if etag:
            ctx.check(re.match(r'^(W/)?"[!#-~]*"$', etag), 'entity:etag', etag)
            if j:
                ctx.equal(d['__metadata'].get('etag'), etag, 'entity:etag')


def properties(s):
    """(path, type, nullable)"""
    out = []
    for n, t in sorted(FULL[s].items()):
        out.append(((n,), t))
        if isinstance(t, dict):
            out += [((n, i), t[i]) for i in sorted(t)]
    return out


def lookup(v, p):
    for n in p:
        v = v[n]
    return v


def get_property(z):
    rng, ctx, m = z.rng, z.ctx, z.m
    s = gen.pick(rng, ('Things', 'Things', 'Parts'))
    k = z.any(s)
    if k is None:
        return
    ctx.count("property")
    p, t = gen.pick(rng, properties(s))
    v = lookup(whole(s, k, m.e[s][k]), p)
    path = z.path(s, k) + '/' + '/'.join(p)
    if not isinstance(t, dict) and rng.random() < 0.5:
        r = z.ok('GET', path + '/$value', 404 if v is None else 200, {}, key='value')
        if v is None:
            return
        if t == 'Binary':
            ctx.equal(r.body, v, 'value:Binary')
        else:
            ctx.check(r.headers['content-type'].startswith('text/plain'), 'value:content type', r.headers['content-type'])
            try:
                got = parse_text(t, r.body.decode('utf-8'))
            except ValueError:
                ctx.fail('value:' + t, '%r for %r' % (r.body, v))
            ctx.check(eq(t, got, v), 'value:' + t, '%r, expected %r' % (got, v))
        return
    h = {'Accept': 'application/json'} if rng.random() < 0.5 else gen.pick(rng, ({}, {'Accept': 'application/xml'}))
    r = z.ok('GET', path, 200, h, key='property')
    d = z.parse(r, bool(h) and 'json' in h['Accept'], 'property')
    n = p[-1]
    if isinstance(d, dict):
        if z.version == 2:
            ctx.equal(list(d), ['results'], 'property:shape')
            d = d['results']
        ctx.equal(list(d), [n], 'property:shape')
        from lib.odrep import parse_json
        try:
            got = dict((i, parse_json(t[i], d[n][i])) for i in t) if isinstance(t, dict) else parse_json(t, d[n])
        except (ValueError, KeyError, TypeError, AttributeError) as err:
            ctx.fail('property:json', '%r: %r' % (d, err))
    else:
        ctx.equal(d.tag, Dn + n, 'property:tag')
        top = ET.Element('x')
        top.append(d)
        got = xml_values(ctx, top, {n: t}, 'property')[n]
    ctx.check(same({n: t}, {n: got}, {n: v}), 'property:value', '%s is %r, expected %r' % (n, got, v))


def put_property(z):
    rng, ctx, m = z.rng, z.ctx, z.m
    s = gen.pick(rng, ('Things', 'Things', 'Parts'))
    k = z.any(s)
    if k is None:
        return
    ctx.count("property")
    p, t = gen.pick(rng, [x for x in properties(s) if x[0][0] not in KEYS[s]])
    path, n = z.path(s, k) + '/' + '/'.join(p), p[-1]
    holder = lookup(m.e[s][k], p[:-1])
    x = rng.random()
    if x < 0.2 and not isinstance(t, dict):
        if n == 'R':
            r = z.send('DELETE', path)
            ctx.check(400 <= r.code < 500, 'property:required', 'deleting a property that is not nullable: %d' % r.code)
        else:
            z.ok('DELETE', path, 204, key='delete property')
            holder[n] = None
        return
    if isinstance(t, dict):
        v = dict((i, None if rng.random() < 0.2 else value(rng, t[i])) for i in t)
    else:
        v = value(rng, t)
        if x < 0.3 and n != 'R':
            v = None
    if x > 0.7 and not isinstance(t, dict):
        if v is None:
            return
        if holder[n] is None:
            r = z.send('PUT', path + '/$value', {'Content-Type': 'text/plain'}, b'1')
            ctx.check(r.code in (204, 404) or t in ('DateTime', 'Binary'), 'property:null value', str(r.code))
            if r.code == 204:
                # not what the library does at the moment, but no harm
                holder[n] = parse_text(t, '1') if t != 'Binary' else b'1'
            return
        if t == 'Binary':
            z.ok('PUT', path + '/$value', 204, {'Content-Type': 'application/octet-stream'}, v, key='put value')
        else:
            cs = gen.pick(rng, ('utf-8', 'UTF-8', 'utf-16'))
            z.ok('PUT', path + '/$value', 204, {'Content-Type': 'text/plain; charset=' + gen.pick(rng, ('%s', '"%s"')) % cs}, fmt_text(rng, t, v).encode(cs), key='put value')
    elif x > 0.4:
        body = write_json(rng, {n: t}, {n: v})
        z.ok('PUT', path, 204, {'Content-Type': gen.pick(rng, ('application/json', 'application/json; charset=utf-8'))}, body.encode('utf-8'), key='put property')
    else:
        body = write_xml(rng, {n: t}, {n: v})
        i = re.match(r'<d:\w+', body).end()
        body = body[:i] + ' xmlns:d="%s" xmlns:m="%s/metadata"' % (DNS, DNS) + body[i:]
        z.ok('PUT', path, 204, {'Content-Type': gen.pick(rng, ('application/xml', 'text/xml;charset=utf-8', 'application/xml'))}, body.strip().encode('utf-8'), key='put property')
    holder[n] = v


def entry(rng, s, vals, links, root):
    """an Atom entry; links is a list of (nav, href)"""
    ls = ''.join('<link rel="%s%s" href="%s" title="%s"/>' % (RELATED, n, h, n) for n, h in links)
    return ('<?xml version="1.0" encoding="utf-8"?><entry xmlns="http://www.w3.org/2005/Atom" xmlns:d="%s" xmlns:m="%s/metadata"%s>'
            '<title/><updated>2001-01-01T00:00:00Z</updated><author><name/></author><id/>%s'
            '<content type="application/xml"><m:properties>%s</m:properties></content></entry>') % (
        DNS, DNS, ' xml:base="%s"' % root if root else '', ls, write_xml(rng, FULL[s], vals))


def body_of(z, s, vals, links):
    """(headers, body) for an entity with links: a list of (nav, many, [target keys])"""
    rng = z.rng
    if rng.random() < 0.5:
        text = write_json(rng, FULL[s], vals)
        extra = []
        for n, many, ks in links:
            refs = ['{"__metadata":{"uri":%s}}' % json.dumps(gen.pick(rng, (ROOT, ROOT, '/svc/')) + NAVS[s][n][0] + pred(rng, NAVS[s][n][0], k)) for k in ks]
            extra.append('%s:%s' % (json.dumps(n), '[%s]' % ','.join(refs) if many else refs[0]))
        if extra:
            text = text.rstrip()[:-1] + (',' if len(vals) else '') + ','.join(extra) + '}'
        h = gen.pick(rng, ({'Content-Type': 'application/json'}, {'Content-Type': 'application/json;charset=utf-8'}))
        return h, text.encode('utf-8')
    base = gen.pick(rng, (None, ROOT))
    hrefs = [(n, (gen.pick(rng, ('', ROOT)) if base else ROOT) + NAVS[s][n][0] + pred(rng, NAVS[s][n][0], k)) for n, many, ks in links for k in ks]
    return {'Content-Type': gen.pick(rng, ('application/atom+xml', 'application/atom+xml;type=entry', 'application/xml'))}, entry(rng, s, vals, hrefs, base).encode('utf-8')


def post(z):
    rng, ctx, m = z.rng, z.ctx, z.m
    s = gen.pick(rng, ('Things', 'Things', 'Parts'))
    k = new_key(rng, s)
    ctx.count("post")
    vals = gen_values(rng, s)
    dup = k in m.e[s]
    if rng.random() < 0.1 and m.e[s]:
        k, dup = z.any(s), True
    given = dict(vals)
    for n in list(given):
        if rng.random() < 0.1:
            del given[n]
            vals[n] = dict((i, None) for i in SPEC[s][n]) if isinstance(SPEC[s][n], dict) else DEFAULT if n == 'R' else None
    links = []
    parent = None
    if rng.random() < 0.2:
        o, n = gen.pick(rng, [(o, n) for o in ('Things', 'Parts') for n in NAVS[o] if NAVS[o][n] == (s, True)])
        ok = z.any(o)
        if ok is not None:
            parent = (o, ok, n)
    if rng.random() < 0.6:
        for n, (t, many) in sorted(NAVS[s].items()):
            ks = sorted(m.e[t])
            ks = rng.sample(ks, min(len(ks), rng.randint(0, 2) if many else 1)) if rng.random() < 0.6 else []
            if parent and (many and NAVS[parent[0]][parent[2]][1]):
                ks = [x for x in ks if x != parent[1]]
            if ks:
                links.append((n, many, ks))
    h, body = body_of(z, s, whole(s, k, given), links)
    hj, j = z.want_json()
    path = s if parent is None else parent[0] + pred(rng, parent[0], parent[1]) + '/' + parent[2]
    h.update(hj)
    if dup:
        r = z.send('POST', path, h, body)
        ctx.check(400 <= r.code < 500, 'post:duplicate', '%s%r exists: %d' % (s, k, r.code))
        return
    r = z.ok('POST', path, 201, h, body, key='post')
    m.e[s][k] = vals
    if s == 'Things':
        m.one[k] = None
    for n, many, ks in links:
        for x in ks:
            m.link(s, k, n, x)
    if parent:
        m.link(parent[0], parent[1], parent[2], k)
    loc = r.headers.get('location')
    ctx.check(loc is not None, 'post:location', 'no Location')
    ctx.equal(key_of_href(ctx, loc, 'post', s)[1], k, 'post:location')
    d = z.parse(r, j, 'post')
    z.version = 2
    got = z.entity_json(d, s, None, {}, 'post') if j else z.entity_atom(d, s, None, {}, 'post')
    ctx.equal(got, k, 'post:entity')


def update(z):
    """PUT and MERGE"""
    rng, ctx, m = z.rng, z.ctx, z.m
    s = gen.pick(rng, ('Things', 'Things', 'Parts'))
    k = z.any(s)
    if k is None:
        return
    method = gen.pick(rng, ('PUT', 'MERGE'))
    ctx.count(method.lower())
    vals = gen_values(rng, s)
    given = dict((n, vals[n]) for n in vals if rng.random() < 0.6)
    links = []
    if s == 'Things' and m.e['Parts'] and rng.random() < 0.3:
        links.append(('One', False, [z.any('Parts')]))
    sent = whole(s, k, given) if rng.random() < 0.6 else given
    h, body = body_of(z, s, sent, links)
    path = z.path(s, k)
    z.ok(method, path, 204, h, body)
    for n in SPEC[s]:
        if n in given:
            m.e[s][k][n] = given[n]
        elif method == 'PUT':
            t = SPEC[s][n]
            m.e[s][k][n] = dict((i, None) for i in t) if isinstance(t, dict) else DEFAULT if n == 'R' else None
    for n, many, ks in links:
        m.link(s, k, n, ks[0])


def delete(z):
    rng, ctx, m = z.rng, z.ctx, z.m
    s = gen.pick(rng, ('Things', 'Parts', 'Files'))
    k = z.any(s)
    if k is None or len(m.e[s]) < 2 and rng.random() < 0.7:
        return
    ctx.count("delete")
    path = z.path(s, k)
    z.ok('DELETE', path, 204)
    m.delete(s, k)
    r = z.send('GET', s + pred(rng, s, k))
    ctx.equal(r.code, 404, 'deleted')


def links(z):
    rng, ctx, m = z.rng, z.ctx, z.m
    s, n = gen.pick(rng, [(s, n) for s in ('Things', 'Parts') for n in sorted(NAVS[s])])
    k = z.any(s)
    if k is None:
        return
    ctx.count("links")
    t, many = NAVS[s][n]
    now = m.linked(s, k, n)
    path = '%s%s/$links/%s' % (s, pred(rng, s, k), n)
    x = rng.random()
    target = z.any(t)
    if x < 0.4 or target is None:
        j = rng.random() < 0.5
        h = {'Accept': 'application/json'} if j else {'Accept': 'application/xml'}
        opts = []
        if many and rng.random() < 0.3:
            opts.append('$inlinecount=allpages')
        count = len(opts)
        skip = top = None
        if many and rng.random() < 0.3:
            skip = rng.randint(0, 3)
            opts.append('$skip=%d' % skip)
        if many and rng.random() < 0.3:
            top = rng.randint(0, 3)
            opts.append('$top=%d' % top)
        if not many and not now:
            z.ok('GET', path, 404, h, key='links')
            return
        r = z.ok('GET', path + query(rng, *opts), 200, h, key='links')
        d = z.parse(r, j, 'links')
        if j:
            if many and z.version == 2:
                ctx.equal(d.get('__count'), len(now) if count else None, 'links:count')
                d = d['results']
            uris = [i['uri'] for i in (d if many else [d])]
        elif many:
            ctx.equal(d.tag, Dn + 'links', 'links:tag')
            uris = [text_of(i) for i in d.findall(Dn + 'uri')]
        else:
            ctx.equal(d.tag, Dn + 'uri', 'links:tag')
            uris = [text_of(d)]
        got = sorted(key_of_href(ctx, u, 'links', t)[1] for u in uris)
        if skip is None and top is None:
            ctx.equal(got, now, 'links:targets', path)
        else:
            ctx.equal(len(got), len(now[skip or 0:][:top]), 'links:page', path)
            ctx.check(set(got) <= set(now) and len(set(got)) == len(got), 'links:page', repr(got))
        return
    href = gen.pick(rng, (ROOT, ROOT, '')) + t + pred(rng, t, target)
    if rng.random() < 0.5:
        h, body = {'Content-Type': 'application/json'}, json.dumps(dict(uri=href)).encode('ascii')
    else:
        h, body = {'Content-Type': 'application/xml'}, ('<?xml version="1.0"?><uri xmlns="%s">%s</uri>' % (DNS, esc(href))).encode('ascii')
    if x < 0.6:
        if not many and now:
            r = z.send('POST', path, h, body)
            ctx.check(400 <= r.code < 500, 'links:already linked', str(r.code))
            return
        z.ok('POST', path, 204, h, body, key='link')
        m.link(s, k, n, target)
    elif x < 0.75:
        if many:
            r = z.send('PUT', path, h, body)
            ctx.check(400 <= r.code < 500, 'links:PUT to many', str(r.code))
            return
        z.ok('PUT', path, 204, h, body, key='relink')
        m.link(s, k, n, target)
    else:
        if many:
            if target in now:
                z.ok('DELETE', path + pred(rng, t, target), 204, key='unlink')
                m.unlink(s, k, n, target)
            else:
                z.ok('DELETE', path + pred(rng, t, target), 404, key='unlink')
        else:
            z.ok('DELETE', path, 204 if now else 404, key='unlink')
            m.one[k] = None


def media(z):
    rng, ctx, m = z.rng, z.ctx, z.m
    ctx.count("media")
    x = rng.random()
    data = gen.data(rng, 60)
    mtype = gen.pick(rng, ('text/plain', 'image/png', 'application/octet-stream', 'text/html; charset=utf-8'))
    if x < 0.4 or not m.e['Files']:
        k = gen.text(rng, 4, "ab'/c ", 1).strip() or 'x'
        if k in m.e['Files']:
            return
        h = {'Content-Type': mtype, 'Slug': pct("('%s')" % k.replace("'", "''"), safe="' ()/")}
        hj, j = z.want_json()
        h.update(hj)
        r = z.ok('POST', 'Files', 201, h, data, key='media post')
        slug = "('%s')" % k.replace("'", "''")
        m.e['Files'][k] = dict(Title=slug)
        m.streams[k] = (mtype, data)
        ctx.equal(key_of_href(ctx, r.headers.get('location', ''), 'media', 'Files')[1], k, 'media:location')
        d = z.parse(r, j, 'media')
        got = z.entity_json(d, 'Files', None, {}, 'media') if j else z.entity_atom(d, 'Files', None, {}, 'media')
        ctx.equal(got, k, 'media:entity')
        return
    k = z.any('Files')
    path = 'Files' + pred(rng, 'Files', k) + '/$value'
    if x < 0.6:
        z.ok('PUT', path, 204, {'Content-Type': mtype}, data, key='media put')
        m.streams[k] = (mtype, data)
    else:
        head = rng.random() < 0.3
        r = z.ok('HEAD' if head else 'GET', path, 200, gen.pick(rng, ({}, {'Accept': '*/*'}, {'Accept': m.streams[k][0]})), key='media get')
        ctx.equal(r.body, b'' if head else m.streams[k][1], 'media:octets')
        ctx.equal(r.headers.get('content-length'), str(len(m.streams[k][1])), 'media:length')
        ctx.equal(r.headers.get('content-type'), m.streams[k][0], 'media:type')


def root(z):
    rng, ctx = z.rng, z.ctx
    if rng.random() < 0.3:
        r = z.ok('GET', '$metadata', 200, key='metadata')
        names = sorted(x.get('Name') for x in r.xml().iter() if x.tag.endswith('}EntitySet'))
        ctx.equal(names, sorted(SPEC), 'metadata')
        return
    j = rng.random() < 0.5
    r = z.ok('GET', '', 200, {'Accept': 'application/json'} if j else {}, key='root')
    if j:
        got = r.json()['d']['EntitySets']
    else:
        got = [x.get('href') for x in r.xml().iter() if x.tag.endswith('}collection')]
    ctx.equal(sorted(got), sorted(SPEC), 'root')


def bad(z):
    """requests that cannot be satisfied"""
    rng, ctx, m = z.rng, z.ctx, z.m
    ctx.count("bad")
    t, p = z.any('Things'), z.any('Parts')
    tp = 'Things' + pred(rng, 'Things', t) if t is not None else 'Things(%27zz%27)'
    gone = lambda s: s + pred(rng, s, 'missing' if s != 'Parts' else (999, 'missing'))
    J, X = {'Content-Type': 'application/json'}, {'Content-Type': 'application/atom+xml'}
    notfound = ['Nothing', 'Nothing(1)', 'NotDB.Things', gone('Things'), gone('Parts'), gone('Things') + '/N', gone('Things') + '/N/$value',
                gone('Things') + '/One', gone('Things') + '/Many', gone('Things') + '/$links/Many']
    if t is not None:
        notfound += [tp + '/Nope', tp + '/Home/Nope', tp + '/Many' + pred(rng, 'Parts', (999, 'x'))]
        if m.one.get(t) is None:
            notfound += [tp + '/One', tp + '/$links/One']
    x = rng.random()
    if x < 0.3:
        method = gen.pick(rng, ('GET', 'GET', 'DELETE', 'PUT', 'POST', 'MERGE'))
        path = gen.pick(rng, notfound)
        # a POST to $links of a missing link creates it
        if method != 'GET' and path.endswith('$links/One'):
            return
        r = z.send(method, path, J if method != 'GET' and method != 'DELETE' else {}, b'{}' if method not in ('GET', 'DELETE') else b'')
        ctx.check(r.code == 404 if method == 'GET' else 400 <= r.code < 500, 'bad:missing', '%s %s: %d' % (method, path, r.code))
        return
    badopts = ['$filter=', '$filter=N%20eq', '$filter=Nope%20eq%201', '$filter=(N%20eq%201', "$filter=N%20eq%20'", '$orderby=Nope%20asc', '$orderby=N%20up', '$top=-1',
               '$top=x', '$skip=-1', '$skip=1.5', '$skip=', '$inlinecount=some', '$expand=Nope', '$expand=N', '$select=Nope', '$select=', '$nope=1', '$top',
               '$select=Many/Nope', '$expand=Many/Nope', '$filter=Home/Nope%20eq%201', '$filter=%zz', '$format=%FF', '$filter=startswith(N)',
               '$filter=nofn(N)%20eq%201', '$filter=Home%20eq%201', '$filter=Nope/X%20eq%201', '$orderby=startswith(N,1)', '$filter=S%20gt%201', '$filter=N%20add%20%27a%27%20eq%201',
               '$orderby=Many', '$filter=Many%20eq%201', '$filter=Many/Name%20eq%201', '$top=99999999999999999999x', '$inlinecount=']
    if x < 0.55:
        path = 'Things?' + gen.pick(rng, badopts)
        r = z.send('GET', path)
        if path.split('?')[1] in ('$filter=S%20gt%201', '$filter=startswith(N)', '$filter=N%20add%20%27a%27%20eq%201', '$orderby=startswith(N,1)', '$orderby=Many', '$filter=Many%20eq%201', '$filter=Many/Name%20eq%201',
                                  '$filter=Home%20eq%201', '$filter=Nope%20eq%201', '$filter=Nope/X%20eq%201', '$orderby=Nope%20asc', '$filter=Home/Nope%20eq%201') and not m.e['Things']:
            # nothing to apply it to
            return
        ctx.check(400 <= r.code < 500, 'bad:option', '%s: %d' % (path, r.code))
        return
    reqs = [('GET', "Things('a", {}, b''), ('GET', 'Things(1)', {}, b''), ('GET', "Parts('a')", {}, b''), ('GET', "Parts(A=1L)", {}, b''), ('GET', 'Things()/N', {}, b''),
            ('GET', "Parts(A='x',B='y')", {}, b''), ('GET', "Parts(A=1L,C='y')", {}, b''), ('GET', 'Things/N', {}, b''), ('GET', 'Things/$value', {}, b''),
            ('GET', "Things(Nope='a')", {}, b''), ('GET', 'Things(%27a%27', {}, b''), ('GET', '%zz', {}, b''), ('GET', '%FF', {}, b''), ('GET', 'Things%00', {}, b''),
            ('GET', 'Th%C3ings', {}, b''), ('GET', 'Things/$links/One', {}, b''), ('GET', '$batch', {}, b''), ('POST', '$batch', {}, b''), ('GET', 'Things/$links', {}, b''),
            ('PUT', 'Things', J, b'{}'), ('DELETE', 'Things', {}, b''), ('MERGE', 'Things', J, b'{}'), ('PATCH', 'Things', J, b'{}'), ('FOO', 'Things', {}, b''),
            ('POST', 'Things', J, b'{'), ('POST', 'Things', J, b'[]'), ('POST', 'Things', J, b'5'), ('POST', 'Things', J, b'null'), ('POST', 'Things', J, b''),
            ('POST', 'Things', J, b'\xff\xfe{'), ('POST', 'Things', X, b'<entry'), ('POST', 'Things', X, b''), ('POST', 'Things', X, b'<a/>'), ('POST', 'Things', X, b'junk'),
            ('POST', 'Things', {'Content-Type': 'text/html'}, b'junk'), ('POST', 'Things', {'Content-Type': '/'}, b'{}'), ('POST', 'Things', {}, b''),
            ('POST', 'Things', J, b'{"K":"q1","N":"x"}'), ('POST', 'Things', J, b'{"K":"q2","N":99999999999}'), ('POST', 'Things', J, b'{"K":"q3","Home":5}'),
            ('POST', 'Things', J, b'{"K":"q4","One":{"__metadata":{"uri":"Nothing"}}}'), ('POST', 'Things', J, b'{"K":"q5","One":5}'),
            ('POST', 'Things', J, b'{"K":"q7","W":"/Date(x)/"}'), ('POST', 'Things', J, b'{"K":"q9","F":"one"}'),
            ('POST', 'Things', J, b'{"K":"q10","One":{"__metadata":{"uri":"http://other.example.com/svc/Parts(A=1L,B=%27a%27)"}}}'),
            ('POST', 'Things', J, b'{"K":"q11","Many":[{"__metadata":{}}]}'), ('POST', 'Things', J, b'{"K":"q12","Many":[{"__metadata":{"uri":"Parts(A=999L,B=%27no%27)"}}]}'),
            ('POST', 'Things', {'Content-Type': 'application/json; charset=nope'}, b'{"K":"q13"}'),
            ('POST', 'Things', X, entry(rng, 'Things', {'K': 'q14'}, [('One', 'Nothing')], ROOT).encode()),
            ('POST', 'Things', X, entry(rng, 'Things', {'K': 'q15'}, [], ROOT).replace('</m:properties>', '<d:N>x</d:N></m:properties>').encode()),
            ('POST', 'Things', X, entry(rng, 'Things', {'K': 'q16'}, [('One', 'Things')], ROOT).encode())]
    if t is not None:
        reqs += [('POST', tp, J, b'{}'), ('PATCH', tp, J, b'{}'), ('GET', tp + '/$value', {}, b''), ('GET', tp + '/N/x', {}, b''), ('GET', tp + '/Home/$value', {}, b''),
                 ('GET', tp + '/N/$value/x', {}, b''), ('GET', tp + '(1)', {}, b''), ('GET', tp + '/One(1)', {}, b''), ('GET', tp + '/N/$count', {}, b''),
                 ('GET', tp + '?$top=1', {}, b''), ('GET', tp + '/N?$expand=One', {}, b''), ('GET', tp + '/N/$value?$top=1', {}, b''),
                 ('GET', tp + '/Many/Name', {}, b''), ('GET', tp + '/$links/N', {}, b''), ('GET', tp + '/$links/Nope', {}, b''), ('GET', tp + '/$links', {}, b''),
                 ('PUT', tp + '/N', J, b'{"N":"x"}'), ('PUT', tp + '/N', J, b'{"N":3000000000}'), ('PUT', tp + '/N', J, b'{'), ('PUT', tp + '/N', X, b'<x'), ('PUT', tp + '/N', J, b'5'),
                 ('PUT', tp + '/N', {'Content-Type': 'application/xml'}, b'<a/>'), ('POST', tp + '/N', J, b'{"N":1}'), ('MERGE', tp + '/N', J, b'{"N":1}'),
                 ('PUT', tp + '/K', J, b'{"K":null}') if False else ('DELETE', tp + '/K', {}, b''), ('DELETE', tp + '/K/$value', {}, b''), ('DELETE', tp + '/Many', {}, b''),
                 ('PUT', tp, J, b'{'), ('PUT', tp, J, b'[]'), ('PUT', tp, X, b'<a/>'), ('MERGE', tp, J, b'{"N":"x"}'), ('PUT', tp, J, b'{"W":1}'), ('MERGE', tp, X, b'<entry/'),
                 ('PUT', tp + '/N/$value', {'Content-Type': 'text/plain'}, b'x'), ('PUT', tp + '/N/$value', {'Content-Type': 'image/png'}, b'5'),
                 ('PUT', tp + '/N/$value', {'Content-Type': 'text/plain; charset=utf-8'}, b'\xff'), ('PUT', tp + '/N/$value', {'Content-Type': 'text/plain; charset=nope'}, b'5'),
                 ('PUT', tp + '/$links/Many', J, b'{}'), ('POST', tp + '/$links/Many', J, b'{}'), ('POST', tp + '/$links/Many', J, b'{"uri":"Things"}'),
                 ('POST', tp + '/$links/Many', J, b'{"uri":"Parts(A=999L,B=%27no%27)"}'), ('POST', tp + '/$links/Many', J, b'{"uri":5}'), ('POST', tp + '/$links/Many', J, b'[]'),
                 ('POST', tp + '/$links/Many', J, b'{"uri":"http://other.example.com/"}'), ('POST', tp + '/$links/Many', J, json.dumps(dict(uri=tp)).encode()),
                 ('POST', tp + '/$links/Many', J, b'{"uri":"%zz"}'), ('POST', tp + '/$links/Many', {'Content-Type': 'application/xml'}, b'<a/>'), ('DELETE', tp + '/$links/Many', {}, b''),
                 ('POST', tp + '/$links/Many', {'Content-Type': 'application/xml'}, b'<uri xmlns="%s"/>' % DNS.encode()), ('PUT', tp + '/Home', J, b'{"Home":5}'),
                 ('PUT', tp + '/$value', {'Content-Type': 'text/plain'}, b'x'), ('PUT', tp + '/W', J, b'{"W":"/Date(99999999999999999)/"}')]
    method, path, h, body = gen.pick(rng, reqs)
    r = z.send(method, path, h, body)
    ctx.check(400 <= r.code < 500, 'bad:request', '%s %s %r: %d' % (method, path, body[:60], r.code))


OPS = [get_collection] * 5 + [get_entity] * 4 + [get_property] * 4 + [put_property] * 3 + [post] * 5 + [update] * 4 + [delete] * 2 + [links] * 4 + [media] * 2 + [root] + [bad] * 6


def history(ctx):
    z = Session(ctx)
    for i in range(ctx.rng.randint(8, 30)):
        f = gen.pick(ctx.rng, OPS if i > 4 else [post, post, media])
        f(z)
        z.audit('after ' + f.__name__)
    ctx.nontrivial(tuple(x[:60] for x in z.log))
    ctx.sample(dict(requests=len(z.log) // 2, things=len(z.m.e['Things']), parts=len(z.m.e['Parts']), links=len(z.m.many)))


def readonly(ctx):
    """a read-only server changes nothing"""
    from pyslet.odata2 import server as odata
    rng = ctx.rng
    z = Session(ctx)
    for i in range(6):
        gen.pick(rng, (post, post, media))(z)
    app = odata.ReadOnlyServer(ROOT)
    app.set_model(z.doc)
    app.topmax = z.app.topmax
    z.app = app
    for i in range(6):
        gen.pick(rng, (get_collection, get_entity, get_property, root))(z)
    before = snapshot(z.doc)
    for i in range(6):
        s = gen.pick(rng, ('Things', 'Parts'))
        k = z.any(s)
        if k is None:
            continue
        h, body = body_of(z, s, whole(s, new_key(rng, s), gen_values(rng, s)), [])
        method = gen.pick(rng, ('POST', 'PUT', 'MERGE', 'DELETE', 'post', 'Delete'))
        path = gen.pick(rng, (s, z.path(s, k), z.path(s, k) + ('/N' if s == 'Things' else '/Name'), gen.pick(rng, ('Things', 'Parts')) + '/$count'))
        r = z.send(method, path, h, body)
        ctx.check(400 <= r.code < 500, 'readonly', '%s %s: %d' % (method, path, r.code))
    compare(ctx, before, snapshot(z.doc), 'readonly')
    ctx.nontrivial(tuple(x[:60] for x in z.log))


WORKLOADS = [
    Workload("history", history, 1100, 20000),
    Workload("readonly", readonly, 100, 2000),
]
