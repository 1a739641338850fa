"""A data service, a model of what it holds, and direct WSGI calls."""

import io
import json
import re
from urllib.parse import quote as pct, unquote, unquote_to_bytes

from lib import gen, odexpr
from lib.odrep import MNS, Dn, Mn, ET, eq, get, parse_json, parse_text, text_of, value

ROOT = 'http://host.example.com/svc/'
INNER = dict(Zip='String', Lat='Double', Bin='Binary')
THING = dict(N='Int32', S='String', F='Double', W='DateTime', B='Binary', R='String', Home=INNER)
PART = dict(Name='String', V='Int32')
FILE = dict(Title='String')
KEYS = dict(Things=dict(K='String'), Parts=dict(A='Int64', B='String'), Files=dict(K='String'))
SPEC = dict(Things=THING, Parts=PART, Files=FILE)
FULL = dict((s, dict(SPEC[s], **KEYS[s])) for s in SPEC)
NAVS = dict(Things=dict(One=('Parts', False), Many=('Parts', True)), Parts=dict(Of=('Things', True)), Files={})
TYPES = dict(Things='Thing', Parts='Part', Files='File')
DEFAULT = 'd é'

SCHEMA = ('<Schema Namespace="NS" xmlns="http://schemas.microsoft.com/ado/2006/04/edm" xmlns:m="%s">' % MNS +
          '<ComplexType Name="Inner"><Property Name="Zip" Type="Edm.String"/><Property Name="Lat" Type="Edm.Double"/><Property Name="Bin" Type="Edm.Binary"/></ComplexType>'
          '<EntityType Name="Thing"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.String" Nullable="false"/>'
          '<Property Name="N" Type="Edm.Int32"/><Property Name="S" Type="Edm.String"/><Property Name="F" Type="Edm.Double"/>'
          '<Property Name="W" Type="Edm.DateTime" Precision="3"/><Property Name="B" Type="Edm.Binary"/>'
          '<Property Name="R" Type="Edm.String" Nullable="false" DefaultValue="%s"/><Property Name="Home" Type="NS.Inner" Nullable="false"/>' % DEFAULT +
          '<NavigationProperty Name="One" Relationship="NS.TO" FromRole="t" ToRole="p"/>'
          '<NavigationProperty Name="Many" Relationship="NS.TM" FromRole="t" ToRole="p"/></EntityType>'
          '<EntityType Name="Part"><Key><PropertyRef Name="A"/><PropertyRef Name="B"/></Key><Property Name="A" Type="Edm.Int64" Nullable="false"/>'
          '<Property Name="B" Type="Edm.String" Nullable="false"/><Property Name="Name" Type="Edm.String"/><Property Name="V" Type="Edm.Int32" ConcurrencyMode="Fixed"/>'
          '<NavigationProperty Name="Of" Relationship="NS.TM" FromRole="p" ToRole="t"/></EntityType>'
          '<EntityType Name="File" m:HasStream="true"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.String" Nullable="false"/>'
          '<Property Name="Title" Type="Edm.String" m:FC_TargetPath="SyndicationTitle" m:FC_KeepInContent="true"/></EntityType>'
          '<Association Name="TO"><End Role="t" Type="NS.Thing" Multiplicity="*"/><End Role="p" Type="NS.Part" Multiplicity="0..1"/></Association>'
          '<Association Name="TM"><End Role="t" Type="NS.Thing" Multiplicity="*"/><End Role="p" Type="NS.Part" Multiplicity="*"/></Association>'
          '<EntityContainer Name="DB" m:IsDefaultEntityContainer="true"><EntitySet Name="Things" EntityType="NS.Thing"/><EntitySet Name="Parts" EntityType="NS.Part"/>'
          '<EntitySet Name="Files" EntityType="NS.File"/>'
          '<AssociationSet Name="TOs" Association="NS.TO"><End Role="t" EntitySet="Things"/><End Role="p" EntitySet="Parts"/></AssociationSet>'
          '<AssociationSet Name="TMs" Association="NS.TM"><End Role="t" EntitySet="Things"/><End Role="p" EntitySet="Parts"/></AssociationSet>'
          '</EntityContainer></Schema>')


def load():
    """the model document and its in-memory container"""
    from pyslet.odata2 import metadata as edmx
    from pyslet.odata2.memds import InMemoryEntityContainer
    d = edmx.Document()
    d.read(src=io.BytesIO(odexpr.EDMX % SCHEMA.encode('utf-8')))
    return d, InMemoryEntityContainer(d.root.DataServices['NS.DB'])


def server(cls=None, root=ROOT):
    from pyslet.odata2 import server as odata
    d, c = load()
    s = (cls or odata.Server)(root)
    s.set_model(d)
    return s, d, c


class Response(object):

    def __init__(self, code, headers, body):
        self.code, self.headers, self.body = code, headers, body

    def json(self):
        return json.loads(self.body.decode('utf-8'))

    def xml(self):
        return ET.fromstring(self.body)


def call(ctx, app, method, path, headers={}, body=b''):
    """path (which must start with /) is as it appears in the request line.
    Checks that the response is well formed"""
    path, _, query = path.partition('?')
    env = {'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': unquote_to_bytes(path).decode('latin-1'), 'QUERY_STRING': query,
           'SERVER_NAME': 'host.example.com', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
           'wsgi.input': io.BytesIO(body), 'wsgi.errors': io.StringIO(), 'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False}
    if body or method in ('POST', 'PUT', 'MERGE'):
        env['CONTENT_LENGTH'] = str(len(body))
    for n, v in headers.items():
        n = n.upper().replace('-', '_')
        env[n if n == 'CONTENT_TYPE' else 'HTTP_' + n] = v
    got = []

    def start_response(status, hs, exc_info=None):
        got.append((status, hs))
        return lambda b: None

    data = app(env, start_response)
    chunks = list(data)
    if hasattr(data, 'close'):
        data.close()
    what = '%s %s' % (method, path)
    ctx.check(len(got) == 1, 'wsgi:start_response', '%s: called %d times' % (what, len(got)))
    status, hs = got[0]
    ctx.check(type(status) is str and re.match(r'^\d\d\d .', status) and '\n' not in status, 'wsgi:status', '%s: %r' % (what, status))
    ctx.check(all(type(n) is str and type(v) is str and re.match(r'^[ -~]*$', n + v) for n, v in hs), 'wsgi:headers', '%s: %r' % (what, hs))
    ctx.check(all(type(c) is bytes for c in chunks), 'wsgi:body', '%s: not octets' % what)
    body = b''.join(chunks)
    h = {}
    for n, v in hs:
        ctx.check(n.lower() not in h, 'wsgi:headers', '%s: %s is repeated' % (what, n))
        h[n.lower()] = v
    code = int(status[:3])
    if code == 204:
        ctx.equal(body, b'', 'wsgi:no content', what)
    elif 'content-length' in h and method != 'HEAD':
        ctx.equal(int(h['content-length']), len(body), 'wsgi:length', what)
    return Response(code, h, body)


# ----------------------------------------------------------------- the model

class Model(object):

    def __init__(self):
        self.e = dict(Things={}, Parts={}, Files={})
        self.one = {}
        self.many = set()
        self.streams = {}

    def linked(self, s, k, nav):
        """sorted keys"""
        if nav == 'One':
            return [self.one[k]] if self.one.get(k) is not None else []
        if nav == 'Many':
            return sorted(p for t, p in self.many if t == k)
        return sorted(t for t, p in self.many if p == k)

    def link(self, s, k, nav, target):
        if nav == 'One':
            self.one[k] = target
        else:
            self.many.add((k, target) if nav == 'Many' else (target, k))

    def unlink(self, s, k, nav, target):
        if nav == 'One':
            self.one[k] = None
        else:
            self.many.discard((k, target) if nav == 'Many' else (target, k))

    def delete(self, s, k):
        del self.e[s][k]
        if s == 'Things':
            self.one.pop(k, None)
            self.many = set(x for x in self.many if x[0] != k)
        elif s == 'Parts':
            self.many = set(x for x in self.many if x[1] != k)
            for t in self.one:
                if self.one[t] == k:
                    self.one[t] = None
        else:
            self.streams.pop(k, None)


def keydict(s, k):
    return dict(A=k[0], B=k[1]) if s == 'Parts' else dict(K=k)


def whole(s, k, v):
    return dict(v, **keydict(s, k))


def new_key(rng, s):
    text = gen.text(rng, 3, gen.pick(rng, ('ab', "a'/ %", gen.UNI + 'a', 'A.b+?#;=&,()')), 1)
    return (rng.randint(-3, 9), text) if s == 'Parts' else text


def gen_values(rng, s, nulls=0.2):
    out = {}
    for n, t in sorted(SPEC[s].items()):
        if isinstance(t, dict):
            out[n] = dict((m, None if rng.random() < nulls else value(rng, t[m])) for m in t)
        elif t == 'Int32' and rng.random() < 0.7:
            out[n] = None if rng.random() < nulls else rng.randint(-3, 5)
        else:
            out[n] = None if rng.random() < nulls and n != 'R' else value(rng, t)
    return out


def pred(rng, s, k):
    """key predicate, percent encoded"""
    def q(x):
        x = pct("'%s'" % x.replace("'", "''"), safe="'")
        return x.replace("'", '%27') if rng is not None and rng.random() < 0.3 else x
    if s == 'Parts':
        a, b = 'A=%d%s' % (k[0], 'L' if rng is None else gen.pick(rng, 'Ll')), 'B=' + q(k[1])
        return '(%s,%s)' % ((a, b) if rng is None or rng.random() < 0.5 else (b, a))
    return '(%s%s)' % ('K=' if rng is not None and rng.random() < 0.2 else '', q(k))


def key_of_href(ctx, href, where, s=None, root=ROOT):
    """(set, key) of an entity's URI"""
    ctx.check(re.match(r'^[!-~]*$', href) and href.startswith(root), where + ':href', repr(href))
    m = re.match(r"^(\w+)\((.*)\)$", unquote(href[len(root):], errors='strict'), re.S)
    ctx.check(m and m.group(1) in SPEC and (s is None or m.group(1) == s), where + ':href', repr(href))
    s, p = m.groups()
    if s == 'Parts':
        m = re.match(r"^A=(-?\d+)L,B='((?:[^']|'')*)'$", p, re.S) or re.match(r"^B='((?:[^']|'')*)',A=(-?\d+)L$", p, re.S)
        ctx.check(m, where + ':href', repr(href))
        a, b = m.groups() if p[0] == 'A' else m.groups()[::-1]
        return s, (int(a), b.replace("''", "'"))
    m = re.match(r"^'((?:[^']|'')*)'$", p, re.S)
    ctx.check(m, where + ':href', repr(href))
    return s, m.group(1).replace("''", "'")


def json_values(ctx, obj, s, names, where):
    """typed values of the named properties"""
    out = {}
    for n in names:
        t = FULL[s][n]
        ctx.check(n in obj, where + ':missing', n)
        try:
            out[n] = dict((m, parse_json(t[m], obj[n][m])) for m in t) if isinstance(t, dict) else parse_json(t, obj[n])
        except (ValueError, KeyError, AttributeError, TypeError) as err:
            ctx.fail(where + ':value', '%s is %r: %r' % (n, obj[n], err))
    return out


def xml_values(ctx, el, spec, where):
    """typed values of all the properties in an m:properties element"""
    out = {}
    for x in el:
        n = x.tag[len(Dn):]
        ctx.check(x.tag.startswith(Dn) and n in spec and n not in out, where + ':property', x.tag)
        t = spec[n]
        if isinstance(t, dict):
            out[n] = xml_values(ctx, x, t, where)
        elif x.get(Mn + 'null') == 'true':
            out[n] = None
        else:
            try:
                out[n] = parse_text(t, text_of(x))
            except (ValueError, KeyError) as err:
                ctx.fail(where + ':value', '%s is %r: %r' % (n, x.text, err))
    return out


def same(spec, a, b):
    return sorted(a) == sorted(b) and all(
        same(spec[n], a[n], b[n]) if isinstance(spec[n], dict) else eq(spec[n], a[n], b[n]) for n in a)


def snapshot(doc):
    """the state held, as a Model, found through the API"""
    m = Model()
    ds = doc.root.DataServices
    for s in SPEC:
        with ds['NS.DB.' + s].open() as c:
            for e in c.itervalues():
                k = e.key()
                m.e[s][k] = dict((n, dict((i, get(e[n][i], t[i])) for i in t) if isinstance(t, dict) else get(e[n], t)) for n, t in SPEC[s].items())
                if s == 'Things':
                    with e['One'].open() as x:
                        ks = list(x.iterkeys())
                        m.one[k] = ks[0] if ks else None
                    with e['Many'].open() as x:
                        m.many.update((k, p) for p in x.iterkeys())
                elif s == 'Files':
                    info, g = c.read_stream_close(k)
                    m.streams[k] = (str(info.type), b''.join(g))
    return m


def compare(ctx, model, got, key):
    for s in SPEC:
        ctx.equal(sorted(got.e[s]), sorted(model.e[s]), key + ':keys', s)
        for k in got.e[s]:
            ctx.check(same(SPEC[s], got.e[s][k], model.e[s][k]), key + ':values', '%s%r: %r, expected %r' % (s, k, got.e[s][k], model.e[s][k]))
    ctx.equal(got.one, dict((k, model.one.get(k)) for k in model.e['Things']), key + ':links', 'One')
    ctx.equal(sorted(got.many), sorted(model.many), key + ':links', 'Many')
    ctx.equal(got.streams, model.streams, key + ':streams')
