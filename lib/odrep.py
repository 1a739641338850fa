"""JSON and Atom representations of entities, written and read independently of the library"""

import base64
import datetime
import io
import json
import re
import uuid
import xml.etree.ElementTree as ET
from decimal import Decimal as D
from xml.sax.saxutils import escape

from lib import gen, odexpr

ATOM = '{http://www.w3.org/2005/Atom}'
DNS = 'http://schemas.microsoft.com/ado/2007/08/dataservices'
MNS = DNS + '/metadata'
Dn, Mn = '{%s}' % DNS, '{%s}' % MNS
RELATED = DNS + '/related/'
SIMPLE = ('Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Decimal', 'Double', 'Guid', 'Int16', 'Int32',
          'Int64', 'SByte', 'Single', 'String', 'Time')
BASE = 'http://host.example.com/svc/'
INNER = dict(Zip='String', Lat='Double', Bin='Binary')
OUTER = dict(Street='String', Num='Int32', When='DateTime', In=INNER)
PREC = {'DateTime': ' Precision="3"', 'DateTimeOffset': ' Precision="3"', 'Time': ' Precision="3"', 'Decimal': ' Precision="28"'}


def props(spec):
    out = []
    for n in sorted(spec):
        t = spec[n]
        if t is INNER:
            out.append('<Property Name="%s" Type="NS.Inner" Nullable="false"/>' % n)
        elif t is OUTER:
            out.append('<Property Name="%s" Type="NS.Outer" Nullable="false"/>' % n)
        else:
            out.append('<Property Name="%s" Type="Edm.%s"%s/>' % (n, t, PREC.get(t, '')))
    return ''.join(out)


THING = dict(('p' + t, t) for t in SIMPLE)
THING.update(Home=OUTER, Text='String', Étiquette='String')
PART = dict(Name='String', Size='Int32')

SCHEMA = ('<Schema Namespace="NS" xmlns="http://schemas.microsoft.com/ado/2006/04/edm" xmlns:m="%s">' % MNS +
          '<ComplexType Name="Inner">%s</ComplexType><ComplexType Name="Outer">%s</ComplexType>' % (props(INNER), props(OUTER)) +
          '<EntityType Name="Thing"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.String" Nullable="false"/>' + props(THING) +
          '<NavigationProperty Name="One" Relationship="NS.TO" FromRole="t" ToRole="p"/>'
          '<NavigationProperty Name="Many" Relationship="NS.TM" FromRole="t" ToRole="p"/></EntityType>'
          '<EntityType Name="Part"><Key><PropertyRef Name="A"/><PropertyRef Name="B"/></Key><Property Name="A" Type="Edm.Int64" Nullable="false"/>'
          '<Property Name="B" Type="Edm.String" Nullable="false"/>' + props(PART) + '</EntityType>'
          '<Association Name="TO"><End Role="t" Type="NS.Thing" Multiplicity="*"/><End Role="p" Type="NS.Part" Multiplicity="0..1"/></Association>'
          '<Association Name="TM"><End Role="t" Type="NS.Thing" Multiplicity="*"/><End Role="p" Type="NS.Part" Multiplicity="*"/></Association>'
          '<EntityContainer Name="DB" m:IsDefaultEntityContainer="true"><EntitySet Name="Things" EntityType="NS.Thing"/><EntitySet Name="Parts" EntityType="NS.Part"/>'
          '<AssociationSet Name="TOs" Association="NS.TO"><End Role="t" EntitySet="Things"/><End Role="p" EntitySet="Parts"/></AssociationSet>'
          '<AssociationSet Name="TMs" Association="NS.TM"><End Role="t" EntitySet="Things"/><End Role="p" EntitySet="Parts"/></AssociationSet>'
          '</EntityContainer></Schema>')

XMLTEXT = 'ab é商<>&"\'\t\n\r]/\\'


def load(schema=SCHEMA):
    from pyslet import rfc2396 as uri
    from pyslet.odata2 import metadata as edmx
    from pyslet.odata2.memds import InMemoryEntityContainer
    d = edmx.Document(base_uri=uri.URI.from_octets(BASE + '$metadata'))
    d.read(src=io.BytesIO(odexpr.EDMX % schema.encode('utf-8')))
    c = InMemoryEntityContainer(d.root.DataServices['NS.DB'])
    return d, c


# ------------------------------------------------------------------ values

def value(rng, t, xml=True):
    if t == 'String':
        s = gen.text(rng, 6, gen.pick(rng, ('ab', '  a', XMLTEXT, gen.UNI + ' a', ' \t\r\n', "']]>&amp;")))
        return s
    if t == 'SByte':
        return rng.randint(-128, 127)
    if t == 'Time':
        ms = rng.randrange(86400000) if rng.random() < 0.5 else 1000 * rng.randrange(86400)
        return datetime.timedelta(milliseconds=ms)
    if t in ('DateTime', 'DateTimeOffset'):
        v = odexpr.gen_value(rng, t)
        if rng.random() < 0.5:
            v = v.replace(microsecond=1000 * rng.randrange(1000))
        if rng.random() < 0.3:
            v = v.replace(year=1969 + rng.randrange(3))
        return v
    if t == 'Double' and rng.random() < 0.3:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)
    if t == 'Int64' and rng.random() < 0.3:
        return gen.pick(rng, (2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1))
    return odexpr.gen_value(rng, t)


def values(rng, spec, nulls=0.2):
    r = {}
    for n in sorted(spec):
        t = spec[n]
        if isinstance(t, dict):
            r[n] = values(rng, t, nulls)
        else:
            r[n] = None if rng.random() < nulls else value(rng, t)
    return r


def assign(x, t, v):
    from pyslet import iso8601 as iso
    if v is None:
        x.set_from_value(None)
    elif t == 'Time':
        ms = v // datetime.timedelta(milliseconds=1)
        s = ms % 60000
        x.set_from_value(iso.Time(hour=ms // 3600000, minute=ms // 60000 % 60, second=s / 1000.0 if s % 1000 else s // 1000))
    elif t in ('DateTime', 'DateTimeOffset'):
        x.set_from_value(iso.TimePoint.from_str(v.isoformat()))
    else:
        x.set_from_value(v)


def put(e, spec, vals):
    for n in vals:
        if isinstance(spec[n], dict):
            put(e[n], spec[n], vals[n])
        else:
            assign(e[n], spec[n], vals[n])


def get(x, t):
    if t == 'Time':
        if x.value is None:
            return None
        v = x.value
        return datetime.timedelta(milliseconds=round(((v.hour * 60 + v.minute) * 60 + v.second) * 1000))
    return odexpr.from_edm(x)[1]


def eq(t, a, b):
    if t == 'Time' or a is None or b is None:
        return a == b
    if t == 'DateTimeOffset':
        return a == b and a.utcoffset() == b.utcoffset()
    if t in ('DateTime',):
        return a.tzinfo is None and a == b
    return odexpr.same((t, a), (t, b))


def verify(ctx, e, spec, vals, where, selected=None):
    """vals: expected.  Not selected properties must be null"""
    for n in vals:
        if isinstance(spec[n], dict):
            if selected is None or n in selected:
                verify(ctx, e[n], spec[n], vals[n], where + '.' + n)
            continue
        want = vals[n] if selected is None or n in selected else None
        got = get(e[n], spec[n])
        ctx.check(eq(spec[n], got, want), '%s:%s' % (where.split('.')[0], spec[n]), '%s.%s: got %r, expected %r' % (where, n, got, want))


# ----------------------------------------------------------------- formats

def jloads(ctx, text):
    try:
        return json.loads(text)
    except ValueError as err:
        ctx.fail('json:malformed', '%s: %s' % (err, text[:300]))


def xloads(ctx, text):
    try:
        return ET.fromstring(text)
    except ET.ParseError as err:
        ctx.fail('xml:malformed', '%s: %s' % (err, text[:300]))


CLOCK = re.compile(r'^(\d\d):(\d\d):(\d\d(?:\.\d+)?)$')


def parse_text(t, s):
    """value of the literal form used in Atom"""
    if t == 'String':
        return s
    if t == 'Binary':
        return bytes.fromhex(s)
    if t == 'Boolean':
        return {'true': True, 'false': False}[s]
    if t in ('Byte', 'SByte', 'Int16', 'Int32', 'Int64'):
        if not re.match(r'^-?\d+$', s):
            raise ValueError(s)
        return int(s)
    if t == 'Decimal':
        if not re.match(r'^-?\d+(\.\d+)?$', s):
            raise ValueError(s)
        return D(s)
    if t in ('Double', 'Single'):
        if s.upper() in ('INF', '-INF', 'NAN'):
            return float(s)
        if not re.match(r'^-?\d+(\.\d+)?([eE][+-]?\d+)?$', s):
            raise ValueError(s)
        return float(s)
    if t == 'Guid':
        return uuid.UUID(s)
    if t in ('DateTime', 'DateTimeOffset'):
        return datetime.datetime.fromisoformat(s)
    if t == 'Time':
        m = CLOCK.match(s)
        if not m:
            raise ValueError(s)
        return datetime.timedelta(milliseconds=round(((int(m.group(1)) * 60 + int(m.group(2))) * 60 + float(m.group(3))) * 1000))
    raise KeyError(t)


def fmt_text(rng, t, v):
    """a literal form for v"""
    if t == 'String':
        return v
    if t == 'Binary':
        h = v.hex()
        return h.upper() if rng.random() < 0.7 else h
    if t == 'Boolean':
        return 'true' if v else 'false'
    if t in ('Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Guid'):
        return str(v)
    if t == 'Decimal':
        return format(v, 'f')
    if t in ('Double', 'Single'):
        if v != v:
            return 'NaN'
        if v in (float('inf'), float('-inf')):
            return 'INF' if v > 0 else '-INF'
        return repr(v).replace('e', gen.pick(rng, 'eE')).replace('+', '') if 'e' in repr(v) else repr(v)
    if t == 'DateTime':
        return v.isoformat(timespec='auto' if rng.random() < 0.5 else 'milliseconds')
    if t == 'DateTimeOffset':
        return v.isoformat(timespec='auto' if rng.random() < 0.5 else 'milliseconds')
    if t == 'Time':
        ms = v // datetime.timedelta(milliseconds=1)
        return '%02d:%02d:%s' % (ms // 3600000, ms // 60000 % 60, '%02d' % (ms % 60000 // 1000) + ('.%03d' % (ms % 1000) if ms % 1000 or rng.random() < 0.5 else ''))
    raise KeyError(t)


EPOCH = datetime.datetime(1970, 1, 1)


def fmt_json(rng, t, v):
    """JSON text for v"""
    if v is None:
        return 'null'
    if t == 'Binary':
        return json.dumps(base64.b64encode(v).decode('ascii'))
    if t == 'Boolean':
        return 'true' if v else 'false'
    if t in ('Byte', 'SByte', 'Int16', 'Int32'):
        return str(v)
    if t == 'DateTime':
        if rng.random() < 0.3:
            return json.dumps(v.isoformat())
        return '"\\/Date(%d)\\/"' % ((v - EPOCH) // datetime.timedelta(milliseconds=1))
    if t == 'DateTimeOffset':
        if rng.random() < 0.3:
            return json.dumps(v.isoformat())
        off = v.utcoffset() // datetime.timedelta(minutes=1)
        return '"\\/Date(%d%s%s)\\/"' % ((v.replace(tzinfo=None) - EPOCH) // datetime.timedelta(milliseconds=1),
                                        '-' if off < 0 else '+', gen.pick(rng, ('%d', '%04d')) % abs(off))
    return json.dumps(fmt_text(rng, t, v), ensure_ascii=rng.random() < 0.5)


DATE = re.compile(r'^/Date\((-?\d+)(?:([+-])(\d+))?\)/$')


def parse_json(t, x):
    """value of a parsed JSON item"""
    if x is None:
        return None
    if t == 'Binary':
        return base64.b64decode(x, validate=True)
    if t == 'Boolean':
        if type(x) is not bool:
            raise ValueError(x)
        return x
    if t in ('Byte', 'SByte', 'Int16', 'Int32'):
        if type(x) is not int:
            raise ValueError(x)
        return x
    if type(x) is not str:
        raise ValueError(x)
    if t in ('DateTime', 'DateTimeOffset'):
        m = DATE.match(x)
        if (m.group(2) is None) != (t == 'DateTime'):
            raise ValueError(x)
        v = EPOCH + datetime.timedelta(milliseconds=int(m.group(1)))
        if t == 'DateTimeOffset':
            v = v.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=int(m.group(2) + m.group(3)))))
        return v
    return parse_text(t, x)


def read_json(ctx, obj, spec, vals, where):
    for n in vals:
        t = spec[n]
        ctx.check(n in obj, where + ':missing', n)
        if isinstance(t, dict):
            ctx.equal(sorted(k for k in obj[n] if k != '__metadata'), sorted(t), where + ':complex', n)
            read_json(ctx, obj[n], t, vals[n], where)
            continue
        try:
            got = parse_json(t, obj[n])
        except Exception:
            ctx.fail('%s:%s' % (where, t), '%s is written as %r' % (n, obj[n]))
        ctx.check(eq(t, got, vals[n]), '%s:%s' % (where, t), '%s: wrote %r for %r' % (n, obj[n], vals[n]))


def text_of(x):
    return x.text or ''


def read_xml(ctx, el, spec, vals, where):
    ctx.equal(sorted(x.tag for x in el), sorted(Dn + n for n in vals), where + ':properties')
    for x in el:
        n = x.tag[len(Dn):]
        t = spec[n]
        null = x.get(Mn + 'null') == 'true'
        if isinstance(t, dict):
            read_xml(ctx, x, t, vals[n], where)
            continue
        ctx.equal(null, vals[n] is None, where + ':null', n)
        if null:
            ctx.equal(text_of(x), '', where + ':null text', n)
            continue
        try:
            got = parse_text(t, text_of(x))
        except Exception:
            ctx.fail('%s:%s' % (where, t), '%s is written as %r' % (n, x.text))
        ctx.check(eq(t, got, vals[n]), '%s:%s' % (where, t), '%s: wrote %r for %r' % (n, x.text, vals[n]))


def esc(s):
    return escape(s, {'\r': '&#xD;'})


def write_xml(rng, spec, vals, d='d', m='m'):
    out = []
    names = list(vals)
    rng.shuffle(names)
    for n in names:
        t, v = spec[n], vals[n]
        if isinstance(t, dict):
            out.append('<%s:%s%s>%s</%s:%s>' % (d, n, gen.pick(rng, ('', ' %s:type="NS.%s"' % (m, 'Inner' if t is INNER else 'Outer'))),
                                                write_xml(rng, t, v, d, m), d, n))
        elif v is None:
            out.append('<%s:%s %s:null="true"%s' % (d, n, m, gen.pick(rng, ('/>', '></%s:%s>' % (d, n)))))
        else:
            a = gen.pick(rng, ('', '', ' %s:type="Edm.%s"' % (m, t), ' %s:null="false"' % m))
            s = fmt_text(rng, t, v)
            if rng.random() < 0.2 and ']]>' not in s and '\r' not in s:
                s = '<![CDATA[%s]]>' % s
            else:
                s = esc(s)
            out.append('<%s:%s%s>%s</%s:%s>' % (d, n, a, s, d, n))
        if rng.random() < 0.2:
            out.append(gen.pick(rng, ('\n\t', ' ', '<!-- c -->')))
    return ''.join(out)


def write_json(rng, spec, vals):
    items = []
    names = list(vals)
    rng.shuffle(names)
    for n in names:
        t, v = spec[n], vals[n]
        items.append('%s:%s' % (json.dumps(n), write_json(rng, t, v) if isinstance(t, dict) else fmt_json(rng, t, v)))
    return '{%s}' % gen.pick(rng, (',', ', ', ' ,\n')).join(items)


def key(rng):
    return gen.text(rng, 4, gen.pick(rng, ('ab', "a'/ %", gen.UNI + 'a', 'A.b+')), 1)


def quote(k):
    """how the key appears in a URI, decoded"""
    return "'%s'" % k.replace("'", "''")


def location(ctx, href, base, name, k, where):
    """href must denote the entity with key k (already formatted)"""
    from urllib.parse import unquote
    ctx.check(href.startswith(base + name + '('), where + ':location', '%r is not below %s%s' % (href, base, name))
    ctx.check(re.match(r'^[!-~]*$', href) and '"' not in href and '<' not in href, where + ':location', 'not a URI: %r' % href)
    ctx.equal(unquote(href[len(base):], errors='strict'), '%s(%s)' % (name, k), where + ':location')


ALL = dict(THING, K='String')
