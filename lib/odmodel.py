"""Reference model of an OData entity container: keyed collections of typed
values, with operations applied to a real container and to the model."""

import io

from lib import gen
from lib.odexpr import (EDMX, PROPS, assign, from_edm, gen_value, pick, same)

SETS = {
    # name: (type name, keys, {property: (type, facets, default)}, complex property)
    'Things': ('Main', ('Id',), dict(dict((n, (t, '', None)) for n, t in PROPS.items()),
                                      Id=('Int32', 'Nullable="false"', None),
                                      NN=('String', 'Nullable="false" DefaultValue="dflt"', 'dflt'),
                                      ND=('Int32', 'DefaultValue="7"', 7)), 'Home'),
    'Words': ('Word', ('W',), dict(W=('String', 'Nullable="false" MaxLength="30"', None), V=('Int32', '', None),
                                   S=('String', '', None)), None),
    'Pairs': ('Pair', ('B', 'A'), dict(A=('Int32', 'Nullable="false"', None), B=('String', 'Nullable="false" MaxLength="30"', None),
                                       V=('String', 'DefaultValue="vee"', 'vee'), N=('Int64', '', None)), None),
    'Longs': ('Long', ('K',), dict(K=('Int64', 'Nullable="false"', None), V=('Double', '', None)), None),
    'Dates': ('Date', ('D',), dict(D=('DateTime', 'Nullable="false" Precision="0"', None), V=('Boolean', '', None)), None),
    'Names': ('Name', ('N',), dict(N=('String', 'Nullable="false"', None), V=('Decimal', '', None)), None),
    'Tinies': ('Tiny', ('C',), dict(C=('String', 'Nullable="false" MaxLength="1"', None)), None),
    'Codes': ('Code', ('C',), dict(C=('String', 'Nullable="false" MaxLength="12" FixedLength="true"', None), V=('Guid', '', None)), None),
    'Files': ('File', ('Id',), dict(Id=('Int32', 'Nullable="false"', None), Title=('String', '', None)), None),
}
HOME = dict(Street='String', Num='Int32', In=dict(Zip='String', Lat='Double'))


def facets(t, f, overrides):
    return overrides.get(t, '') + ' ' + f


def csdl(sets, overrides={}):
    """overrides: extra facets for a type, e.g. Decimal precision"""
    out = []
    es = []
    for name in sorted(sets):
        tname, keys, props, cname = SETS[name]
        out.append('<EntityType Name="%s"%s><Key>%s</Key>' % (
            tname, ' m:HasStream="true"' if name == 'Files' else '',
            ''.join('<PropertyRef Name="%s"/>' % k for k in keys)))
        for p in sorted(props):
            t, f, d = props[p]
            o = overrides.get(t, '')
            if 'MaxLength' in f:
                o = ''
            if 'Precision' in f:
                o = ''
            out.append('<Property Name="%s" Type="Edm.%s" %s %s/>' % (p, t, o, f))
        if cname:
            out.append('<Property Name="%s" Type="NS.Addr" Nullable="false"/>' % cname)
        out.append('</EntityType>')
        es.append('<EntitySet Name="%s" EntityType="NS.%s"/>' % (name, tname))
    s = overrides.get('String', '')
    return ('<Schema Namespace="NS" xmlns="http://schemas.microsoft.com/ado/2006/04/edm" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">'
            '<ComplexType Name="Addr"><Property Name="Street" Type="Edm.String" %s/><Property Name="Num" Type="Edm.Int32"/>'
            '<Property Name="In" Type="NS.Inner" Nullable="false"/></ComplexType>'
            '<ComplexType Name="Inner"><Property Name="Zip" Type="Edm.String" %s/><Property Name="Lat" Type="Edm.Double"/></ComplexType>' % (s, s) +
            ''.join(out) + '<EntityContainer Name="DB" m:IsDefaultEntityContainer="true">' + ''.join(es) + '</EntityContainer></Schema>')


def load(schema):
    from pyslet.odata2 import metadata as edmx
    doc = edmx.Document()
    doc.read(src=io.BytesIO(EDMX % schema.encode('utf-8')))
    return doc


class Model(object):
    """What the container should hold"""

    def __init__(self, sets, generate=gen_value):
        self.data = dict((n, {}) for n in sets)
        self.generate = generate

    def value(self, rng, t):
        return self.generate(rng, t)

    def key_value(self, rng, name):
        tname, keys, props, cname = SETS[name]
        k = []
        for p in keys:
            t = props[p][0]
            if t == 'String':
                k.append(gen.text(rng, 3, gen.pick(rng, ('ab', "a'/ %", gen.UNI + 'a', 'A.b+'))) or 'x')
            elif t in ('Int32', 'Int64'):
                k.append(rng.randint(-3, 12) if rng.random() < 0.9 else self.value(rng, t))
            else:
                k.append(self.value(rng, t))
        return tuple(k)

    def values(self, rng, name, nulls=0.15):
        """New values for all non key properties"""
        tname, keys, props, cname = SETS[name]
        r = {}
        for p in sorted(props):
            if p in keys:
                continue
            t, f, d = props[p]
            r[p] = None if rng.random() < nulls and 'Nullable="false"' not in f else self.value(rng, t)
        if cname:
            r[cname] = dict(
                Street=None if rng.random() < nulls else self.value(rng, 'String'),
                Num=None if rng.random() < nulls else self.value(rng, 'Int32'),
                In=dict(Zip=None if rng.random() < nulls else self.value(rng, 'String'),
                        Lat=None if rng.random() < nulls else self.value(rng, 'Double')))
        return r

    def defaults(self, name):
        tname, keys, props, cname = SETS[name]
        r = dict((p, props[p][2]) for p in props if p not in keys)
        if cname:
            r[cname] = dict(Street=None, Num=None, In=dict(Zip=None, Lat=None))
        return r

    def env(self, name, key):
        """typed environment for evaluating expressions"""
        tname, keys, props, cname = SETS[name]
        v = self.data[name][key]
        env = dict((p, (props[p][0], v[p])) for p in props if p not in keys)
        for p, k in zip(keys, key):
            env[p] = (props[p][0], k)
        if cname:
            h = v[cname]
            env[cname] = dict(Street=('String', h['Street']), Num=('Int32', h['Num']),
                              In=dict(Zip=('String', h['In']['Zip']), Lat=('Double', h['In']['Lat'])))
        return env


def real_key(name, key):
    """the key as the library expects it"""
    from pyslet import iso8601 as iso
    props = SETS[name][2]
    r = tuple(iso.TimePoint.from_str(k.isoformat()) if props[p][0] == 'DateTime' else k for p, k in zip(SETS[name][1], key))
    return r[0] if len(r) == 1 else r


def model_key(name, entity):
    """the key of an entity in model form"""
    return tuple(from_edm(entity[p])[1] for p in SETS[name][1])


def set_values(entity, name, values):
    props, cname = SETS[name][2], SETS[name][3]
    for p, v in values.items():
        if p == cname:
            set_complex(entity[p], v, HOME)
        else:
            assign(entity[p], props[p][0], v)


def set_complex(c, v, spec):
    for p, x in v.items():
        if isinstance(x, dict):
            set_complex(c[p], x, spec[p])
        else:
            assign(c[p], spec[p], x)


def get_values(entity, name, only=None):
    """{property: value} in model form"""
    tname, keys, props, cname = SETS[name]
    r = {}
    for p in props:
        if p not in keys and (only is None or p in only):
            r[p] = from_edm(entity[p])[1]
    if cname and (only is None or cname in only):
        r[cname] = get_complex(entity[cname])
    return r


def get_complex(c):
    from pyslet.odata2 import csdl as edm
    r = {}
    for p in c.iterkeys():
        r[p] = get_complex(c[p]) if isinstance(c[p], edm.Complex) else from_edm(c[p])[1]
    return r


def equal_values(a, b, name=None):
    """a, b: {property: value}"""
    if set(a) != set(b):
        return False
    for p in a:
        if isinstance(a[p], dict):
            if not isinstance(b[p], dict) or not equal_values(a[p], b[p]):
                return False
        elif not same(('x', a[p]), ('x', b[p])):
            return False
    return True


def diff(a, b):
    return ', '.join('%s: %r / %r' % (p, a.get(p, '-'), b.get(p, '-')) for p in sorted(set(a) | set(b))
                     if p not in a or p not in b or not equal_values({p: a[p]}, {p: b[p]}))
