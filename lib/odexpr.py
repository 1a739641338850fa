"""Reference values, expressions, evaluator and printer for OData 2."""

import datetime
import decimal
import math
import re
import uuid

from lib import gen

D = decimal.Decimal
NUM = ('Double', 'Single', 'Decimal', 'Int64', 'Int32', 'Int16', 'Byte')
ARITH = ('Int32', 'Int64', 'Single', 'Double', 'Decimal')

CSDL = b"""<Schema Namespace="NS" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
<ComplexType Name="Addr"><Property Name="Street" Type="Edm.String"/>
<Property Name="Num" Type="Edm.Int32"/><Property Name="In" Type="NS.Inner" Nullable="false"/></ComplexType>
<ComplexType Name="Inner"><Property Name="Zip" Type="Edm.String"/><Property Name="Lat" Type="Edm.Double"/></ComplexType>
<EntityType Name="Main"><Key><PropertyRef Name="Id"/></Key>
<Property Name="Id" Type="Edm.Int32" Nullable="false"/>
%s<Property Name="Home" Type="NS.Addr" Nullable="false"/>
<NavigationProperty Name="Other" Relationship="NS.MO" FromRole="M" ToRole="O"/>
</EntityType>
<EntityType Name="Oth"><Key><PropertyRef Name="Id"/></Key>
<Property Name="Id" Type="Edm.Int32" Nullable="false"/>
<Property Name="Name" Type="Edm.String"/><Property Name="Cnt" Type="Edm.Int64"/>
<NavigationProperty Name="Mains" Relationship="NS.MO" FromRole="O" ToRole="M"/>
</EntityType>
<Association Name="MO"><End Role="M" Type="NS.Main" Multiplicity="*"/><End Role="O" Type="NS.Oth" Multiplicity="0..1"/></Association>
<EntityContainer Name="DB"><EntitySet Name="Mains" EntityType="NS.Main"/><EntitySet Name="Oths" EntityType="NS.Oth"/>
<AssociationSet Name="MOs" Association="NS.MO"><End Role="M" EntitySet="Mains"/><End Role="O" EntitySet="Oths"/></AssociationSet>
</EntityContainer></Schema>"""
# names chosen to look like literals and operators where they can
PROPS = dict(Bin='Binary', Flag='Boolean', notFlag='Boolean', Small='Byte', When='DateTime',
             Then='DateTimeOffset', orTime='DateTime', Money='Decimal',
             Real='Double', infoX='Double', Flt='Single', Uid='Guid', I16='Int16',
             I32='Int32', nanI='Int32', I64='Int64', Str='String', andStr='String',
             trueName='String')
EDMX = b'<edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"><edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">%s</edmx:DataServices></edmx:Edmx>'


class Err(Exception):
    """an evaluation error is expected"""


class Skip(Exception):
    """outside the defined semantics"""


# --- values ----------------------------------------------------------------

def f32(x):
    import struct
    return struct.unpack('<f', struct.pack('<f', x))[0]


def gen_value(rng, t):
    """A non-null python value of EDM type t, in reference form"""
    small = rng.random() < 0.75
    if t == 'Binary':
        return gen.data(rng, 4)
    if t == 'Boolean':
        return rng.random() < 0.5
    if t == 'Byte':
        return rng.randint(0, 5) if small else rng.randint(0, 255)
    if t == 'Int16':
        return rng.randint(-5, 5) if small else rng.randint(-2 ** 15, 2 ** 15 - 1)
    if t == 'Int32':
        return rng.randint(-5, 5) if small else rng.randint(-2 ** 31, 2 ** 31 - 1)
    if t == 'Int64':
        return rng.randint(-5, 5) if small else rng.randint(-2 ** 63, 2 ** 63 - 1)
    if t == 'Decimal':
        if small:
            return D(rng.randint(-20, 20)) / gen.pick(rng, (D(1), D(2), D(4)))
        return D(rng.randint(-10 ** 9, 10 ** 9)) / D(1000)
    if t == 'Double':
        if rng.random() < 0.04:
            return gen.pick(rng, (float('inf'), float('-inf'), float('nan')))
        return rng.randint(-20, 20) / 4.0 if small else rng.uniform(-1e6, 1e6)
    if t == 'Single':
        return rng.randint(-20, 20) / 4.0 if small else rng.randint(-40000, 40000) / 8.0
    if t == 'Guid':
        return uuid.UUID(int=rng.choice((0, 1, 2 ** 64, rng.getrandbits(128))))
    if t == 'DateTime':
        return datetime.datetime(gen.pick(rng, (1, 1899, 1900, 1999, 2000, 2024, 9999)),
                                 rng.randint(1, 12), rng.randint(1, 28),
                                 rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    if t == 'DateTimeOffset':
        off = datetime.timezone(datetime.timedelta(minutes=rng.choice((0, 60, -330, 345, rng.randint(-14 * 60, 14 * 60)))))
        return datetime.datetime(gen.pick(rng, (1999, 2000, 2024)), rng.randint(1, 12), rng.randint(1, 2),
                                 rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), tzinfo=off)
    if t == 'String':
        return gen.text(rng, 5, gen.pick(rng, ('ab', 'aAbB ', "a'b", gen.UNI + ' ', 'true 1')))
    raise KeyError(t)


def fmt_literal(rng, t, v):
    if t == 'Binary':
        h = ''.join('%02X' % c for c in v)
        if rng.random() < 0.3:
            h = h.lower()
        return gen.pick(rng, ("X'%s'", "binary'%s'")) % h
    if t == 'Boolean':
        return 'true' if v else 'false'
    if t == 'Int32':
        return '%d' % v
    if t == 'Int64':
        return '%d%s' % (v, gen.pick(rng, 'Ll'))
    if t == 'Decimal':
        return '%s%s' % (format(v, 'f'), gen.pick(rng, 'Mm'))
    if t in ('Double', 'Single'):
        s = 'Dd' if t == 'Double' else 'Ff'
        if v != v:
            return 'NaN' + s[0] if rng.random() < 0.5 else 'nan' + s[1]
        if v in (float('inf'), float('-inf')):
            return ('-' if v < 0 else '') + gen.pick(rng, ('INF', 'inf')) + s[0]
        if abs(v) < 1e6 and v == int(v * 4) / 4.0 and rng.random() < 0.5:
            return format(D(v), 'f') + gen.pick(rng, s)
        return ('%.16e' % v if t == 'Double' else '%.7e' % v).replace('e+', 'e') + gen.pick(rng, s)
    if t == 'Guid':
        return "guid'%s'" % v
    if t == 'DateTime':
        return "datetime'%s'" % v.isoformat()
    if t == 'DateTimeOffset':
        return "datetimeoffset'%s'" % v.isoformat()
    if t == 'String':
        return "'%s'" % v.replace("'", "''")
    raise KeyError(t)


LITERALS = ('Binary', 'Boolean', 'Int32', 'Int64', 'Decimal', 'Double', 'Single', 'Guid', 'DateTime', 'DateTimeOffset', 'String')


def to_edm(t, v):
    """A new simple value"""
    from pyslet.odata2 import csdl as edm
    x = edm.EDMValue.from_type(getattr(edm.SimpleType, t))
    assign(x, t, v)
    return x


def assign(x, t, v):
    from pyslet import iso8601 as iso
    if v is None:
        x.set_from_value(None)
    elif t in ('DateTime', 'DateTimeOffset'):
        x.set_from_value(iso.TimePoint.from_str(v.isoformat()))
    else:
        x.set_from_value(v)


def from_edm(x):
    """(type, value) of a simple value in reference form"""
    from pyslet.odata2 import csdl as edm
    t = None if x.type_code is None else edm.SimpleType.to_str(x.type_code)
    if t and t.startswith('Edm.'):
        t = t[4:]
    v = x.value
    if v is not None and t in ('DateTime', 'DateTimeOffset'):
        s = v.time.second
        us = int(round((s - int(s)) * 1000000))
        v = datetime.datetime.fromisoformat(str(v)).replace(microsecond=0) + datetime.timedelta(microseconds=us)
    return t, v


def same(a, b):
    if a[0] != b[0]:
        return False
    if (a[1] is None) != (b[1] is None):
        return False
    if a[1] is None:
        return True
    if isinstance(b[1], float) and b[1] != b[1]:
        return isinstance(a[1], float) and a[1] != a[1]
    if type(a[1]) is bool or type(b[1]) is bool:
        return type(a[1]) is type(b[1]) and a[1] == b[1]
    if a[0] == 'Decimal' or a[0] in ('Int32', 'Int64', 'Int16', 'Byte'):
        return a[1] == b[1]
    if isinstance(b[1], float):
        # how single precision results are rounded is not specified
        return a[1] == b[1] or (a[0] == 'Single' and abs(a[1] - b[1]) <= 1e-6 * abs(b[1]))
    return type(a[1]) is type(b[1]) and a[1] == b[1]


# --- reference evaluation ----------------------------------------------------

def promote(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a not in NUM or b not in NUM:
        raise Err("promote %s %s" % (a, b))
    for t in NUM[:-1]:
        if t in (a, b):
            return t


def conv(v, t):
    if v is None:
        return None
    if t in ('Double', 'Single'):
        return float(v)
    if t == 'Decimal':
        return D(v)
    return v


LIMITS = {'Int32': 31, 'Int64': 63}


def ranged(t, v):
    if t in LIMITS and not -2 ** LIMITS[t] <= v < 2 ** LIMITS[t]:
        raise Err('overflow')
    if t == 'Decimal':
        if abs(v) >= D(10) ** 27:
            raise Skip()
    if t == 'Single' and v == v and abs(v) not in (float('inf'),) and abs(v) > 3e38:
        raise Skip()
    return (t, v)


def arith(op, a, b):
    t = promote(a[0], b[0])
    if t is None:
        return ('Int32', None)
    if t not in ARITH:
        raise Err(op)
    x, y = conv(a[1], t), conv(b[1], t)
    if x is None or y is None:
        return (t, None)
    try:
        if op == 'add':
            return ranged(t, x + y)
        if op == 'sub':
            return ranged(t, x - y)
        if op == 'mul':
            return ranged(t, x * y)
        if y == 0:
            if op == 'mod' and x != x:
                raise Skip()    # nan or an error
            raise Err('zero')
        if op == 'div':
            if t in LIMITS:
                q = abs(x) // abs(y)
                return ranged(t, q if (x < 0) == (y < 0) else -q)
            return ranged(t, x / y)
        if op == 'mod':
            if t in LIMITS:
                r = abs(x) % abs(y)
                return ranged(t, r if x >= 0 else -r)
            if t == 'Decimal':
                n = decimal.Context(prec=200)
                q = n.divide(x, y).to_integral_value(decimal.ROUND_DOWN)
                return ranged(t, n.subtract(x, n.multiply(q, y)))
            return ranged(t, math.fmod(x, y))
    except decimal.InvalidOperation:
        raise Skip()
    except ValueError:
        raise Err('fmod')
    raise KeyError(op)


RELS = dict(lt=lambda x, y: x < y, gt=lambda x, y: x > y,
            le=lambda x, y: x <= y, ge=lambda x, y: x >= y)


def relation(op, a, b):
    t = promote(a[0], b[0])
    if t is None:
        return ('Boolean', False)
    if t in ARITH:
        x, y = conv(a[1], t), conv(b[1], t)
    elif t in ('String', 'DateTime', 'DateTimeOffset', 'Guid'):
        x, y = a[1], b[1]
    elif t in ('Byte', 'Int16', 'Time', 'SByte'):
        raise Skip()
    else:
        raise Err(op)
    if x is None or y is None:
        return ('Boolean', False)
    return ('Boolean', RELS[op](x, y))


def equality(op, a, b):
    t = promote(a[0], b[0])
    if t is None:
        return ('Boolean', op == 'eq')
    if t in ARITH:
        x, y = conv(a[1], t), conv(b[1], t)
    elif t in ('String', 'DateTime', 'DateTimeOffset', 'Guid', 'Binary'):
        x, y = a[1], b[1]
    else:
        raise Skip()    # Boolean, Byte, Int16: accepted or not is undecided
    return ('Boolean', (x == y) == (op == 'eq'))


def logic(op, a, b):
    t = promote(a[0], b[0])
    if t is None:
        return ('Boolean', False)
    if t != 'Boolean':
        raise Err(op)
    if a[1] is None or b[1] is None:
        return ('Boolean', False)
    return ('Boolean', (a[1] and b[1]) if op == 'and' else (a[1] or b[1]))


def negate(a):
    t = {'Byte': 'Int32', 'Int16': 'Int32', 'Single': 'Double', None: 'Int32'}.get(a[0], a[0])
    if t not in ('Int32', 'Int64', 'Double', 'Decimal'):
        raise Err('negate')
    if a[1] is None:
        return (t, None)
    return ranged(t, 0 - conv(a[1], t))


def lnot(a):
    if a[1] is None:
        return ('Boolean', None)
    if a[0] != 'Boolean':
        raise Err('not')
    return ('Boolean', not a[1])


def str_args(args):
    for t, v in args:
        if t not in ('String', None):
            raise Err('string expected')
    if any(v is None for t, v in args):
        return None
    return [v for t, v in args]


def strict(args, *types):
    for (t, v), want in zip(args, types):
        if t != want:
            raise Err('%s expected' % want)
    if any(v is None for t, v in args):
        return None
    return [v for t, v in args]


def rounding(name, a):
    t, v = a
    if t not in NUM and t is not None:
        raise Err('numeric expected')
    if t in (None, 'Decimal', 'Int64', 'Int32', 'Int16'):
        if v is None:
            return ('Decimal', None)
        v = D(v)
        f = v.to_integral_value(decimal.ROUND_FLOOR)
        c = v.to_integral_value(decimal.ROUND_CEILING)
        if name == 'floor':
            r = f
        elif name == 'ceiling':
            r = c
        else:
            # half away from zero
            if abs(v - f) == abs(v - c):
                r = c if v > 0 else f
            else:
                r = f if v - f < c - v else c
        return ('Decimal', r)
    if v is None:
        return ('Double', None)
    v = float(v)
    if v != v or abs(v) == float('inf'):
        return ('Double', v)
    if name == 'floor':
        return ('Double', float(math.floor(v)))
    if name == 'ceiling':
        return ('Double', float(math.ceil(v)))
    return ('Double', float(round(v)))


ARITY = dict(endswith=(2,), startswith=(2,), indexof=(2,), substringof=(2,), replace=(3,), tolower=(1,), toupper=(1,),
             trim=(1,), substring=(2, 3), concat=(2,), length=(1,), year=(1,), month=(1,), day=(1,), hour=(1,),
             minute=(1,), second=(1,), round=(1,), floor=(1,), ceiling=(1,))
RESULT = dict(endswith='Boolean', startswith='Boolean', substringof='Boolean', indexof='Int32', replace='String',
              tolower='String', toupper='String', trim='String', substring='String', concat='String', length='Int32',
              year='Int32', month='Int32', day='Int32', hour='Int32', minute='Int32', second='Int32')


def call(name, args):
    if len(args) not in ARITY[name]:
        raise Err('arity')
    if name in ('endswith', 'startswith', 'indexof', 'substringof', 'replace', 'tolower', 'toupper', 'trim'):
        s = str_args(args)
        if s is None:
            return (RESULT[name], None)
        v = {'endswith': lambda: s[0].endswith(s[1]),
             'startswith': lambda: s[0].startswith(s[1]),
             'indexof': lambda: s[0].find(s[1]),
             'substringof': lambda: s[0] in s[1],
             'replace': lambda: s[0].replace(s[1], s[2]),
             'tolower': lambda: s[0].lower(), 'toupper': lambda: s[0].upper(),
             'trim': lambda: s[0].strip()}[name]()
        return (RESULT[name], v)
    if name == 'substring':
        if len(args) == 3 and args[2] == ('Int32', None):
            raise Skip()
        s = strict(args, 'String', 'Int32', 'Int32')
        if s is None:
            return ('String', None)
        if any(i < 0 for i in s[1:]):
            raise Skip()
        return ('String', s[0][s[1]:] if len(s) == 2 else s[0][s[1]:s[1] + s[2]])
    if name == 'concat':
        s = strict(args, 'String', 'String')
        return ('String', None if s is None else s[0] + s[1])
    if name == 'length':
        s = strict(args, 'String')
        return ('Int32', None if s is None else len(s[0]))
    if name in ('year', 'month', 'day', 'hour', 'minute', 'second'):
        s = strict(args, 'DateTime')
        return ('Int32', None if s is None else getattr(s[0], name))
    return rounding(name, args[0])


def evaluate(e, env):
    k = e[0]
    if k == 'lit':
        return (e[1], e[2])
    if k == 'prop':
        return lookup(e[1], env)
    if k == 'un':
        a = evaluate(e[2], env)
        return negate(a) if e[1] == '-' else lnot(a)
    if k == 'bin':
        a = attempt(e[2], env)
        b = attempt(e[3], env)
        for x in (a, b):
            if isinstance(x, Exception):
                # both operands are evaluated
                raise Err() if any(isinstance(y, Err) for y in (a, b)) else x
        op = e[1]
        if op in ('add', 'sub', 'mul', 'div', 'mod'):
            return arith(op, a, b)
        if op in RELS:
            return relation(op, a, b)
        if op in ('eq', 'ne'):
            return equality(op, a, b)
        return logic(op, a, b)
    if k == 'call':
        args = [attempt(x, env) for x in e[2]]
        bad = [x for x in args if isinstance(x, Exception)]
        if bad:
            raise Err() if any(isinstance(x, Err) for x in bad) else bad[0]
        return call(e[1], args)
    if k in ('cast', 'isof'):
        name = e[2]
        if e[1] is None:
            # the entity itself
            if k == 'isof':
                return ('Boolean', name == 'NS.Main')
            if name == 'NS.Main':
                raise Skip()
            raise Err()
        a = evaluate(e[1], env)
        t = name[4:] if name.startswith('Edm.') else name
        known = t in TYPES
        if a[1] is None:
            return ('Boolean', False) if k == 'isof' else (t if known else None, None)
        if not known:
            raise Err()
        try:
            ok = promote(t, a[0]) == t
        except Err:
            ok = False
        if k == 'isof':
            return ('Boolean', ok)
        if not ok:
            raise Err()
        if t == 'SByte':
            raise Skip()
        return ranged(t, conv(a[1], t))
    raise KeyError(k)


TYPES = ('Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Time', 'Decimal', 'Double', 'Single', 'Guid',
         'Int16', 'Int32', 'Int64', 'String', 'SByte')


def attempt(e, env):
    try:
        return evaluate(e, env)
    except (Err, Skip) as x:
        return x


def lookup(path, env):
    for p in path[:-1]:
        env = env[p]
        if env is None:
            return (None, None)
    return env[path[-1]]


# --- generation --------------------------------------------------------------

PATHS = {}
for _n, _t in PROPS.items():
    PATHS.setdefault(_t, []).append((_n,))
PATHS['Int32'] += [('Id',), ('Home', 'Num'), ('Other', 'Id')]
PATHS['String'] += [('Home', 'Street'), ('Home', 'In', 'Zip'), ('Other', 'Name')]
PATHS['Double'].append(('Home', 'In', 'Lat'))
PATHS['Int64'].append(('Other', 'Cnt'))


def pick(rng, *x):
    return gen.pick(rng, x)


def g_leaf(rng, t):
    m = rng.random()
    if m < 0.05:
        return ('lit', None, None)
    if m < 0.45 and t in PATHS:
        return ('prop', gen.pick(rng, PATHS[t]))
    if t not in LITERALS:
        # no literal syntax of its own: a parameter or a property
        return ('param', t) if m < 0.7 else ('prop', gen.pick(rng, PATHS[t]))
    if m < 0.58:
        return ('param', t)
    return ('lit', t, gen_value(rng, t))


def g_num(rng, d, t=None):
    if t is None:
        t = pick(rng, 'Int32', 'Int32', 'Int32', 'Int64', 'Decimal', 'Double', 'Single', 'Byte', 'Int16')
    m = rng.random()
    if d <= 0 or m < 0.2:
        return g_leaf(rng, t)
    if m < 0.65:
        return ('bin', pick(rng, 'add', 'sub', 'mul', 'div', 'mod', 'add', 'sub', 'mul'),
                g_num(rng, d - 1, t if rng.random() < 0.7 else None),
                g_num(rng, d - 1, t if rng.random() < 0.7 else None))
    if m < 0.77:
        return ('un', '-', g_num(rng, d - 1, t))
    if m < 0.85:
        return ('call', pick(rng, 'round', 'floor', 'ceiling'), [g_num(rng, d - 1)])
    if m < 0.91:
        n = pick(rng, 'length', 'indexof')
        return ('call', n, [g_str(rng, d - 1) for i in range(ARITY[n][0])])
    if m < 0.95:
        return ('call', pick(rng, 'year', 'month', 'day', 'hour', 'minute', 'second'), [g_leaf(rng, 'DateTime')])
    return ('cast', g_num(rng, d - 1), 'Edm.' + pick(rng, 'Int32', 'Int64', 'Double', 'Decimal', 'Single', 'Int16', 'String', 'Bogus'))


def g_str(rng, d):
    m = rng.random()
    if d <= 0 or m < 0.35:
        return g_leaf(rng, 'String')
    if m < 0.65:
        n = pick(rng, 'tolower', 'toupper', 'trim', 'concat', 'replace')
        return ('call', n, [g_str(rng, d - 1) for i in range(ARITY[n][0])])
    if m < 0.9:
        a = [g_str(rng, d - 1), ('lit', 'Int32', rng.randint(0, 4)) if rng.random() < 0.7 else g_num(rng, d - 1, 'Int32')]
        if rng.random() < 0.5:
            a.append(('lit', 'Int32', rng.randint(0, 4)))
        return ('call', 'substring', a)
    return ('cast', g_str(rng, d - 1), 'Edm.String')


def g_bool(rng, d):
    m = rng.random()
    if d <= 0 or m < 0.1:
        return g_leaf(rng, 'Boolean')
    if m < 0.4:
        return ('bin', pick(rng, 'and', 'or'), g_bool(rng, d - 1), g_bool(rng, d - 1))
    if m < 0.5:
        return ('un', 'not', g_bool(rng, d - 1))
    if m < 0.75:
        return ('bin', pick(rng, 'lt', 'gt', 'le', 'ge', 'eq', 'ne'), g_num(rng, d - 1), g_num(rng, d - 1))
    if m < 0.82:
        t = pick(rng, 'DateTime', 'DateTimeOffset', 'Guid', 'Binary')
        return ('bin', pick(rng, 'lt', 'gt', 'le', 'ge', 'eq', 'ne'), g_leaf(rng, t), g_leaf(rng, t))
    if m < 0.88:
        return ('bin', pick(rng, 'lt', 'gt', 'le', 'ge', 'eq', 'ne'), g_str(rng, d - 1), g_str(rng, d - 1))
    if m < 0.95:
        n = pick(rng, 'endswith', 'startswith', 'substringof')
        return ('call', n, [g_str(rng, d - 1), g_str(rng, d - 1)])
    n = 'Edm.' + gen.pick(rng, TYPES) if rng.random() < 0.8 else pick(rng, 'NS.Main', 'NS.Oth', 'Edm.Bogus')
    return ('isof', None if rng.random() < 0.3 else g_any(rng, d - 1), n)


def g_any(rng, d):
    m = rng.random()
    if m < 0.4:
        return g_num(rng, d)
    if m < 0.65:
        return g_str(rng, d)
    if m < 0.9:
        return g_bool(rng, d)
    return g_leaf(rng, gen.pick(rng, LITERALS))


def spoil(rng, e):
    """Replaces one operand by one of any type"""
    if e[0] in ('bin',):
        i = pick(rng, 2, 3)
        new = list(e)
        new[i] = g_any(rng, 1) if rng.random() < 0.5 else spoil(rng, e[i])
        return tuple(new)
    if e[0] == 'un':
        return e[:2] + (g_any(rng, 1),)
    if e[0] == 'call':
        a = list(e[2])
        if rng.random() < 0.2:
            a.append(g_any(rng, 0))
        else:
            a[rng.randrange(len(a))] = g_any(rng, 1)
        return e[:2] + (a,)
    return e


def bind(rng, e, params):
    """Replaces parameters by named typed values"""
    if e[0] == 'param':
        name = 'p%d' % len(params)
        params[name] = (e[1], None if rng.random() < 0.1 else gen_value(rng, e[1]))
        return ('lit', e[1], params[name][1], name)
    return tuple(bind(rng, x, params) if isinstance(x, tuple) and x and x[0] in NODES else
                 [bind(rng, y, params) for y in x] if isinstance(x, list) else x for x in e)


NODES = ('lit', 'prop', 'param', 'un', 'bin', 'call', 'cast', 'isof')


def depth(e):
    return 1 + max([depth(x) for x in e[1:] if isinstance(x, tuple) and x and x[0] in NODES] +
                   [depth(y) for x in e if isinstance(x, list) for y in x] + [0])


# --- printing ----------------------------------------------------------------

PREC = {'or': 1, 'and': 2, 'eq': 3, 'ne': 3, 'lt': 4, 'gt': 4, 'le': 4, 'ge': 4, 'add': 5, 'sub': 5, 'mul': 6, 'div': 6,
        'mod': 6}


def ws(rng):
    return pick(rng, '', '', '', ' ', '  ', '\t')


def ws1(rng):
    return pick(rng, ' ', ' ', ' ', '  ', ' \t')


def show(rng, e):
    """(precedence, text)"""
    k = e[0]
    if k == 'lit':
        if len(e) > 3:
            return 9, ':' + e[3]
        if e[2] is None:
            return 9, 'null'
        return 9, fmt_literal(rng, e[1], e[2])
    if k == 'prop':
        return 9, '/'.join(e[1])
    if k == 'un':
        p, s = show(rng, e[2])
        if e[1] == '-':
            # '-' followed by digits or inf would be a negative literal
            if p < 7 or (e[2][0] == 'lit' and len(e[2]) == 3 and e[2][2] is not None) or rng.random() < 0.15:
                s = '(%s%s%s)' % (ws(rng), s, ws(rng))
            return 7, '-' + s
        if p < 7 or rng.random() < 0.15:
            s = '(%s%s%s)' % (ws(rng), s, ws(rng))
        return 7, 'not' + ws1(rng) + s
    if k == 'bin':
        p = PREC[e[1]]
        lp, ls = show(rng, e[2])
        rp, rs = show(rng, e[3])
        if lp < p or rng.random() < 0.1:
            ls = '(%s%s%s)' % (ws(rng), ls, ws(rng))
        if rp <= p or rng.random() < 0.1:
            rs = '(%s%s%s)' % (ws(rng), rs, ws(rng))
        return p, ls + ws1(rng) + e[1] + ws1(rng) + rs
    if k == 'call':
        return 9, '%s%s(%s)' % (e[1], ws(rng), ','.join(ws(rng) + show(rng, x)[1] + ws(rng) for x in e[2]))
    a = '' if e[1] is None else show(rng, e[1])[1] + ws(rng) + ',' + ws(rng)
    return 9, "%s%s(%s%s'%s'%s)" % (k, ws(rng), ws(rng), a, e[2], ws(rng))


# --- model -------------------------------------------------------------------

_model = []


def model():
    if not _model:
        import io
        from pyslet.odata2 import metadata as edmx
        props = ''.join('<Property Name="%s" Type="Edm.%s"/>' % (n, t) for n, t in sorted(PROPS.items()))
        doc = edmx.Document()
        doc.read(src=io.BytesIO(EDMX % (CSDL % props.encode())))
        _model.append(doc)
    return _model[0]


def entities(rng, n):
    """Returns a list of (entity, environment)"""
    from pyslet.odata2 import memds
    doc = model()
    container = memds.InMemoryEntityContainer(doc.root.DataServices['NS.DB'])
    mains = container.entityStorage['Mains'].entity_set
    oths = container.entityStorage['Oths'].entity_set
    out = []
    with oths.open() as oc, mains.open() as mc:
        for i in range(2):
            o = oc.new_entity()
            o['Id'].set_from_value(i + 1)
            o['Name'].set_from_value(gen_value(rng, 'String'))
            o['Cnt'].set_from_value(gen_value(rng, 'Int64') if i else None)
            oc.insert_entity(o)
        for i in range(n):
            env = {'Id': ('Int32', i + 1)}
            e = mc.new_entity()
            e['Id'].set_from_value(i + 1)
            for name, t in sorted(PROPS.items()):
                v = None if rng.random() < (0.15 if i else 0.9) else gen_value(rng, t)
                env[name] = (t, v)
                assign(e[name], t, v)
            home = dict(Street=('String', gen_value(rng, 'String') if i else None), Num=('Int32', gen_value(rng, 'Int32')),
                        In=dict(Zip=('String', gen_value(rng, 'String')), Lat=('Double', gen_value(rng, 'Double') if i else None)))
            e['Home']['Street'].set_from_value(home['Street'][1])
            e['Home']['Num'].set_from_value(home['Num'][1])
            e['Home']['In']['Zip'].set_from_value(home['In']['Zip'][1])
            e['Home']['In']['Lat'].set_from_value(home['In']['Lat'][1])
            env['Home'] = home
            env['Other'] = None
            if i % 3:
                o = oc[i % 3]
                env['Other'] = dict(Id=('Int32', i % 3), Name=('String', o['Name'].value), Cnt=('Int64', o['Cnt'].value))
                e['Other'].bind_entity(i % 3)
            mc.insert_entity(e)
            out.append((mc[i + 1], env))
    return container, out


def run_eval(expr, e):
    """('value', (t, v)) or ('error', exception)"""
    from pyslet.odata2 import core
    try:
        x = expr.evaluate(e)
    except (core.EvaluationError, ValueError) as err:
        return 'error', err
    return 'value', from_edm(x)


