"""C28: EDM values and literals round-trip within their type.

Oracles: an independent grammar (regular expressions from the OData ABNF as
documented in csdl.py) decides which literals are valid and what they mean;
the inverse function decides round trips."""

import datetime
import decimal
import math
import random as _random
import re
import struct
import uuid

from lib.harness import Workload
from lib import gen

META = dict(
    id="C28", title="EDM values and literals round-trip within their type",
    statement="Every value of every EDM simple type, extremes included, formats to a literal of the OData grammar that parses back to an equal value of the same type, as a bare literal and as a URI literal with and without URI escaping; property precision gives exactly that many fractional digits.  Every literal of the grammar is accepted with the value it denotes; malformed, overlong or out of range literals and values raise ValueError (TypeError for an unsuitable Python type) and leave the previous value untouched.  Casting and assignment from Python numbers give the number truncated towards zero or an error, never a different number; NULL has no literal form other than the URI literal null.",
    quantifier=dict(over=["inputs"], text="all values of the 15 simple types, all strings offered as literals, all pairs of types for casts"),
    why_tests_cant="tests use boundary samples; loss shows for particular magnitudes, digit counts, exponents and characters",
    anchors=dict(files=["pyslet/odata2/csdl.py", "pyslet/odata2/core.py"],
                 mechanism=[dict(name="SimpleValue and subclasses", where="pyslet/odata2/csdl.py"),
                            dict(name="Parser", where="pyslet/odata2/csdl.py"),
                            dict(name="Parser.parse_uri_literal, LiteralExpression, uri_literal_to_str", where="pyslet/odata2/core.py")],
                 observe_at=["str(value), value.value, exceptions, uri_literal_from_str/uri_literal_to_str"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reference grammar and inverse-function oracles over generated values and (near-)literals of every EDM type"
LEVEL_NOTE = "Held on the values and strings observed."
RULE = "each case is one typed value or one candidate literal; distinct by type and text"
MODULES = ["pyslet/odata2/csdl.py"]
REQUIRE = {"value": 5000, "valid": 3000, "invalid": 3000, "cast": 2000,
           "uri-fuzz": 2000, "uri-accepted": 300}

D = decimal.Decimal
DCTX = decimal.Context(prec=200)
TYPES = ('Binary', 'Boolean', 'Byte', 'DateTime', 'DateTimeOffset', 'Time',
         'Decimal', 'Double', 'Single', 'Guid', 'Int16', 'Int32', 'Int64',
         'String', 'SByte')
INTS = {'Byte': (0, 255), 'SByte': (-128, 127), 'Int16': (-2 ** 15, 2 ** 15 - 1),
        'Int32': (-2 ** 31, 2 ** 31 - 1), 'Int64': (-2 ** 63, 2 ** 63 - 1)}
SMAX = (2 - 2.0 ** -23) * 2.0 ** 127
# reference formats of a literal as the value classes write it
FORMAT = {
    'Binary': r'([0-9A-F]{2})*', 'Boolean': 'true|false', 'Byte': r'\d{1,3}',
    'SByte': r'-?\d{1,3}', 'Int16': r'-?\d{1,5}', 'Int32': r'-?\d{1,10}',
    'Int64': r'-?\d{1,19}', 'Decimal': r'-?\d{1,29}(\.\d{1,29})?',
    'Double': r'-?(\d{1,17}|\d*\.\d+|\d+(\.\d*)?[eE]-?\d{1,3})|nan|-?inf',
    'Single': r'-?(\d{1,8}|\d*\.\d+|\d+(\.\d*)?[eE]-?\d{1,2})|nan|-?inf',
    'Guid': '[0-9a-fA-F]{8}-([0-9a-fA-F]{4}-){3}[0-9a-fA-F]{12}',
    'DateTime': r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,7})?',
    'DateTimeOffset': r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,7})?[+-]\d\d:\d\d',
    'Time': r'\d\d:\d\d:\d\d(\.\d{1,7})?', 'String': '.*'}
FORMAT = dict((k, re.compile('(?s:(?:%s))\\Z' % v)) for k, v in FORMAT.items())


def typecode(name):
    from pyslet.odata2 import csdl as edm
    return getattr(edm.SimpleType, name)


def new(name):
    from pyslet.odata2 import csdl as edm
    return edm.EDMValue.from_type(typecode(name))


class Prop(object):
    """stands for a property definition"""

    def __init__(self, code, precision):
        self.name = 'P'
        self.simpleTypeCode = code
        self.complexType = None
        self.precision = precision
        self.nullable = True
        self.defaultValue = None
        self.maxLength = None
        self.fixedLength = None


def r_float(rng):
    m = rng.randrange(6)
    if m == 0:
        return struct.unpack('>d', struct.pack('>Q', rng.getrandbits(64)))[0]
    if m == 1:
        return float('%s%de%d' % (rng.choice(('', '-')), rng.randrange(1000),
                                  rng.randint(-320, 305)))
    if m == 2:
        return rng.choice((0.0, -0.0, 1.7976931348623157e308, 5e-324,
                           -1.7976931348623157e308, 1e16, 1e15, 123456789.5,
                           float('inf'), float('-inf'), float('nan'), 1e-4,
                           1e-5, 0.1, 2.0 ** 53, 1e22, 99999999999999999.0))
    if m == 3:
        return float(rng.randint(-10 ** 18, 10 ** 18))
    if m == 4:
        return rng.uniform(-1e6, 1e6)
    return rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30)


def r_single(rng):
    m = rng.randrange(5)
    if m == 0:
        return struct.unpack('>f', struct.pack('>I', rng.getrandbits(32)))[0]
    if m == 1:
        return rng.choice((SMAX, -SMAX, 2.0 ** -149, 0.0, -0.0, 1e30, 1e38,
                           0.1, 16777216.0, 1e-30, float('inf'),
                           float('-inf'), float('nan')))
    if m == 2:
        return struct.unpack('>f', struct.pack(
            '>f', rng.uniform(-1, 1) * 10 ** rng.randint(-37, 37)))[0]
    if m == 3:
        return float('%de%d' % (rng.randint(-99999, 99999), rng.randint(-40, 30)))
    return rng.uniform(-1e3, 1e3)


def r_point(rng, zone):
    """(TimePoint, fraction digits)"""
    from pyslet import iso8601
    y = rng.choice((2, 99, 1000, 1752, 1899, 1970, 2000, 2012, 2038, 9998,
                    rng.randint(2, 9998)))
    mo = rng.randint(1, 12)
    d = rng.randint(1, 28)
    if rng.random() < 0.2:
        mo, d = rng.choice(((12, 31), (1, 1), (2, 28), (3, 1)))
    t, n = r_time(rng, zone)
    return iso8601.TimePoint(date=iso8601.Date(
        century=y // 100, year=y % 100, month=mo, day=d), time=t), n


def r_time(rng, zone=False):
    from pyslet import iso8601
    n = rng.choice((0, 0, 1, 3, 6))
    h, m, s = rng.choice(((0, 0, 0), (23, 59, 59),
                          (rng.randrange(24), rng.randrange(60),
                           rng.randrange(60))))
    if n:
        # binary fractions print exactly: no rounding decisions
        s = s + rng.choice((0.5, 0.25, 0.125, 0.0)) if n >= 3 else (
            s + rng.choice((0.5, 0.0)))
    kw = dict(zdirection=None)
    if zone:
        kw = dict(zdirection=rng.choice((0, 1, -1)))
        if kw['zdirection']:
            kw.update(zhour=rng.randint(0, 14), zminute=rng.choice((0, 15, 30, 45, 59)))
    return iso8601.Time(hour=h, minute=m, second=s, **kw), n


def r_value(rng, name):
    """(python value, precision or None)"""
    if name in INTS:
        lo, hi = INTS[name]
        return rng.choice((lo, hi, 0, -1 if lo else 1, rng.randint(lo, hi),
                           max(lo, min(hi, rng.randint(-300, 300))))), None
    if name == 'Binary':
        return gen.data(rng, 20), None
    if name == 'Boolean':
        return rng.random() < 0.5, None
    if name == 'Guid':
        return uuid.UUID(int=rng.choice((0, 2 ** 128 - 1, rng.getrandbits(128)))), None
    if name == 'String':
        return gen.text(rng, 16), None
    if name == 'Double':
        return r_float(rng), None
    if name == 'Single':
        return r_single(rng), None
    if name == 'Decimal':
        l = rng.choice((0, 1, 5, 15, 28, 29, rng.randint(0, 29)))
        r = rng.choice((0, 0, 1, 5, 28, 29, rng.randint(0, 29)))
        s = ''.join(rng.choice('0123456789') for i in range(l)) or '0'
        if rng.random() < 0.2:
            s = '9' * max(1, l)
        if r:
            s += '.' + ''.join(rng.choice('0123456789') for i in range(r))
        return D(('-' if rng.random() < 0.4 else '') + s), None
    if name == 'Time':
        return r_time(rng)
    return r_point(rng, name == 'DateTimeOffset')


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (
            a == b and math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b


def snapshot(v):
    return repr(v.value) if not hasattr(v.value, 'get_calendar_string') \
        else v.value.get_calendar_string(ndp=6)


def case_value(ctx):
    rng = ctx.rng
    from pyslet.odata2 import csdl as edm, core
    name = gen.pick(rng, TYPES)
    x, prec = r_value(rng, name)
    ctx.witness(type=name, value=repr(x))
    ctx.nontrivial((name, repr(x) if prec is None else str(x), prec))
    ctx.count('value')
    if prec is not None:
        v = edm.EDMValue.from_property(Prop(typecode(name), prec))
    else:
        v = new(name)
    ctx.check(v.is_null() and not v, 'null-initially')
    v.set_from_value(x)
    ctx.check(same(v.value, x), 'set-value', '%s: %r stored as %r' % (name, x, v.value))
    ctx.check(bool(v) and not v.is_null(), 'not-null')
    s = str(v)
    ctx.check(FORMAT[name].match(s), 'literal-form', '%s %r written %r' % (name, x, s))
    if prec is not None:
        frac = s.split('.')[1] if '.' in s else ''
        ctx.equal(len(re.match(r'\d*', frac).group()), prec, 'precision', s)
    w = new(name)
    w.set_from_literal(s)
    ctx.check(same(w.value, x), 'literal-roundtrip', '%s %r written %r read %r' % (name, x, s, w.value))
    ctx.check(w == v or (isinstance(x, float) and math.isnan(x)), 'eq', s)
    # python's view of the value through from_value
    if name in ('Binary', 'Boolean', 'Guid', 'String', 'Double', 'Decimal',
                'DateTime', 'DateTimeOffset'):
        z = edm.EDMValue.from_value(x)
        ctx.equal(z.type_code, typecode(name), 'from-value-type', repr(x))
        ctx.check(same(z.value, x), 'from-value', repr(x))
    z = edm.SimpleValue.copy(v)
    ctx.check(same(z.value, x) and z.type_code == v.type_code, 'copy', s)
    # URI literal: small integer types have no literal of their own
    lit = core.ODataURI.format_literal(v)
    r = core.uri_literal_from_str(core.uri_literal_to_str(v, query=rng.random() < 0.5))
    if name in ('Byte', 'SByte', 'Int16'):
        ctx.equal((r.type_code, r.value), (edm.SimpleType.Int32, x), 'uri-int', lit)
    else:
        ctx.check(r.type_code == v.type_code and same(r.value, x),
                  'uri-roundtrip', '%s %r written %r read %r' % (name, x, lit, r.value))
    if '%' not in lit and '+' not in lit and all(ord(c) < 128 for c in lit):
        r2 = core.uri_literal_from_str(lit)
        ctx.check(same(r2.value, r.value), 'uri-unescaped', lit)
    v.set_null()
    ctx.check(v.is_null(), 'set-null')
    ctx.raises(ValueError, lambda: str(v), 'null-format', name)
    ctx.equal(core.ODataURI.format_literal(v), 'null', 'null-literal')
    ctx.check(core.uri_literal_from_str('null').is_null(), 'null-parse')
    v.set_from_value(x)
    v.set_from_value(None)
    ctx.check(v.is_null(), 'set-none')


# -- candidate literals -------------------------------------------------------

def digits(rng, n):
    return ''.join(rng.choice('0123456789') for i in range(n))


def r_literal(rng, name):
    """a string that is a literal of the type or nearly so"""
    if name in INTS:
        lo, hi = INTS[name]
        return rng.choice((
            str(rng.choice((lo - 1, lo, hi, hi + 1, 0, rng.randint(lo, hi),
                            10 * hi))),
            rng.choice(('', '-', '+', ' ')) + digits(rng, rng.randint(0, 21)),
            digits(rng, 2) + rng.choice(('.', '.0', 'e1', 'L', ' ', 'D')),
            '0' * rng.randint(1, 12) + str(rng.randint(0, 99)), '-0', 'nan',
            'inf', '-inf', '0x10', '٣'))
    if name in ('Double', 'Single'):
        s = rng.choice(('', '', '-', '+'))
        m = rng.randrange(5)
        if m == 0:
            return s + rng.choice(('nan', 'inf', 'NaN', 'INF', 'infinity'))
        s += digits(rng, rng.choice((0, 1, 1, 2, 8, 9, 10, 17, 18)))
        if m != 1:
            s += '.' + digits(rng, rng.choice((0, 1, 2, 8, 16, 30)))
        if m >= 3:
            s += rng.choice('eE') + rng.choice(('', '', '-', '+')) + rng.choice(
                ('', '1', '2', '37', '38', '39', '99', '100', '300', '308',
                 '309', '999', '1000', digits(rng, 2)))
        return s
    if name == 'Decimal':
        s = rng.choice(('', '', '-', '+')) + digits(
            rng, rng.choice((0, 1, 5, 28, 29, 30)))
        if rng.random() < 0.6:
            s += '.' + digits(rng, rng.choice((0, 1, 5, 28, 29, 30)))
        return s + rng.choice(('', '', '', '', 'e1', 'M', ' '))
    if name == 'Boolean':
        return rng.choice(('true', 'false', 'TRUE', 'False', 'tRuE', '1', '0',
                           '', 'yes', 'true ', ' false', 'null'))
    if name == 'Binary':
        return ''.join(rng.choice('0123456789abcdefABCDEF') for i in range(
            rng.randint(0, 12))) + rng.choice(('', '', '', 'g', ' ', "'"))
    if name == 'Guid':
        s = str(uuid.UUID(int=rng.getrandbits(128)))
        m = rng.randrange(6)
        if m == 0:
            return s.upper()
        if m == 1:
            return s.replace('-', '')
        if m == 2:
            return '{' + s + '}'
        if m == 3:
            i = rng.randrange(len(s))
            return s[:i] + rng.choice(('', 'g', '-', 'aa')) + s[i + 1:]
        return s
    if name in ('DateTime', 'Time', 'DateTimeOffset'):
        d = '%04d-%02d-%02dT' % (rng.choice((0, 1970, 2000, 2001, 1900, 9999)),
                                 rng.randint(0, 13), rng.randint(0, 32))
        if rng.random() < 0.7:
            d = '%04d-%02d-%02dT' % (rng.randint(0, 9999), rng.randint(1, 12),
                                     rng.choice((1, 28, 29, 30, 31)))
        t = '%02d:%02d' % (rng.choice((0, 1, 23, 24, 25)), rng.choice((0, 59, 60, 61)))
        if rng.random() < 0.7:
            t = '%02d:%02d' % (rng.randrange(24), rng.randrange(60))
        if rng.random() < 0.7:
            t += ':%02d' % rng.choice((0, 59, 61, 99, rng.randrange(60)))
            if rng.random() < 0.5:
                t += '.' + digits(rng, rng.choice((0, 1, 3, 7, 8)))
        if name == 'Time':
            return t + rng.choice(('', '', '', 'Z', '+01:00', ' '))
        z = rng.choice(('', 'Z', '+01:00', '-05:30', '+14:59', '+1', '+01:60'))
        if name == 'DateTime' and rng.random() < 0.7:
            z = ''
        return d + t + z + rng.choice(('', '', '', 'x'))
    return gen.text(rng, 12)


def dim(y, m):
    return [31, 29 if (y % 4 == 0 and (y % 100 or y % 400 == 0)) else 28, 31,
            30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def expect(name, s):
    """(valid?, value) by the reference grammar; valid None: not decided"""
    if name in INTS:
        lo, hi = INTS[name]
        if re.match(r'-?[0-9]+\Z', s) and (name != 'Byte' or s[0] != '-'):
            if len(s.lstrip('-')) > {'Int32': 10, 'Int64': 19}.get(name, 999):
                return False, None
            return lo <= int(s) <= hi, int(s)
        return False, None
    if name in ('Double', 'Single'):
        one, many, ex, mx = (17, 17, 3, 1.7976931348623157e308) \
            if name == 'Double' else (8, 9, 2, SMAX)
        if s.lower() in ('nan', 'inf', '-inf'):
            return (True, float(s)) if s in ('nan', 'inf', '-inf') else (None, None)
        m = re.match(r'-?(\d*)(\.(\d*))?([eE]-?(\d*))?\Z', s)
        if not m or not (m.group(1) or m.group(3)):
            return False, None
        l, r = m.group(1), m.group(3) or ''
        if m.group(4) is not None:
            if not m.group(5) or len(m.group(5)) > ex or not l or \
                    len(l + r) > many:
                if name == 'Single' and m.group(2) is None:
                    # integer with exponent: the limits are not documented
                    return None, None
                return False, None
            if name == 'Single' and m.group(2) is None:
                if len(l) > 8:
                    return None, None
        elif m.group(2) is None:
            if len(l) > one:
                return False, None
        elif not r:
            return None, None       # "1." is tolerated
        x = float(s)
        return abs(x) <= mx, x
    if name == 'Decimal':
        m = re.match(r'-?(\d{0,29})(\.(\d{1,29}))?\Z', s)
        if not m or not (m.group(1) or m.group(3)):
            return False, None
        return True, D(s)
    if name == 'Boolean':
        return s.lower() in ('true', 'false'), s.lower() == 'true'
    if name == 'Binary':
        ok = re.match(r'([0-9a-fA-F]{2})*\Z', s) is not None
        return ok, bytes.fromhex(s) if ok else None
    if name == 'Guid':
        ok = FORMAT['Guid'].match(s) is not None
        return ok, uuid.UUID(s) if ok else None
    if name == 'String':
        return True, s
    date = r'(\d{4})-(\d\d)-(\d\d)T'
    time = r'(\d\d):(\d\d)(?::(\d\d)(\.\d{1,7})?)?'
    if name == 'Time':
        m = re.match(time + r'\Z', s)
        if not m:
            return False, None
        h, mi, sec, f = m.groups()
        if int(h) == 24:
            return (None if int(mi) == 0 and float((sec or '0') + (f or '')) == 0 else False), None
        if int(h) > 24 or int(mi) > 59 or int(sec or 0) > 60:
            return False, None
        if int(sec or 0) == 60:
            return None, None       # leap seconds
        return True, (int(h), int(mi), float((sec or '0') + (f or '')))
    zone = r'(Z|[-+]\d\d:\d\d)'
    if name == 'DateTime':
        m = re.match(date + time + zone + r'?\Z', s)
    else:
        # the XML schema form
        m = re.match(date + r'(\d\d):(\d\d):(\d\d)(\.\d+)?' + zone + r'\Z', s)
        if not m and re.match(date + time + zone + r'?\Z', s):
            return None, None
    if not m:
        return (False if name == 'DateTime' or s[-1:] in 'x' else None), None
    y, mo, d, h, mi, sec, f, z = m.groups()
    y, mo, d, h, mi = [int(i) for i in (y, mo, d, h, mi)]
    if not (1 <= mo <= 12 and 1 <= d <= dim(y, mo)) or h > 24 or mi > 59 or \
            int(sec or 0) > 60:
        return False, None
    if h == 24 or int(sec or 0) == 60 or y == 0:
        return None, None
    if z and z != 'Z':
        if int(z[1:3]) > 24 or int(z[4:]) > 59:
            return False, None
        if int(z[1:3]) == 24:
            return None, None
    return True, (y, mo, d, h, mi, float((sec or '0') + (f or '')), z)


def observed(name, v):
    if name == 'Time':
        h, m, s = v.get_time()
        return (h, m, float(s))
    if name in ('DateTime', 'DateTimeOffset'):
        c, y, mo, d, h, mi, s = v.get_calendar_time_point()
        return (c * 100 + y, mo, d, h, mi, float(s))
    return v


def case_literal(ctx):
    rng = ctx.rng
    name = gen.pick(rng, TYPES)
    s = r_literal(rng, name)
    ctx.witness(type=name, literal=s)
    ctx.nontrivial((name, s))
    ok, want = expect(name, s)
    v = new(name)
    x, prec = r_value(rng, name)
    v.set_from_value(x)
    before = snapshot(v)
    if ok is False:
        ctx.count('invalid')
        ctx.raises(ValueError, lambda: v.set_from_literal(s), 'reject',
                   '%s literal %r' % (name, s))
        ctx.equal(snapshot(v), before, 'unchanged', s)
    elif ok is None:
        ctx.count('undecided')
        try:
            v.set_from_literal(s)
        except ValueError:
            ctx.equal(snapshot(v), before, 'unchanged', s)
    else:
        ctx.count('valid')
        v.set_from_literal(s)
        got = observed(name, v.value)
        if name in ('DateTime', 'DateTimeOffset'):
            if name == 'DateTime':
                ctx.equal(v.value.get_zone()[0], None, 'datetime-zone', s)
            else:
                z = want[-1]
                off = 0 if z == 'Z' else (int(z[1:3]) * 60 + int(z[4:]))
                zd, zo = v.value.get_zone()
                ctx.equal((zd or 0) * (zo or 0), -off if z[0] == '-' else off,
                          'zone', s)
            want = want[:-1]
            ctx.check(got[:5] == want[:5] and abs(got[5] - want[5]) < 1e-6,
                      'literal-value', '%s %r read %r' % (name, s, got))
        elif name == 'Time':
            ctx.check(got[:2] == want[:2] and abs(got[2] - want[2]) < 1e-6,
                      'literal-value', '%s %r read %r' % (name, s, got))
        else:
            ctx.check(same(got, want) or (got == want and name != 'Double'),
                      'literal-value', '%s %r read %r' % (name, s, got))


# -- assignment and casts -----------------------------------------------------

def case_cast(ctx):
    rng = ctx.rng
    """numbers assigned to numeric types, casts between all types"""
    from pyslet.odata2 import csdl as edm
    a = gen.pick(rng, TYPES)
    b = gen.pick(rng, ('Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Double',
                       'Single', 'Decimal', 'Boolean', 'String', 'Time',
                       'DateTime', 'Guid'))
    numeric = tuple(INTS) + ('Double', 'Single', 'Decimal')
    if rng.random() < 0.7:
        a = gen.pick(rng, numeric)
    x, prec = r_value(rng, a)
    if a in numeric and rng.random() < 0.5:
        lo, hi = INTS.get(b, (-2 ** 31, 2 ** 31))
        base = rng.choice((lo, hi, 0, 1, rng.randint(lo, hi)))
        x = {'Double': float, 'Single': float, 'Decimal': D}.get(a, int)(base)
        if a in ('Double', 'Decimal'):
            x += {'Double': float, 'Decimal': D}[a](rng.choice(('0', '0.5', '-0.5', '1', '-1')))
    src = new(a)
    try:
        src.set_from_value(x)
    except ValueError:
        return
    x = src.value
    ctx.witness(source=a, target=b, value=repr(x))
    ctx.nontrivial((a, b, repr(x) if a not in ('DateTime', 'DateTimeOffset', 'Time') else str(x)))
    ctx.count('cast')
    v = new(b)
    y, prec = r_value(rng, b)
    v.set_from_value(y)
    before = snapshot(v)
    try:
        if rng.random() < 0.5:
            src.cast(v)
        else:
            v.set_from_simple_value(src)
    except (ValueError, TypeError) as e:
        ctx.equal(snapshot(v), before, 'cast-unchanged', '%s %r' % (a, x))
        if a in numeric and b in numeric:
            ctx.check(type(e) is ValueError or not isinstance(e, TypeError),
                      'cast-type-error', '%s %r to %s' % (a, x, b))
            finite = not isinstance(x, float) or (
                not math.isinf(x) and not math.isnan(x))
            if b in INTS:
                lo, hi = INTS[b]
                ctx.check(not (finite and lo <= x <= hi), 'cast-refused',
                          '%s %r to %s: %s' % (a, x, b, e))
            elif finite:
                lim = {'Double': 1e300, 'Single': 1e38, 'Decimal': 1e28}[b]
                ctx.check(not abs(x) < lim, 'cast-refused',
                          '%s %r to %s: %s' % (a, x, b, e))
        ctx.check(a != b, 'self-cast', a)
        ctx.check(b != 'String' or a == 'Binary', 'string-cast', '%s %r: %s' % (a, x, e))
        return
    if a == b:
        ctx.check(same(v.value, x), 'self-cast-value', repr(x))
    elif a in numeric and b in INTS:
        lo, hi = INTS[b]
        ctx.check(type(v.value) is int and v.value == int(x) and
                  lo <= v.value <= hi and lo <= x <= hi, 'cast-int',
                  '%s %r to %s gave %r' % (a, x, b, v.value))
    elif a in numeric and b in ('Double', 'Single'):
        ctx.check(same(v.value, float(x)), 'cast-float',
                  '%s %r gave %r' % (a, x, v.value))
        ctx.check(math.isnan(v.value) or math.isinf(v.value) or b == 'Double'
                  or abs(v.value) <= SMAX, 'single-range', repr(v.value))
    elif a in numeric and b == 'Decimal':
        ctx.check(isinstance(v.value, D) and v.value == (
            D(str(x)) if isinstance(x, float) else D(x)), 'cast-decimal',
            '%s %r gave %r' % (a, x, v.value))
    elif a in numeric and b == 'Boolean':
        ctx.equal(v.value, x != 0, 'cast-bool', repr(x))
    elif a in numeric and b == 'Time':
        h, m, s = v.value.get_time()
        ctx.check(abs(h * 3600 + m * 60 + s - float(x)) < 1e-3, 'cast-time',
                  '%r gave %s' % (x, v.value))
    elif a in numeric and b == 'DateTime':
        if 0 <= x < 200000000000:
            t = datetime.datetime(1970, 1, 1) + datetime.timedelta(
                seconds=float(x))
            c = observed('DateTime', v.value)
            ctx.check(abs((datetime.datetime(*(c[:5] + (int(c[5]), ))) - t)
                          .total_seconds() + c[5] % 1) < 1e-3, 'cast-datetime',
                      '%r gave %s' % (x, v.value))
    elif b == 'String':
        ctx.check(isinstance(v.value, str), 'cast-string', repr(v.value))


# -- URI literals -------------------------------------------------------------

def case_uri(ctx):
    rng = ctx.rng
    """mutated URI literals: refused with ValueError, or accepted as a value
    whose own literal means the same"""
    from pyslet.odata2 import core, csdl as edm
    name = gen.pick(rng, TYPES)
    v = new(name)
    x, prec = r_value(rng, name)
    v.set_from_value(x)
    s = core.ODataURI.format_literal(v)
    for i in range(rng.randint(1, 3)):
        k = rng.randrange(len(s) + 1)
        m = rng.randrange(4)
        if m == 0:
            s = s[:k] + s[k + 1:]
        elif m == 1:
            s = s[:k] + rng.choice("'0919.-+eEdDfFmMlLxXgT: ZnulINF") + s[k:]
        elif m == 2:
            s = s[:k] + s[k:].swapcase()
        else:
            s = s[:k] + rng.choice("'09.-LMFD:T") + s[k + 1:]
    from pyslet import rfc2396 as uri
    ctx.witness(literal=s)
    ctx.nontrivial(s)
    ctx.count('uri-fuzz')
    esc = uri.escape_data(s.encode('utf-8'), uri.is_query_reserved)
    try:
        r = core.uri_literal_from_str(esc)
    except ValueError:
        return
    ctx.count('uri-accepted')
    if r.is_null():
        ctx.equal(s.lower(), 'null', 'null-only', s)
        return
    t = core.ODataURI.format_literal(r)
    r2 = core.uri_literal_from_str(
        uri.escape_data(t.encode('utf-8'), uri.is_query_reserved))
    name = edm.SimpleType.to_str(r.type_code)
    if name in ('Edm.DateTime', 'Edm.DateTimeOffset', 'Edm.Time'):
        a, b = r.value, r2.value
        # no property, no fraction in the format
        ctx.equal(a.get_string(ndp=0) if name == 'Edm.Time' else a.get_calendar_string(ndp=0),
                  b.get_string(ndp=0) if name == 'Edm.Time' else b.get_calendar_string(ndp=0),
                  'uri-stable', '%r -> %r' % (s, t))
    else:
        ctx.check(r2.type_code == r.type_code and same(r.value, r2.value),
                  'uri-stable', '%r -> %r -> %r' % (s, t, r2.value))
    # number suffixes decide the type
    m = re.match(r'-?\d+(\.\d+)?(e-?\d+)?([a-z]?)\Z', s, re.I)
    if m:
        want = {'': 'Edm.Int32', 'l': 'Edm.Int64', 'm': 'Edm.Decimal',
                'f': 'Edm.Single', 'd': 'Edm.Double'}.get(m.group(3).lower())
        ctx.equal(name, want, 'uri-suffix', s)
        if want:
            num = s[:len(s) - len(m.group(3))]
            ctx.check(float(num) == float(r.value) or want == 'Edm.Decimal'
                      and D(num) == r.value, 'uri-number', s)


WORKLOADS = [
    Workload('value', case_value, 24000, 120000),
    Workload('literal', case_literal, 30000, 150000),
    Workload('cast', case_cast, 12000, 60000),
    Workload('uri', case_uri, 12000, 60000),
]
