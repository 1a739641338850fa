"""An independent model of QTI 2.1 values and expressions"""

import functools
import math
import random
import re
from collections import Counter
from decimal import Decimal, ROUND_HALF_UP
from fractions import Fraction
from xml.sax.saxutils import escape, quoteattr

from lib import gen

NS = "http://www.imsglobal.org/xsd/imsqti_v2p1"
BASES = ('boolean', 'directedPair', 'duration', 'float', 'identifier', 'integer', 'pair', 'point', 'string', 'uri')
ORD = ('boolean', 'directedPair', 'float', 'identifier', 'integer', 'pair', 'point', 'string', 'uri')


class Err(Exception):
    """The expression must be refused"""


class Undecided(Exception):
    pass


class V(object):
    """cardinality, base type and value, which is None, a Python value, a list (ordered), a sorted list (multiple) or a dictionary of V"""

    def __init__(self, card, base, val):
        self.card = card
        self.base = base
        self.val = val
        if card in ('multiple', 'ordered', 'record') and not val:
            self.val = None
        elif card == 'multiple':
            self.val = sorted(val)
        elif base == 'string' and val == '':
            self.val = None
        elif base == 'pair' and card == 'single' and val is not None:
            self.val = tuple(sorted(val))
        if base == 'pair' and card in ('ordered', 'multiple') and self.val is not None:
            self.val = [tuple(sorted(v)) for v in self.val]
            if card == 'multiple':
                self.val.sort()

    def __repr__(self):
        return "%s %s %r" % (self.card, self.base, self.val)


NULL = V(None, None, None)

IDS = ['A', 'B', 'C', 'choice_1', 'x-1', 'caf\u00e9', 'n.1']
STRINGS = ['', 'a', 'A', 'ab', 'abc', 'ABC', 'b', ' b ', 'caf\u00e9', 'CAF\u00c9', '10', 'a&<b>', 'true', '{T}', 'x y', 'aab', 'bca']


def raw(rng, base):
    if base == 'boolean':
        return rng.random() < 0.5
    if base in ('directedPair', 'pair'):
        return (rng.choice(IDS[:4]), rng.choice(IDS[:4]))
    if base == 'identifier':
        return rng.choice(IDS)
    if base == 'integer':
        return rng.choice((0, 1, 2, 3, -1, -2, 7, 10, rng.randint(-20, 20), rng.randint(-1000, 1000)) + ((2147483647, -2147483648) if rng.random() < 0.1 else ()))
    if base == 'float':
        return rng.choice((0.0, 1.0, 1.5, -1.5, 2.5, -0.5, 0.5, 3.0, 1e10, 1e-3, float(rng.randint(-20, 20)), rng.randint(-4000, 4000) / 8.0, rng.uniform(-10, 10),
                           round(rng.uniform(-10, 10), rng.randint(0, 4)), 1e300 if rng.random() < 0.1 else 2.0))
    if base == 'duration':
        return rng.choice((0.0, 1.0, 1.5, 60.0, float(rng.randint(0, 100))))
    if base == 'point':
        return (rng.randint(-3, 25), rng.randint(-3, 25))
    if base == 'string':
        return rng.choice(STRINGS)
    if base == 'uri':
        return rng.choice(('http://www.example.com/', 'a/b', 'urn:x:y', '../c?d=e#f'))


def text_of(base, v):
    if base == 'boolean':
        return 'true' if v else 'false'
    if base in ('directedPair', 'pair'):
        return '%s %s' % v
    if base == 'integer':
        return str(v)
    if base in ('float', 'duration'):
        return repr(v)
    if base == 'point':
        return '%d %d' % v
    return str(v)


def value(rng, card, base, null=0.15):
    if rng.random() < null:
        return V(card, base, None)
    if card == 'single':
        return V(card, base, raw(rng, base))
    if card == 'record':
        d = {}
        for k in rng.sample(IDS, rng.randint(1, 3)):
            v = value(rng, 'single', rng.choice(BASES), 0)
            if v.val is not None:
                d[k] = v
        return V(card, None, d)
    pool = [raw(rng, base) for i in range(3)]
    vs = [rng.choice(pool) for i in range(rng.randint(1, 5))]
    if base == 'string':
        vs = [v for v in vs if v]
    return V(card, base, vs)


# --- reading the values of the library

def lib_value(v):
    """The library's value as a V, read by its public face"""
    from pyslet.qtiv2 import variables as var
    card = v.cardinality()
    card = None if card is None else var.Cardinality.to_str(card)
    base = None if v.baseType is None else var.BaseType.to_str(v.baseType)
    if card == 'record':
        val = {k: lib_value(v[k]) for k in v}
        return V(card, None, val)
    if v.value is None or v.is_null():
        return V(card, base, None)
    conv = str if base == 'uri' else (lambda x: x)
    if card in ('ordered', 'multiple'):
        return V(card, base, [conv(x) for x in v.get_values()])
    return V(card, base, conv(v.value))


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, float) and isinstance(b, float):
        return a == b or math.isclose(a, b, rel_tol=1e-12)
    return type(a) is type(b) and a == b


def same(got, want):
    """got may leave the types of a NULL open"""
    if got.val is None or want.val is None:
        if got.val is not None or want.val is not None:
            return False
        return (got.card is None or want.card is None or got.card == want.card) and (got.base is None or want.base is None or got.base == want.base)
    if got.card != want.card or got.base != want.base:
        return False
    if got.card == 'record':
        return sorted(got.val) == sorted(want.val) and all(same(got.val[k], want.val[k]) for k in got.val)
    if got.card == 'single':
        return close(got.val, want.val)
    return len(got.val) == len(want.val) and all(close(a, b) for a, b in zip(got.val, want.val))


# --- writing values

def value_elements(v):
    if v.card == 'record':
        return ''.join('<value fieldIdentifier=%s baseType="%s">%s</value>' % (quoteattr(k), x.base, escape(text_of(x.base, x.val))) for k, x in v.val.items())
    vs = [v.val] if v.card == 'single' else v.val
    return ''.join('<value>%s</value>' % escape(text_of(v.base, x)) for x in vs)


def declaration(kind, name, v, extra='', correct=None, card=None, base=None, attrs=''):
    return '<%sDeclaration identifier="%s" cardinality="%s"%s%s>%s%s%s</%sDeclaration>' % (
        kind, name, v.card, '' if v.base is None else ' baseType="%s"' % v.base, attrs,
        '' if v.val is None else '<defaultValue>%s</defaultValue>' % value_elements(v),
        '' if correct is None or correct.val is None else '<correctResponse>%s</correctResponse>' % value_elements(correct), extra, kind)


class Scope(object):
    """The variables of an item"""

    def __init__(self, rng):
        self.rng = rng
        self.templates = {}
        self.outcomes = {}
        self.responses = {}
        self.correct = {}
        n = 0
        for base in ('integer', 'float', 'string'):
            for i in range(2):
                n += 1
                self.templates['T%d' % n] = value(rng, 'single', base, 0.2)
        for base in BASES:
            for card in ('single', 'multiple', 'ordered'):
                if rng.random() < 0.6:
                    n += 1
                    self.outcomes['O%d' % n] = value(rng, card, base)
        self.outcomes['OR'] = value(rng, 'record', None)
        for i in range(3):
            n += 1
            base = rng.choice(BASES)
            card = rng.choice(('single', 'multiple', 'ordered'))
            self.responses['R%d' % n] = value(rng, card, base)
            self.correct['R%d' % n] = value(rng, card, base)

    def xml(self):
        return (''.join(declaration('response', k, v, correct=self.correct[k]) for k, v in self.responses.items()) +
                ''.join(declaration('outcome', k, v) for k, v in self.outcomes.items()) +
                ''.join(declaration('template', k, v) for k, v in self.templates.items()))

    def current(self, name):
        if name in self.templates:
            return self.templates[name]
        if name in self.responses:
            return V(self.responses[name].card, self.responses[name].base, None)
        v = self.outcomes[name]
        if v.val is None and v.card == 'single' and v.base in ('integer', 'float'):
            return V(v.card, v.base, 0 if v.base == 'integer' else 0.0)
        return v

    def default(self, name):
        for d in (self.templates, self.responses, self.outcomes):
            if name in d:
                return d[name]
        raise Err("not declared")

    def find(self, card, base):
        return [k for k in list(self.templates) + list(self.outcomes) if self.current(k).card == card and self.current(k).base == base]


# --- expressions

class E(object):

    def __init__(self, name, attrs=(), kids=(), text=None):
        self.name = name
        self.attrs = dict(attrs)
        self.kids = list(kids)
        self.text = text

    def xml(self):
        return '<%s%s>%s%s</%s>' % (self.name, ''.join(' %s=%s' % (k, quoteattr(str(v))) for k, v in self.attrs.items()), '' if self.text is None else escape(self.text),
                                    ''.join(k.xml() for k in self.kids), self.name)

    def size(self):
        return 1 + sum(k.size() for k in self.kids)


BOOL_OPS = ('isNull', 'member', 'contains', 'substring', 'not', 'and', 'or', 'anyN', 'match', 'stringMatch', 'patternMatch', 'equal', 'equalRounded', 'inside', 'lt', 'gt', 'lte', 'gte',
            'durationLT', 'durationGTE')
NUM = ('integer', 'float')


class Maker(object):

    def __init__(self, rng, scope, wrong=0.03):
        self.rng = rng
        self.scope = scope
        self.wrong = wrong

    def ref(self, base, v):
        """A literal or the name of a template variable"""
        rng = self.rng
        if rng.random() < 0.2:
            names = [k for k, x in self.scope.templates.items() if x.base == base and x.card == 'single' and not (base == 'integer' and x.val is not None and not (-50 < x.val < 50))] + ['O1']
            if rng.random() < 0.05:
                names = [k for k, x in self.scope.templates.items() if x.base != 'integer' or k in names]
            return '{%s}' % rng.choice(names)
        return text_of(base, v)

    def leaf(self, card, base):
        rng = self.rng
        r = rng.random()
        names = self.scope.find(card, base)
        if r < 0.05:
            return E('null')
        if card == 'single' and base is not None and r < 0.55:
            v = raw(rng, base)
            return E('baseValue', {'baseType': base}, text=text_of(base, v))
        if r < 0.62:
            cs = [k for k, v in self.scope.correct.items() if v.card == card and v.base == base]
            if cs:
                return E('correct', {'identifier': rng.choice(cs)})
        if r < 0.7:
            ds = [k for d in (self.scope.responses, self.scope.outcomes, self.scope.templates) for k, v in d.items() if v.card == card and v.base == base]
            if ds:
                return E('default', {'identifier': rng.choice(ds)})
        if names:
            return E('variable', {'identifier': rng.choice(names)})
        if card in ('multiple', 'ordered'):
            return E(card, kids=[self.leaf('single', base) for i in range(rng.randint(1, 4))])
        if card == 'record':
            return E('variable', {'identifier': 'OR'})
        return E('baseValue', {'baseType': base}, text=text_of(base, raw(rng, base)))

    def numeric(self, depth):
        return self.make('single', self.rng.choice(NUM), depth)

    def make(self, card, base, depth):
        rng = self.rng
        if rng.random() < self.wrong:
            card, base = rng.choice(('single', 'single', 'multiple', 'ordered', 'record')), rng.choice(BASES)
            if card == 'record':
                base = None
        if depth <= 0 or card == 'record':
            return self.leaf(card, base)
        if card in ('multiple', 'ordered'):
            r = rng.random()
            if r < 0.5:
                return E(card, kids=[self.make(rng.choice(('single', 'single', card)), base, depth - 1) for i in range(rng.randint(0, 4))])
            if r < 0.75:
                return E('delete', kids=[self.make('single', base, depth - 1), self.make(card, base, depth - 1)])
            return self.leaf(card, base)
        ops = ['leaf', 'index']
        if base == 'boolean':
            ops += ['bool'] * 20
        elif base == 'integer':
            ops += ['containerSize', 'sum', 'product', 'subtract', 'integerDivide', 'integerModulus', 'truncate', 'round', 'fieldValue']
        elif base == 'float':
            ops += ['sum', 'product', 'subtract', 'divide', 'power', 'integerToFloat', 'fieldValue']
        op = rng.choice(ops)
        d = depth - 1
        if op == 'leaf':
            return self.leaf(card, base)
        if op == 'index':
            return E('index', {'n': rng.choice((1, 1, 2, 3, 4, 6) + ((0, -1) if rng.random() < 0.1 else ()))}, [self.make('ordered', base, d)])
        if op == 'fieldValue':
            return E('fieldValue', {'fieldIdentifier': rng.choice(IDS)}, [self.make('record', None, d)])
        if op == 'containerSize':
            return E(op, kids=[self.make(rng.choice(('multiple', 'ordered')), rng.choice(BASES), d)])
        if op in ('sum', 'product'):
            kids = [self.make('single', base, d) if base == 'integer' else self.numeric(d) for i in range(rng.randint(1, 4))]
            if base == 'float':
                kids.append(self.make('single', 'float', d))
            return E(op, kids=kids)
        if op == 'subtract':
            kids = [self.make('single', base, d), self.make('single', base, d) if base == 'integer' else self.numeric(d)]
            return E(op, kids=kids)
        if op in ('divide', 'power'):
            return E(op, kids=[self.numeric(d), self.numeric(d)])
        if op in ('integerDivide', 'integerModulus'):
            return E(op, kids=[self.make('single', 'integer', d), self.make('single', 'integer', d)])
        if op in ('truncate', 'round'):
            return E(op, kids=[self.make('single', 'float', d)])
        if op == 'integerToFloat':
            return E(op, kids=[self.make('single', 'integer', d)])
        return self.boolean(d)

    def boolean(self, d):
        rng = self.rng
        op = rng.choice(BOOL_OPS)
        cc = rng.choice(('multiple', 'ordered'))
        b = rng.choice(BASES if rng.random() < 0.1 else ORD)
        if op == 'isNull':
            card = rng.choice(('single', 'multiple', 'ordered', 'record'))
            return E(op, kids=[self.make(card, None if card == 'record' else b, d)])
        if op == 'member':
            return E(op, kids=[self.make('single', b, d), self.make(cc, b, d)])
        if op == 'contains':
            big = self.make(cc, b, d)
            small = self.make(cc, b, d)
            if rng.random() < 0.6 and big.name == cc and big.kids:
                i = rng.randrange(len(big.kids))
                small = E(cc, kids=big.kids[i:rng.randint(i + 1, len(big.kids))])
            return E(op, kids=[small, big])
        s = lambda: self.make('single', 'string', d)
        boolean = lambda: '%s' % rng.choice(('true', 'false', '1', '0'))
        if op == 'substring':
            return E(op, {'caseSensitive': boolean()}, [s(), s()])
        if op == 'not':
            return E(op, kids=[self.make('single', 'boolean', d)])
        if op in ('and', 'or'):
            return E(op, kids=[self.make('single', 'boolean', d) for i in range(rng.randint(1, 4))])
        if op == 'anyN':
            return E(op, {'min': self.ref('integer', rng.randint(0, 3)), 'max': self.ref('integer', rng.randint(0, 4))}, [self.make('single', 'boolean', d) for i in range(rng.randint(1, 5))])
        if op == 'match':
            card = rng.choice(('single', 'single', 'multiple', 'ordered', 'record'))
            b = None if card == 'record' else b
            a = self.make(card, b, d)
            return E(op, kids=[a, a if rng.random() < 0.2 else self.make(card, b, d)])
        if op == 'stringMatch':
            at = {'caseSensitive': boolean()}
            if rng.random() < 0.5:
                at['substring'] = boolean()
            return E(op, at, [s(), s()])
        if op == 'patternMatch':
            return E(op, {'pattern': self.ref('string', rng.choice(list(PATTERNS)))}, [s()])
        if op == 'equal':
            at = {'toleranceMode': rng.choice(('exact', 'absolute', 'relative'))}
            if at['toleranceMode'] != 'exact':
                tv = [rng.choice((0.0, 0.5, 1.0, 10.0, 50.0, 0.1)) for i in range(rng.choice((1, 2)))]
                ts = [self.ref('float', x) for x in tv]
                at['tolerance'] = ' '.join(ts)
                for n in ('includeLowerBound', 'includeUpperBound'):
                    if rng.random() < 0.6:
                        at[n] = boolean()
                if rng.random() < 0.5:
                    # second operands on and around the bounds
                    x = rng.choice((0.0, 1.0, 2.0, 4.0, 0.5, 10.0, 100.0, -3.0))
                    k = x / 100 if at['toleranceMode'] == 'relative' else 1
                    y = x + k * rng.choice((-tv[0], -tv[0], tv[-1], tv[-1], 0, -tv[-1], tv[0], -tv[0] / 2, tv[-1] / 2, tv[-1] + 1, -tv[0] - 1))
                    return E(op, at, [E('baseValue', {'baseType': 'float'}, text=repr(v)) for v in (x, y)])
            return E(op, at, [self.numeric(d), self.numeric(d)])
        if op == 'equalRounded':
            at = {'roundingMode': rng.choice(('decimalPlaces', 'significantFigures')), 'figures': self.ref('integer', rng.randint(0, 5))}
            a = self.numeric(d)
            b = self.numeric(d)
            if a.name == 'baseValue' and a.attrs['baseType'] in NUM and rng.random() < 0.7:
                x = float(a.text)
                b = E('baseValue', {'baseType': 'float'}, text=repr(x + rng.choice((-1, 1)) * 10.0 ** -rng.randint(0, 5) * rng.choice((1, 0.4, 0.6))))
            return E(op, at, [a, b])
        if op == 'inside':
            shape, coords = shape_of(rng)
            at = {'shape': shape}
            if shape != 'default':
                at['coords'] = ','.join(map(str, coords))
            return E(op, at, [self.make(rng.choice(('single', 'single', 'multiple', 'ordered')), 'point', d)])
        if op in ('durationLT', 'durationGTE'):
            return E(op, kids=[self.make('single', 'duration', d), self.make('single', 'duration', d)])
        return E(op, kids=[self.numeric(d), self.numeric(d)])


# XML Schema expression -> equivalent Python expression, None for an error
PATTERNS = {'a': 'a', 'a*b': 'a*b', '[a-c]+': '[a-c]+', '.*': '.*', '\\d+': '\\d+', '(a|b)c?': '(a|b)c?', 'A.C': 'A.C', '[^a]*': '[^a]*', 'a{2}b': 'a{2}b', 'caf\u00e9': 'caf\u00e9', '\\s*b\\s*': '\\s*b\\s*',
            '(': None, '[a': None, 'a**': None, '*a': None, 'abc': 'abc', 'a?b?c?': 'a?b?c?', '\\{T\\}': '\\{T\\}', 'ab|bca': 'ab|bca', '[a-z-[b]]*': '[ac-z]*', '^a$': '\\^a\\$'}


def shape_of(rng):
    shape = rng.choice(('circle', 'rect', 'poly', 'ellipse', 'default'))
    c = lambda: rng.randint(0, 20)
    if shape == 'circle':
        return shape, [c(), c(), rng.randint(1, 12)]
    if shape == 'ellipse':
        return shape, [c(), c(), rng.randint(1, 12), rng.randint(1, 12)]
    if shape == 'rect':
        x = sorted(rng.sample(range(21), 2))
        y = sorted(rng.sample(range(21), 2))
        return shape, [x[0], y[0], x[1], y[1]]
    if shape == 'default':
        return shape, []
    # a polygon around a centre
    cx, cy = 10, 10
    pts = set()
    while len(pts) < rng.randint(3, 6):
        p = (c(), c())
        if p != (cx, cy):
            pts.add(p)
    by = {}
    for x, y in pts:
        by[math.atan2(y - cy, x - cx)] = (x, y)
    if len(by) < 3:
        return shape_of(rng)
    pts = [by[k] for k in sorted(by)]
    if rng.random() < 0.5:
        pts.reverse()
    if rng.random() < 0.3:
        pts.append(pts[0])
    return shape, [v for p in pts for v in p]


def in_shape(shape, coords, p, w=None, h=None):
    x, y = p
    if shape == 'default':
        return x >= 0 and y >= 0 and (w is None or x <= w) and (h is None or y <= h)
    if shape == 'circle':
        d = (x - coords[0]) ** 2 + (y - coords[1]) ** 2 - coords[2] ** 2
    elif shape == 'ellipse':
        d = Fraction((x - coords[0]) ** 2, coords[2] ** 2) + Fraction((y - coords[1]) ** 2, coords[3] ** 2) - 1
    elif shape == 'rect':
        d = max(coords[0] - x, x - coords[2], coords[1] - y, y - coords[3])
    else:
        pts = list(zip(coords[::2], coords[1::2]))
        if pts[0] == pts[-1]:
            pts.pop()
        inside = False
        for (x1, y1), (x2, y2) in zip(pts, pts[1:] + pts[:1]):
            cross = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
            if cross == 0 and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
                raise Undecided("on the boundary")
            if (y1 > y) != (y2 > y) and (cross > 0) == (y2 > y1):
                inside = not inside
        return inside
    if d == 0:
        raise Undecided("on the boundary")
    return d < 0


def rounded(v, mode, figs):
    """The exact value of v after rounding"""
    d = Decimal(repr(float(v)))
    if mode == 'significantFigures':
        if figs < 1:
            raise Undecided("figures")
        if d == 0:
            return Decimal(0)
        q = Decimal(1).scaleb(d.adjusted() - figs + 1)
    else:
        if figs < 0:
            raise Undecided("figures")
        q = Decimal(1).scaleb(-figs)
    if abs(d.adjusted() - q.adjusted()) > 20:
        if d.adjusted() > q.adjusted():
            return d
        return Decimal(0)
    if (d / q * 2) % 2 in (1, -1):
        raise Undecided("tie")
    return d.quantize(q, ROUND_HALF_UP)


class Oracle(object):

    def __init__(self, scope):
        self.scope = scope
        # a NULL was seen, a NULL of unknown type was seen
        self.nulls = False
        self.wild = False

    def __call__(self, e):
        v = getattr(self, 'x_' + e.name)(e)
        if v.val is None:
            self.nulls = True
            if v.card is None or (v.base is None and v.card != 'record'):
                self.wild = True
        return v

    def kids(self, e):
        return [self(k) for k in e.kids]

    def ref(self, text, base):
        m = re.match(r'\{([A-Za-z_][\w.-]*)\}$', text)
        if m:
            v = self.scope.templates.get(m.group(1))
            if v is None:
                if base == 'string':
                    return text
                raise Err("not a template variable")
            if v.base != base or v.card != 'single':
                raise Err("bad reference")
            if v.val is None:
                self.nulls = True
            return v.val
        return {'integer': int, 'float': float, 'string': str}[base](text)

    def types(self, vs, card=None, bases=None):
        """Checks cardinalities and base types: the common ones"""
        cs = set(v.card for v in vs if v.card is not None)
        if card is not None:
            cs.add(card)
        if len(cs) > 1:
            raise Err("cardinality")
        bs = set(v.base for v in vs if v.base is not None)
        if bases == 'numeric':
            if bs - set(NUM):
                raise Err("numeric")
            base = None if not bs else 'float' if 'float' in bs else 'integer'
        else:
            if bases is not None:
                bs.add(bases)
            if len(bs) > 1:
                raise Err("base type")
            base = bs.pop() if bs else None
        return (cs.pop() if cs else None), base

    def b(self, val):
        return V('single', 'boolean', val)

    def x_null(self, e):
        return NULL

    def x_baseValue(self, e):
        base = e.attrs['baseType']
        t = e.text
        if base == 'boolean':
            v = t == 'true'
        elif base in ('pair', 'directedPair'):
            v = tuple(t.split(' '))
        elif base == 'integer':
            v = int(t)
        elif base in ('float', 'duration'):
            v = float(t)
        elif base == 'point':
            v = tuple(map(int, t.split(' ')))
        else:
            v = t
        return V('single', base, v)

    def x_variable(self, e):
        n = e.attrs['identifier']
        return self.scope.current(n)

    def x_default(self, e):
        return self.scope.default(e.attrs['identifier'])

    def x_correct(self, e):
        if e.attrs['identifier'] not in self.scope.correct:
            raise Err("not a response")
        return self.scope.correct[e.attrs['identifier']]

    def container(self, e, card):
        vs = self.kids(e)
        base = None
        out = []
        for v in vs:
            if v.card not in (None, 'single', card):
                raise Err("cardinality")
            if v.base is not None:
                if base not in (None, v.base):
                    raise Err("mixed")
                base = v.base
            if v.val is not None:
                out += [v.val] if v.card == 'single' else v.val
        return V(card, base, out)

    def x_multiple(self, e):
        return self.container(e, 'multiple')

    def x_ordered(self, e):
        return self.container(e, 'ordered')

    def x_containerSize(self, e):
        v, = self.kids(e)
        if v.card not in ('multiple', 'ordered'):
            raise Err("container")
        return V('single', 'integer', 0 if v.val is None else len(v.val))

    def x_isNull(self, e):
        v, = self.kids(e)
        return self.b(v.val is None)

    def x_index(self, e):
        v, = self.kids(e)
        n = int(e.attrs['n'])
        if v.card != 'ordered' or n < 1:
            raise Err("index")
        return V('single', v.base, v.val[n - 1] if v.val is not None and n <= len(v.val) else None)

    def x_fieldValue(self, e):
        v, = self.kids(e)
        if v.card != 'record':
            raise Err("record")
        if v.val is None or e.attrs['fieldIdentifier'] not in v.val:
            return V('single', None, None)
        return v.val[e.attrs['fieldIdentifier']]

    def x_member(self, e):
        a, c = self.kids(e)
        self.types([a], 'single')
        if c.card not in ('multiple', 'ordered', None):
            raise Err("container")
        x, base = self.types([V(None, a.base, a.val), V(None, c.base, c.val)])
        if base == 'duration':
            raise Err("duration")
        if a.val is None or c.val is None:
            return self.b(None)
        return self.b(a.val in c.val)

    def x_delete(self, e):
        a, c = self.kids(e)
        self.types([a], 'single')
        if c.card not in ('multiple', 'ordered', None):
            raise Err("container")
        x, base = self.types([V(None, a.base, a.val), V(None, c.base, c.val)])
        if base == 'duration':
            raise Err("duration")
        if a.val is None or c.val is None:
            return V(c.card, base, None)
        return V(c.card, base, [x for x in c.val if x != a.val])

    def x_contains(self, e):
        a, c = vs = self.kids(e)
        card, base = self.types(vs)
        if card in ('single', 'record') or base == 'duration':
            raise Err("contains")
        if a.val is None or c.val is None:
            return self.b(None)
        if card == 'ordered':
            n = len(a.val)
            return self.b(any(c.val[i:i + n] == a.val for i in range(len(c.val) - n + 1)))
        return self.b(not Counter(a.val) - Counter(c.val))

    def strings(self, e):
        a, c = vs = self.kids(e)
        self.types(vs, 'single', 'string')
        if a.val is None or c.val is None:
            return None, None
        if e.attrs['caseSensitive'] in ('true', '1'):
            return a.val, c.val
        return a.val.lower(), c.val.lower()

    def x_substring(self, e):
        a, c = self.strings(e)
        return self.b(None if a is None else a in c)

    def x_stringMatch(self, e):
        a, c = self.strings(e)
        if a is None:
            return self.b(None)
        return self.b(a in c if e.attrs.get('substring') in ('true', '1') else a == c)

    def x_patternMatch(self, e):
        p = self.ref(e.attrs['pattern'], 'string')
        v, = vs = self.kids(e)
        self.types(vs, 'single', 'string')
        if v.val is None or p is None:
            return self.b(None)
        if p == '' or (p not in PATTERNS and re.search(r'[^\w ]', p)):
            raise Undecided("pattern")
        x = PATTERNS.get(p, p)
        if x is None:
            return self.b(None)
        return self.b(re.fullmatch(x, v.val) is not None)

    def x_not(self, e):
        v, = vs = self.kids(e)
        self.types(vs, 'single', 'boolean')
        return self.b(None if v.val is None else not v.val)

    def booleans(self, e):
        vs = self.kids(e)
        self.types(vs, 'single', 'boolean')
        return [v.val for v in vs]

    def x_and(self, e):
        vs = self.booleans(e)
        return self.b(False if False in vs else None if None in vs else True)

    def x_or(self, e):
        vs = self.booleans(e)
        return self.b(True if True in vs else None if None in vs else False)

    def x_anyN(self, e):
        lo = self.ref(e.attrs['min'], 'integer')
        hi = self.ref(e.attrs['max'], 'integer')
        vs = self.booleans(e)
        if lo is None or hi is None:
            return self.b(None)
        if lo > hi:
            # the rule for false doesn't mention this case
            raise Undecided("min > max")
        t = vs.count(True)
        n = vs.count(None)
        results = set(lo <= t + i <= hi for i in range(n + 1))
        return self.b(results.pop() if len(results) == 1 else None)

    def x_match(self, e):
        a, c = vs = self.kids(e)
        card, base = self.types(vs)
        if base == 'duration':
            raise Err("duration")
        if a.val is None or c.val is None:
            return self.b(None)
        if card == 'record':
            return self.b(self.record_match(a, c))
        return self.b(a.val == c.val)

    def record_match(self, a, c):
        for k in set(a.val) & set(c.val):
            x, y = a.val[k], c.val[k]
            if x.base != y.base or x.base == 'duration':
                raise Undecided("records of different types")
        return sorted(a.val) == sorted(c.val) and all(a.val[k].val == c.val[k].val for k in a.val)

    def floats(self, e, bases='numeric'):
        vs = self.kids(e)
        self.types(vs, 'single', bases)
        return [None if v.val is None else float(v.val) for v in vs]

    def x_equal(self, e):
        a, c = self.floats(e)
        if a is None or c is None:
            return self.b(None)
        mode = e.attrs['toleranceMode']
        if mode == 'exact':
            self.close(e, a, c)
            return self.b(a == c)
        ts = [self.ref(t, 'float') for t in e.attrs['tolerance'].split()]
        if None in ts:
            return self.b(None)
        t0, t1 = ts[0], ts[-1]
        F = Fraction
        a, c, t0, t1 = F(a), F(c), F(t0), F(t1)
        if t0 < 0 or t1 < 0:
            raise Undecided("tolerance")
        if mode == 'absolute':
            lo, hi = a - t0, a + t1
        else:
            if a < 0:
                raise Undecided("negative")
            lo, hi = a * (1 - t0 / 100), a * (1 + t1 / 100)
        for x in (lo, hi):
            if x != c and abs(x - c) <= abs(x) * F(1, 10 ** 12):
                raise Undecided("rounding errors")
            if x == c and mode == 'relative' and a:
                # exact in binary?
                if F(float(x)) != x or (1 - t0 / 100) != F(float(1 - t0 / 100)) or (1 + t1 / 100) != F(float(1 + t1 / 100)):
                    raise Undecided("rounding errors")
        il = e.attrs.get('includeLowerBound', 'true') in ('true', '1')
        iu = e.attrs.get('includeUpperBound', 'true') in ('true', '1')
        return self.b((lo <= c if il else lo < c) and (c <= hi if iu else c < hi))

    def x_equalRounded(self, e):
        a, c = self.floats(e)
        if a is None or c is None:
            return self.b(None)
        figs = self.ref(e.attrs['figures'], 'integer')
        if figs is None:
            return self.b(None)
        if figs > 15 or e.attrs['roundingMode'] == 'decimalPlaces' and max(abs(a), abs(c)) * 10.0 ** figs > 1e13:
            # more digits than numbers have
            raise Undecided("figures")
        return self.b(rounded(a, e.attrs['roundingMode'], figs) == rounded(c, e.attrs['roundingMode'], figs))

    def x_inside(self, e):
        v, = vs = self.kids(e)
        self.types(vs, None, 'point')
        if v.card == 'record':
            raise Err("record")
        if v.val is None:
            return self.b(None)
        coords = [int(x) for x in e.attrs.get('coords', '').split(',') if x]
        pts = [v.val] if v.card == 'single' else v.val
        results = [in_shape(e.attrs['shape'], coords, p) for p in pts]
        return self.b(any(results))

    def compare(self, e, f, bases='numeric'):
        a, c = self.floats(e, bases)
        self.close(e, a, c)
        return self.b(None if a is None or c is None else f(a, c))

    def close(self, e, a, c):
        """Calculated numbers may differ in the last bits"""
        if a is not None and c is not None and abs(a - c) <= 1e-9 * max(abs(a), abs(c)) and any(k.name not in ('baseValue', 'variable', 'default', 'correct') for k in e.kids):
            if a != int(a) or c != int(c) or abs(a) > 1e9:
                raise Undecided("close")

    def x_lt(self, e):
        return self.compare(e, lambda a, c: a < c)

    def x_gt(self, e):
        return self.compare(e, lambda a, c: a > c)

    def x_lte(self, e):
        return self.compare(e, lambda a, c: a <= c)

    def x_gte(self, e):
        return self.compare(e, lambda a, c: a >= c)

    def x_durationLT(self, e):
        return self.compare(e, lambda a, c: a < c, 'duration')

    def x_durationGTE(self, e):
        return self.compare(e, lambda a, c: a >= c, 'duration')

    def number(self, base, v):
        if base == 'integer':
            if not -2147483648 <= v <= 2147483647:
                raise Undecided("integer overflow")
            return V('single', base, v)
        v = float(v)
        if math.isinf(v) or math.isnan(v):
            raise Undecided("float overflow")
        return V('single', 'float', v)

    def arith(self, e, f):
        vs = self.kids(e)
        card, base = self.types(vs, 'single', 'numeric')
        if base is None:
            return V('single', None, None)
        if any(v.val is None for v in vs):
            if any(v.base is None for v in vs):
                # the type of the result is open
                return V('single', None, None)
            return V('single', base, None)
        return self.number(base, f([v.val for v in vs]))

    def x_sum(self, e):
        return self.arith(e, lambda vs: functools.reduce(lambda x, y: x + y, vs))

    def x_product(self, e):
        return self.arith(e, lambda vs: math.prod(vs))

    def x_subtract(self, e):
        return self.arith(e, lambda vs: vs[0] - vs[1])

    def x_divide(self, e):
        a, c = self.floats(e)
        if a is None or c is None or c == 0:
            return V('single', 'float', None)
        r = a / c
        return V('single', 'float', None if math.isinf(r) or math.isnan(r) else r)

    def x_power(self, e):
        a, c = self.floats(e)
        if a is None or c is None:
            return V('single', 'float', None)
        if a == 0 and c < 0 or a < 0 and c != int(c):
            return V('single', 'float', None)
        try:
            r = math.pow(a, c)
        except OverflowError:
            r = None
        return V('single', 'float', r)

    def ints(self, e):
        vs = self.kids(e)
        self.types(vs, 'single', 'integer')
        return [v.val for v in vs]

    def x_integerDivide(self, e):
        a, c = self.ints(e)
        if a is None or c is None or c == 0:
            return V('single', 'integer', None)
        return self.number('integer', math.floor(Fraction(a, c)))

    def x_integerModulus(self, e):
        a, c = self.ints(e)
        if a is None or c is None or c == 0:
            return V('single', 'integer', None)
        return self.number('integer', a - math.floor(Fraction(a, c)) * c)

    def x_truncate(self, e):
        a, = self.floats(e, 'float')
        return V('single', 'integer', None) if a is None else self.number('integer', math.trunc(a))

    def x_round(self, e):
        a, = self.floats(e, 'float')
        return V('single', 'integer', None) if a is None else self.number('integer', math.floor(Fraction(a) + Fraction(1, 2)))

    def x_integerToFloat(self, e):
        a, = self.ints(e)
        return V('single', 'float', None if a is None else float(a))


def item(body, declarations='', adaptive='false', after=''):
    return ('<?xml version="1.0" encoding="UTF-8"?><assessmentItem xmlns="%s" identifier="i" title="t" adaptive="%s" timeDependent="false">%s%s%s</assessmentItem>' %
            (NS, adaptive, declarations, body, after))


def read_item(text):
    import io
    from pyslet.qtiv2.xml import QTIDocument
    doc = QTIDocument()
    doc.read(src=io.BytesIO(text.encode('utf-8')))
    return doc
