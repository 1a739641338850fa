"""C01: character classes behave exactly as sets of characters.

Oracle: an arbitrary-precision integer used as a bit set over all 1114112
code points."""

import bisect
import copy
import re
import sys

from lib.harness import Workload
from lib import gen

META = dict(
    id="C01", title="Character classes behave exactly as sets of characters",
    statement="After any history of building a character class by adding, subtracting or negating characters, ranges, classes and Unicode categories or blocks, and of testing it in between, membership equals membership of the corresponding mathematical set of code points; equal sets compare equal however they were built; deriving a class from another leaves the source (including the shared category and block classes) unchanged; and the regular-expression rendering matches exactly the members.",
    quantifier=dict(over=["histories", "inputs"], text="every history of operations over every code point"),
    why_tests_cant="tests build a few classes and probe a few characters",
    anchors=dict(files=["pyslet/unicode5.py"],
                 mechanism=[dict(name="CharClass", where="pyslet/unicode5.py")],
                 observe_at=["CharClass.test/test_slow/__eq__/__str__/__repr__"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: bit-set model over all code points compared with every class after every operation"
LEVEL_NOTE = "Held on the histories observed; boundaries are probed after every operation, all 1114112 code points through the rendered expression."
RULE = "each case is one history over several live classes; non-trivial when at least one class is neither empty nor full"
MODULES = ["pyslet/unicode5.py"]
REQUIRE = {"op": 5000, "op:subclass": 100, "op:negate": 100, "scan.re": 200,
           "scan.test": 5}

N = sys.maxunicode + 1
ALPHA = ('^_`-]\\[abcdefgz\t\n\r\x07\x08\x0b\x0c\x00 |&~#.*+?{}()$!"'
         '\x1f\x7f\x80\xff\u0100\u01ff\u0200\ud7ff\ud800\udfff\ue000\uffff')
EDGES = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x1fe, 0x1ff, 0x200, 0xd7ff,
         0xd800, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x100ff,
         0x10100, 0x10fffe, 0x10ffff]
CATS = ['C', 'Cc', 'Cf', 'Cn', 'Co', 'Cs', 'L', 'Ll', 'Lm', 'Lo', 'Lt', 'Lu',
        'M', 'Mc', 'Me', 'Mn', 'N', 'Nd', 'Nl', 'No', 'P', 'Pc', 'Pd', 'Pe',
        'Pf', 'Pi', 'Po', 'Ps', 'S', 'Sc', 'Sk', 'Sm', 'So', 'Z', 'Zl', 'Zp',
        'Zs']
BLOCKS = ['Basic Latin', 'Latin-1 Supplement', 'Greek and Coptic', 'Cyrillic',
          'CJK Unified Ideographs', 'Private Use Area', 'Hangul Jamo',
          'Arrows', 'Specials', 'basic_latin', 'BASIC-LATIN']
_cache = {}


def everything():
    if 'all' not in _cache:
        _cache['all'] = ''.join(map(chr, range(N)))
    return _cache['all']


class ISet(object):
    """An immutable set of code points as its sorted list of toggles"""

    def __init__(self, t=()):
        self.t = tuple(t)

    def _merge(self, other, keep):
        out = []
        on = False
        for p in sorted(set(self.t) | set(other.t)):
            now = keep(bool(bisect.bisect_right(self.t, p) & 1),
                       bool(bisect.bisect_right(other.t, p) & 1))
            if now != on:
                out.append(p)
                on = now
        return ISet(out)

    def __or__(self, other):
        return self._merge(other, lambda x, y: x or y)

    def __sub__(self, other):
        return self._merge(other, lambda x, y: x and not y)

    def __and__(self, other):
        return self._merge(other, lambda x, y: x and y)

    def __contains__(self, p):
        return bool(bisect.bisect_right(self.t, p) & 1)

    def __eq__(self, other):
        return self.t == other.t

    def runs(self):
        return [(self.t[i], self.t[i + 1] - 1)
                for i in range(0, len(self.t), 2)]


FULL = ISet((0, N))
EMPTY = ISet()


def mask_range(a, z):
    return ISet((a, z + 1))


def runs(mask):
    return mask.runs()


def shared(name):
    """(class, mask) of a category or block; the mask is taken from the
    rendering of the freshly loaded class, before anything can modify it"""
    from pyslet.unicode5 import CharClass
    c = CharClass.ucd_category(name) if name in CATS else \
        CharClass.ucd_block(name)
    m = _cache.get(name)
    if m is None:
        t = []
        for f in re.compile('(?:%s)+' % c).finditer(everything()):
            t += f.span()
        m = _cache[name] = ISet(t)
    return c, m


def boundary_points(rng, mask):
    pts = set()
    rr = runs(mask)
    if len(rr) > 40:
        pts.update(rng.randrange(N) for _ in range(5))
        for a, z in rng.sample(rr, 10):
            pts.update((a - 1, a, z, z + 1, (a + z) // 2))
    else:
        for a, z in rr:
            pts.update((a - 1, a, z, z + 1, (a + z) // 2))
    pts.update(rng.choice(EDGES) for _ in range(6))
    pts.update(ord(gen.pick(rng, ALPHA)) for _ in range(6))
    return [p for p in pts if 0 <= p < N]


def probe(ctx, c, mask, pts, what):
    for p in pts:
        want = p in mask
        got = c.test(chr(p))
        slow = c.test_slow(chr(p))
        if bool(got) is not want or bool(slow) is not want:
            ctx.fail('membership', '%s: U+%04X test %r test_slow %r, '
                     'expected %r' % (what, p, got, slow, want))
    ctx.count('probe', len(pts))
    ctx.check(c.test(None) is False, 'membership-none', what)


def re_scan(ctx, c, mask, full):
    """the rendered expression matches exactly the members"""
    expr = str(c)
    ctx.count('scan.re')
    try:
        r = re.compile(expr)
    except re.error as e:
        ctx.fail('render-invalid', '%r: %s' % (expr[:200], e))
    if full:
        got = []
        for m in re.compile('(?:%s)+' % expr).finditer(everything()):
            got += m.span()
        got = ISet(got)
        if got != mask:
            p = ((got - mask) | (mask - got)).t[0]
            ctx.fail('render', '%r: U+%04X matched %r, expected %r' % (
                expr[:200], p, (p in got), (p in mask)))
        ctx.count('scan.full')
    else:
        for p in boundary_points(ctx.rng, mask):
            m = r.match(chr(p))
            if bool(m) != (p in mask):
                ctx.fail('render', '%r: U+%04X matched %r' % (
                    expr[:200], p, bool(m)))
    # used as one atom of a larger expression
    a = gen.pick(ctx.rng, ALPHA)
    b = gen.pick(ctx.rng, ALPHA)
    want = (ord(a) in mask) and (ord(b) in mask)
    got = re.compile('^(?:x' + expr + '{2}y)\\Z').match('x' + a + b + 'y')
    ctx.check(bool(got) is want, 'render-atom', '%r on %r' % (
        expr[:200], a + b))


def rebuild(ctx, mask):
    """the same set built differently"""
    from pyslet.unicode5 import CharClass
    rng = ctx.rng
    rr = runs(mask)
    parts = []
    for a, z in rr:
        if z > a and rng.random() < 0.5:
            m = rng.randint(a, z - 1)
            parts += [(a, m), (m + 1, z)]
        elif z > a and rng.random() < 0.5:
            m = rng.randint(a, z)
            parts += [(a, m), (max(a, m - 1), z)]
        else:
            parts.append((a, z))
    rng.shuffle(parts)
    c = CharClass()
    for a, z in parts:
        if a == z and rng.random() < 0.5:
            c.add_char(chr(a))
        elif rng.random() < 0.5:
            c.add_class(CharClass((chr(a), chr(z))))
        else:
            c.add_range(chr(z), chr(a))
    return c


def point(rng, pool):
    k = rng.random()
    if k < 0.6:
        return pool[rng.randrange(len(pool))]
    if k < 0.8:
        return rng.choice(EDGES)
    if k < 0.9:
        return ord(gen.pick(rng, ALPHA))
    return rng.randrange(N)


def hist(ctx):
    from pyslet.unicode5 import CharClass
    rng = ctx.rng
    base = gen.pick(rng, (0x20, 0x40, 0x5a, 0xf8, 0x1f8, 0xfff8, 0x10ff0,
                          N - 40))
    pool = [base + i for i in range(rng.choice((6, 14, 30)))]
    live = []
    log = []
    ctx.witness(log=log)

    def new():
        k = rng.randrange(6)
        if k == 0:
            s = ''.join(chr(point(rng, pool)) for _ in range(rng.randint(0, 6)))
            log.append(('new', s))
            m = EMPTY
            for ch in s:
                m |= mask_range(ord(ch), ord(ch))
            return CharClass(s), m
        if k == 1:
            a, z = point(rng, pool), point(rng, pool)
            t = gen.pick(rng, (tuple, list))((chr(a), chr(z)))
            log.append(('new', t))
            return CharClass(t), mask_range(min(a, z), max(a, z))
        if k == 2 and live:
            i = rng.randrange(len(live))
            log.append(('copy', i))
            return CharClass(live[i][0]), live[i][1]
        if k == 3:
            n = rng.choice(CATS + BLOCKS)
            log.append(('shared', n))
            c, m = shared(n)
            return CharClass(c), m
        if k == 4 and live:
            i, j = rng.randrange(len(live)), rng.randrange(len(live))
            log.append(('union', i, j))
            return CharClass(live[i][0], live[j][0]), live[i][1] | live[j][1]
        log.append('empty')
        return CharClass(), EMPTY

    for i in range(rng.randint(1, 3)):
        live.append(list(new()))
    nops = gen.pick(rng, (3, 8, 20, 40))
    for step in range(nops):
        i = rng.randrange(len(live))
        c, m = live[i]
        op = rng.randrange(13)
        ctx.count('op')
        if op <= 1:
            a = point(rng, pool)
            log.append((i, 'add_char', a))
            c.add_char(chr(a))
            m |= mask_range(a, a)
        elif op <= 3:
            a = point(rng, pool)
            log.append((i, 'subtract_char', a))
            c.subtract_char(chr(a))
            m -= mask_range(a, a)
        elif op <= 5:
            a, z = point(rng, pool), point(rng, pool)
            log.append((i, 'add_range', a, z))
            c.add_range(chr(a), chr(z))
            m |= mask_range(min(a, z), max(a, z))
        elif op <= 7:
            a, z = point(rng, pool), point(rng, pool)
            log.append((i, 'subtract_range', a, z))
            c.subtract_range(chr(a), chr(z))
            m -= mask_range(min(a, z), max(a, z))
        elif op <= 9:
            if rng.random() < 0.25:
                n = rng.choice(CATS + BLOCKS)
                o, om = shared(n)
            else:
                n = rng.randrange(len(live))
                o, om = live[n]
            if op == 8:
                log.append((i, 'add_class', n))
                c.add_class(o)
                m |= om
                ctx.count('op:addclass')
            else:
                log.append((i, 'subtract_class', n))
                c.subtract_class(o)
                m -= om
                ctx.count('op:subclass')
        elif op == 10:
            log.append((i, 'negate'))
            r = c.negate()
            ctx.check(r is c, 'negate-result', repr(r)[:100])
            m = FULL - m
            ctx.count('op:negate')
        elif op == 11 and len(live) < 5:
            live.append(list(new()))
            i = len(live) - 1
            c, m = live[i]
        else:
            # warm or use the caches of test()
            p = point(rng, pool)
            c.test(chr(p))
        live[i][1] = m
        if rng.random() < 0.5 or step == nops - 1:
            for j, (cc, mm) in enumerate(live):
                probe(ctx, cc, mm, boundary_points(rng, mm) if j == i else
                      [point(rng, pool) for _ in range(5)],
                      'class %d after %r' % (j, log[-1]))
    for j, (c, m) in enumerate(live):
        probe(ctx, c, m, pool + boundary_points(rng, m), 'class %d' % j)
        re_scan(ctx, c, m, rng.random() < 0.15)
        if len(runs(m)) < 60:
            other = rebuild(ctx, m)
            ctx.check(c == other and other == c, 'equality',
                      'equal sets compare unequal: %s, %s' % (
                          repr(c)[:300], repr(other)[:300]))
            ctx.check(str(c) == str(other), 'canonical-render')
            if rng.random() < 0.3:
                e = eval(repr(c), dict(CharClass=CharClass))
                ctx.check(e == c, 'repr-roundtrip', repr(c)[:300])
                dup = copy.deepcopy(c)
                ctx.check(dup == c, 'deepcopy')
            q = point(rng, pool)
            if q in m:
                other.subtract_char(chr(q))
            else:
                other.add_char(chr(q))
            ctx.check(not (c == other), 'inequality',
                      'classes differing in U+%04X compare equal' % q)
        if m.t and m != FULL:
            ctx.nontrivial(repr(m.t))
        if rng.random() < 0.004:
            ctx.count('scan.test')
            probe(ctx, c, m, range(N), 'full scan')
    for n in rng.sample(CATS + BLOCKS, 4):
        c, m = shared(n)
        probe(ctx, c, m, boundary_points(rng, m), 'shared ' + n)
    ctx.sample(log[:20])


def tables(ctx):
    """the category and block tables are what Unicode says they are"""
    import unicodedata
    from pyslet.unicode5 import CharClass
    rng = ctx.rng
    for n in CATS:
        c, m = shared(n)
        probe(ctx, c, m, boundary_points(rng, m), n)
    minors = [n for n in CATS if len(n) == 2]
    tot = EMPTY
    for n in minors:
        m = shared(n)[1]
        ctx.check(tot & m == EMPTY, 'categories-disjoint', n)
        tot |= m
    for major in 'CLMNPSZ':
        u = EMPTY
        for n in minors:
            if n[0] == major:
                u |= shared(n)[1]
        # Cn beyond the last assigned character is not in the table
        ctx.equal(shared(major)[1] == u, True, 'major-union', major)
    # stable properties of assigned characters
    for p in list(range(0x250)) + [rng.randrange(0x250, 0x10000)
                                   for _ in range(500)]:
        cat = unicodedata.category(chr(p))
        if cat == 'Cn' or p > 0x24f:
            continue
        has = [n for n in minors if p in shared(n)[1]]
        if p in (0xa7, 0xb6, 0xaa, 0xba):    # changed in Unicode 6.1
            continue
        ctx.equal(has, [cat], 'category', 'U+%04X' % p)
    ctx.equal(shared('Basic Latin')[1], mask_range(0, 127), 'block')
    ctx.equal(shared('basic_latin')[1], mask_range(0, 127), 'block')
    ctx.nontrivial(rng.random())
    ctx.raises(KeyError, lambda: CharClass.ucd_category('Qq'), 'bad-category')
    ctx.raises(ValueError, lambda: CharClass(5), 'bad-argument')


WORKLOADS = [
    Workload('hist', hist, 1500, 40000, cpu=60),
    Workload('tables', tables, 8, 40, cpu=60),
]
