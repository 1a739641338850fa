"""C19: XML schema datatypes and regular expressions.

Oracle: the lexical grammars of the datatypes with exact decimal
arithmetic, and an evaluator of regular expressions by definition on the
expression tree they were written from."""

import re
from decimal import Decimal, Context, ROUND_HALF_UP, ROUND_HALF_EVEN

from lib.harness import Workload
from lib import gen

META = dict(
    id="C19", title="XML schema datatypes and regular expressions are exact",
    statement="Decoding accepts exactly the lexical forms of boolean, integer, decimal, float, double, Name, duration and dateTime and returns the nearest value, refusing the rest with ValueError; encoding gives a canonical form that is the value rounded to the documented digits and decodes to it.  Enumerations decode each of their strings and aliases, singly, in lists and in dictionaries, and encode back.  White space is collapsed and replaced as defined.  A schema regular expression matches exactly the strings its definition says (the whole string, whichever branch), and an expression outside the grammar is refused.",
    quantifier=dict(over=["inputs"], text="all values, strings and expressions"),
    why_tests_cant="tests use fixed samples",
    anchors=dict(files=["pyslet/xml/xsdatatypes.py"],
                 mechanism=[dict(name="RegularExpressionParser", where="pyslet/xml/xsdatatypes.py"),
                            dict(name="decimal_to_str", where="pyslet/xml/xsdatatypes.py"),
                            dict(name="Enumeration", where="pyslet/xml/xsdatatypes.py")],
                 observe_at=["returned values"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated values, strings and expressions, each result compared online with the definition of the datatype"
LEVEL_NOTE = "Held on the values and expressions observed."
RULE = "each case is a batch of values; distinct by the values"
MODULES = ["pyslet/xml/xsdatatypes.py"]
REQUIRE = {"decoded": 10000, "refused": 4000, "encoded": 6000, "enumerations": 500, "expressions": 2500,
           "matched": 5000, "unmatched": 5000, "bad-expressions": 700}

RE_INT = re.compile(r'[+-]?[0-9]+\Z')
RE_DEC = re.compile(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)\Z')
RE_DBL = re.compile(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?\Z')
CTX = Context(prec=2000, Emax=99999, Emin=-99999)


def number(rng):
    """a string that looks like a number"""
    def digits(lo=1):
        return ''.join(gen.pick(rng, '0123456789') for i in range(rng.choice((lo, 1, 1, 2, 3, 8, 17, 30)) or lo))
    s = gen.pick(rng, ('', '', '+', '-'))
    r = rng.random()
    if r < 0.4:
        s += digits()
    elif r < 0.8:
        s += digits(0) + '.' + digits(0) if rng.random() < 0.7 else '.' + digits()
    else:
        s += gen.pick(rng, ('0', '000', '0.0', '0.000001', '1', '123456789012345678901234567890'))
    if rng.random() < 0.4:
        s += gen.pick(rng, 'eE') + gen.pick(rng, ('', '+', '-')) + str(rng.choice((0, 1, 5, 22, 37, 38, 45, 46, 300, 308, 309, 323, 324, 400, rng.randrange(400))))
    if rng.random() < 0.25:
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.6:
            s = s[:i] + gen.pick(rng, ' .+-eE_,x\n\u0661\u00b2١') + s[i:]
        else:
            s = s[:i] + s[i + 1:]
    return s


def case_decode(ctx):
    rng = ctx.rng
    import pyslet.xml.xsdatatypes as xsi
    for i in range(150):
        s = number(rng)
        ctx.witness(src=s)

        def decode(name, ok, want):
            fn = getattr(xsi, name)
            try:
                got = fn(s)
            except ValueError:
                got = ValueError
            if ok:
                ctx.count("decoded")
                ctx.check(got is not ValueError, "refused:" + name, "%s refuses %r" % (name, s))
                ctx.equal(got, want, "value:" + name, "%s(%r) is" % (name, s))
                ctx.check(type(got) is type(want), "type:" + name, "%s(%r) is a %s" % (name, s, type(got).__name__))
            else:
                ctx.count("refused")
                ctx.check(got is ValueError, "accepted:" + name, "%s(%r) is not refused, it gives %r" % (name, s, got))
        ok = bool(RE_INT.match(s))
        decode("integer_from_str", ok, int(s) if ok else None)
        ok = bool(RE_DEC.match(s))
        decode("decimal_from_str", ok, float(s) if ok else None)
        ok = bool(RE_DBL.match(s))
        v = float(s) if ok else None
        decode("double_from_str", ok, v)
        if ok:
            # values beyond single precision have no value of their own
            if abs(v) >= 2.0 ** 128:
                v = v * float('inf')
            elif abs(v) <= 2.0 ** -149:
                v = v * 0.0
        decode("float_from_str", ok, v)
    for s, v in (('INF', float('inf')), ('-INF', float('-inf'))):
        ctx.equal(xsi.double_from_str(s), v, "inf", "double_from_str(%r) is" % s)
        ctx.equal(xsi.float_from_str(s), v, "inf", "float_from_str(%r) is" % s)
    for f in (xsi.double_from_str, xsi.float_from_str):
        v = f('NaN')
        ctx.check(v != v, "nan", "%s('NaN') is %r" % (f.__name__, v))
    ctx.check(xsi.boolean_from_str(None) is None, "boolean", "boolean_from_str(None) is not None")
    for s in ('true', 'false', '1', '0', 'True', '', 'yes', '00', ' true', 'FALSE', '2', gen.text(rng, 6)):
        want = {'true': True, '1': True, 'false': False, '0': False}.get(s, ValueError)
        try:
            got = xsi.boolean_from_str(s)
        except ValueError:
            got = ValueError
        ctx.check(got is want, "boolean", "boolean_from_str(%r) gives %r" % (s, got))
    for i in range(10):
        s = gen.text(rng, 6, 'aZ_:.-09 é\u00b7!')
        ok = bool(s) and (s[0].isalpha() or s[0] in '_:') and ' ' not in s and '!' not in s
        try:
            ctx.equal(xsi.name_from_str(s), s, "name", "name_from_str gives")
            got = True
        except ValueError:
            got = False
        ctx.equal(got, ok, "name", "name_from_str(%r) accepts:" % s)
        ctx.equal(xsi.name_to_str(s), s, "name", "name_to_str gives")
    ctx.nontrivial("decode:%s" % s)


def some_float(rng):
    r = rng.random()
    if r < 0.25:
        v = rng.uniform(-10, 10)
    elif r < 0.45:
        v = rng.choice((1, 2.5, 5, 9.5, 99.5, 0.5, 0.05, 0.25, 0.125, 12.345, 999.9995, 0.9999999999999999, 99999999999999.95, 1e15, 9.99999999999999e22, 0.1, 0.3)) * rng.choice((1, 10, 0.1, -1))
    elif r < 0.7:
        v = rng.uniform(1, 10) * 10.0 ** rng.randrange(-20, 20)
    elif r < 0.8:
        v = float(rng.randrange(-10 ** rng.randrange(1, 18), 10 ** 17))
    elif r < 0.9:
        v = rng.choice((5e-324, 1e-320, 2.2250738585072014e-308, 1.7976931348623157e308, 1e-310, 1e300, 3.4e38, 1.5e-45, 1e-45))
    elif r < 0.95:
        v = rng.uniform(1, 10) * 10.0 ** rng.randrange(-307, 307)
    else:
        v = rng.choice((0.0, -0.0, 0, 1, -7, 10 ** 15))
    return v if rng.random() < 0.7 else -v


def near(got, v, unit):
    """got is v rounded to a multiple of unit (with a little room for
    the arithmetic of floats at the half way point)"""
    d = abs(CTX.subtract(Decimal(got), Decimal(v)))
    return d <= CTX.multiply(unit, Decimal('0.5')) + CTX.multiply(abs(Decimal(v)), Decimal('4e-16'))


def case_encode(ctx):
    rng = ctx.rng
    import pyslet.xml.xsdatatypes as xsi
    for i in range(120):
        v = some_float(rng)
        ctx.count("encoded")
        ctx.witness(value=repr(v))
        s = xsi.double_to_str(v)
        ctx.check(re.match(r'-?[1-9]\.([0-9]*[1-9]|0)E(0|-?[1-9][0-9]*)\Z|-?0\.0E0\Z', s) is not None, "double-canonical", "double_to_str(%r) is %r" % (v, s))
        e = Decimal(v).adjusted() if v else 0
        ctx.check(near(s, v, Decimal(1).scaleb(e - 13, CTX)) and (not v or float(s) != 0 or abs(v) < 1e-322), "double-value", "double_to_str(%r) is %r" % (v, s))
        sign = s.startswith('-')
        ctx.check(not v or sign == (v < 0), "double-sign", "double_to_str(%r) is %r" % (v, s))
        f = xsi.float_to_str(v)
        if abs(v) >= 2.0 ** 128:
            ctx.equal(f, '-INF' if v < 0 else 'INF', "float-big", "float_to_str(%r) is" % v)
        elif abs(v) <= 2.0 ** -149:
            ctx.equal(f, '0.0E0', "float-small", "float_to_str(%r) is" % v)
        else:
            ctx.check(near(f, v, Decimal(1).scaleb(e - 13, CTX)), "float-value", "float_to_str(%r) is %r" % (v, f))
        s = xsi.decimal_to_str(v)
        ctx.check(re.match(r'-?(0|[1-9][0-9]*)\.([0-9]*[1-9]|0)\Z', s) is not None, "decimal-canonical", "decimal_to_str(%r) is %r" % (v, s))
        unit = Decimal(1).scaleb(e - 13, CTX)
        ctx.check(near(s, v, unit), "decimal-value", "decimal_to_str(%r) is %r" % (v, s))
        # given digits
        n = rng.choice((1, 1, 2, 3, 5, 8, 12, 20))
        strip = rng.random() < 0.5
        s = xsi.decimal_to_str(v, n, strip)
        ctx.witness(value=repr(v), digits=n, strip=strip)
        m = re.match(r'-?(0|[1-9][0-9]*)\.([0-9]+)\Z', s)
        ctx.check(m is not None, "decimal-digits", "decimal_to_str(%r, %d) is %r" % (v, n, s))
        ctx.check(len(m.group(2)) <= n and (strip or len(m.group(2)) == n), "decimal-digits", "decimal_to_str(%r, %d, %r) is %r" % (v, n, strip, s))
        ctx.check(not strip or len(m.group(2)) == 1 or m.group(2)[-1] != '0', "decimal-zeros", "decimal_to_str(%r, %d, %r) is %r" % (v, n, strip, s))
        ctx.check(near(s, v, max(unit, Decimal(1).scaleb(-n, CTX))), "decimal-digits-value", "decimal_to_str(%r, %d) is %r" % (v, n, s))
        s = xsi.double_to_str(v, n, strip)
        m = re.match(r'-?([0-9])\.([0-9]+)E(0|-?[1-9][0-9]*)\Z', s)
        ctx.check(m is not None, "double-digits", "double_to_str(%r, %d) is %r" % (v, n, s))
        ctx.check(len(m.group(2)) <= n and (strip or len(m.group(2)) == n), "double-digits", "double_to_str(%r, %d, %r) is %r" % (v, n, strip, s))
        ctx.check(m.group(1) != '0' or v == 0, "double-digits", "double_to_str(%r, %d) is %r" % (v, n, s))
        ctx.check(near(s, v, Decimal(1).scaleb(e - min(n, 13), CTX)), "double-digits-value", "double_to_str(%r, %d) is %r" % (v, n, s))
        s = xsi.double_to_str(v, 0)
        m = re.match(r'-?[0-9]E(0|-?[1-9][0-9]*)\Z', s)
        ctx.check(m is not None and near(s, v, Decimal(1).scaleb(e, CTX)), "double-no-digits", "double_to_str(%r, 0) is %r" % (v, s))
        k = rng.randrange(-10 ** rng.randrange(1, 30), 10 ** 30)
        ctx.equal(xsi.integer_to_str(k), '%d' % k, "integer", "integer_to_str gives")
        ctx.nontrivial("encode:%r:%d" % (v, n))
    for v in (float('nan'), float('inf'), float('-inf')):
        want = 'NaN' if v != v else ('INF' if v > 0 else '-INF')
        ctx.equal(xsi.double_to_str(v), want, "special", "double_to_str gives")
        ctx.equal(xsi.float_to_str(v), want, "special", "float_to_str gives")
        ctx.raises(ValueError, lambda: xsi.decimal_to_str(v), "special", "decimal_to_str(%r)" % v)
        ctx.raises(ValueError, lambda: xsi.decimal_to_str(v, 2), "special", "decimal_to_str(%r, 2)" % v)
    for v in (True, False, 0, 1, [], 'x', ''):
        ctx.equal(xsi.boolean_to_str(v), 'true' if v else 'false', "boolean", "boolean_to_str(%r) is" % v)
    ctx.raises(ValueError, lambda: xsi.boolean_to_str(None), "boolean", "boolean_to_str(None)")


def case_others(ctx):
    """durations, enumerations, white space"""
    rng = ctx.rng
    import pyslet.xml.xsdatatypes as xsi
    import pyslet.iso8601 as iso
    import logging
    logging.disable(logging.CRITICAL)
    for i in range(30):
        parts = [rng.choice((0, 1, 12, 400)) for k in range(6)]
        s = 'P%dY%dM%dDT%dH%dM%dS' % tuple(parts)
        neg = rng.random() < 0.5
        src = ('-' if neg else '') + s
        ctx.witness(duration=src)
        d = xsi.Duration(src)
        ctx.equal(d.sign, -1 if neg else 1, "duration-sign", "sign of %s" % src)
        ctx.equal(list(d.get_calender_duration()), parts, "duration", "parts of %s" % src)
        ctx.equal(str(d), src, "duration-str", "duration written")
        c = xsi.Duration(d)
        ctx.equal((c.sign, str(c)), (d.sign, src), "duration-copy", "copy of the duration")
        ctx.check(c == d and not c != d, "duration-eq", "a copy of %s is not equal to it" % src)
        o = xsi.Duration(src[1:] if neg else '-' + src)
        ctx.check(not o == d and o != d, "duration-neg", "%s is equal to its opposite" % src)
        p = xsi.Duration(iso.Duration(s))
        ctx.equal(str(p), s, "duration-iso", "duration from an ISO duration")
        bad = src + gen.pick(rng, ('x', ' ', 'S', '1', '-'))
        if rng.random() < 0.4:
            bad = gen.pick(rng, ('', '-', 'P', '-P', '--P1Y', '+P1Y', 'PT', '1Y', 'P-1Y', ' P1Y', 'P1S', 'P1YT'))
        ctx.witness(duration=bad)
        try:
            xsi.Duration(bad)
            ctx.fail("duration-accepted", "the duration %r is accepted" % bad)
        except (iso.DateTimeError, ValueError):
            pass
        y, mo, da, h, mi, se = rng.randrange(1, 9999), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)
        s = '%04d-%02d-%02dT%02d:%02d:%02d' % (y, mo, da, h, mi, se) + gen.pick(rng, ('', 'Z', '+01:00', '-05:30'))
        ctx.witness(date=s)
        t = xsi.datetime_from_str(s)
        ctx.equal(xsi.datetime_to_str(t), s, "datetime", "the dateTime written")
        bad = gen.pick(rng, (s + 'x', s[1:], s.replace('T', ' '), s[:4] + '-13-01T00:00:00', '', s[:10] + 'T25:00:00'))
        if bad != s:
            try:
                xsi.datetime_from_str(bad)
                ctx.fail("datetime-accepted", "the dateTime %r is accepted" % bad)
            except ValueError:
                pass
    for i in range(20):
        s = gen.text(rng, 12, ' \t\n\rab\u00a0')
        ctx.witness(text=s)
        want = re.sub('[\t\n\r ]+', ' ', s).strip(' ')
        ctx.equal(xsi.white_space_collapse(s), want, "collapse", "white_space_collapse(%r) is" % s)
        ctx.equal(xsi.white_space_replace(s), re.sub('[\t\n\r]', ' ', s), "replace", "white_space_replace(%r) is" % s)
    for i in range(8):
        enumeration(ctx, xsi)


def enumeration(ctx, xsi):
    rng = ctx.rng
    ctx.count("enumerations")
    names = rng.sample(('Apple', 'pear', 'Orange', 'BANANA', 'x-y', 'a.b', 'Fig', 'Kiwi2'), rng.randrange(1, 7))
    values = rng.sample(range(0, 50), len(names))
    decode = dict(zip(names, values))
    nocase = rng.random() < 0.4
    aliases = {}
    for a in rng.sample(('Zed', 'other', 'apple', 'PEAR', 'Fig2'), rng.randrange(4)):
        if a not in decode:
            aliases[a] = gen.pick(rng, names)
    default = None
    if rng.random() < 0.5:
        default = gen.pick(rng, names)
        aliases[None] = default
    known = dict(decode)
    for a, n in aliases.items():
        if a is not None:
            known[a] = decode[n]
    if nocase:
        for n in names:
            known.setdefault(n.lower(), decode[n])
            if n.lower() not in aliases and n.lower() not in decode:
                known[n.lower()] = decode[n]
    ctx.witness(decode=decode, aliases=repr(aliases), nocase=nocase)
    members = {'decode': dict(decode)}
    if aliases or rng.random() < 0.5:
        members['aliases'] = dict(aliases)
    base = xsi.EnumerationNoCase if nocase else xsi.Enumeration
    E = type(base)('E', (base,), members)
    ctx.equal(E.DEFAULT, decode[default] if default else None, "enum-default", "DEFAULT is")
    for n in known:
        ctx.equal(getattr(E, n), known[n], "enum-attr", "the attribute %s is" % n)
    for n in names:
        ctx.equal(E.to_str(decode[n]), n, "enum-to-str", "to_str gives")
    ctx.equal(E.to_str(None), default, "enum-none", "to_str(None) gives")
    for mode, fold in (('from_str', lambda s: s), ('from_str_lower', str.lower), ('from_str_upper', str.upper),
                       ('from_str_title', lambda s: s[:1].upper() + s[1:].lower())):
        fn = getattr(E, mode)
        for k in range(4):
            s = gen.pick(rng, list(known) + ['nope', '', 'Apple', 'APPLE'])
            s = gen.pick(rng, (s, s.upper(), s.lower(), s.title(), ' ' + s, s + '\n'))
            want = known.get(fold(s.strip()), ValueError)
            try:
                got = fn(s)
            except ValueError:
                got = ValueError
            ctx.equal(got, want, "enum-" + mode, "%s(%r) is" % (mode, s))
        toks = [gen.pick(rng, list(known)) for k in range(rng.randrange(6))]
        toks = [gen.pick(rng, (t, t, t.upper(), t.lower())) for t in toks]
        src = gen.pick(rng, (' ', '  ', '\n')).join(toks)
        want = []
        for t in toks:
            v = known.get(fold(t), ValueError)
            want.append(v)
        if ValueError in want:
            ctx.raises(ValueError, lambda: E.list_from_str(fn, src), "enum-list-bad", "list_from_str(%r)" % src)
            ctx.raises(ValueError, lambda: E.dict_from_str(fn, src), "enum-dict-bad", "dict_from_str(%r)" % src)
        else:
            ctx.equal(E.list_from_str(fn, src), want, "enum-list", "list_from_str(%r) is" % src)
            first = {}
            for t, v in zip(toks, want):
                first.setdefault(v, t)
            ctx.equal(E.dict_from_str(fn, src), first, "enum-dict", "dict_from_str(%r) is" % src)
            back = {v: n for n, v in decode.items()}
            ctx.equal(E.list_to_str(want), ' '.join(back[v] for v in want), "enum-list-str", "list_to_str gives")
            ctx.equal(E.dict_to_str(first), ' '.join(back[v] for v in sorted(first)), "enum-dict-str", "dict_to_str gives")
            ctx.equal(sorted(E.dict_to_str(first, sort_keys=False).split()), sorted(back[v] for v in first), "enum-dict-str", "unsorted dict_to_str gives")
    ctx.nontrivial("enum:%r" % sorted(known.items()))


# -- regular expressions.  A tree is ('char', c), ('set', predicate),
# ('alt', [..]), ('cat', [..]), ('rep', tree, lo, hi)

POOL = 'abcABC019 -_.:^$|?*+{}()[]\\\n\r\t\u00e9\u00c9\u03b1\u0391\u0661\u4e00\u2028\u00a2,#&~'
NORMAL = 'abcABC019 -_:^$\u00e9\u03b1\u4e00,#&~'
ESC = {'n': '\n', 'r': '\r', 't': '\t'}
for _c in '\\|.-^?*+{}()[]':
    ESC[_c] = _c


def cat(c):
    import unicodedata
    return unicodedata.category(c)


def prop(rng):
    r = rng.random()
    if r < 0.75:
        p = gen.pick(rng, ('L', 'Lu', 'Ll', 'Lo', 'N', 'Nd', 'P', 'Pd', 'Ps', 'Pe', 'Po', 'Pc', 'Z', 'Zs', 'Zl', 'S', 'Sm', 'Sc', 'C', 'Cc', 'M', 'Lt'))
        return p, lambda c: cat(c).startswith(p)
    b, lo, hi = gen.pick(rng, (('BasicLatin', 0, 0x7f), ('Latin-1Supplement', 0x80, 0xff), ('CJKUnifiedIdeographs', 0x4e00, 0x9fff), ('Arabic', 0x600, 0x6ff)))
    return 'Is' + b, lambda c: lo <= ord(c) <= hi


def initial(c):
    return c.isalpha() or c in '_:'


MULTI = {'s': lambda c: c in ' \t\n\r', 'i': initial,
         'c': lambda c: c.isalpha() or c in '_:.-' or cat(c) == 'Nd',
         'd': lambda c: cat(c) == 'Nd',
         'w': lambda c: cat(c)[0] not in 'PZC'}


def class_esc(rng):
    """(text, predicate) of a charClassEsc other than a single character"""
    r = rng.random()
    if r < 0.5:
        k = gen.pick(rng, 'sicdw')
        f = MULTI[k]
        if rng.random() < 0.4:
            return '\\' + k.upper(), lambda c: not f(c)
        return '\\' + k, f
    p, f = prop(rng)
    if rng.random() < 0.4:
        return '\\P{%s}' % p, lambda c: not f(c)
    return '\\p{%s}' % p, f


def group(rng, depth=0):
    """a character class expression"""
    neg = rng.random() < 0.3
    parts = []
    preds = []
    n = rng.randrange(1, 4)
    for i in range(n):
        r = rng.random()
        if r < 0.4:
            lo, hi = sorted((gen.pick(rng, 'abcABC019'), gen.pick(rng, 'abczZ09\u03b1')))

            def esc(c):
                return c
            parts.append(lo + '-' + hi)
            preds.append(lambda c, lo=lo, hi=hi: lo <= c <= hi)
        elif r < 0.6:
            c0 = gen.pick(rng, 'abc019 _:$.?*+(){}|,#&~\u00e9\u0661')
            parts.append(c0)
            preds.append(lambda c, c0=c0: c == c0)
        elif r < 0.75:
            k = gen.pick(rng, sorted(ESC))
            parts.append('\\' + k)
            preds.append(lambda c, k=k: c == ESC[k])
        elif r < 0.82:
            # a range between escapes
            a, b = sorted((gen.pick(rng, '\\-^[]()*+'), gen.pick(rng, '\\-^[]{|}')))
            parts.append('\\%s-\\%s' % (a, b))
            preds.append(lambda c, lo=a, hi=b: lo <= c <= hi)
        else:
            t, f = class_esc(rng)
            parts.append(t)
            preds.append(f)
    if parts[0] != '-' and rng.random() < 0.1:
        parts.append('-')
        preds.append(lambda c: c == '-')
    elif rng.random() < 0.1:
        parts.insert(0, '-')
        preds.insert(0, lambda c: c == '-')
    if not neg and parts[0].startswith('^'):
        parts[0] = '\\' + parts[0]
    s = ''.join(parts)

    def base(c):
        return any(p(c) for p in preds) != neg
    f = base
    if depth < 2 and rng.random() < 0.2 and not s.endswith('-'):
        t, g = group(rng, depth + 1)
        s += '-' + t

        def f(c):
            return base(c) and not g(c)
    return '[%s%s]' % ('^' if neg else '', s), f


def expr(rng, depth=0):
    """(text, tree)"""
    n = rng.choice((1, 1, 1, 2, 3))
    bs = [branch(rng, depth) for i in range(n)]
    return '|'.join(b[0] for b in bs), ('alt', [b[1] for b in bs])


def branch(rng, depth):
    ps = [piece(rng, depth) for i in range(rng.choice((0, 1, 1, 2, 2, 3)))]
    return ''.join(p[0] for p in ps), ('cat', [p[1] for p in ps])


def piece(rng, depth):
    r = rng.random()
    if r < 0.35:
        c = gen.pick(rng, NORMAL)
        s, t = c, ('char', c)
    elif r < 0.45:
        k = gen.pick(rng, sorted(ESC))
        s, t = '\\' + k, ('char', ESC[k])
    elif r < 0.55:
        s, t = '.', ('set', lambda c: c not in '\n\r')
    elif r < 0.65:
        s, f = class_esc(rng)
        t = ('set', f)
    elif r < 0.8 or depth > 2:
        s, f = group(rng)
        t = ('set', f)
    else:
        s, t = expr(rng, depth + 1)
        s = '(%s)' % s
    if rng.random() < (0.35, 0.2, 0, 0, 0)[depth]:
        q, lo, hi = gen.pick(rng, (('?', 0, 1), ('*', 0, None), ('+', 1, None), ('{2}', 2, 2), ('{0}', 0, 0), ('{1}', 1, 1), ('{0,}', 0, None),
                                   ('{1,}', 1, None), ('{2,}', 2, None), ('{0,0}', 0, 0), ('{0,1}', 0, 1), ('{0,2}', 0, 2), ('{1,1}', 1, 1),
                                   ('{1,3}', 1, 3), ('{2,3}', 2, 3), ('{02}', 2, 2)))
        s += q
        t = ('rep', t, lo, hi)
    return s, t


def ends(t, s, i, memo):
    key = (id(t), i)
    if key in memo:
        return memo[key]
    k = t[0]
    if k == 'char':
        out = {i + 1} if i < len(s) and s[i] == t[1] else set()
    elif k == 'set':
        out = {i + 1} if i < len(s) and t[1](s[i]) else set()
    elif k == 'alt':
        out = set()
        for x in t[1]:
            out |= ends(x, s, i, memo)
    elif k == 'cat':
        out = {i}
        for x in t[1]:
            nxt = set()
            for j in out:
                nxt |= ends(x, s, j, memo)
            out = nxt
    else:
        lo, hi = t[2], t[3]
        at = {i}
        for n in range(lo):
            nxt = set()
            for j in at:
                nxt |= ends(t[1], s, j, memo)
            at = nxt
        out = set(at)
        n = lo
        while at and (hi is None or n < hi):
            nxt = set()
            for j in at:
                nxt |= ends(t[1], s, j, memo)
            at = nxt - out
            out |= nxt
            n += 1
    memo[key] = out
    return out


def sample(rng, t):
    k = t[0]
    if k == 'char':
        return t[1]
    if k == 'set':
        for i in range(30):
            c = gen.pick(rng, POOL)
            if t[1](c):
                return c
        return 'a'
    if k == 'alt':
        return sample(rng, gen.pick(rng, t[1]))
    if k == 'cat':
        return ''.join(sample(rng, x) for x in t[1])
    lo, hi = t[2], t[3]
    n = rng.randint(lo, lo + 2 if hi is None else hi)
    return ''.join(sample(rng, t[1]) for i in range(n))


def case_regex(ctx):
    rng = ctx.rng
    import pyslet.xml.xsdatatypes as xsi
    for i in range(30):
        s, t = expr(rng)
        ctx.count("expressions")
        ctx.witness(expression=s)
        try:
            r = xsi.RegularExpression(s)
        except xsi.RegularExpressionError as e:
            ctx.fail("regex-refused", "the expression %r is refused: %s" % (s, e))
        ctx.equal(str(r), s, "regex-src", "the source of the expression is")
        for j in range(8):
            x = sample(rng, t)[:7]
            for k in range(rng.choice((0, 0, 1, 2))):
                q = rng.random()
                p = rng.randrange(len(x) + 1)
                if q < 0.4:
                    x = x[:p] + gen.pick(rng, POOL) + x[p:]
                elif q < 0.7:
                    x = x[:p] + x[p + 1:]
                elif x:
                    x = x[:p] + gen.pick(rng, POOL) + x[p + 1:]
            want = len(x) in ends(t, x, 0, {})
            ctx.count("matched" if want else "unmatched")
            ctx.witness(expression=s, target=x)
            ctx.equal(bool(r.match(x)), want, "regex-match", "the expression %r matches %r:" % (s, x))
            if s and x:
                # an element of a set of all single characters
                pass
        ctx.nontrivial("re:%s" % s)
        bad = None
        q = rng.random()
        if q < 0.3:
            bad = gen.pick(rng, ('a**', 'a{2', 'a{2,1}', '[z-a]', '[a', '(a', 'a)', ')', '*', '+a', '?', '{2}', 'a|*', '[', '[]', '[^]', ']', '}', '\\',
                                 '\\q', '\\p{Xx}', '\\p{L', '\\p{IsNowhere}', '\\pL', 'a{,2}', 'a{x}', '[a-z-[b]', '(?:a)', 'a??', 'a{1}{2}', '[a]]', '\\p{Lx}', '\\p{}', '[\\q]', '\\p', '[a-', '[\\d-z', 'x{', '(a|b', 'a\\', '((a)', '\\p{Is', '(a))'))
        elif q < 0.45:
            bad = s + gen.pick(rng, (')', '(', '[', '\\', ']', '}', '|*', '(*)', '[a-b', '\\z'))
        if bad is not None:
            ctx.count("bad-expressions")
            ctx.witness(expression=bad)
            ctx.raises(xsi.RegularExpressionError, lambda: xsi.RegularExpression(bad), "regex-accepted", "the expression %r" % bad)


WORKLOADS = [
    Workload("decode", case_decode, 40, 600),
    Workload("encode", case_encode, 80, 1200),
    Workload("others", case_others, 90, 1000),
    Workload("regex", case_regex, 110, 1600),
]
