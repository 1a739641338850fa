"""C03: ISO 8601 strings round-trip in every format and precision.

Oracle: the strings are also built here, independently, from the components
(so formatting is compared with the standard's layout and not only with the
parser); values parsed back must equal the value formatted; strings outside
a grammar written from the standard must be refused."""

import datetime
import re
from fractions import Fraction

from lib.harness import Workload
from lib import gen

META = dict(
    id="C03", title="ISO 8601 strings round-trip in every format and precision",
    statement="Every date, time, time point and duration formatted in any supported representation (calendar, ordinal or week, basic or extended, truncated, reduced precision, decimal fractions, zones) is the string ISO 8601 prescribes and parses back to an equal value together with the name of its format; strings that are malformed, incomplete, out of range or followed by something else raise DateTimeError or ValueError and nothing else.",
    quantifier=dict(over=["inputs"], text="every value in every format; every mutation of a valid string"),
    why_tests_cant="tests list fixed strings for each format",
    anchors=dict(files=["pyslet/iso8601.py"],
                 mechanism=[dict(name="ISO8601Parser", where="pyslet/iso8601.py"),
                            dict(name="get_string/get_calendar_string/...", where="pyslet/iso8601.py")],
                 observe_at=["from_str/from_string_format and get_*_string of Date, Time, TimePoint, Duration"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: round-trip and independent-formatter oracles over generated values; grammar oracle over mutated strings"
LEVEL_NOTE = "Held on the values and strings observed."
RULE = "each case is a handful of values in random formats or one mutated string; distinct by the strings used"
MODULES = ["pyslet/iso8601.py"]
REQUIRE = {"date": 3000, "time": 3000, "timepoint": 3000, "duration": 2000,
           "bad": 5000, "accepted": 500}


def rdate(rng):
    k = rng.random()
    if k < 0.3:
        y = rng.choice((1000, 1900, 1999, 2000, 2004, 2008, 2009, 2016, 9))
        return datetime.date(y, rng.choice((1, 12)), rng.choice(
            (1, 2, 3, 4, 28, 29, 30, 31)))
    return datetime.date.fromordinal(rng.randint(400, 3652059 - 400))


def date_forms(d):
    """(method, basic, truncation name, string, format)"""
    c, y2 = d.year // 100, d.year % 100
    o = d.timetuple()[7]
    wy, w, wd = d.isocalendar()
    wc, wdec, w1 = wy // 100, wy % 100 // 10, wy % 10
    out = []
    for basic in (True, False):
        h = '' if basic else '-'
        out += [
            ('calendar', basic, 'No', '%04d%s%02d%s%02d' % (
                d.year, h, d.month, h, d.day), 'YYYY%sMM%sDD' % (h, h)),
            ('calendar', basic, 'Century', '%02d%s%02d%s%02d' % (
                y2, h, d.month, h, d.day), 'YY%sMM%sDD' % (h, h)),
            ('calendar', basic, 'Year', '--%02d%s%02d' % (
                d.month, h, d.day), '--MM%sDD' % h),
            ('calendar', basic, 'Month', '---%02d' % d.day, '---DD'),
            ('ordinal', basic, 'No', '%04d%s%03d' % (d.year, h, o),
             'YYYY%sDDD' % h),
            ('ordinal', basic, 'Century', '%02d%s%03d' % (y2, h, o),
             'YY%sDDD' % h),
            ('ordinal', basic, 'Year', '-%03d' % o, '-DDD'),
            ('week', basic, 'No', '%04d%sW%02d%s%d' % (wy, h, w, h, wd),
             'YYYY%sWww%sD' % (h, h)),
            ('week', basic, 'Century', '%d%d%sW%02d%s%d' % (
                wdec, w1, h, w, h, wd), 'YY%sWww%sD' % (h, h)),
            ('week', basic, 'Decade', '-%d%sW%02d%s%d' % (w1, h, w, h, wd),
             '-Y%sWww%sD' % (h, h)),
            ('week', basic, 'Year', '-W%02d%s%d' % (w, h, wd),
             '-Www%sD' % h),
            ('week', basic, 'Week', '-W-%d' % wd, '-W-D'),
        ]
    # the format reported has one w per digit of the week
    return [x[:4] + (x[4].replace('Www', 'Www'),) for x in out]


def dates(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    d = rdate(rng)
    D = iso.Date(century=d.year // 100, year=d.year % 100, month=d.month,
                 day=d.day)
    for meth, basic, tr, s, fmt in date_forms(d):
        got = getattr(D, 'get_%s_string' % meth)(
            basic, getattr(iso.Truncation, tr))
        ctx.equal(got, s, 'date-format', '%s %s basic=%s trunc=%s' % (
            d, meth, basic, tr))
        # truncated forms are completed from a base shortly before
        back = datetime.date.fromordinal(d.toordinal() - rng.choice(
            (0, 0, 1, 3)))
        B = iso.Date(absolute_day=back.toordinal())
        if tr == 'No' and rng.random() < 0.5:
            B = None
        if tr != 'No' and (d.month, d.day) in ((2, 29), (3, 1)) or \
                tr != 'No' and (d.day > 28 or d.day < 5):
            back = d
            B = iso.Date(D)
        P, f = iso.Date.from_string_format(s, B)
        ctx.check(P == D and P.get_calendar_day() == D.get_calendar_day(),
                  'date-parse', '%r (base %s): %r, expected %s' % (
                      s, B, P, d))
        ctx.equal(f, fmt, 'date-format-name', s)
        ctx.check(iso.Date.from_str(s, B) == D, 'date-parse', s)
        ctx.count('date')
    ctx.equal(str(D), '%04d-%02d-%02d' % (d.year, d.month, d.day), 'date-str')
    # reduced precision
    c, y2 = d.year // 100, d.year % 100
    wy, w, wd = d.isocalendar()
    for R, meth, basic, s, fmt in (
            (iso.Date(century=c), 'calendar', 0, '%02d' % c, 'YY'),
            (iso.Date(century=c, year=y2), 'calendar', 0, '%04d' % d.year,
             'YYYY'),
            (iso.Date(century=c, year=y2), 'ordinal', 1, '%04d' % d.year,
             'YYYY'),
            (iso.Date(century=c, year=y2), 'week', 1, '%04d' % d.year,
             'YYYY'),
            (iso.Date(century=c, year=y2, month=d.month), 'calendar', 1,
             '%04d-%02d' % (d.year, d.month), 'YYYY-MM'),
            (iso.Date(century=wy // 100, decade=wy % 100 // 10, year=wy % 10,
                      week=w), 'week', 1, '%04dW%02d' % (wy, w), 'YYYYWww'),
            (iso.Date(century=wy // 100, decade=wy % 100 // 10, year=wy % 10,
                      week=w), 'week', 0, '%04d-W%02d' % (wy, w),
             'YYYY-Www')):
        got = getattr(R, 'get_%s_string' % meth)(bool(basic))
        ctx.equal(got, s, 'date-format', repr(R))
        P, f = iso.Date.from_string_format(s)
        ctx.check(P == R and P.get_precision() == R.get_precision(),
                  'date-parse', '%r: %r' % (s, P))
        ctx.equal(f, fmt, 'date-format-name', s)
        if meth == 'calendar':
            ctx.equal(str(R), s if fmt != 'YYYY-MM' else s, 'date-str')
        for tr in ('Month', 'Hour'):
            ctx.raises(iso.DateTimeError, lambda: R.get_calendar_string(
                False, getattr(iso.Truncation, tr)), 'date-truncation')
    M = iso.Date(century=c, year=y2, month=d.month)
    B = iso.Date(century=c, year=y2, month=d.month, day=rng.randint(1, 28))
    for basic, tr, s, fmt in (
            (True, 'Century', '-%02d%02d' % (y2, d.month), '-YYMM'),
            (False, 'Century', '-%02d-%02d' % (y2, d.month), '-YY-MM'),
            (True, 'Year', '--%02d' % d.month, '--MM')):
        got = M.get_calendar_string(basic, getattr(iso.Truncation, tr))
        ctx.equal(got, s, 'date-format', repr(M))
        P, f = iso.Date.from_string_format(s, B)
        ctx.check(P == M, 'date-parse', '%r base %s: %r' % (s, B, P))
        ctx.equal(f, fmt, 'date-format-name', s)
    W = iso.Date(century=wy // 100, decade=wy % 100 // 10, year=wy % 10,
                 week=w)
    WB = iso.Date(D)
    for basic in (True, False):
        h = '' if basic else '-'
        for tr, s, fmt in (
                ('Century', '%02d%sW%02d' % (wy % 100, h, w), 'YY%sWww' % h),
                ('Decade', '-%d%sW%02d' % (wy % 10, h, w), '-Y%sWww' % h),
                ('Year', '-W%02d' % w, '-Www')):
            got = W.get_week_string(basic, getattr(iso.Truncation, tr))
            ctx.equal(got, s, 'date-format', repr(W))
            P, f = iso.Date.from_string_format(s, WB)
            ctx.check(P == W, 'date-parse', '%r base %s: %r' % (s, WB, P))
            ctx.equal(f, fmt, 'date-format-name', s)
    E = eval(repr(D), {'Date': iso.Date})
    ctx.check(E == D, 'date-repr', repr(D))
    ctx.nontrivial(d)


def rzone(rng):
    k = rng.randrange(4)
    if k == 0:
        return None, None, None
    if k == 1:
        return 0, None, None
    return (rng.choice((1, -1)), rng.choice((0, 1, 5, 12, 14, 23)),
            rng.choice((None, 0, 30, 45, 59)))


def zone_str(z, basic, prec):
    if z[0] is None:
        return '', ''
    if z[0] == 0:
        return 'Z', 'Z'
    s = '+' if z[0] > 0 else '-'
    mm = z[2] or 0
    if prec == 'Hour' and not mm:
        return '%s%02d' % (s, z[1]), '+hh'
    if basic:
        return '%s%02d%02d' % (s, z[1], mm), '+hhmm'
    return '%s%02d:%02d' % (s, z[1], mm), '+hh:mm'


def frac(rng):
    """(digits string, value as float) of a decimal fraction"""
    n = rng.choice((1, 1, 2, 3, 6))
    k = rng.choice((0, 1, 10 ** n - 1, 10 ** n // 2, rng.randrange(10 ** n)))
    return '%0*d' % (n, k), k / 10 ** n


def rtime(rng, iso):
    """a Time with its (stem, format) for basic/extended and components"""
    h = rng.choice((0, 1, 9, 12, 20, 23, 24)) if rng.random() < 0.7 else \
        rng.randint(0, 23)
    m = rng.choice((0, 1, 9, 30, 59))
    s = rng.choice((0, 1, 9, 30, 59, 60))
    prec = rng.choice(('second', 'second', 'minute', 'hour'))
    digits = ''
    f = 0
    if h == 24:
        m = s = 0
    elif rng.random() < 0.4:
        digits, f = frac(rng)
    z = rzone(rng)
    if prec == 'hour' and z[2]:
        # an instant known to the hour has no value in another zone
        z = (z[0], z[1], rng.choice((None, 0)))
    kw = dict(zdirection=z[0], zhour=z[1], zminute=z[2])
    if prec == 'second':
        if s == 60 and digits and rng.random() < 0.5:
            s = 59
        kw.update(hour=h, minute=m, second=s + f if digits else s)
    elif prec == 'minute':
        kw.update(hour=h, minute=m + f if digits else m)
        s = None
    else:
        kw.update(hour=h + f if digits else h)
        m = s = None
    return iso.Time(**kw), h, m, s, digits, z


def time_str(h, m, s, digits, z, basic, dp, zprec):
    c = '' if basic else ':'
    out, fmt = '%02d' % h, 'hh'
    last = 'h'
    if m is not None:
        out += c + '%02d' % m
        fmt += c + 'mm'
        last = 'm'
        if s is not None:
            out += c + '%02d' % s
            fmt += c + 'ss'
            last = 's'
    if digits:
        out += dp + digits
        fmt += dp + last
    zs, zf = zone_str(z, basic, zprec)
    return out + zs, fmt + zf


def times(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    for _ in range(4):
        T, h, m, s, digits, z = rtime(rng, iso)
        for basic in (True, False):
            dp = rng.choice((',', '.'))
            zp = rng.choice(('Hour', 'Complete'))
            want, fmt = time_str(h, m, s, digits, z, basic, dp, zp)
            got = T.get_string(basic=basic, ndp=len(digits), dp=dp,
                               zone_precision=getattr(iso.Precision, zp))
            ctx.equal(got, want, 'time-format', repr(T))
            P, over, f = iso.Time.from_string_format(want)
            ctx.check(P == T and P.get_precision() == T.get_precision() and
                      (P.hour, P.minute, P.second) ==
                      (T.hour, T.minute, T.second),
                      'time-parse', '%r: %r, expected %r' % (want, P, T))
            ctx.equal(P.get_zone_offset(), T.get_zone_offset(), 'time-zone',
                      want)
            ctx.equal((P.zdirection, over), (T.zdirection, 0), 'time-zone',
                      want)
            ctx.equal(f, fmt, 'time-format-name', want)
            P2 = iso.Time.from_str('T' + want)
            ctx.check(P2 == T, 'time-parse', 'T' + want)
            zs, zf = zone_str(z, basic, zp)
            if zs:
                Z, f = iso.Time(hour=1, minute=2).with_zone_string_format(zs)
                ctx.equal((Z.get_zone(), f), (T.get_zone(), zf), 'zone-parse',
                          zs)
                ctx.equal(Z.get_time(), (1, 2, None), 'zone-parse', zs)
                ctx.equal(Z.with_zone_string('Z').get_zone(), (0, 0),
                          'zone-parse')
            ctx.count('time')
            # fewer decimals truncate, more pad with zeros
            k = rng.choice((0, 1, 2, 8))
            e = (digits + '0' * 9)[:k]
            want, fmt = time_str(h, m, s, e, z, basic, dp, zp)
            ctx.equal(T.get_string(basic=basic, ndp=k, dp=dp,
                                   zone_precision=getattr(
                                       iso.Precision, zp)), want,
                      'time-ndp', '%r ndp=%d' % (T, k))
        ctx.check(eval(repr(T), {'Time': iso.Time}) == T, 'time-repr',
                  repr(T))
        # truncated
        if m is not None and h != 24:
            base_s = rng.randint(0, 86399)
            bh, bm, bs = base_s // 3600, base_s // 60 % 60, base_s % 60
            bz = rzone(rng)
            B = iso.Time(hour=bh, minute=bm, second=bs, zdirection=bz[0],
                         zhour=bz[1], zminute=bz[2])
            dp = rng.choice(',.')
            basic = rng.random() < 0.5
            frs = dp + digits if digits else ''
            fv = Fraction(int(digits or 0), 10 ** len(digits))
            c = '' if basic else ':'
            if s is not None and s < 60:
                opts = [('-%02d%s%02d%s' % (m, c, s, frs), m * 60 + s, 3600,
                         '-mm%sss' % c + (dp + 's' if digits else ''), 1),
                        ('--%02d%s' % (s, frs), s, 60,
                         '--ss' + (dp + 's' if digits else ''), 1)]
                k = rng.choice(opts)
            elif s is None:
                k = ('-%02d%s' % (m, frs), m * 60, 3600,
                     '-mm' + (dp + 'm' if digits else ''), 60)
            else:
                continue
            st, val, period, fmt, unit = k
            P, over, f = iso.Time.from_string_format(st, B)
            ctx.equal(f, fmt, 'trunc-format-name', st)
            val = val + fv * unit
            # earliest instant >= base (at the precision given)
            b = base_s if unit == 1 else base_s // 60 * 60
            t = b // period * period + val
            if t < b:
                t += period
            wo = int(t // 86400)
            t = t % 86400
            got = P.hour * 3600 + Fraction(P.minute).limit_denominator(
                10 ** 7) * 60 + (Fraction(P.second).limit_denominator(10 ** 7)
                                 if unit == 1 else 0)
            ctx.check(got == t and over == wo, 'time-trunc',
                      '%r base %s: %r overflow %d, expected %s s overflow %d'
                      % (st, B, P, over, t, wo))
            ctx.equal(P.get_zone(), B.get_zone(), 'time-trunc-zone')
            if unit == 1 and not digits:
                X = iso.Time(hour=bh, minute=m, second=s)
                ctx.equal(X.get_string(basic=basic, truncation=getattr(
                    iso.Truncation, 'Hour' if period == 3600 else 'Minute')),
                    st, 'time-format', 'truncated')
            ctx.count('time.trunc')
    ctx.nontrivial((repr(T), want))


def timepoints(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    d = rdate(rng)
    D = iso.Date(absolute_day=d.toordinal())
    for _ in range(3):
        T, h, m, s, digits, z = rtime(rng, iso)
        TP = iso.TimePoint(date=D, time=T)
        for meth, basic, tr, ds, df in rng.sample(date_forms(d), 6):
            dp = rng.choice((',', '.'))
            zp = rng.choice(('Hour', 'Complete'))
            ts, tf = time_str(h, m, s, digits, z, basic, dp, zp)
            td = rng.choice(('T', 'T', ' '))
            want = ds + td + ts
            got = getattr(TP, 'get_%s_string' % meth)(
                basic=basic, truncation=getattr(iso.Truncation, tr),
                ndp=len(digits), dp=dp, tdesignator=td,
                zone_precision=getattr(iso.Precision, zp))
            ctx.equal(got, want, 'tp-format', repr(TP))
            B = D if tr != 'No' else None
            P, f = iso.TimePoint.from_string_format(want, B, tdesignators=td)
            ctx.check(P == TP and P.date == D and P.time == T and
                      (P.time.hour, P.time.minute, P.time.second) ==
                      (T.hour, T.minute, T.second),
                      'tp-parse', '%r: %r, expected %r' % (want, P, TP))
            ctx.equal(f, df + td + tf, 'tp-format-name', want)
            ctx.check(iso.TimePoint.from_str(want, B, tdesignators=td) == TP,
                      'tp-parse', want)
            ctx.count('timepoint')
            # a mixture of basic and extended is inconsistent
            ds2 = [x for x in date_forms(d) if x[0] == meth and x[2] == 'No'
                   and x[1] != basic][0]
            if tr == 'No' and m is not None:
                ctx.raises((iso.DateTimeError, ValueError),
                           lambda: iso.TimePoint.from_str(
                               ds2[3] + td + ts, tdesignators=td),
                           'tp-mixed', ds2[3] + td + ts)
        if h != 24 or True:
            st = str(TP)
            if not digits:
                ctx.check(iso.TimePoint.from_str(st) == TP, 'tp-str', st)
    ctx.nontrivial(repr(TP))


UNITS = 'YMDHMS'


def durations(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    for _ in range(5):
        ctx.count('duration')
        if rng.random() < 0.15:
            w = rng.choice((0, 1, 52, rng.randint(0, 9999)))
            X = iso.Duration('P%dW' % w)
            ctx.equal(X.get_week_duration(), w, 'duration-weeks')
            ctx.equal(str(X), 'P%dW' % w, 'duration-format')
            ctx.raises(iso.DateTimeError, X.get_calender_duration,
                       'duration-mode')
            ctx.check(iso.Duration(X) == X and not (X == iso.Duration(
                'P%dD' % (7 * w))), 'duration-equal')
            continue
        lo = rng.randrange(6)
        hi = rng.randint(lo, 5)
        vals = [None] * 6
        for i in range(lo, hi + 1):
            vals[i] = rng.choice((0, 1, 9, 10, 59, 365, 1000))
        for i in range(lo):
            vals[i] = 0
        digits = ''
        if rng.random() < 0.4:
            digits, f = frac(rng)
            vals[hi] = vals[hi] + f
        X = iso.Duration()
        X.set_calender_duration(*vals)
        ctx.equal(X.get_calender_duration(), tuple(vals), 'duration-get')
        for tz in (False, True):
            for dp in (',', '.'):
                s = 'P'
                lead = True
                for i in range(hi + 1):
                    if i == 3:
                        s += 'T'
                    if tz and lead and i < hi and vals[i] == 0:
                        continue
                    lead = False
                    s += str(int(vals[i]))
                    if i == hi and digits:
                        s += dp + digits
                    s += UNITS[i]
                n = len(digits) * (1 if dp == ',' else -1)
                ctx.equal(X.get_string(truncate_zeros=tz, ndp=n), s,
                          'duration-format', repr(vals))
                P = iso.Duration(s)
                ctx.check(P == X, 'duration-parse', '%r: %r, expected %r' % (
                    s, P.get_calender_duration(), vals))
                ctx.equal(P.get_calender_duration(), tuple(vals),
                          'duration-parse', s)
                ctx.check(iso.Duration(P) == X and X == s, 'duration-copy')
        if not digits:
            ctx.check(iso.Duration(str(X)) == X, 'duration-str', str(X))
        # components may be omitted
        pick = [i for i in range(6) if rng.random() < 0.5] or [2]
        s = 'P'
        comp = [None] * 6
        for i in pick:
            if i >= 3 and 'T' not in s:
                s += 'T'
            comp[i] = rng.randint(0, 99)
            s += '%d%s' % (comp[i], UNITS[i])
        for i in range(max(pick)):
            if comp[i] is None:
                comp[i] = 0
        ctx.equal(iso.Duration(s).get_calender_duration(), tuple(comp),
                  'duration-parse', s)
        Y = iso.Duration(X)
        i = rng.randrange(hi + 1)
        v2 = list(vals)
        v2[i] += 1
        Y.set_calender_duration(*v2)
        ctx.check(not (X == Y), 'duration-unequal', repr((vals, v2)))
    ctx.nontrivial((repr(vals), s))


# what a conforming string looks like (complete value, no base)
D2 = r'(?P<%s>\d\d)'
DATE_RE = [re.compile(p + r'\Z') for p in (
    r'(?P<Y>\d{4})(?P<M>\d\d)(?P<D>\d\d)', r'(?P<Y>\d{4})-(?P<M>\d\d)-(?P<D>\d\d)',
    r'(?P<Y>\d{4})-(?P<M>\d\d)', r'(?P<Y>\d{4})', r'(?P<C>\d\d)',
    r'(?P<Y>\d{4})-?(?P<O>\d{3})',
    r'(?P<Y>\d{4})W(?P<W>\d\d)(?P<w>\d)?',
    r'(?P<Y>\d{4})-W(?P<W>\d\d)(?:-(?P<w>\d))?')]
ZRE = r'(?P<z>Z|(?P<zs>[+-])(?P<zh>\d\d)(?:%s(?P<zm>\d\d))?)?'
TIME_RE = [re.compile(p + r'\Z') for p in (
    r'T?(?P<h>\d\d)(?P<f>[.,]\d+)?' + ZRE % ':?',
    r'T?(?P<h>\d\d)(?P<m>\d\d)(?P<f>[.,]\d+)?' + ZRE % '',
    r'T?(?P<h>\d\d)(?P<m>\d\d)(?P<s>\d\d)(?P<f>[.,]\d+)?' + ZRE % '',
    r'T?(?P<h>\d\d):(?P<m>\d\d)(?P<f>[.,]\d+)?' + ZRE % ':',
    r'T?(?P<h>\d\d):(?P<m>\d\d):(?P<s>\d\d)(?P<f>[.,]\d+)?' + ZRE % ':')]


def good_date(s):
    """None if malformed, else the components"""
    for r in DATE_RE:
        m = r.match(s)
        if not m or not s.isascii():
            continue
        g = {k: int(v) for k, v in m.groupdict().items() if v is not None}
        if 'C' in g:
            return ('C', g['C'])
        y = g['Y']
        if y < 1:
            return None
        try:
            if 'O' in g:
                if g['O'] < 1:
                    return None
                d = datetime.date(y, 1, 1) + datetime.timedelta(g['O'] - 1)
                return d if d.year == y else None
            if 'W' in g:
                d = datetime.date.fromisocalendar(y, g['W'], g.get('w', 1))
                return d if 'w' in g else ('W', y, g['W'])
            d = datetime.date(y, g.get('M', 1), g.get('D', 1))
            if 'D' in g:
                return d
            return ('M', y, g['M']) if 'M' in g else ('Y', y)
        except (ValueError, OverflowError):
            return None
    return None


def good_time(s):
    for r in TIME_RE:
        m = r.match(s)
        if not m or not s.isascii():
            continue
        g = m.groupdict()
        h, mi, sec = [None if g.get(k) is None else int(g[k]) for k in 'hms']
        f = Fraction(0)
        if g['f']:
            f = Fraction(int(g['f'][1:]), 10 ** (len(g['f']) - 1))
        if h > 24 or (h == 24 and (mi or sec or f)):
            return None
        if mi is not None and mi > 59 or sec is not None and sec > 60:
            return None
        z = None
        if g['z'] == 'Z':
            z = 0
        elif g['z']:
            zm = int(g['zm'] or 0)
            z = int(g['zh']) * 60 + zm
            if zm > 59 or z >= 1440:
                return None
            if g['zs'] == '-':
                z = -z
        return (h, mi, sec, f, z)
    return None


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        k = rng.randrange(5)
        if k == 0 and s:
            del s[rng.randrange(len(s))]
        elif k == 1:
            s.insert(rng.randint(0, len(s)), rng.choice('0123456789-:WTZ+,. xP'))
        elif k == 2 and s:
            s[rng.randrange(len(s))] = rng.choice('0123456789-:WTZ+,.xYMDHS\u0661')
        elif k == 3:
            s = s[:rng.randint(0, len(s))]
        elif s:
            i = rng.randrange(len(s))
            if s[i].isdigit():
                s[i] = rng.choice('0579')
    return ''.join(s)


def bad(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    errs = (iso.DateTimeError, ValueError)
    d = rdate(rng)
    for _ in range(10):
        s = rng.choice([x for x in date_forms(d) if x[2] == 'No'])[3]
        s = mutate(rng, s)
        ctx.witness(string=s)
        want = good_date(s)
        ctx.count('bad')
        try:
            P = iso.Date.from_str(s)
        except errs:
            ctx.check(want is None, 'date-refused', s)
        else:
            if s.startswith('-') or want is None:
                ctx.fail('date-accepted', '%r parsed as %r' % (s, P))
            if isinstance(want, datetime.date):
                ctx.equal(P.get_absolute_day(), want.toordinal(),
                          'date-misread', s)
            ctx.count('accepted')
    for _ in range(10):
        T, h, m, sec, digits, z = rtime(rng, iso)
        s, fmt = time_str(h, m, sec, digits, z, rng.random() < 0.5,
                          rng.choice(',.'), 'Complete')
        s = mutate(rng, s)
        ctx.witness(string=s)
        want = good_time(s)
        ctx.count('bad')
        try:
            P = iso.Time.from_str(s)
        except errs:
            ctx.check(want is None, 'time-refused', s)
        else:
            if want is None:
                ctx.fail('time-accepted', '%r parsed as %r' % (s, P))
            h, mi, sec, f, z = want
            ctx.equal(P.get_zone_offset(), z, 'time-misread', s)
            vals = [h, mi, sec]
            last = max(i for i in range(3) if vals[i] is not None)
            for i, v in enumerate((P.hour, P.minute, P.second)):
                if vals[i] is None:
                    ctx.check(v is None, 'time-misread', s)
                elif i == last:
                    ctx.check(abs(v - float(vals[i] + f)) < 1e-6,
                              'time-misread', '%r: %r' % (s, P))
                else:
                    ctx.check(v == vals[i], 'time-misread', '%r: %r' % (s, P))
            ctx.count('accepted')
    # time points: any mutation parses as both parts or fails
    T, h, m, sec, digits, z = rtime(rng, iso)
    basic = rng.random() < 0.5
    ds = rng.choice([x for x in date_forms(d) if x[2] == 'No' and
                     x[1] == basic])[3]
    s = mutate(rng, ds + 'T' + time_str(h, m, sec, digits, z, basic, ',',
                                        'Complete')[0])
    ctx.witness(string=s)
    a, t, b = s.partition('T')
    wd = good_date(a)
    wt = good_time(b) if not b.startswith('T') else None
    try:
        P = iso.TimePoint.from_str(s)
    except errs:
        pass
    else:
        ctx.check(t and isinstance(wd, datetime.date) and wt is not None,
                  'tp-accepted', '%r parsed as %r' % (s, P))
    ctx.count('bad')
    # durations
    s = 'P' + ''.join('%d%s' % (rng.randint(0, 12), u) for u in 'YMD'
                      if rng.random() < 0.6)
    t = ''.join('%d%s' % (rng.randint(0, 12), u) for u in 'HMS'
                if rng.random() < 0.6)
    if t:
        s += 'T' + t
    if rng.random() < 0.5:
        s = re.sub(r'\d+', lambda m: m.group(0) + (
            rng.choice((',', '.')) + '25' if rng.random() < 0.3 else ''), s)
    if rng.random() < 0.7:
        s = mutate(rng, s)
    F = r'(?:[.,]\d+)?'
    ok = s.isascii() and re.match(
        r'P(?=.)(?:\d+FY)?(?:\d+FM)?(?:\d+FD)?(?:T(?=\d)(?:\d+FH)?'
        r'(?:\d+FM)?(?:\d+FS)?)?\Z|P\d+FW\Z'.replace('F', F), s) and \
        not re.search(r'[.,]\d+[A-Z]T?\d', s)
    ctx.witness(string=s)
    ctx.count('bad')
    try:
        X = iso.Duration(s)
    except errs:
        ctx.check(not ok, 'duration-refused', s)
    else:
        ctx.check(ok, 'duration-accepted', '%r parsed as %s' % (s, X))
    for junk in ('', ' ', '-', 'T', 'P', 'PT', 'W', 'Z', '1', '-W', '--', '---',
                 '-1-', '2000-', '20-', '2000-W', '2000-W1', '-5x'):
        for cls in (iso.Date, iso.TimePoint, iso.Duration):
            if cls is iso.Date and junk == '-5x':
                pass
            ctx.raises(errs, lambda: getattr(cls, 'from_str', cls)(junk),
                       'junk', '%s %r' % (cls.__name__, junk))
    for junk in ('', ' ', '-', 'T', '--', '1', '12:', '12:1', '12:00:', '12,',
                 '--30', '-30', 'Z', '+', '12+', '12+1', '12:00+01:', '12:00z'):
        ctx.raises(errs, lambda: iso.Time.from_str(junk), 'junk', repr(junk))
        ctx.raises(errs, lambda: iso.Time(hour=1).with_zone_string(junk)
                   if junk != 'Z' else iso.Time.from_str(junk), 'junk',
                   'zone %r' % junk)
    ctx.nontrivial(s)


WORKLOADS = [
    Workload('dates', dates, 4000, 40000),
    Workload('times', times, 4000, 40000),
    Workload('timepoints', timepoints, 4000, 40000),
    Workload('durations', durations, 2000, 30000),
    Workload('bad', bad, 6000, 60000),
]
