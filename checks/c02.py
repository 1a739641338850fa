"""C02: calendar conversions agree with the proleptic Gregorian calendar.

Oracle: Python's datetime module (an independent implementation of the
proleptic Gregorian and ISO week calendars) plus a Julian calendar counted
from scratch."""

import datetime

from lib.harness import Workload
from lib import gen

META = dict(
    id="C02", title="Calendar conversions agree with the proleptic Gregorian calendar",
    statement="Calendar, ordinal, week and absolute-day forms of every date agree with each other and with the proleptic Gregorian calendar (and the Julian conversion with the Julian calendar); offsets by days, weeks, months, years and centuries land on the right date; dates that do not exist raise DateTimeError; dates completed from a base are the earliest matching date on or after it; dates of one precision order, compare and hash as their calendar values.",
    quantifier=dict(over=["inputs"], text="every date in years 1-9999, every offset, every truncated form and base"),
    why_tests_cant="tests use a handful of dates; the calendar has irregularities in 100 and 400 year cycles and at year ends",
    anchors=dict(files=["pyslet/iso8601.py"],
                 mechanism=[dict(name="Date", where="pyslet/iso8601.py")],
                 observe_at=["Date constructors, get_calendar_day/get_ordinal_day/get_week_day/get_absolute_day/offset/comparisons"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential oracle (datetime) over days in sequence and random dates, offsets and bases"
LEVEL_NOTE = "The thorough tier sweeps every day of years 1-9999; truncated forms and offsets are sampled."
RULE = "each case is a run of consecutive days, or one date with offsets, or one base with truncated forms; all are non-trivial"
MODULES = ["pyslet/iso8601.py"]
REQUIRE = {"day": 100000, "offset": 2000, "trunc": 2000, "invalid": 2000,
           "order": 1000, "julian": 1000}

MAXDAY = datetime.date.max.toordinal()


def cal(iso, d):
    return iso.Date(century=d.year // 100, year=d.year % 100, month=d.month,
                    day=d.day)


def parts(d):
    return (d.year // 100, d.year % 100, d.month, d.day)


def iso_parts(d):
    y, w, wd = d.isocalendar()
    return (y // 100, y % 100 // 10, y % 10, w, wd)


def ordinal(d):
    return d.toordinal() - datetime.date(d.year, 1, 1).toordinal() + 1


def agree(ctx, D, d, how):
    """D is the iso8601.Date that should be the datetime.date d"""
    if D.get_calendar_day() != parts(d):
        ctx.fail('calendar', '%s: %r, expected %s' % (how, D, d))
    if D.get_absolute_day() != d.toordinal():
        ctx.fail('absolute', '%s: %s is day %r, expected %d' % (
            how, d, D.get_absolute_day(), d.toordinal()))
    if D.get_ordinal_day() != (d.year // 100, d.year % 100, ordinal(d)):
        ctx.fail('ordinal', '%s: %s: %r' % (how, d, D.get_ordinal_day()))
    if D.get_week_day() != iso_parts(d):
        ctx.fail('week', '%s: %s: %r, expected %r' % (
            how, d, D.get_week_day(), iso_parts(d)))
    if D.week is not None or not D.complete():
        ctx.fail('complete', '%s: %r' % (how, D))


def is_julian_leap(y):
    return y % 4 == 0


def from_abs_julian(n):
    """Julian (year, month, day) of absolute day n, counting years"""
    # 1st Jan 0001 (Julian) is two days before 1st Jan 0001 (Gregorian)
    n = n + 1
    y = 1 + 4 * (n // 1461)
    n %= 1461
    while n >= (366 if is_julian_leap(y) else 365):
        n -= 366 if is_julian_leap(y) else 365
        y += 1
    for m, size in enumerate((31, 29 if is_julian_leap(y) else 28, 31, 30, 31,
                              30, 31, 31, 30, 31, 30, 31), 1):
        if n < size:
            return y, m, n + 1
        n -= size


def one_day(ctx, iso, d, rng):
    n = d.toordinal()
    agree(ctx, iso.Date(absolute_day=n), d, 'absolute_day=%d' % n)
    agree(ctx, cal(iso, d), d, 'calendar')
    D = iso.Date(century=d.year // 100, year=d.year % 100,
                 ordinal_day=ordinal(d))
    agree(ctx, D, d, 'ordinal')
    c, dec, y, w, wd = iso_parts(d)
    if 0 < c * 100 + dec * 10 + y <= 9999:
        agree(ctx, iso.Date(century=c, decade=dec, year=y, week=w,
                            weekday=wd), d, 'week')
    if iso.day_of_week(d.year, d.month, d.day) != d.isoweekday():
        ctx.fail('day_of_week', str(d))
    ctx.count('day')


def sweep(ctx, thorough_total=None):
    """Runs of consecutive days: around interesting years, or (thorough)
    the whole calendar"""
    from pyslet import iso8601 as iso
    rng = ctx.rng
    i = ctx.case_id[2]
    if ctx.tier == 'thorough':
        start, n = 1 + i * 3653, 3653
    else:
        y = rng.choice((1, 4, 99, 100, 101, 399, 400, 401, 499, 1582, 1752,
                        1899, 1900, 1999, 2000, 2001, 2100, 2399, 2400, 9998,
                        rng.randrange(1, 9998), rng.randrange(1, 9998)))
        start = datetime.date(y, rng.choice((1, 2, 11, 12)), 1).toordinal()
        n = 400
    for k in range(start, min(start + n, MAXDAY + 1)):
        d = datetime.date.fromordinal(k)
        one_day(ctx, iso, d, rng)
        ctx.witness(date=str(d))
        if d.month == 1 and d.day == 1 or k == start:
            ctx.equal(bool(iso.leap_year(d.year)), d.year % 4 == 0 and
                      (d.year % 100 != 0 or d.year % 400 == 0), 'leap',
                      str(d.year))
            ctx.equal(bool(cal(iso, d).leap_year()), bool(
                iso.leap_year(d.year)), 'leap', str(d.year))
            ctx.equal(iso.week_count(d.year),
                      datetime.date(d.year, 12, 28).isocalendar()[1],
                      'week-count', str(d.year))
        if rng.random() < 0.05:
            j = from_abs_julian(k)
            D = iso.Date(absolute_day=k)
            ctx.equal(D.get_julian_day(), j, 'julian', str(d))
            agree(ctx, iso.Date.from_julian(*j), d, 'from_julian%r' % (j,))
            ctx.count('julian')
            t = [0] * 9
            D.update_struct_time(t)
            tt = d.timetuple()
            ctx.equal((t[0], t[1], t[2], t[6], t[7]),
                      (tt[0], tt[1], tt[2], tt[6], tt[7]), 'struct-time')
            agree(ctx, iso.Date.from_struct_time(tt), d, 'from_struct_time')
            agree(ctx, iso.Date(D), d, 'copy')
            ctx.equal(D.get_precision(), iso.Precision.Complete, 'precision')
    ctx.nontrivial((start, n))


def rdate(rng, lo=1, hi=MAXDAY):
    k = rng.random()
    if k < 0.35:
        y = rng.choice((4, 100, 400, 1900, 1996, 1999, 2000, 2004, 2005, 2008,
                        2009, 2010, 2015, 2016, 2020, 2099, 2100, 2400))
        d = datetime.date(y, rng.choice((1, 2, 3, 12)), rng.choice(
            (1, 2, 3, 4, 27, 28))).toordinal() + rng.randint(-1, 4)
        return datetime.date.fromordinal(max(lo, min(hi, d)))
    if k < 0.45:
        return datetime.date.fromordinal(rng.choice((
            lo, lo + rng.randrange(800), hi, hi - rng.randrange(800))))
    return datetime.date.fromordinal(rng.randint(lo, hi))


def offsets(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    d = rdate(rng)
    D = cal(iso, d)
    for _ in range(5):
        days = rng.choice((0, 1, -1, 7, 28, 31, 365, 366, 1461, 36524,
                           146097, rng.randint(-40000, 40000)))
        weeks = rng.choice((0, 0, 1, -1, 52, 53, rng.randint(-3000, 3000)))
        if rng.random() < 0.5:
            days = -days
        n = d.toordinal() + days + 7 * weeks
        ctx.count('offset')
        if 1 <= n <= MAXDAY:
            agree(ctx, D.offset(days=days, weeks=weeks),
                  datetime.date.fromordinal(n), '%s %+dd %+dw' % (
                      d, days, weeks))
        else:
            ctx.raises(iso.DateTimeError,
                       lambda: D.offset(days=days, weeks=weeks),
                       'offset-range', '%s %+dd %+dw' % (d, days, weeks))
    agree(ctx, D, d, 'unchanged')
    ctx.raises(iso.DateTimeError, lambda: D.offset(
        **{rng.choice(('months', 'years', 'centuries')): rng.choice((1, -2))}),
        'offset-incompatible', str(d))
    # months
    M = iso.Date(century=d.year // 100, year=d.year % 100, month=d.month)
    for _ in range(3):
        mo = rng.choice((0, 1, -1, 11, 12, 13, -12, -13,
                         rng.randint(-3000, 3000)))
        yr = rng.choice((0, 0, 1, -1, 99, 100, rng.randint(-200, 200)))
        ce = rng.choice((0, 0, 0, 1, -1))
        t = (d.year + yr + 100 * ce) * 12 + d.month - 1 + mo
        y, m = t // 12, t % 12 + 1
        what = '%04d-%02d %+dm %+dy %+dc' % (d.year, d.month, mo, yr, ce)

        def fn():
            return M.offset(months=mo, years=yr, centuries=ce)
        ctx.count('offset')
        if 1 <= y <= 9999:
            r = fn()
            ctx.equal(r.get_calendar_day(), (y // 100, y % 100, m, None),
                      'offset-month', what)
            ctx.equal(r.get_precision(), iso.Precision.Month, 'precision')
        else:
            ctx.raises(iso.DateTimeError, fn, 'offset-range', what)
    ctx.raises(iso.DateTimeError, lambda: M.offset(
        **{rng.choice(('days', 'weeks')): 1}), 'offset-incompatible')
    # years
    Y = iso.Date(century=d.year // 100, year=d.year % 100)
    yr = rng.choice((0, 1, -1, 99, 100, -100, rng.randint(-9000, 9000)))
    ce = rng.choice((0, 0, 1, -1, 3))
    y = d.year + yr + 100 * ce

    def fy():
        return Y.offset(years=yr, centuries=ce)
    if 1 <= y <= 9999:
        ctx.equal(fy().get_calendar_day(), (y // 100, y % 100, None, None),
                  'offset-year', '%d %+d %+dc' % (d.year, yr, ce))
    else:
        ctx.raises(iso.DateTimeError, fy, 'offset-range')
    ctx.raises(iso.DateTimeError, lambda: Y.offset(
        **{rng.choice(('days', 'weeks', 'months')): 1}),
        'offset-incompatible')
    # weeks
    c, dec, yy, w, wd = iso_parts(d)
    wy = c * 100 + dec * 10 + yy
    if 1 <= wy <= 9999:
        W = iso.Date(century=c, decade=dec, year=yy, week=w)
        ctx.equal(W.get_week_day(), (c, dec, yy, w, None), 'week-precision')
        ctx.equal(W.get_precision(), iso.Precision.Week, 'precision')
        k = rng.choice((0, 1, -1, 51, 52, 53, 104, 105, -52, -53,
                        rng.randint(-2000, 2000)))
        n = d.toordinal() + 7 * k
        if 10 <= n <= MAXDAY - 10:
            e = iso_parts(datetime.date.fromordinal(n))
            ctx.equal(W.offset(weeks=k).get_week_day(), e[:4] + (None,),
                      'offset-week', '%r %+dw' % (W, k))
            ctx.count('offset')
        ctx.raises(iso.DateTimeError, lambda: W.offset(
            **{rng.choice(('days', 'months', 'years')): 1}),
            'offset-incompatible')
    ctx.nontrivial((d, days, weeks))


def invalid(ctx):
    """Combinations of components exist or are rejected, never adjusted"""
    from pyslet import iso8601 as iso
    rng = ctx.rng
    for _ in range(20):
        y = rng.choice((0, 1, 4, 100, 400, 1900, 2000, 2001, 2004, 2009, 2015,
                        9999, rng.randint(0, 9999)))
        kind = rng.randrange(4)
        ctx.count('invalid')
        if kind == 0:
            m = rng.choice((0, 1, 2, 2, 2, 4, 11, 12, 13, -1))
            dd = rng.choice((0, 1, 28, 29, 30, 31, 32, -1))
            what = 'calendar %r' % ((y, m, dd),)
            try:
                want = datetime.date(y, m, dd)
            except ValueError:
                want = None

            def fn():
                return iso.Date(century=y // 100, year=y % 100, month=m,
                                day=dd)
        elif kind == 1:
            o = rng.choice((0, 1, 59, 60, 61, 365, 366, 367, -1, 999))
            what = 'ordinal %r' % ((y, o),)
            want = None
            if y >= 1 and o >= 1:
                try:
                    want = datetime.date(y, 1, 1) + datetime.timedelta(o - 1)
                    if want.year != y:
                        want = None
                except OverflowError:
                    want = None

            def fn():
                return iso.Date(century=y // 100, year=y % 100, ordinal_day=o)
        elif kind == 2:
            w = rng.choice((0, 1, 2, 52, 53, 54, -1))
            wd = rng.choice((0, 1, 4, 7, 8, -1))
            what = 'week %r' % ((y, w, wd),)
            try:
                want = datetime.date.fromisocalendar(y, w, wd)
            except (ValueError, OverflowError):
                want = None
            if y in (0, 9999, 1):
                continue

            def fn():
                return iso.Date(century=y // 100, decade=y % 100 // 10,
                                year=y % 10, week=w, weekday=wd)
        else:
            n = rng.choice((0, -1, -400, 1, MAXDAY, MAXDAY + 1,
                            MAXDAY + 40000, rng.randint(-1000, MAXDAY + 1000)))
            what = 'absolute %d' % n
            want = datetime.date.fromordinal(n) if 1 <= n <= MAXDAY else None

            def fn():
                return iso.Date(absolute_day=n)
        if want is None:
            ctx.raises(iso.DateTimeError, fn, 'invalid-accepted', what)
        else:
            agree(ctx, fn(), want, what)
    # reduced precision
    c, yy, m, w = (rng.randint(-1, 101), rng.randint(-1, 101),
                   rng.randint(-1, 14), rng.randint(-1, 55))
    ok_y = 0 <= c <= 99 and 0 <= yy <= 99 and (c or yy)
    for what, ok, fn in (
            ('century', 0 <= c <= 99, lambda: iso.Date(century=c)),
            ('year', ok_y, lambda: iso.Date(century=c, year=yy)),
            ('month', ok_y and 1 <= m <= 12,
             lambda: iso.Date(century=c, year=yy, month=m)),
            ('week', ok_y and 1 <= w <= iso.week_count(c * 100 + yy) and
             yy >= 0,
             lambda: iso.Date(century=c, decade=yy // 10, year=yy % 10,
                              week=w))):
        if ok:
            D = fn()
            ctx.check(not D.complete(), 'complete-reduced', repr(D))
            ctx.raises(iso.DateTimeError, D.get_absolute_day,
                       'absolute-reduced', repr(D))
        else:
            ctx.raises(iso.DateTimeError, fn, 'invalid-accepted',
                       '%s %r' % (what, (c, yy, m, w)))
    ctx.nontrivial((c, yy, m, w, y))


def first_match(base, match, limit, candidate_ok):
    """earliest date on or after base satisfying match"""
    d = base
    for _ in range(limit):
        if match(d):
            return d
        if d.toordinal() >= MAXDAY:
            return None
        d += datetime.timedelta(1)
    return None


def trunc(ctx):
    """Dates completed from a base: the earliest matching date on or after
    it; DateTimeError only if the next period does not have such a date"""
    from pyslet import iso8601 as iso
    rng = ctx.rng
    b = rdate(rng, 80000, MAXDAY - 90000)
    B = cal(iso, b)
    ctx.witness(base=str(b))
    x = rdate(rng)           # supplies the components
    if rng.random() < 0.5:   # near the base: on, before or after it
        x = b + datetime.timedelta(rng.choice((-366, -31, -7, -1, 0, 0, 1, 7,
                                               30, 365)))
    c, dec, yy, w, wd = iso_parts(x)
    for form in rng.sample(range(10), 5):
        ctx.count('trunc')
        if form == 0:
            what, kw = 'DD', dict(day=x.day)
            m = lambda d: d.day == x.day
            lim = 62
        elif form == 1:
            what, kw = 'MMDD', dict(month=x.month, day=x.day)
            m = lambda d: (d.month, d.day) == (x.month, x.day)
            lim = 366 * 9
        elif form == 2:
            what = 'YYMMDD'
            kw = dict(year=x.year % 100, month=x.month, day=x.day)
            m = None
        elif form == 3:
            what, kw = 'DDD', dict(ordinal_day=ordinal(x))
            m = lambda d: ordinal(d) == ordinal(x)
            lim = 366 * 9
        elif form == 4:
            what = 'YYDDD'
            kw = dict(year=x.year % 100, ordinal_day=ordinal(x))
            m = None
        elif form == 5:
            what, kw = 'W-D', dict(weekday=wd)
            m = lambda d: d.isoweekday() == wd
            lim = 8
        elif form == 6:
            what, kw = 'WwwD', dict(week=w, weekday=wd)
            m = lambda d: d.isocalendar()[1:] == (w, wd)
            lim = 366 * 8
        elif form == 7:
            what, kw = 'YWwwD', dict(year=yy, week=w, weekday=wd)
            m = lambda d: (d.isocalendar()[0] % 10,
                           ) + d.isocalendar()[1:] == (yy, w, wd)
            lim = 3655
        elif form == 8:
            what = 'YYWwwD'
            kw = dict(decade=dec, year=yy, week=w, weekday=wd)
            m = None
        else:
            what, kw = 'YYMM', dict(year=x.year % 100, month=x.month)
            m = None
        ctx.witness(form=what, kw=kw)
        if m is not None:
            want = first_match(b, m, lim, None)
            try:
                got = iso.Date(base=B, **kw)
            except iso.DateTimeError:
                got = None
            if got is None:
                # the day does not exist in the period tried
                skippable = (x.day > 28 if form in (0, 1) else
                             ordinal(x) == 366 if form == 3 else
                             w == 53 if form in (6, 7) else False)
                ctx.check(skippable, 'trunc-refused', '%s %r base %s' % (
                    what, kw, b))
            elif want is None:
                ctx.fail('trunc', '%s %r base %s: got %s' % (
                    what, kw, b, got))
            else:
                agree(ctx, got, want, '%s %r base %s' % (what, kw, b))
        else:
            # truncation to century: within this century or the next
            cands = []
            for cc in (b.year // 100 - 1, b.year // 100, b.year // 100 + 1,
                       b.year // 100 + 2):
                if form == 2:
                    try:
                        cands.append(datetime.date(
                            cc * 100 + x.year % 100, x.month, x.day))
                    except ValueError:
                        continue
                elif form == 4:
                    y0 = cc * 100 + x.year % 100
                    e = datetime.date(y0, 1, 1) + datetime.timedelta(
                        ordinal(x) - 1)
                    if e.year == y0:
                        cands.append(e)
                elif form == 8:
                    try:
                        cands.append(datetime.date.fromisocalendar(
                            cc * 100 + dec * 10 + yy, w, wd))
                    except ValueError:
                        continue
                else:
                    cands.append(datetime.date(
                        cc * 100 + x.year % 100, x.month, 1))
            if form == 9:
                want = [e for e in cands
                        if (e.year, e.month) >= (b.year, b.month)][0]
                got = iso.Date(base=B, **kw)
                ctx.equal(got.get_calendar_day(),
                          (want.year // 100, want.year % 100, want.month,
                           None), 'trunc', '%s %r base %s' % (what, kw, b))
                continue
            cands = [e for e in cands if e >= b]
            try:
                got = iso.Date(base=B, **kw)
            except iso.DateTimeError:
                ctx.check((x.month, x.day) == (2, 29) or ordinal(x) == 366 or
                          w == 53, 'trunc-refused', '%s %r base %s' % (
                              what, kw, b))
                continue
            agree(ctx, got, cands[0], '%s %r base %s' % (what, kw, b))
    # reduced and truncated
    mth = x.month
    got = iso.Date(base=B, month=mth)
    wy = b.year + (1 if mth < b.month else 0)
    ctx.equal(got.get_calendar_day(), (wy // 100, wy % 100, mth, None),
              'trunc-month', 'MM=%d base %s' % (mth, b))
    bw = b.isocalendar()
    wk = rng.randint(1, 52)
    wy = bw[0] + (1 if wk < bw[1] else 0)
    got = iso.Date(base=B, week=wk)
    ctx.equal(got.get_week_day(), (wy // 100, wy % 100 // 10, wy % 10, wk,
                                   None), 'trunc-week', 'Www=%d base %s' % (
                                       wk, b))
    ydec = rng.randint(0, 9)
    t = bw[0] // 10 * 10 + ydec
    if (t, wk) < (bw[0], bw[1]):
        t += 10
    got = iso.Date(base=B, year=ydec, week=wk)
    ctx.equal(got.get_week_day(), (t // 100, t % 100 // 10, t % 10, wk, None),
              'trunc-week', 'Y=%d Www=%d base %s' % (ydec, wk, b))
    for kw in (dict(day=5), dict(month=5), dict(week=5), dict(weekday=5),
               dict(year=5), dict(ordinal_day=5)):
        ctx.raises(iso.DateTimeError, lambda: iso.Date(**kw), 'no-base',
                   repr(kw))
        ctx.raises(iso.DateTimeError, lambda: iso.Date(base=iso.Date(
            century=19, year=69), **kw), 'reduced-base', repr(kw))
    ctx.nontrivial((b, x))


def order(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    for _ in range(10):
        a = rdate(rng)
        b = rng.choice((a, rdate(rng), datetime.date.fromordinal(max(1, min(
            MAXDAY, a.toordinal() + rng.choice((-1, 1, 30, -31, 365)))))))
        prec = rng.randrange(5)
        if prec <= 1:
            A, B = cal(iso, a), cal(iso, b)
            ka, kb = a, b
            if rng.random() < 0.5:
                A = iso.Date(absolute_day=a.toordinal())
        elif prec == 2:
            A, B = [iso.Date(century=d.year // 100, year=d.year % 100,
                             month=d.month) for d in (a, b)]
            ka, kb = [(d.year, d.month) for d in (a, b)]
        elif prec == 3:
            A, B = [iso.Date(century=d.year // 100, year=d.year % 100)
                    for d in (a, b)]
            ka, kb = a.year, b.year
        else:
            pa, pb = iso_parts(a), iso_parts(b)
            if not (pa[:3] > (0, 0, 0) and pb[:3] > (0, 0, 0)):
                continue
            A, B = [iso.Date(century=p[0], decade=p[1], year=p[2], week=p[3])
                    for p in (pa, pb)]
            ka, kb = pa[:4], pb[:4]
        got = (A == B, A != B, A < B, A <= B, A > B, A >= B)
        want = (ka == kb, ka != kb, ka < kb, ka <= kb, ka > kb, ka >= kb)
        ctx.equal(got, want, 'order', '%r %r' % (A, B))
        if ka == kb:
            ctx.equal(hash(A), hash(B), 'hash', '%r %r' % (A, B))
        ctx.equal(A == str(B) if prec <= 3 else ka == kb, ka == kb,
                  'order-string')
        ctx.count('order')
        # different precisions never compare
        C = iso.Date(century=a.year // 100)
        ctx.check(not (A == C) and A != C, 'order-precision')
        ctx.raises(TypeError, lambda: A < C, 'order-precision')
    ctx.nontrivial((a, b, prec))


WORKLOADS = [
    Workload('sweep', sweep, 1000, 1000, cpu=120),
    Workload('offsets', offsets, 9000, 60000),
    Workload('invalid', invalid, 3000, 30000),
    Workload('trunc', trunc, 5000, 40000),
    Workload('order', order, 1000, 20000),
]
