"""C04: time points compare and shift zone by instant.

Oracle: a time point is modelled as a number of whole minutes (datetime
ordinal x 1440 + hour x 60 + minute - zone) and exact seconds (Fraction);
instants are compared, shifted and converted with that arithmetic only."""

import datetime
import time as pytime
from fractions import Fraction as F

from lib.harness import Workload
from lib import gen

META = dict(
    id="C04", title="Time points compare and shift zone by instant",
    statement="Time points of the same precision that both have (or both lack) a zone order, compare equal and hash by the instant they denote, whatever zones and notations (24:00:00, -00:00, leap seconds, fractions) express it, and are otherwise unequal and unorderable.  Shifting zone gives the zone asked for and preserves the instant across day, month and year ends; conversion from and to unix time and struct_time is exact; time arithmetic and changes of precision carry exactly.",
    quantifier=dict(over=["inputs"], text="all time points, zones and offsets"),
    why_tests_cant="tests use a few fixed pairs of time points and zones",
    anchors=dict(files=["pyslet/iso8601.py"],
                 mechanism=[dict(name="TimePoint.sortkey/otherkey/shift_zone", where="pyslet/iso8601.py"),
                            dict(name="Time.offset/shift_zone/with_precision", where="pyslet/iso8601.py"),
                            dict(name="TimePoint.from_unix_time/get_unixtime", where="pyslet/iso8601.py")],
                 observe_at=["comparison operators, hash(), components of the results"], hook_needed=None))
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: exact rational instant arithmetic as oracle over generated time points, zones and offsets"
LEVEL_NOTE = "Held on the time points observed."
RULE = "each case is a cluster of time points around one instant or one arithmetic operation; distinct by the values used"
MODULES = ["pyslet/iso8601.py"]
REQUIRE = {"pairs": 20000, "equal-pairs": 2000, "shift": 4000, "unix": 3000,
           "offset": 3000, "precision": 2000}

ZONES = (0, 0, 60, -60, 330, -210, 345, 720, -720, 840, 14, -1, 1, 1439,
         -1439, 825, -570)


def rord(rng):
    k = rng.random()
    if k < 0.5:
        y = gen.pick(rng, (1970, 1999, 2000, 2001, 2004, 1900, 2016, 2100))
        m, d = gen.pick(rng, ((1, 1), (12, 31), (2, 28), (3, 1), (6, 30),
                              (7, 1), (12, 30), (1, 2)))
        return datetime.date(y, m, d).toordinal()
    return rng.randint(1000, 3652059 - 1000)


class M(object):
    """Model: local ordinal, hour, minute, second (number), zone minutes"""

    def __init__(self, o, h, m, s, z, negzero=False):
        self.o, self.h, self.m, self.s, self.z = o, h, m, s, z
        self.negzero = negzero

    def key(self):
        h = self.h
        z = self.z or 0
        if self.m is None:
            return (F(self.o * 24) + F(h)) * 60 - z
        if self.s is None:
            return (self.o * 24 + h) * 60 + F(self.m) - z
        return ((self.o * 24 + h) * 60 + self.m - z, F(self.s))

    def prec(self):
        return (self.m is None) + (self.s is None)

    def args(self):
        if self.z is None:
            return dict()
        if self.z == 0:
            if self.negzero:
                return dict(zdirection=-1, zhour=0, zminute=0)
            return dict(zdirection=0)
        d = 1 if self.z > 0 else -1
        r = dict(zdirection=d, zhour=abs(self.z) // 60)
        if abs(self.z) % 60 or self.negzero:
            r['zminute'] = abs(self.z) % 60
        return r

    def build(self):
        from pyslet import iso8601 as iso
        d = datetime.date.fromordinal(self.o)
        return iso.TimePoint(
            date=iso.Date(century=d.year // 100, year=d.year % 100,
                          month=d.month, day=d.day),
            time=iso.Time(hour=self.h, minute=self.m, second=self.s,
                          **self.args()))

    def __repr__(self):
        return "%s %s:%s:%s z%s%s" % (
            datetime.date.fromordinal(self.o), self.h, self.m, self.s,
            self.z, '-' if self.negzero else '')


def local(key, prec, z, rng):
    """A model time point denoting instant key in zone z; key is as
    returned by M.key"""
    if prec == 0:
        mins, s = key
        mins += z
        o, r = divmod(mins, 1440)
        h, m = divmod(r, 60)
        if s == int(s) and rng.random() < 0.8:
            s = int(s)
        else:
            s = float(s)
        if h == m == 0 and s == 0 and rng.random() < 0.5:
            return M(o - 1, 24, 0, s, z, rng.random() < 0.5)
        return M(o, h, m, s, z, rng.random() < 0.3)
    if prec == 1:
        k = key + z
        o, r = divmod(k, 1440)
        h, m = divmod(r, 60)
        m = int(m) if m == int(m) else float(m)
        if h == 0 and m == 0 and rng.random() < 0.5:
            return M(int(o) - 1, 24, 0, None, z)
        return M(int(o), int(h), m, None, z, rng.random() < 0.3)
    k = (key + z) / 60
    o, h = divmod(k, 24)
    h = int(h) if h == int(h) else float(h)
    return M(int(o), h, None, None, z)


def check_tp(ctx, tp, m, key, what):
    """tp must have the local components of m"""
    d = datetime.date.fromordinal(m.o)
    try:
        got = tp.get_calendar_time_point()
    except Exception as e:
        ctx.fail(key, "%s: %s" % (what, e))
    want = (d.year // 100, d.year % 100, d.month, d.day, m.h, m.m, m.s)
    ctx.equal(got, want, key, what)


def same(ctx, tp, want_key, zone, what, key):
    """tp denotes instant want_key at offset zone with valid components"""
    h, m, s = tp.time.get_time()
    o = tp.date.get_absolute_day()
    mod = M(o, h, m, s, zone)
    ctx.equal(tp.time.get_zone_offset(), zone, key + ':zone', what)
    ctx.equal(mod.key(), want_key, key, what)
    return mod


def case_compare(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    prec = gen.pick(rng, (0, 0, 0, 1, 2))
    zoned = rng.random() < 0.8
    o = rord(rng)
    base = M(o, gen.pick(rng, (0, 0, 23, rng.randint(0, 23))),
             gen.pick(rng, (0, 59, rng.randint(0, 59))),
             gen.pick(rng, (0, 0, 59, rng.randint(0, 59), 0.5, 59.25,
                            60, 60)), 0)
    if prec == 1:
        base.s = None
        base.m = gen.pick(rng, (0, 59, 0.5, 30.25, rng.randint(0, 59)))
    elif prec == 2:
        base.m = base.s = None
        base.h = gen.pick(rng, (0, 23, 0.5, 12.25, rng.randint(0, 23)))
    key = base.key()
    pts = []
    for i in range(7):
        k = key
        if rng.random() < 0.45:
            # a neighbour
            step = gen.pick(rng, (1, -1, 60, -60, 1440, -1440, 30))
            if prec == 0:
                if rng.random() < 0.5:
                    s = k[1] + gen.pick(rng, (1, -1, F(1, 4), F(-1, 2)))
                    k = (k[0], s if 0 <= s < 61 else k[1])
                else:
                    k = (k[0] + step, k[1])
            elif prec == 1:
                k += gen.pick(rng, (step, F(1, 2)))
            else:
                k += gen.pick(rng, (60, -60, 1440, 15))
        z = gen.pick(rng, ZONES) if zoned else 0
        if rng.random() < 0.3:
            z = 0
        if prec == 2:
            z -= z % 60 if z > 0 else -((-z) % 60)
        m = local(k, prec, z, rng)
        if not zoned:
            m.z = None
            m.negzero = False
        pts.append((m, m.build()))
    ctx.witness(points=[repr(m) for m, t in pts])
    ctx.nontrivial(('cmp', [repr(m) for m, t in pts]))
    index = {}
    for a, ta in pts:
        ka = a.key()
        for b, tb in pts:
            kb = b.key()
            ctx.count('pairs')
            got = (ta == tb, ta != tb, ta < tb, ta <= tb, ta > tb, ta >= tb)
            want = (ka == kb, ka != kb, ka < kb, ka <= kb, ka > kb, ka >= kb)
            ctx.check(got == want, 'order', "%r vs %r: (==,!=,<,<=,>,>=) "
                      "got %r expected %r" % (a, b, got, want))
            if ka == kb:
                ctx.count('equal-pairs')
                ctx.check(hash(ta) == hash(tb), 'hash',
                          "%r and %r are equal but hash differently" % (a, b))
        index[ta] = ka
    ctx.equal(len(index), len(set(a.key() for a, t in pts)), 'dict',
              "number of distinct keys in a dictionary")
    order = [a.key() for a, t in sorted(
        zip([a for a, t in pts], [t for a, t in pts]), key=lambda x: x[1])]
    ctx.check(order == sorted(order), 'sorted', repr(order))
    if prec == 0 and isinstance(pts[0][0].s, int):
        m, tp = pts[0]
        ctx.check(tp == str(tp) and not (tp != str(tp)), 'string',
                  "%r not equal to its own string %s" % (m, tp))
        ctx.check(pts[1][1] <= str(tp) if pts[1][0].key() <= m.key() else
                  pts[1][1] > str(tp), 'string-order', str(tp))
    # incomparable ones
    m, tp = pts[0]
    if zoned:
        other = M(m.o, m.h, m.m, m.s, None).build()
    else:
        other = M(m.o, m.h, m.m, m.s, gen.pick(rng, (0, 60))).build()
    others = [other]
    if prec == 0:
        others.append(M(m.o, m.h, m.m, None, m.z, m.negzero).build())
    elif prec == 1:
        others.append(M(m.o, int(m.h), None, None,
                        None if m.z is None else 60).build())
    for other in others:
        ctx.count('incomparable')
        ctx.check(not (tp == other) and tp != other, 'incomparable-equal',
                  "%r == %s" % (m, other))
        ctx.raises(TypeError, lambda: tp < other, 'incomparable-order',
                   "%r < %s" % (m, other))
        ctx.raises(TypeError, lambda: other >= tp, 'incomparable-order',
                   "%s >= %r" % (other, m))


def zargs(rng, z):
    if z == 0:
        return gen.pick(rng, (dict(zdirection=0),
                              dict(zdirection=1, zhour=0, zminute=0),
                              dict(zdirection=-1, zhour=0, zminute=0)))
    d = dict(zdirection=1 if z > 0 else -1, zhour=abs(z) // 60)
    if z % 60 or rng.random() < 0.5:
        d['zminute'] = abs(z) % 60
    return d


def case_shift(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    for i in range(4):
        prec = gen.pick(rng, (0, 0, 0, 1, 2))
        s = gen.pick(rng, (0, 59, 60, rng.randint(0, 59), 59.5, 0.125))
        mi = rng.randint(0, 59)
        h = gen.pick(rng, (0, 23, 22, 1, 12, rng.randint(0, 23)))
        z0 = gen.pick(rng, ZONES)
        z1 = gen.pick(rng, ZONES)
        if prec == 1:
            s = None
            mi = gen.pick(rng, (0, 59.5, 0.25, mi))
        elif prec == 2:
            s = mi = None
            h = gen.pick(rng, (0, 23.5, 0.25, h))
            # comparing requires the shift to UTC, so whole hours only
            z0 = 60 * rng.randint(-23, 23)
            z1 = z0 + 60 * gen.pick(rng, (0, 1, -1, 5, 26, -24))
            if abs(z1) > 1439:
                z1 = z0
        elif rng.random() < 0.08:
            h, mi, s = 24, 0, 0
        m = M(rord(rng), h, mi, s, z0, rng.random() < 0.2)
        tp = m.build()
        before = repr(tp)
        za = zargs(rng, z1)
        ctx.witness(point=repr(m), shift=za)
        ctx.nontrivial(('shift', repr(m), repr(za)))
        ctx.count('shift')
        st = tp.shift_zone(**za)
        same(ctx, st, m.key(), z1, "%r shifted to %r is %s" % (m, za, st),
             'shift')
        ctx.check(st == tp and hash(st) == hash(tp), 'shift-equal',
                  "%r shifted to %r is %s" % (m, za, st))
        ctx.equal(repr(tp), before, 'immutable', "shift_zone changed it")
        t, over = tp.time.shift_zone(**za)
        ctx.equal(over, st.date.get_absolute_day() - m.o, 'shift-overflow',
                  "%r shifted to %r" % (m, za))
        ctx.equal(t.get_time(), st.time.get_time(), 'shift-time', repr(m))
        wz = tp.with_zone(**za)
        check_tp(ctx, wz, m, 'with_zone', "%r with zone %r" % (m, za))
        ctx.equal(wz.time.get_zone_offset(), z1, 'with_zone', repr(za))
        ctx.equal(tp.with_zone(None).get_zone(), (None, None), 'strip-zone',
                  repr(m))
        d, zh, zm = st.time.get_canonical_zone()
        ctx.equal((d, zh, zm), (0, 0, 0) if z1 == 0 else (
            1 if z1 > 0 else -1, abs(z1) // 60, abs(z1) % 60),
            'canonical-zone', repr(za))
        ctx.raises(iso.DateTimeError, lambda: tp.with_zone(
            None).shift_zone(**za), 'shift-unzoned')
        if prec == 2 and z1 % 60 == z0 % 60:
            bad = zargs(rng, z0 + 30 if z0 < 1400 else z0 - 30)
            ctx.raises(iso.DateTimeError, lambda: tp.shift_zone(**bad),
                       'shift-hour-precision', "%r %r" % (m, bad))


def case_unix(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    for i in range(4):
        k = rng.randrange(4)
        if k == 0:
            n = rng.randint(-60000000000, 250000000000)
        elif k == 1:
            n = gen.pick(rng, (0, -1, 1, 86400, 86399, -86400, -86401,
                               2 ** 31 - 1, -2 ** 31, 2 ** 32,
                               951782400, 951868799, 68169600))
        elif k == 2:
            n = rng.randint(-2 * 10 ** 9, 4 * 10 ** 9)
        else:
            n = rng.randint(-10 ** 9, 2 * 10 ** 9) + gen.pick(
                rng, (0.5, 0.25, 0.125, 0.75))
        ctx.witness(unix=n)
        ctx.nontrivial(('unix', n))
        ctx.count('unix')
        tp = iso.TimePoint.from_unix_time(n)
        want = datetime.datetime(1970, 1, 1) + datetime.timedelta(
            seconds=int(n // 1))
        m = M(want.toordinal(), want.hour, want.minute,
              want.second + n % 1, 0)
        check_tp(ctx, tp, m, 'from_unix_time', "from_unix_time(%r)" % n)
        ctx.equal(tp.get_zone_offset() if hasattr(tp, 'get_zone_offset')
                  else tp.time.get_zone_offset(), 0, 'unix-zone', repr(n))
        ctx.equal(tp.get_unixtime(), n, 'get_unixtime', "round trip")
        z = gen.pick(rng, ZONES)
        zl = local(m.key(), 0, z, rng)
        ctx.equal(zl.build().get_unixtime(), n, 'get_unixtime', repr(zl))
        if n % 1 == 0:
            st = list(want.timetuple())
            tp2 = iso.TimePoint.from_struct_time(tuple(st))
            check_tp(ctx, tp2, m, 'from_struct_time', repr(st))
            ctx.equal(tp2.get_zone(), (None, None), 'from_struct_time-zone')
            out = [0] * 9
            tp.update_struct_time(out)
            ctx.equal(out[:6], st[:6], 'update_struct_time', repr(n))
            ctx.raises(iso.DateTimeError, tp2.get_unixtime,
                       'unix-unzoned', repr(n))
        ctx.equal(iso.TimePoint(tp), tp, 'copy', repr(n))
        a = tp.with_precision(iso.Precision.Minute, True)
        ctx.raises(iso.DateTimeError, a.get_unixtime, 'unix-incomplete')
    t0 = int(pytime.time())
    now = iso.TimePoint.from_now_utc()
    t1 = int(pytime.time())
    ctx.check(t0 <= now.get_unixtime() <= t1, 'now',
              "%s: %r not in %r..%r" % (now, now.get_unixtime(), t0, t1))


def case_offset(ctx):
    from pyslet import iso8601 as iso
    rng = ctx.rng
    for i in range(4):
        prec = gen.pick(rng, (0, 0, 0, 1, 2))
        h = rng.randint(0, 23)
        mi = rng.randint(0, 59)
        s = gen.pick(rng, (rng.randint(0, 59), 0, 59, 0.5, 59.75))
        z = gen.pick(rng, (None, 0, 60, -330))
        big = gen.pick(rng, (2, 100, 100000))
        dh = rng.randint(-big, big) if rng.random() < 0.6 else 0
        dm = rng.randint(-big, big) if rng.random() < 0.6 else 0
        ds = rng.randint(-big, big) if rng.random() < 0.6 else 0
        frac = gen.pick(rng, (0, 0, 0.5, 0.25, -0.75))
        kw = {}
        if prec == 0:
            ds += frac
        elif prec == 1:
            s = None
            ds = 0
            dm += frac
        else:
            mi = s = None
            ds = dm = 0
            dh += frac
        kw = dict(hours=dh, minutes=dm, seconds=ds)
        m = M(1, h, mi, s, z)
        t = iso.Time(hour=h, minute=mi, second=s, **m.args())
        ctx.witness(time=repr(m), offset=kw)
        ctx.nontrivial(('off', repr(m), repr(kw)))
        ctx.count('offset')
        r, days = t.offset(**kw)
        got = r.get_time()
        unit = (1, 60, 3600)[prec]
        total = (F(h) + F(dh)) * 3600 + (F(mi or 0) + F(dm)) * 60 + \
            F(s or 0) + F(ds)
        wd, rest = divmod(total, 86400)
        wh, rest = divmod(rest, 3600)
        if prec == 2:
            want = (wh + rest / 3600, None, None)
        else:
            wm, rest = divmod(rest, 60)
            want = (wh, wm, rest) if prec == 0 else (
                wh, wm + rest / 60, None)
        ctx.equal(days, wd, 'offset-days', "%r offset %r" % (m, kw))
        ctx.check(all(a == b for a, b in zip(got, want)), 'offset',
                  "%r offset %r: got %r expected %s" % (m, kw, got, want))
        ctx.equal(r.get_zone_offset(), z, 'offset-zone')
        ctx.equal(t.get_time(), (h, mi, s), 'immutable', "offset")
        if prec == 0:
            ctx.equal(t.get_total_seconds(), h * 3600 + mi * 60 + s,
                      'total', repr(m))
            n = rng.randint(0, 86399)
            tt = iso.Time(total_seconds=n)
            ctx.equal(tt.get_time(), (n // 3600, n // 60 % 60, n % 60),
                      'from-total', repr(n))
            ctx.equal(tt.get_total_seconds(), n, 'from-total', repr(n))
            bad = gen.pick(rng, (86400, -1, 10 ** 6))
            ctx.raises(iso.DateTimeError, lambda: iso.Time(
                total_seconds=bad), 'from-total-range', repr(bad))
            lt = iso.Time(hour=h, minute=mi, second=60)
            ctx.equal(lt.get_total_seconds(), h * 3600 + mi * 60 + 59,
                      'total-leap', "leap second is invisible")


def case_precision(ctx):
    from pyslet import iso8601 as iso
    P = iso.Precision
    rng = ctx.rng
    for i in range(4):
        prec = rng.randrange(3)
        h = rng.randint(0, 23)
        mi = gen.pick(rng, (0, 15, 30, 45, rng.randint(0, 59)))
        s = gen.pick(rng, (0, 15, 30, rng.randint(0, 59), 7.5))
        if prec == 1:
            s = None
            mi = gen.pick(rng, (mi, mi + 0.25, mi + 0.5))
        elif prec == 2:
            s = mi = None
            h = gen.pick(rng, (h, h + 0.5, h + 0.25))
        z = gen.pick(rng, (None, 0, 60, -330))
        m = M(rord(rng), h, mi, s, z)
        tp = m.build()
        target = rng.randrange(3)
        trunc = rng.random() < 0.5
        ctx.witness(point=repr(m), target=target, truncate=trunc)
        ctx.nontrivial(('prec', repr(m), target, trunc))
        ctx.count('precision')
        r = tp.with_precision((P.Complete, P.Minute, P.Hour)[target], trunc)
        ctx.equal(r.get_precision(),
                  (P.Complete, P.Minute, P.Hour)[target], 'precision')
        total = F(h) * 3600 + F(mi or 0) * 60 + F(s or 0)
        wh, rest = divmod(total, 3600)
        if target == 2:
            want = [wh if trunc else wh + rest / 3600, None, None]
        else:
            wm, rest = divmod(rest, 60)
            if target == 1:
                want = [wh, wm if trunc else wm + rest / 60, None]
            else:
                want = [wh, wm, rest.__floor__() if trunc else rest]
        got = r.time.get_time()
        for a, b in zip(got, want):
            ok = (a is None) == (b is None) and (
                a is None or abs(F(a) - F(b)) < F(1, 10 ** 9))
            ctx.check(ok, 'with_precision',
                      "%r precision %i truncate %r: got %r expected %r" % (
                          m, target, trunc, got, [float(x) if x is not None
                                                  else x for x in want]))
        ctx.equal(r.time.get_zone_offset(), z, 'precision-zone')
        ctx.equal(r.date.get_absolute_day(), m.o, 'precision-date')
        ctx.equal(r.complete(), target == 0, 'complete')


WORKLOADS = [
    Workload('compare', case_compare, 1500, 40000),
    Workload('shift', case_shift, 2500, 60000),
    Workload('unix', case_unix, 1500, 30000),
    Workload('offset', case_offset, 2000, 40000),
    Workload('precision', case_precision, 1000, 20000),
]
