"""Generators and an independent reference for the date/time checks."""
import datetime
import functools
import re
import zoneinfo

import pytz

from epsilon.extime import Time, FixedOffset

TD = datetime.timedelta
DT = datetime.datetime
ZERO = TD(0)
DAY = TD(1)
US = TD(microseconds=1)
UTC = datetime.timezone.utc

ZONES = ['US/Eastern', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe',
         'America/St_Johns', 'Pacific/Apia', 'Pacific/Chatham', 'America/Sao_Paulo', 'Africa/Cairo',
         'Asia/Tehran', 'Antarctica/Troll', 'Pacific/Kiritimati', 'America/Caracas', 'UTC']


class Named(datetime.tzinfo):
    """A whole-minute zone with its own two-offset summer time rule."""
    def __init__(self, std, dst, start, end):
        self.std, self.dstoff = TD(minutes=std), TD(minutes=dst)
        self.start, self.end = start, end

    def _isdst(self, dt):
        k = (dt.month, dt.day, dt.hour)
        return self.start <= k < self.end

    def utcoffset(self, dt):
        return self.dstoff if dt is not None and self._isdst(dt) else self.std

    def dst(self, dt):
        return self.utcoffset(dt) - self.std

    def tzname(self, dt):
        return 'NAMED'


class Folding(Named):
    """The like, which knows the two hours that the clock shows in autumn apart."""
    def _isdst(self, dt):
        k = (dt.month, dt.day, dt.hour)
        return self.start <= k < self.end[:2] + (self.end[2] + (0 if dt.fold else 1),)


@functools.lru_cache(None)
def zoneinfoOf(name):
    """A zone which knows the hours that the clock shows twice apart (from pytz's own copy of the data)."""
    with pytz.open_resource(name) as f:
        return zoneinfo.ZoneInfo.from_file(f, key=name)


@functools.lru_cache(None)
def changesOf(name):
    """The (UTC) instants in 1960..2037 at which the clocks of a zone are changed."""
    z, out = zoneinfoOf(name), []
    at = lambda n: (DT(1960, 1, 1, tzinfo=UTC) + TD(minutes=n)).astimezone(z).utcoffset()
    step, last = 7 * 24 * 60, at(0)
    for n in range(step, 78 * 365 * 24 * 60, step):
        now = at(n)
        if now != last:
            lo, hi = n - step, n
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if at(mid) == last:
                    lo = mid
                else:
                    hi = mid
            out.append(DT(1960, 1, 1) + TD(minutes=hi))
            last = now
    return out


def aroundChange(rng, name):
    """An instant not far from one of them, as a tuple, or None"""
    c = changesOf(name)
    if not c:
        return None
    d = rng.choice(c) + TD(seconds=rng.choice((0, -1, 1, rng.randint(-7200, 7200))), microseconds=rng.choice((0, 0, rng.randint(0, 999999))))
    return (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)


def tz(spec):
    """spec: None | ['fixed', minutes] | ['py', minutes] | ['pytzfixed', minutes] | ['zone', name]"""
    if spec is None:
        return None
    kind, v = spec
    if kind == 'fixed':
        h, m = divmod(abs(v), 60)
        if v < 0:
            h, m = -h, -m
        return FixedOffset(h, m)
    if kind == 'py':
        return datetime.timezone(TD(minutes=v))
    if kind == 'pytzfixed':
        return pytz.FixedOffset(v) if v else pytz.utc
    if kind == 'zone':
        return pytz.timezone(v)
    if kind == 'zoneinfo':
        return zoneinfoOf(v)
    if kind == 'named':
        return Named(v, v + 60, (3, 28, 2), (10, 25, 2))
    if kind == 'folding':
        return Folding(v, v + 60, (3, 28, 2), (10, 25, 2))
    raise ValueError(spec)


def offsetOf(spec, utc):
    """Reference: the offset of the zone at a naive UTC datetime, or None if not whole minutes."""
    if spec is None:
        return ZERO
    if spec[0] in ('fixed', 'py', 'pytzfixed'):
        return TD(minutes=spec[1])
    off = utc.replace(tzinfo=UTC).astimezone(tz(spec)).utcoffset()
    return off


def wallOffset(spec, wall):
    """The offset where a clock shows this."""
    if spec is not None and spec[0] == 'named':
        summer = (3, 28, 2) <= (wall.month, wall.day, wall.hour) < (10, 25, 2)
        return TD(minutes=spec[1] + (60 if summer else 0))
    if spec is not None and spec[0] == 'folding':
        # the earlier of two
        summer = (3, 28, 2) <= (wall.month, wall.day, wall.hour) < (10, 25, 3)
        return TD(minutes=spec[1] + (60 if summer else 0))
    return offsetOf(spec, wall)


def genWallTz(rng, ctx, none=.25):
    """A zone in which clocks can be read: fixed, or with summer time."""
    if rng.random() < .15:
        return [rng.choice(('named', 'folding')), rng.choice((0, 60, -300, 345, 600))]
    return genFixedTz(rng, ctx, none)


def genOffset(rng, ctx):
    k = rng.random()
    if k < .25:
        return 0
    if k < .6:
        return rng.choice((-1, 1)) * (rng.randint(0, 14) * 60 + rng.choice((0, 30, 45, 15)))
    if k < .7:
        return rng.choice((-1439, 1439, -1, 1, -59, 59, -60, 60, -61, 61, 720, -720, 840))
    if k < .8 and ctx.ints:
        v = rng.choice(ctx.ints)
        if abs(v) < 1440:
            return v * rng.choice((-1, 1))
    return rng.randint(-1439, 1439)


def genFixedTz(rng, ctx, none=.25):
    if rng.random() < none:
        return None
    return [rng.choice(('fixed', 'fixed', 'py', 'pytzfixed')), genOffset(rng, ctx)]


def genTz(rng, ctx, none=.2):
    if rng.random() < .3:
        return [rng.choice(('zone', 'zoneinfo')), rng.choice(ZONES)]
    return genFixedTz(rng, ctx, none)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def genYear(rng, ctx, lo=2, hi=9997):
    k = rng.random()
    if k < .5:
        return rng.randint(max(lo, 1950), min(hi, 2060))
    if k < .6:
        return max(lo, min(hi, rng.choice((1900, 2000, 2100, 1600, 2400, 1904, 2004, 2005, 1969, 1970, 1971,
                                           2038, 2037, 2039, 1999, 2001, 400, 9996, 2106, 2009, 2015, 2020, 2026))))
    if k < .7 and ctx.ints:
        v = rng.choice(ctx.ints)
        if lo <= v <= hi:
            return v
    return rng.randint(lo, hi)


def genMicro(rng, ctx):
    k = rng.random()
    if k < .3:
        return 0
    if k < .55:
        return rng.choice((1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 500000, 900000,
                           999999, 999990, 999000, 123456, 120000, 1200, 499999, 500001))
    if k < .65 and ctx.ints:
        v = rng.choice(ctx.ints)
        if 0 <= v < 1000000:
            return v
    return rng.randint(0, 999999)


def genDatetime(rng, ctx, lo=2, hi=9997):
    """-> (y, m, d, H, M, S, us), biased to calendar and clock edges"""
    y = genYear(rng, ctx, lo, hi)
    k = rng.random()
    if k < .15:
        m, d = rng.choice(((1, 1), (12, 31), (2, 28), (3, 1), (12, 29), (1, 4), (1, 3), (6, 30)))
    elif k < .25:
        m = 2
        d = mdays(y, 2)
    elif k < .4:
        m = rng.randint(1, 12)
        d = mdays(y, m)
    else:
        m = rng.randint(1, 12)
        d = rng.randint(1, mdays(y, m))
    if rng.random() < .35:
        H, M, S = rng.choice(((0, 0, 0), (23, 59, 59), (12, 0, 0), (11, 59, 59), (0, 0, 1), (12, 30, 0),
                              (0, 59, 0), (13, 0, 0), (23, 0, 0), (0, 1, 0), (12, 59, 59), (1, 0, 0)))
    else:
        H, M, S = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
    return (y, m, d, H, M, S, genMicro(rng, ctx))


def start(t):
    """The observed start of a Time, as naive UTC."""
    return t.asNaiveDatetime()


# ---------------------------------------------------------------- ISO 8601

def week1(y):
    """naive datetime of the Monday of ISO week 1 of year y"""
    jan4 = DT(y, 1, 4)
    return jan4 - TD(jan4.weekday())


def weeksIn(y):
    return (week1(y + 1) - week1(y)).days // 7


def refISO(s, default=ZERO):
    """
    Independent reader of the ISO 8601 subset.

    @return: ('ok', start-as-naive-UTC, resolution) | ('bad',) | ('unspecified',)
    """
    if not s.isascii() or s.split() != [s]:
        return ('bad',)
    pos = [0]

    def digits(n):
        r = s[pos[0]:pos[0] + n]
        if len(r) == n and r.isdigit():
            pos[0] += n
            return int(r)
        return None

    def lit(c):
        if s[pos[0]:pos[0] + 1] == c and c:
            pos[0] += 1
            return True
        return False

    def run():
        """number of digits and optional single separators from here"""
        i = pos[0]
        n = 0
        while i < len(s) and s[i].isdigit():
            i += 1
            n += 1
        return n
    bad = ('bad',)
    y = digits(4)
    if y is None:
        return bad
    if pos[0] == len(s):
        if y == 0:
            return bad
        if y >= 9999:
            return ('unspecified',)
        return ('ok', DT(y, 1, 1), DT(y + 1, 1, 1) - DT(y, 1, 1))
    lit('-')
    dateOnly = None
    full = True
    if lit('W'):
        w = digits(2)
        if w is None:
            return bad
        if pos[0] == len(s):
            wd, full = 1, False
        else:
            lit('-')
            wd = digits(1)
            if wd is None:
                return bad
        if not (1 <= w <= 53 and 1 <= wd <= 7) or y == 0:
            shape_ok = None
        else:
            shape_ok = True
        if shape_ok and y < 9998:
            if w > weeksIn(y):
                date = None
            else:
                if y == 1 and w == 1:
                    return ('unspecified',)
                date = week1(y) + TD((w - 1) * 7 + wd - 1)
        elif shape_ok:
            return ('unspecified',)
        else:
            date = None
        res = TD(7) if not full else DAY
    else:
        n = run()
        if n == 3:
            o = digits(3)
            date = None
            if y and 1 <= o <= (366 if leap(y) else 365):
                date = DT(y, 1, 1) + TD(o - 1)
            res = DAY
        elif n == 2 or n == 4:
            m = digits(2)
            if pos[0] == len(s):
                full = False
                d = 1
            else:
                lit('-')
                d = digits(2)
                if d is None:
                    return bad
            date = None
            if y and 1 <= m <= 12 and 1 <= d <= mdays(y, m):
                date = DT(y, m, d)
            res = DAY if full else TD(mdays(y, m) if date else 0)
        else:
            return bad
    if pos[0] == len(s):
        if date is None:
            return bad
        if not DT(1, 1, 8) <= date <= DT(9998, 12, 20):
            return ('unspecified',)
        return ('ok', date, res)
    if not full or not lit('T'):
        return bad
    H = digits(2)
    if H is None:
        return bad
    M = S = 0
    us = None
    fr = ''
    res = TD(hours=1)

    def sub():
        save = pos[0]
        lit(':')
        v = digits(2)
        if v is None:
            pos[0] = save
        return v
    v = sub()
    if v is not None:
        M, res = v, TD(minutes=1)
        v = sub()
        if v is not None:
            S, res = v, TD(seconds=1)
            if lit('.') or lit(','):
                n = run()
                if n == 0:
                    return bad
                fr = s[pos[0]:pos[0] + n]
                pos[0] += n
                res = max(US, TD(microseconds=10 ** (6 - n)) if n <= 6 else US)
    off = default
    if pos[0] != len(s):
        if lit('Z'):
            off = ZERO
        else:
            c = s[pos[0]]
            if c not in '+-':
                return bad
            pos[0] += 1
            oh = digits(2)
            if oh is None:
                return bad
            v = sub()
            om = v or 0
            if oh > 23 or om > 59:
                return bad
            off = TD(minutes=oh * 60 + om)
            if c == '-':
                off = -off
    if pos[0] != len(s):
        return bad
    if H > 24 or M > 59 or S > 61:
        return bad
    if date is None:
        return bad
    if H == 24 or S > 59:
        return ('unspecified',)
    when = date + TD(hours=H, minutes=M, seconds=S)
    if fr:
        n = len(fr)
        q, r = divmod(int(fr) * 10 ** 6, 10 ** n)
        if r:
            # finer than the representation: either neighbour will do
            us = (q, min(q + 1, 999999))
        else:
            us = (q, q)
    else:
        us = (0, 0)
    when -= off
    if not DT(1, 1, 8) <= when <= DT(9998, 12, 20):
        return ('unspecified',)
    return ('ok', when, res, us)


def genISO(rng, ctx, lo=2, hi=9997, level=None, delims=None):
    """Make an ISO 8601 string in one of the accepted forms; -> str"""
    y, m, d, H, M, S, us = genDatetime(rng, ctx, lo, hi)
    if level is None:
        level = rng.choice(('year', 'month', 'week', 'day', 'hour', 'minute', 'second', 'frac', 'frac', 'second'))
    k = rng.random()
    if delims is None:
        dsep = (lambda: '-') if k < .45 else (lambda: '') if k < .8 else (lambda: rng.choice(('-', '')))
        tsep = (lambda: ':') if k < .4 else (lambda: '') if k < .75 else (lambda: rng.choice((':', '')))
    else:
        dsep = tsep = None
        dsep = (lambda: '-' if delims else '')
        tsep = (lambda: ':' if delims else '')
    s = '%04d' % y
    if level == 'year':
        return s
    if level == 'month':
        return s + dsep() + '%02d' % m
    iso = DT(y, m, d).isocalendar()
    if level == 'week':
        if rng.random() < .3:
            return s + dsep() + 'W%02d' % (weeksIn(y) if y < 9998 else 52)
        return '%04d%sW%02d' % (iso[0], dsep(), iso[1])
    form = rng.choice(('cal', 'cal', 'week', 'ord'))
    if form == 'cal':
        s += dsep() + '%02d' % m + dsep() + '%02d' % d
    elif form == 'week':
        s = '%04d%sW%02d%s%d' % (iso[0], dsep(), iso[1], dsep(), iso[2])
    else:
        s += dsep() + '%03d' % (DT(y, m, d) - DT(y, 1, 1)).days.__add__(1)
    if level == 'day':
        return s
    s += 'T%02d' % H
    if level in ('minute', 'second', 'frac'):
        s += tsep() + '%02d' % M
    if level in ('second', 'frac'):
        s += tsep() + '%02d' % S
    if level == 'frac':
        if rng.random() < .5:
            f = '%06d' % us
            f = f[:rng.randint(1, 6)]
        elif rng.random() < .3:
            f = rng.choice(('9999999', '99999949', '0', '00', '000000', '0000001', '5', '50', '500000', '9',
                            '999999', '9999995', '1234567', '0000005', '1234565', '999999999999'))
        else:
            f = ''.join(rng.choice('0123456789') for i in range(rng.choice((rng.randint(1, 12),) * 15 + (rng.randint(13, 90), rng.choice((60, 330, 1100))))))
        s += rng.choice('..,') + f
    k = rng.random()
    if k < .3:
        pass
    elif k < .45:
        s += 'Z'
    else:
        o = genOffset(rng, ctx)
        sign = '-' if o < 0 or rng.random() < .05 and o == 0 else '+'
        h, mm = divmod(abs(o), 60)
        s += '%s%02d' % (sign, h)
        if mm or rng.random() < .7:
            s += tsep() + '%02d' % mm
    return s


def build(spec):
    """
    Build a Time from a literal spec.
       ['dt', (y,m,d,H,M,S,us), tzspec-or-None]     naive UTC or aware
       ['iso', string]
       ['struct', (y,m,d,H,M,S)]
       ['posix', number]
       ['res', spec, microseconds]     any of the above with its resolution set
    """
    k = spec[0]
    if k == 'dt':
        d = DT(*spec[1])
        if spec[2] is not None:
            d = d.replace(tzinfo=UTC).astimezone(tz(spec[2]))
        return Time.fromDatetime(d)
    if k == 'iso':
        return Time.fromISO8601TimeAndDate(spec[1])
    if k == 'struct':
        return Time.fromStructTime(tuple(spec[1]) + (0, 0, 0))
    if k == 'posix':
        return Time.fromPOSIXTimestamp(spec[1])
    if k == 'res':
        t = build(spec[1])
        t.resolution = TD(microseconds=spec[2])
        return t
    raise ValueError(spec)


def expect(spec):
    """Reference for build: (start, resolution)."""
    k = spec[0]
    if k == 'dt':
        return DT(*spec[1]), US
    if k == 'iso':
        r = refISO(spec[1])
        assert r[0] == 'ok', spec
        us = r[3] if len(r) > 3 else (0, 0)
        assert us[0] == us[1], spec
        return r[1] + TD(microseconds=us[0]), r[2]
    if k == 'struct':
        return DT(*spec[1]), TD(seconds=1)
    if k == 'posix':
        return DT(1970, 1, 1) + TD(seconds=spec[1]), ZERO
    if k == 'res':
        return expect(spec[1])[0], TD(microseconds=spec[2])


def genSpec(rng, ctx, lo=3, hi=9996, coarse=True, res=True):
    k = rng.random()
    if k < .45:
        s = ['dt', genDatetime(rng, ctx, lo, hi), genTz(rng, ctx, .6)]
        if s[2] and s[2][0] == 'zoneinfo' and rng.random() < .5:
            s[1] = aroundChange(rng, s[2][1]) or s[1]
        try:
            DT(*s[1]).replace(tzinfo=UTC).astimezone(tz(s[2]) if s[2] else UTC)
        except OverflowError:
            s[2] = None
    elif k < .8:
        while True:
            lv = None if coarse else rng.choice(('hour', 'minute', 'second', 'frac'))
            s = ['iso', genISO(rng, ctx, lo, hi, lv)]
            r = refISO(s[1])
            if r[0] == 'ok' and (len(r) < 4 or r[3][0] == r[3][1]):
                break
    elif k < .9:
        s = ['struct', genDatetime(rng, ctx, lo, hi)[:6]]
    else:
        s = ['posix', (DT(*genDatetime(rng, ctx, lo, hi)[:6]) - DT(1970, 1, 1)).days * 86400 + rng.randint(0, 86399)]
    if res and rng.random() < .15:
        s = ['res', s, rng.choice((0, 1, 1000, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6,
                                   86400 * 10 ** 6 - 1, 86400 * 10 ** 6 + 1, 7 * 86400 * 10 ** 6,
                                   rng.randint(0, 40 * 86400 * 10 ** 6)))]
    return s
