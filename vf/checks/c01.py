"""C01: Time values survive a round trip through every format."""
from vf.core import Workload
from vf.timelib import *

TARGETS = ['epsilon/extime.py']
LEVEL = 'exploration'
RULE = ('one case = one time value (calendar/clock/resolution edges over years 3..9996) pushed through every '
        'formatter and back in one timezone; non-trivial = at least one round trip was compared')
ASSUMPTIONS = ['offsets are whole minutes; RFC 2822 only for years > 100 (the standard library reads two-digit years as recent ones); values stay inside datetime range',
               'an hour-resolution value keeps its resolution in ISO 8601 only in zones where it starts on the hour',
               'a value of a day or coarser is round-tripped through datetime, struct_time and RFC 2822 in UTC only']
MUST_SEE = ('posix', 'datetime', 'struct', 'rfc2822', 'rfc1123', 'iso', 'iso-coarse', 'iso-unaligned')


def gen(rng, i, ctx):
    return dict(t=genSpec(rng, ctx, res=False), tz=genTz(rng, ctx), fixed=genFixedTz(rng, ctx),
                delim=rng.random() < .5, inctz=rng.random() < .6, dow=rng.random() < .5)


def run(case, mon):
    s0, r0 = expect(case['t'])
    t = build(case['t'])
    mon.eq(start(t), s0, 'construct', case['t'])
    sec = s0.replace(microsecond=0)
    dayish = r0 >= DAY
    kind = case['t'][0], r0, case['tz'] and case['tz'][0]
    mon.sig(*kind)

    def same(t2, want, rule, *d):
        mon.eq(start(t2), want, rule, *d)
        if want == s0:
            mon.check(t2 == t and not (t2 != t), rule, 'not equal to the original', *d)
    # POSIX
    mon.event('posix')
    p = t.asPOSIXTimestamp()
    t2 = Time.fromPOSIXTimestamp(p)
    if abs(p) < 2 ** 32 or s0.microsecond == 0:
        same(t2, s0, 'posix', p)
    else:
        mon.check(abs(start(t2) - s0) <= TD(microseconds=40), 'posix', p, start(t2), s0)
    zone, fixed = case['tz'], case['fixed']
    if dayish:
        zone = fixed = None
    # datetime
    mon.event('datetime')
    d = t.asDatetime(tz(zone))
    same(Time.fromDatetime(d), s0, 'datetime', zone, d)
    same(Time.fromDatetime(t.asNaiveDatetime()), s0, 'naive-datetime')
    # struct_time
    mon.event('struct')
    st = t.asStructTime(tz(fixed))
    same(Time.fromStructTime(st, tz(fixed)), sec, 'struct', fixed, st)
    # RFC 2822 and 1123
    off = offsetOf(zone, s0)
    if 102 <= s0.year and off % TD(minutes=1) == ZERO:
        mon.event('rfc2822')
        r = t.asRFC2822(tz(zone), includeDayOfWeek=case['dow'])
        same(Time.fromRFC2822(r), sec, 'rfc2822', zone, r)
        mon.event('rfc1123')
        r = t.asRFC1123()
        want = sec
        if abs(p) >= 2 ** 32:
            # a float timestamp cannot hold microseconds this far from the epoch
            got = start(Time.fromRFC2822(r))
            if got == (s0 + TD(microseconds=40)).replace(microsecond=0):
                want = got
        same(Time.fromRFC2822(r), want, 'rfc1123', r)
    # ISO 8601
    zone = case['tz']
    back = None
    if not case['inctz']:
        zone = fixed
        back = tz(zone)
    off = offsetOf(zone, s0)

    def aligned(off):
        # an hour-long period can only be written to the hour where it starts on the hour;
        # elsewhere the instant must survive
        return r0 != TD(hours=1) or (s0 + off).minute == 0
    if dayish or off % TD(minutes=1) == ZERO:
        s = t.asISO8601TimeAndDate(includeDelimiters=case['delim'], tzinfo=tz(zone),
                                   includeTimezone=case['inctz'])
        mon.event('iso', s)
        t2 = Time.fromISO8601TimeAndDate(s, back)
        same(t2, s0, 'iso', zone, s)
        if not dayish and not aligned(off):
            mon.event('iso-unaligned')
        elif r0 >= TD(seconds=1):
            mon.event('iso-coarse')
            mon.eq(t2.resolution, r0, 'iso-resolution', s)
    same(Time.fromISO8601TimeAndDate(str(t)), s0, 'iso-str', str(t))
    mon.eq((start(t), t.resolution), (s0, r0), 'formatting-changed-the-value')


def genPosix(rng, i, ctx):
    k = rng.random()
    if k < .3:
        v = rng.randint(-2 ** 32, 2 ** 32)
    elif k < .5:
        v = rng.choice((0, 1, -1, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, -2 ** 31 - 1, 86400, 86399, -86400, 951782400,
                        253370764800, -62000000000)) + rng.choice((-1, 0, 1))
    elif k < .9:
        v = rng.randint(-2 ** 31, 2 ** 32) + rng.randint(0, 999999) * 1e-6
    else:
        v = rng.uniform(-6e10, 2.5e11)
    return dict(v=v)


def runPosix(case, mon):
    v = case['v']
    t = Time.fromPOSIXTimestamp(v)
    mon.event('posix')
    got = t.asPOSIXTimestamp()
    if isinstance(v, int):
        mon.eq(got, v, 'posix-int')
        mon.eq(start(t), DT(1970, 1, 1) + TD(v // 86400, v % 86400), 'posix-start')
    else:
        mon.check(abs(got - v) <= max(1.01e-6, abs(v) * 5e-16), 'posix-float', v, got)
    mon.sig('posix', type(v).__name__, v < 0, len(str(int(abs(v)))))


WORKLOADS = [
    Workload('formats', gen, run, 160000, 4000000),
    Workload('posix', genPosix, runPosix, 80000, 2000000),
]
