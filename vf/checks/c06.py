"""C06: expressing a Time in another timezone never moves it; whole days have no timezone."""
from vf.core import Workload
from vf.timelib import *

TARGETS = ['epsilon/extime.py']
LEVEL = 'exploration'
RULE = ('one case = one Time shown in two timezones (fixed offsets and real zones with summer time); non-trivial = the '
        'instants and local fields were compared')
ASSUMPTIONS = ['values stay inside the datetime range']
MUST_SEE = ('instant', 'wholeday', 'aware-input', 'tzinfo', 'hour-shown-again')


def gen(rng, i, ctx):
    case = dict(t=genSpec(rng, ctx), a=genTz(rng, ctx, 0), b=genTz(rng, ctx), delim=rng.random() < .5,
                inctz=rng.random() < .5)
    if case['a'][0] in ('zone', 'zoneinfo') and rng.random() < .5:
        at = aroundChange(rng, case['a'][1])
        if at:
            case['t'] = ['dt', at, rng.choice((None, case['b']))]
    return case


def run(case, mon):
    s0, r0 = expect(case['t'])
    t = build(case['t'])
    res = {}
    for z in (case['a'], case['b']):
        off = offsetOf(z, s0)
        d = t.asDatetime(tz(z))
        n = t.asNaiveDatetime(tz(z))
        st = t.asStructTime(tz(z))
        if r0 < DAY:
            mon.event('instant')
            mon.eq(d.astimezone(UTC).replace(tzinfo=None), s0, 'instant', z)
            mon.eq(d.utcoffset(), off, 'offset', z)
            loc = s0 + off
        else:
            mon.event('wholeday')
            loc = s0
        mon.check(d.tzinfo is not None, 'aware', z)
        mon.eq(d.replace(tzinfo=None), loc, 'local-fields', z)
        mon.check(n.tzinfo is None, 'naive', z)
        mon.eq(n, loc, 'naive-fields', z)
        mon.eq(tuple(st[:6]), (loc.year, loc.month, loc.day, loc.hour, loc.minute, loc.second), 'struct-fields', z)
        iso = t.asISO8601TimeAndDate(includeDelimiters=case['delim'], tzinfo=tz(z), includeTimezone=case['inctz'])
        res[repr(z)] = iso
        if r0 >= DAY:
            mon.eq(iso, t.asISO8601TimeAndDate(includeDelimiters=case['delim'], includeTimezone=case['inctz']),
                   'iso-depends-on-zone', z)
            mon.check('T' not in iso and '+' not in iso, 'iso-wholeday-has-time', iso)
        elif off % TD(minutes=1) == ZERO:
            # local fields and offset as written
            ds, ts = ('-', ':') if case['delim'] else ('', '')
            want = '%04d%s%02d%s%02dT%02d' % (loc.year, ds, loc.month, ds, loc.day, loc.hour)
            # a value known to the hour still needs its minutes where the zone is not a whole hour from UTC
            if r0 <= TD(minutes=1) or (r0 == TD(hours=1) and loc.minute):
                want += '%s%02d' % (ts, loc.minute)
            if r0 <= TD(seconds=1):
                want += '%s%02d' % (ts, loc.second)
            if r0 < TD(seconds=1) and loc.microsecond:
                want += ('.%06d' % loc.microsecond).rstrip('0')
            if case['inctz'] and r0 <= TD(hours=1):
                a = abs(off) // TD(minutes=1)
                want += '%s%02d%s%02d' % ('-' if off < ZERO else '+', a // 60, ts, a % 60)
            if r0 <= TD(hours=1):
                mon.eq(iso, want, 'iso-text', z, r0)
        mon.sig(z[0] if z else None, r0 >= DAY, (off // TD(minutes=15)), loc.day == s0.day)
    # building from the aware form gives the instant back
    if r0 < DAY:
        mon.event('aware-input')
        if t.asDatetime(tz(case['a'])).fold:
            mon.event('hour-shown-again')
        mon.eq(start(Time.fromDatetime(t.asDatetime(tz(case['a'])))), s0, 'aware-input', case['a'])
    mon.check(abs(t.asPOSIXTimestamp() - ((s0 - DT(1970, 1, 1)) / TD(seconds=1))) < 1e-4, 'posix')
    mon.eq((start(t), t.resolution), (s0, r0), 'value-changed')


def genFO(rng, i, ctx):
    o = genOffset(rng, ctx)
    return dict(off=o, at=genDatetime(rng, ctx))


def runFO(case, mon):
    o = case['off']
    h, m = divmod(abs(o), 60)
    if o < 0:
        h, m = -h, -m
    z = FixedOffset(h, m)
    d = DT(*case['at'], tzinfo=z)
    mon.event('tzinfo')
    mon.eq(d.utcoffset(), TD(minutes=o), 'utcoffset')
    mon.eq(d.dst(), ZERO, 'dst')
    mon.check(isinstance(d.tzname(), str), 'tzname')
    mon.check(isinstance(repr(z), str), 'repr')
    mon.eq(d.astimezone(UTC).replace(tzinfo=None), DT(*case['at']) - TD(minutes=o), 'astimezone')
    mon.eq(d.astimezone(UTC).astimezone(z).replace(tzinfo=None), DT(*case['at']), 'fromutc')
    mon.sig('fo', o)


WORKLOADS = [
    Workload('zones', gen, run, 100000, 2500000),
    Workload('fixedoffset', genFO, runFO, 40000, 800000),
]
