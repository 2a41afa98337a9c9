"""C05: what a human types means what it says; what is shown is the local time."""
from vf.core import Workload
from vf.timelib import *
from epsilon.extime import InvalidPrecision

TARGETS = ['epsilon/extime.py']
LEVEL = 'exploration'
RULE = ('one case = one phrase, one "now" and one fixed-offset timezone (minute, noon, midnight and date-line edges), '
        'or one Time displayed relative to a "now"; compared with an independent calculation; non-trivial = compared')
ASSUMPTIONS = ['fixed-offset timezones for typed times of day; relative dates (today, weekdays) are UTC dates',
               'displayed years >= 1000, C locale']
MUST_SEE = ('weekday', 'relative-day', 'clock', 'noonmidnight', 'now', 'rejected', 'display-same-day',
            'display-other-day', 'display-other-year', 'display-all-day', 'precision-error', 'default-now', 'whole-day-now', 'display-longer')
DAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']
WS = ['', ' ', '  ', '\t', '\n', ' \t ']


def casing(rng, s):
    k = rng.random()
    if k < .4:
        return s
    if k < .6:
        return s.upper()
    if k < .8:
        return s.title()
    return ''.join(rng.choice((c.upper(), c.lower())) for c in s)


def gen(rng, i, ctx):
    now = genDatetime(rng, ctx, 20, 9990)
    off = genFixedTz(rng, ctx)
    kind = rng.choice(('weekday', 'day', 'clock', 'clock', 'clock', 'noon', 'now', 'bad'))
    arg = None
    if kind == 'weekday':
        wd = rng.randint(0, 6)
        s = rng.choice(('', 'next ', 'this ', 'next  ', 'this\t')) + DAYS[wd]
        arg = wd
    elif kind == 'day':
        s = arg = rng.choice(('today', 'tomorrow', 'yesterday'))
    elif kind == 'clock':
        if rng.random() < .4:
            # around "now" itself, in the given timezone
            loc = DT(*now) + offsetOf(off, DT(*now)) + TD(minutes=rng.choice((-1, 0, 1, 60, -60, 720, -720)))
            h, m = loc.hour, loc.minute
        else:
            h, m = rng.choice((0, 11, 12, 13, 23, rng.randint(0, 23))), rng.choice((0, 1, 30, 59, rng.randint(0, 59)))
        if rng.random() < .5:
            s = ('%02d:%02d' if rng.random() < .6 else '%d:%02d') % (h, m)
        else:
            s = ('%02d:%02d' if rng.random() < .6 else '%d:%02d') % (h % 12 or 12, m) + rng.choice(('', ' ', '  ')) + \
                ('am' if h < 12 else 'pm')
        arg = (h, m)
    elif kind == 'noon':
        s = rng.choice(('noon', 'midnight'))
        arg = (12, 0) if s == 'noon' else (0, 0)
    elif kind == 'now':
        s = 'now'
    else:
        s = rng.choice(('', 'nowish', 'next', 'next tomorrow', 'todayx', 'mon', 'next week', '24:00', '25:10', '99:99',
                        '12:60', '12:6', '123:00', '0:00 am', '13:00 pm', '13:00 am', '0:30 pm', '00:00 pm', '10 am', '10am',
                        'at noon', 'noon today', 'this midnight', '10:00 xm', '10:00 a', '-1:00', '1:00:00', 'monday tuesday',
                        'last monday', 'tomorrow 10:00', '2005-01-01', 'yesterdays', 'noonmidnight', '12:00  p m', '7'))
    return dict(s=rng.choice(WS) + casing(rng, s) + rng.choice(WS), kind=kind, arg=arg, now=now, tz=off,
                day=rng.random() < .15)


def run(case, mon):
    now = DT(*case['now'])
    kind = case['kind']
    if case.get('day'):
        # "now" is some whole day: the same one everywhere
        now = DT(now.year, now.month, now.day)
        tn = Time.fromISO8601TimeAndDate('%04d-%02d-%02d' % (now.year, now.month, now.day))
        mon.event('whole-day-now')
    else:
        tn = Time.fromDatetime(now)
    zone = tz(case['tz'])
    if kind == 'bad':
        mon.event('rejected', case['s'])
        mon.sig('bad', case['s'].strip().lower())
        mon.raises(ValueError, 'accepted-nonsense', Time.fromHumanly, case['s'], zone, tn)
        return
    try:
        t = Time.fromHumanly(case['s'], zone, tn)
    except Exception as e:
        mon.fail('rejected', case['s'], case['tz'], repr(e))
    today = DT(now.year, now.month, now.day)
    off = offsetOf(case['tz'], now)
    if kind == 'weekday':
        mon.event('weekday')
        d = today + DAY
        while d.weekday() != case['arg']:
            d += DAY
        want = (d, DAY)
        mon.sig('weekday', now.weekday(), case['arg'])
    elif kind == 'day':
        mon.event('relative-day')
        want = (today + {'today': ZERO, 'tomorrow': DAY, 'yesterday': -DAY}[case['arg']], DAY)
        mon.sig('day', case['arg'])
    elif kind == 'now':
        mon.event('now')
        want = (now, US)
    else:
        mon.event('clock' if kind == 'clock' else 'noonmidnight')
        h, m = case['arg']
        loc = now if case.get('day') else now + off
        minute = loc.replace(second=0, microsecond=0)
        then = minute.replace(hour=h, minute=m)
        if then < minute:
            then += DAY
        want = (then - off, TD(minutes=1))
        mon.sig(kind, (then - minute) // TD(minutes=30), off)
    mon.eq((start(t), t.resolution), want, 'meaning', case['s'], 'now', now, case['tz'])
    mon.eq(start(tn), now, 'now-changed')


def genShow(rng, i, ctx):
    now = genDatetime(rng, ctx, 1002, 9990)
    zone = genTz(rng, ctx)
    k = rng.random()
    if k < .05:
        # the beginning of something longer than a day
        y, m = now[0], now[1]
        how = rng.choice(('month', 'year', 'week'))
        d = DT(y, m, 1) if how == 'month' else DT(y, 1, 1) if how == 'year' else week1(y) + 7 * rng.randint(0, 51) * DAY
        near = d + rng.choice((0, 0, 0, 1, -1)) * DAY
        return dict(t=['iso', '%04d-%02d' % (y, m) if how == 'month' else '%04d' % y if how == 'year' else '%04d-W%02d' % (y, (d - week1(y)).days // 7 + 1)],
                    now=(near.year, near.month, near.day, now[3], now[4], now[5], now[6]), tz=zone, prec=rng.choice(('M', 'S', None)), day=rng.random() < .5)
    if k < .3:
        d = TD(minutes=rng.randint(-1500, 1500), seconds=rng.randint(0, 59), microseconds=genMicro(rng, ctx))
    elif k < .6:
        d = TD(days=rng.randint(-400, 400), seconds=rng.randint(0, 86399))
    else:
        d = None
    if d is None:
        sp = genSpec(rng, ctx, lo=1002, hi=9990, res=False)
    else:
        w = DT(*now) + d
        f = (w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond)
        sp = rng.choice((['dt', f, None], ['struct', f[:6]], ['iso', '%04d-%02d-%02d' % f[:3]]))
    return dict(t=sp, now=now, tz=zone, prec=rng.choice(('M', 'S', None)), day=rng.random() < .15)


MO = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def runShow(case, mon):
    s0, r0 = expect(case['t'])
    t = build(case['t'])
    now = DT(*case['now'])
    nl = now + offsetOf(case['tz'], now)
    tn = Time.fromDatetime(now)
    if case.get('day'):
        nl = now = DT(now.year, now.month, now.day)
        tn = Time.fromISO8601TimeAndDate('%04d-%02d-%02d' % (now.year, now.month, now.day))
        mon.event('whole-day-now')
    loc = s0 if r0 >= DAY else s0 + offsetOf(case['tz'], s0)
    clock = '%02d:%02d' % (loc.hour % 12 or 12, loc.minute)
    if case['prec'] == 'S':
        clock += ':%02d' % loc.second
    clock += ' am' if loc.hour < 12 else ' pm'
    allday = r0 == DAY
    if r0 > DAY:
        mon.event('display-longer')
    if loc.date() == nl.date():
        want = 'all day' if allday else clock
        mon.event('display-same-day')
    else:
        want = '%d %s' % (loc.day, MO[loc.month - 1])
        mon.event('display-other-day')
        if loc.year != nl.year:
            want += ' %d' % loc.year
            mon.event('display-other-year')
        if not allday:
            want += ', ' + clock
    if allday:
        mon.event('display-all-day')
    kw = {}
    if case['prec']:
        kw['precision'] = Time.Precision.MINUTES if case['prec'] == 'M' else Time.Precision.SECONDS
    got = t.asHumanly(tz(case['tz']), tn, **kw)
    mon.eq(got, want, 'display', case['t'], 'now', now, case['tz'])
    mon.sig('show', allday, loc.date() == nl.date(), loc.year == nl.year, loc.hour, case['prec'])
    mon.event('precision-error')
    for bad in (None, 'minutes', 1, object()):
        mon.raises(InvalidPrecision, 'precision', t.asHumanly, tz(case['tz']), tn, precision=bad)


def genDefault(rng, i, ctx):
    return dict(s=rng.choice(('today', 'tomorrow', 'now', 'noon', '10:00', 'monday', '12:00 am')), tz=genFixedTz(rng, ctx), d=rng.choice((0, 0, 1, -1, 400, -40)) * 86400 + rng.randint(-90000, 90000),
                how=rng.choice(('all', 'named', 'none')), day=rng.random() < .3)


def runDefault(case, mon):
    """With no current time given, that of the clock is used."""
    mon.event('default-now')
    zone = tz(case['tz'])
    kw = {'all': {'tzinfo': zone, 'now': None}, 'named': {'tzinfo': zone}, 'none': {}}[case['how']]
    other = {'tzinfo': zone} if case['how'] != 'none' else {}
    t0 = Time()
    t = Time.fromHumanly(case['s'], **kw)
    t1 = Time()
    if t0 > t1:
        return          # the clock was set back
    if case['s'] == 'now':
        mon.check(t0 <= t <= t1, 'default-now', t0, t, t1)
    else:
        want = [Time.fromHumanly(case['s'], now=x, **other) for x in (t0, t1)]
        mon.check(start(t) in [start(w) for w in want], 'default-now', case['s'], t, want)
        mon.check(t.resolution == want[0].resolution, 'default-now-resolution', t.resolution)
    base = Time() + TD(seconds=case['d'])
    if case['day']:
        base = base.oneDay()
    t0 = Time()
    shown = base.asHumanly(**kw)
    t1 = Time()
    mon.check(t0 > t1 or shown in [base.asHumanly(now=x, **other) for x in (t0, t1)], 'default-now-shown', shown, base)
    mon.sig('default', case['s'], case['how'], case['day'])


WORKLOADS = [
    Workload('default-now', genDefault, runDefault, 2000, 40000),
    Workload('typed', gen, run, 160000, 4000000),
    Workload('shown', genShow, runShow, 80000, 2000000),
]
