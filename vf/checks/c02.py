"""C02: an ISO 8601 string denotes exactly the period it names."""
from vf.core import Workload
from vf.timelib import *

TARGETS = ['epsilon/extime.py']
LEVEL = 'exploration'
RULE = ('one case = one string: a valid ISO 8601 form built from calendar edges, or a corrupted one, judged by an '
        'independent reader; non-trivial = the reader classified it and the parse was compared')
ASSUMPTIONS = ['hour 24, leap seconds and periods outside the datetime range are unspecified',
               'fraction digits beyond microseconds may round either way']
MUST_SEE = ('valid', 'invalid', 'summer-time')


def gen(rng, i, ctx):
    return dict(s=genISO(rng, ctx), tz=genWallTz(rng, ctx))


ALPHABET = '0123456789-:TZW+.,-: Wtzw/'


def genBad(rng, i, ctx):
    k = rng.random()
    if k < .45:
        # out-of-range fields in well shaped strings
        y = genYear(rng, ctx)
        f = rng.choice(('month', 'day', 'week', 'weekday', 'ord', 'hour', 'minute', 'second', 'offset', 'w53', 'd366', 'monthend'))
        sep = rng.choice(('-', ''))
        c = rng.choice((':', ''))
        tail = rng.choice(('', 'T00', 'T12%s30' % c, 'T01%s02%s03Z' % (c, c), 'T01%s02%s03.5-05%s00' % (c, c, c)))
        if f == 'month':
            s = '%04d%s%02d' % (y, sep, rng.choice((0, 13, 14, 20, 99, rng.randint(13, 99))))
            if rng.random() < .5:
                s += sep + '01' + tail
        elif f == 'day':
            m = rng.randint(1, 12)
            s = '%04d%s%02d%s%02d' % (y, sep, m, sep, rng.choice((0, mdays(y, m) + 1, 32, rng.randint(32, 99)))) + tail
        elif f == 'monthend':
            m = rng.choice((2, 4, 6, 9, 11))
            s = '%04d%s%02d%s%02d' % (y, sep, m, sep, rng.randint(mdays(y, m), 31)) + tail
        elif f == 'week':
            s = '%04d%sW%02d' % (y, sep, rng.choice((0, 54, 99, rng.randint(54, 99))))
            if rng.random() < .5:
                s += sep + '1' + tail
        elif f == 'w53':
            s = '%04d%sW53' % (y, sep)
            if rng.random() < .5:
                s += sep + rng.choice('1234567') + tail
        elif f == 'weekday':
            s = '%04d%sW%02d%s%s' % (y, sep, rng.randint(1, 52), sep, rng.choice('089')) + tail
        elif f == 'ord':
            s = '%04d%s%03d' % (y, sep, rng.choice((0, 367, 400, 999, rng.randint(367, 999)))) + tail
        elif f == 'offset':
            s = '%04d%s%02d%s%02dT%02d%s%02d' % (y, sep, 5, sep, 6, rng.randint(0, 23), c, rng.randint(0, 59)) + rng.choice('+-')
            s += '%02d%s%02d' % (rng.choice((rng.randint(0, 23), 0, 24, rng.randint(24, 99))), c, rng.choice((60, 61, rng.randint(60, 99))))
        elif f == 'd366':
            s = '%04d%s366' % (y, sep) + tail
        else:
            H, M, S = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
            if f == 'hour':
                H = rng.randint(25, 99)
            elif f == 'minute':
                M = rng.randint(60, 99)
            else:
                S = rng.randint(62, 99)
            s = '%04d%s%02d%s%02dT%02d%s%02d%s%02d' % (y, sep, 5, sep, 6, H, c, M, c, S)
            if rng.random() < .4:
                s += 'Z'
        return dict(s=s, tz=genWallTz(rng, ctx))
    s = genISO(rng, ctx)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        op = rng.random()
        p = rng.randint(0, max(0, len(s) - 1))
        if op < .3:
            s = s[:p] + s[p + 1:]
        elif op < .6:
            s = s[:p] + rng.choice(ALPHABET) + s[p:]
        elif op < .85:
            s = s[:p] + rng.choice(ALPHABET) + s[p + 1:]
        elif op < .88:
            s = s[:p]
        elif op < .9:
            # digits to Python, but not to ISO 8601
            p = rng.choice([k for k, c in enumerate(s) if c.isdigit()] or [0])
            z = rng.choice((0xff10, 0x660, 0x966, 0x1d7ce))
            s = s[:p] + (chr(z + int(s[p])) if s[p:p + 1].isdigit() and s.isascii() else '') + s[p + 1:]
        elif op < .95:
            s = s + rng.choice((' ', 'Z', '-', '+', ':', '00', '+00', 'T', '.', ',5', s[-3:], '\n', '\r\n', '\t', '\x00', '\n\n'))
        else:
            s = rng.choice((' ', '-', '+', 'x', '0', 'T', 'W')) + s
    return dict(s=s, tz=genWallTz(rng, ctx))


def shape(s):
    return re.sub('[0-9]', '9', re.sub(r'[.,]\d+', '.f', s))


def run(case, mon):
    s, zone = case['s'], case['tz']
    r = refISO(s)
    if r[0] == 'ok' and zone is not None:
        # the clock of the zone, unless the text has its own
        r = refISO(s, wallOffset(zone, r[1]))
        if zone[0] == 'named':
            mon.event('summer-time')
    if r[0] == 'unspecified':
        mon.event('unspecified')
        return
    if r[0] == 'bad':
        mon.event('invalid', s)
        mon.sig('bad', shape(s))
        mon.raises(ValueError, 'accepted-invalid', Time.fromISO8601TimeAndDate, s, tz(zone))
        return
    mon.event('valid', s)
    mon.sig('ok', shape(s), r[2])
    try:
        t = Time.fromISO8601TimeAndDate(s, tz(zone))
    except Exception as e:
        mon.fail('rejected-valid', s, zone, repr(e))
    us = r[3] if len(r) > 3 else (0, 0)
    got = start(t)
    mon.check(r[1] + TD(microseconds=us[0]) <= got <= r[1] + TD(microseconds=us[1]),
              'start', s, zone, 'got', got, 'expected', r[1], us)
    mon.eq(t.resolution, r[2], 'resolution', s)
    mon.eq(t.isTimezoneDependent(), r[2] < DAY, 'tz-dependence', s)


FIXED = [dict(s=s, tz=None) for s in '''2005 2005-01 200501 2005-W01 2005W01 2005-W53 2004-W53 2009-W53 2005-060 2005060
2004-060 2004-366 2005-366 2005-W01-1 2005W017 2004-12-31T23:59:59.999999-00:30 2005-01-01T00:00:00-05:30
2005-02 2004-02 1900-02 2000-02 1900 2000 2100 0002 9997 0000 0000-01-01 2005-12 2005-11 2005-1 200 20055 2005- 2005-W
2005-T00 2005-01T00 2005-W01T00 20050101T 2005-01-01T1 2005-01-01T101 2005-01-01T10:1 2005-01-01T10:10:1
2005-01-01T10:10:10. 2005-01-01T10.5 2005-01-01Z 2005-01-01+00 2005-01-01T10:10:10,5 2005-01-01T10Z 2005-01-01T10-03'''.split()]
# every month and year length, week count and ordinal edge of a full Gregorian cycle
def genCal(rng, i, ctx):
    y = 1601 + i % 400 + 400 * rng.randint(0, 18)
    return dict(y=y)


def runCal(case, mon):
    y = case['y']
    for s in ['%04d' % y] + ['%04d-%02d' % (y, m) for m in range(1, 13)] + \
             ['%04d-%03d' % (y, d) for d in (1, 59, 60, 61, 365, 366)] + \
             ['%04d-W%02d' % (y, w) for w in (1, 2, 9, 10, 51, 52, 53)] + \
             ['%04d-W%02d-%d' % (y, w, d) for w in (1, 52, 53) for d in (1, 3, 4, 7)] + \
             ['%04d-02-28' % y, '%04d-02-29' % y, '%04d-12-31' % y, '%04d-04-31' % y]:
        run(dict(s=s, tz=None), mon)


WORKLOADS = [
    Workload('valid', gen, run, 160000, 4000000, fixed=FIXED),
    Workload('corrupt', genBad, run, 160000, 4000000),
    Workload('calendar', genCal, runCal, 4000, 40000),
]
