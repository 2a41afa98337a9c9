"""C03: RFC 2822, RFC 1123 and struct_time say what they mean."""
from vf.core import Workload
from vf.timelib import *
from epsilon.extime import sanitizeStructTime

TARGETS = ['epsilon/extime.py']
LEVEL = 'exploration'
RULE = ('one case = one instant and timezone formatted, or one RFC 2822 string / struct_time built from fields and '
        'parsed, compared with fields computed independently; non-trivial = a comparison was made')
ASSUMPTIONS = ['years > 100 in RFC 2822 text (two-digit years are reinterpreted by the standard library)']
MUST_SEE = ('format', 'parse', 'clamp', 'malformed', 'struct', 'sanitize', 'shown-twice')
WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MO = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def genFmt(rng, i, ctx):
    return dict(t=genSpec(rng, ctx, lo=102, coarse=False, res=False), tz=genTz(rng, ctx), dow=rng.random() < .6)


def runFmt(case, mon):
    s0, r0 = expect(case['t'])
    t = build(case['t'])
    off = offsetOf(case['tz'], s0)
    if off % TD(minutes=1):
        return
    loc = s0 + off
    mon.event('format')
    s = t.asRFC2822(tz(case['tz']), includeDayOfWeek=case['dow'])
    m = re.match(r'^(?:([A-Z][a-z]{2}), )?(\d{1,2}) ([A-Z][a-z]{2}) (\d{4}) (\d\d):(\d\d):(\d\d) ([+-]\d{4})$', s)
    mon.check(m is not None, 'rfc2822-syntax', s)
    if case['tz'] is None:
        z = '-0000'
    else:
        a = abs(off) // TD(minutes=1)
        z = '%s%02d%02d' % ('-' if off < ZERO else '+', a // 60, a % 60)
    want = (WD[loc.weekday()] if case['dow'] else None, loc.day, MO[loc.month - 1], loc.year,
            loc.hour, loc.minute, loc.second, z)
    got = (m.group(1), int(m.group(2)), m.group(3)) + tuple(map(int, m.group(4, 5, 6, 7))) + (m.group(8),)
    mon.eq(got, want, 'rfc2822-fields', s)
    mon.sig('fmt', want[0], z, loc.month)
    if abs((s0 - DT(1970, 1, 1)).days) < 49000:
        s = t.asRFC1123()
        mon.eq(s, '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
            WD[s0.weekday()], s0.day, MO[s0.month - 1], s0.year, s0.hour, s0.minute, s0.second), 'rfc1123')
    st = t.asStructTime(tz(case['tz']))
    mon.event('struct')
    mon.eq(tuple(st[:8]), loc.timetuple()[:8], 'struct-fields')


ZN = [('GMT', 0), ('UT', 0), ('EST', -300), ('EDT', -240), ('CST', -360), ('CDT', -300), ('MST', -420), ('MDT', -360),
      ('PST', -480), ('PDT', -420)]


def genParse(rng, i, ctx):
    y, m, d, H, M, S, us = genDatetime(rng, ctx, 102, 9996)
    clamp = None
    if rng.random() < .35:
        clamp = rng.choice(('hour', 'minute', 'second', 'day', 'day0'))
        if clamp == 'hour':
            H = rng.randint(24, 99)
        elif clamp == 'minute':
            M = rng.randint(60, 99)
        elif clamp == 'second':
            S = rng.choice((60, 61, 60, rng.randint(60, 99)))
        else:
            d = 0 if clamp == 'day0' else rng.choice((mdays(y, m) + 1, 31, 32, rng.randint(32, 99)))
    if rng.random() < .2:
        zn, off = rng.choice(ZN)
    elif rng.random() < .08:
        zn, off = '', 0
    else:
        off = genOffset(rng, ctx)
        zn = '%s%02d%02d' % ('-' if off < 0 or (off == 0 and rng.random() < .5) else '+', abs(off) // 60, abs(off) % 60)
    return dict(f=(y, m, d, H, M, S), zone=zn, off=off, dow=rng.choice((None, 'right', 'any')),
                pad=rng.random() < .5, secs=(clamp == 'second' or rng.random() < .85), clamp=clamp)


def runParse(case, mon):
    y, m, d, H, M, S = case['f']
    if not case['secs']:
        S = 0
    c = (y, m, max(1, min(d, mdays(y, m))), min(H, 23), min(M, 59), min(S, 59))
    loc = DT(*c)
    s = ''
    if case['dow'] == 'right':
        s = WD[loc.weekday()] + ', '
    elif case['dow'] == 'any':
        s = WD[(d + H) % 7] + ', '
    s += ('%02d' if case['pad'] else '%d') % d + ' %s %04d %02d:%02d' % (MO[m - 1], y, H, M)
    if case['secs']:
        s += ':%02d' % S
    if case['zone']:
        s += ' ' + case['zone']
    mon.event('clamp' if case['clamp'] else 'parse', s)
    mon.sig('parse', case['clamp'], case['zone'], case['dow'], case['secs'])
    try:
        t = Time.fromRFC2822(s)
    except Exception as e:
        mon.fail('rfc2822-rejected', s, repr(e))
    mon.eq(start(t), loc - TD(minutes=case['off']), 'rfc2822-parse', s)
    mon.eq(t.resolution, TD(seconds=1), 'rfc2822-resolution', s)


WORDS = ['', 'garbage', 'Mon', 'yesterday', 'Mon, Tue, Wed', 'xx xx xx', 'Jan', 'the 4th of July', 'asdf ghjk lqwe 12 rt',
         'Foo 99', 'hello world this is not a date', 'Mon, 4 Foo 2005 10:10:10 +0000', '4 Jan 2005 aa:bb:cc +0000',
         'Mon, xx Jan 2005 10:10:10 +0000', 'Mon, 4 Jan yyyy 10:10:10 +0000', '4 Janu 2005']


def genMal(rng, i, ctx):
    s = rng.choice(WORDS)
    if rng.random() < .4:
        s = ' '.join(''.join(rng.choice('abcdefgxyz') for _ in range(rng.randint(1, 6))) for _ in range(rng.randint(1, 6)))
    return dict(s=s)


def runMal(case, mon):
    from email.utils import parsedate_tz
    try:
        if parsedate_tz(case['s']) is not None:
            mon.event('parsable-after-all')
            return
    except Exception:
        return
    mon.event('malformed', case['s'])
    mon.sig('mal', case['s'])
    mon.raises(ValueError, 'rfc2822-malformed', Time.fromRFC2822, case['s'])


def genStruct(rng, i, ctx):
    zone = genWallTz(rng, ctx)
    f = genDatetime(rng, ctx, 3, 9996)[:6]
    if zone is not None and zone[0] in ('named', 'folding') and rng.random() < .5:
        # when the clock is changed
        f = tuple(f[:1]) + rng.choice(((10, 25), (3, 28))) + (rng.randint(0, 4),) + tuple(f[4:6])
    return dict(f=f, tail=(rng.randint(0, 6), rng.randint(1, 366), rng.choice((-1, 0, 1))),
                tz=zone, real=rng.random() < .5,
                wild=[rng.choice((v, rng.randint(-5, 100), rng.randint(-20000, 20000), 0, mx, mx + 1, mn, mn - 1))
                      for v, mx, mn in ((2005, 9999, 1), (6, 12, 1), (15, 31, 1), (10, 23, 0), (10, 59, 0), (10, 59, 0))])


def runStruct(case, mon):
    import time
    f = tuple(case['f'])
    st = f + tuple(case['tail'])
    if case['real']:
        st = time.struct_time(st)
    t = Time.fromStructTime(st, tz(case['tz']))
    mon.event('struct')
    if case['tz'] is not None and case['tz'][0] == 'folding' and f[1:4] == (10, 25, 2):
        mon.event('shown-twice')
    mon.eq(start(t), DT(*f) - wallOffset(case['tz'], DT(*f)), 'struct-parse', st, case['tz'])
    mon.eq(t.resolution, TD(seconds=1), 'struct-resolution')
    w = tuple(case['wild']) + tuple(case['tail'])
    mx = (9999, 12, 31, 23, 59, 59)
    mn = (1, 1, 1, 0, 0, 0)
    want = tuple(hi if v > hi else lo if v < lo else v for v, hi, lo in zip(w, mx, mn)) + w[6:]
    want = want[:2] + (min(want[2], mdays(*want[:2])),) + want[3:]
    mon.event('sanitize')
    got = sanitizeStructTime(w)
    mon.eq(tuple(got), want, 'sanitize', w)
    mon.sig('sanitize', tuple((v > hi) - (v < lo) for v, hi, lo in zip(w, mx, mn)))


WORKLOADS = [
    Workload('format', genFmt, runFmt, 120000, 3000000),
    Workload('parse', genParse, runParse, 120000, 3000000),
    Workload('malformed', genMal, runMal, 4000, 60000),
    Workload('struct', genStruct, runStruct, 60000, 1500000),
]
