"""C04: ordering, equality, arithmetic, containment and bounds agree with instants and periods."""
import functools
from vf.core import Workload
from vf.timelib import *

TARGETS = ['epsilon/extime.py']
LEVEL = 'exploration'
RULE = ('one case = a handful of Times of mixed resolutions built close to one another (ties, adjacent and nested '
        'periods), all operators applied to every pair and compared with exact integer-microsecond arithmetic; '
        'non-trivial = at least one pair was compared')
ASSUMPTIONS = ['values stay inside the datetime range']
MUST_SEE = ('pair', 'contain-true', 'contain-false', 'arith', 'bounds', 'bounds-across-summer-time', 'oneday', 'type-error')


def gen(rng, i, ctx):
    base = genSpec(rng, ctx, lo=30, hi=9900)
    specs = [base]
    s0, r0 = expect(base)
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < .25:
            specs.append(genSpec(rng, ctx, lo=30, hi=9900))
            continue
        d = rng.choice((ZERO, US, -US, r0, -r0, r0 - US, r0 + US, TD(seconds=1), -TD(seconds=1), DAY, -DAY,
                        TD(hours=rng.randint(-30, 30)), TD(microseconds=rng.randint(-10 ** 13, 10 ** 13))))
        w = s0 + d
        sp = ['dt', (w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond), None]
        if rng.random() < .6:
            room = max(0, (r0 - d) // US)
            sp = ['res', sp, rng.choice((0, 1, room, room + 1, max(0, room - 1), 86400 * 10 ** 6, 3600 * 10 ** 6, r0 // US))]
        specs.append(sp)
    return dict(specs=specs, delta=(rng.randint(-9000, 9000), rng.randint(0, 86399), genMicro(rng, ctx)),
                tz=genWallTz(rng, ctx))


def run(case, mon):
    ts = [build(s) for s in case['specs']]
    ex = [expect(s) for s in case['specs']]
    for t, (s, r), sp in zip(ts, ex, case['specs']):
        mon.eq((start(t), t.resolution), (s, r), 'construct', sp)
        mon.eq(t.isAllDay(), r == DAY, 'isAllDay', sp)
        mon.eq(t.isTimezoneDependent(), r < DAY, 'isTimezoneDependent', sp)
    for i, a in enumerate(ts):
        for j, b in enumerate(ts):
            (sa, ra), (sb, rb) = ex[i], ex[j]
            mon.event('pair')
            got = (a < b, a <= b, a > b, a >= b, a == b, a != b)
            mon.eq(got, (sa < sb, sa <= sb, sa > sb, sa >= sb, sa == sb, sa != sb), 'order', case['specs'][i], case['specs'][j])
            inside = sb <= sa and sa + ra <= sb + rb
            mon.event('contain-true' if inside else 'contain-false')
            mon.eq(a in b, inside, 'containment', case['specs'][i], case['specs'][j])
            mon.eq(a - b, sa - sb, 'difference', case['specs'][i], case['specs'][j])
            mon.sig('pair', sa < sb, sa == sb, ra < rb, ra == rb, inside, ra >= DAY, rb >= DAY)
    srt = sorted(range(len(ts)), key=lambda k: ts[k])
    mon.eq([ex[k][0] for k in srt], sorted(e[0] for e in ex), 'sorted')
    mon.eq(start(min(ts)), min(e[0] for e in ex), 'min')
    mon.eq(start(max(ts)), max(e[0] for e in ex), 'max')
    td = TD(*case['delta'])
    for t, (s, r) in zip(ts, ex):
        mon.event('arith')
        for got, want in ((t + td, s + td), (t - td, s - td), ((t + td) - td, s)):
            mon.eq(start(got), want, 'arith', case['delta'])
            mon.check(got.resolution <= US, 'arith-resolution', got.resolution)
        mon.eq((t + td) - t, td, 'arith-difference')
        mon.event('oneday')
        d = t.oneDay()
        mon.eq((start(d), d.resolution), (DT(s.year, s.month, s.day), DAY), 'oneDay')
        mon.check(d.isAllDay() and d <= t, 'oneDay-order')
        mon.eq(t in d, s + r <= DT(s.year, s.month, s.day) + DAY, 'oneDay-contains')
        mon.event('bounds')
        off, offEnd = wallOffset(case['tz'], s), wallOffset(case['tz'], s + r)
        lo, hi = t.getBounds(tz(case['tz']))
        if r >= DAY and case['tz'] is not None:
            want = (min(s, s - off), max(s + r, s + r - offEnd))
            if off != offEnd:
                mon.event('bounds-across-summer-time')
        else:
            want = (s, s + r)
        mon.eq((start(lo), start(hi)), want, 'bounds', case['tz'], r)
        lo, hi = t.getBounds()
        mon.eq((start(lo), start(hi)), (s, s + r), 'bounds-utc')
        mon.eq((start(t), t.resolution), (s, r), 'operand-changed')
    t = ts[0]
    mon.event('type-error')
    for other in (None, 5, ex[0][0], 'x', object()):
        mon.eq(t == other, False, 'eq-foreign', other)
        mon.eq(t != other, True, 'ne-foreign', other)
        for op in (lambda: t < other, lambda: t > other, lambda: t <= other, lambda: t >= other):
            mon.raises(TypeError, 'order-foreign', op)
        mon.raises(TypeError, 'contains-foreign', lambda: other in t)
    for other in (None, 5, 'x', 1.5):
        mon.raises(TypeError, 'add-foreign', lambda: t + other)
        mon.raises(TypeError, 'sub-foreign', lambda: t - other)


def genNow(rng, i, ctx):
    return dict(n=i)


def runNow(case, mon):
    """Time() is now: bracketed by the system clock and monotone with it."""
    import time
    a = time.time()
    t = Time()
    b = time.time()
    mon.event('now')
    p = t.asPOSIXTimestamp()
    if b >= a:      # unless the clock was stepped back meanwhile
        mon.check(a - 1e-3 <= p <= b + 1e-3, 'now', a, p, b)
    mon.sig("now", case.get("_TZ"))


WORKLOADS = [
    Workload('operators', gen, run, 30000, 900000),
    Workload('now', genNow, runNow, 64, 1000),
]
