"""C31: benchmark statistics say what was measured: disk counters, directory sizes, devices, and the reported records."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import time

from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from twisted.python.filepath import FilePath
from twisted.internet import error, reactor
from twisted.python import log as twlog

from vf.core import Workload
from vf.benchlib import benchmark, treeSize, populate, parseBoxes

TARGETS = ['epsilon/scripts/benchmark.py']
LEVEL = 'exploration'
RULE = ('one case = generated disk statistics, mount tables, directory trees or snapshots given to the real functions (real files, '
        'real working directories); the results are compared with an independent reading, and reported records are read back with '
        'an independent parser; non-trivial = a result was compared')
ASSUMPTIONS = ['no symbolic links to directories', 'the tree does not change while it is measured']
MUST_SEE = ('disk-line', 'partition-line', 'bytes-line', 'text-line', 'extra-fields', 'device', 'unknown-device', 'sibling-mount',
            'overmount', 'root-mount', 'blank-in-mount-point', 'tree', 'hard-link', 'dangling-link', 'file-link', 'record', 'record-without-disk', 'record-without-partition',
            'appended', 'device-lost', 'device-appeared', 'snapshot', 'slow-snapshot', 'bench-ok', 'bench-stderr', 'bench-status', 'bench-died', 'bench-timeout', 'bench-other')

DISK = ('readCount', 'mergedReadCount', 'readSectorCount', 'readMilliseconds', 'writeCount', 'mergedWriteCount', 'writeSectorCount',
        'writeMilliseconds', 'outstandingIOCount', 'ioMilliseconds', 'weightedIOMilliseconds')
PART = ('readCount', 'readSectorCount', 'writeCount', 'writeSectorCount')


def num(rng):
    return rng.choice((0, 1, rng.randint(0, 99), rng.randint(0, 10**6), 2**31, 2**32 - 1, 2**32, 2**63, 10**20 + 1, 65536))


# -- /proc/diskstats

def genLines(rng, i, ctx):
    lines = []
    for j in range(rng.randint(0, 6)):
        part = rng.random() < .4
        n = 4 if part else rng.choice((11, 11, 15, 17, 17))
        lines.append([rng.randint(0, 300), rng.randint(0, 64), rng.choice(('hda', 'sda1', 'vda', 'loop0', 'cciss!c0d0', 'nvme0n1p3', 'md127',
                                                                            '0', 'dm-0', 'x' * 40)) + rng.choice(('', str(j))),
                      [num(rng) for _ in range(n)], rng.choice((' ', '   ', '\t', '  ')), rng.choice((' ', '   '))])
    return dict(lines=lines, kind=rng.choice(('bytes', 'text')), nl=rng.random() < .8)


def runLines(case, mon):
    text = []
    for a, b, name, vals, s1, s2 in case['lines']:
        text.append('%s%4d%s%d%s%s %s' % (s2 if s2 != ' ' else '', a, s1, b, s1, name, ' '.join(map(str, vals))))
        if len(vals) > 11:
            mon.event('extra-fields')
    conv = (lambda s: s.encode('ascii')) if case['kind'] == 'bytes' else (lambda s: s)
    mon.event(case['kind'] + '-line')
    want = []
    for (a, b, name, vals, _, _), L in zip(case['lines'], text):
        names = PART if len(vals) == 4 else DISK
        cls = benchmark.partitionstat if len(vals) == 4 else benchmark.diskstat
        want.append((name, cls, dict(zip(names, vals))))
        mon.event('partition-line' if len(vals) == 4 else 'disk-line')

    def judge(got, w):
        dev, stat = got
        mon.check(type(dev) is str and dev == w[0], 'device-name', dev, w[0])
        mon.check(isinstance(stat, w[1]), 'record-type', stat, w[1])
        mon.eq({k: getattr(stat, k) for k in w[2]}, w[2], 'counters', dev)
    for L, w in zip(text, want):
        judge(benchmark.parseDiskStatLine(conv(L + ('\n' if case['nl'] else ''))), w)
    body = '\n'.join(text) + ('\n' if text and case['nl'] else '')
    f = io.BytesIO(body.encode('ascii')) if case['kind'] == 'bytes' else io.StringIO(body)
    got = list(benchmark.parseDiskStats(f))
    mon.eq(len(got), len(want), 'line-count')
    for g, w in zip(got, want):
        judge(g, w)
    mon.sig('lines', [(len(l[3]), l[2]) for l in case['lines']], case['kind'])


# -- the device of the working directory

def genMounts(rng, i, ctx):
    cwd = [rng.choice(('a', 'ab', 'data', 'x1', 'a.b', 'a b', 'a\tb', 'a\\b', ' ', 'a\\040b', '\u00e9t\u00e9')) for _ in range(rng.randint(1, 5))]
    mounts = []
    for j in range(rng.randint(0, 8)):
        k = rng.random()
        dev = rng.choice(('/dev/hda1', '/dev/sdb', 'tmpfs', 'proc', 'rootfs', 'zfs/pool', '/dev/mapper/v-l', 'none', 'overlay', '~dev')) + rng.choice(('', str(j)))
        if k < .5:
            m = ['in', rng.randint(0, len(cwd))]
        elif k < .7:
            n = rng.randint(1, len(cwd))
            m = ['sibling', n]
        elif k < .8:
            m = ['root']
        elif k < .9:
            m = ['below', rng.choice(('z', 'a'))]
        else:
            m = ['elsewhere', rng.choice(('/proc', '/sys', '/nonexistent/x'))]
        mounts.append([dev, m])
    return dict(cwd=cwd, mounts=mounts)


def runMounts(case, mon):
    base = os.path.realpath(tempfile.mkdtemp(prefix='mnt'))
    old = os.getcwd()
    try:
        cwd = os.path.join(base, *case['cwd'])
        os.makedirs(cwd)
        lines = []
        best = None
        for dev, m in case['mounts']:
            if m[0] == 'in':
                p = os.path.join(base, *case['cwd'][:m[1]])
            elif m[0] == 'sibling':
                # a directory whose name merely starts ours
                p = os.path.join(base, *case['cwd'][:m[1]])[:-1]
                if p.endswith('/'):
                    p = '/elsewhere'
                mon.event('sibling-mount')
            elif m[0] == 'root':
                p = '/'
                mon.event('root-mount')
            elif m[0] == 'below':
                p = os.path.join(cwd, m[1])
            else:
                p = m[1]
            escaped = p.replace('\\', '\\134').replace(' ', '\\040').replace('\t', '\\011')
            if escaped != p:
                mon.event('blank-in-mount-point')
            lines.append('%s %s ext3 rw,noatime 0 0\n' % (dev, escaped))
            comps = [c for c in p.split('/') if c]
            mine = [c for c in cwd.split('/') if c]
            if mine[:len(comps)] == comps:
                if best and best[0] == len(comps):
                    mon.event('overmount')
                if best is None or len(comps) >= best[0]:
                    best = (len(comps), dev)
        table = os.path.join(base, 'mounts.txt')
        with open(table, 'w') as f:
            f.writelines(lines)
        os.chdir(cwd)
        got = benchmark.discoverCurrentWorkingDevice(table)
        if best is None:
            mon.eq(got, '<unknown>', 'unknown-device', lines)
            mon.event('unknown-device')
        else:
            mon.eq(got, best[1], 'working-device', cwd, lines)
            mon.event('device')
        mon.sig('mounts', [m for _, m in case['mounts']], len(case['cwd']))
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)


# -- sizes and snapshots

def genTree(rng, i, ctx):
    def name():
        parts = [rng.choice(('d', 'e', '.hidden', 'é', 'f g')) for _ in range(rng.choice((0, 0, 1, 2, 4)))]
        return '/'.join(parts + [rng.choice(('f', 'g', '.h', 'x.py', 'ß')) + str(rng.randint(0, 9))])

    def spec():
        out = []
        for _ in range(rng.randint(0, 7)):
            k = rng.random()
            if k < .15:
                out.append([name(), 'hard'])
            elif k < .75:
                out.append([name(), rng.choice((0, 1, 100, 4095, 4096, 70000))])
            else:
                out.append([name(), 'link', rng.choice(('nowhere', 'no/such/target', 'x' * 60, 'FILE'))])
        return out
    return dict(first=spec(), second=spec(), empty=rng.randint(0, 2), disk=rng.randint(0, 20), part=rng.randint(0, 20))


def runTree(case, mon):
    base = tempfile.mkdtemp(prefix='tree')
    try:
        target = os.path.join(base, 'target-file')
        with open(target, 'wb') as f:
            f.write(b'z' * 321)
        root = os.path.join(base, 'root')
        os.mkdir(root)

        def apply(spec):
            for s in spec:
                if s[1] == 'hard':
                    # another name of a file there already, counting like any other
                    f = os.path.join(root, s[0])
                    old = [os.path.join(a, n) for a, _, c in sorted(os.walk(root)) for n in sorted(c)]
                    old = [o for o in old if not os.path.islink(o)]
                    if old and not os.path.lexists(f):
                        os.makedirs(os.path.dirname(f), exist_ok=True)
                        os.link(old[0], f)
                        mon.event('hard-link')
                elif len(s) == 3:
                    f = os.path.join(root, s[0])
                    if os.path.lexists(f):
                        continue
                    mon.event('file-link' if s[2] == 'FILE' else 'dangling-link')
                    populate(root, [[s[0], 'link', target if s[2] == 'FILE' else s[2]]])
                else:
                    f = os.path.join(root, s[0])
                    if os.path.islink(f):
                        continue
                    populate(root, [s])
        for j in range(case['empty']):
            os.makedirs(os.path.join(root, 'empty', str(j)))
        apply(case['first'])
        p = FilePath(root)
        mon.eq(benchmark.getSize(p), treeSize(root), 'tree-size')
        mon.eq(benchmark.getSectorSize(p), os.statvfs(root).f_bsize, 'sector-size')
        mon.event('tree')
        for f in sorted(os.listdir(root)):
            q = os.path.join(root, f)
            try:
                want = os.stat(q).st_size
            except FileNotFoundError:
                want = len(os.fsencode(os.readlink(q)))
            mon.eq(benchmark.getOneSize(p.child(f)), want, 'one-size', f)
        # snapshots
        names = sorted(stats()) if os.path.exists('/proc/diskstats') else None
        if names is not None:
            disk = names[case['disk'] % len(names)] if names and case['disk'] % 3 else 'no-such-disk'
            part = names[case['part'] % len(names)] if names and case['part'] % 3 else 'no-such-part'
            ch = benchmark.Change()
            a = take(ch.start, p, disk, part, root)
            judge(mon, ch.before, a, disk, part)
            apply(case['second'])
            b = take(ch.stop, p, disk, part, root)
            judge(mon, ch.after, b, disk, part)
            judge(mon, ch.before, a, disk, part)
            slowly(mon, root, disk, part)
        mon.event('snapshot')
        mon.sig('tree', sorted(map(repr, case['first']))[:6], len(case['second']))
    finally:
        shutil.rmtree(base, ignore_errors=True)


class SlowPath(FilePath):
    """Looking through this takes a long time (of a simulated clock)."""
    tick = staticmethod(lambda: None)

    def walk(self, *a, **kw):
        self.tick()
        for x in FilePath.walk(self, *a, **kw):
            self.tick()
            yield x


def slowly(mon, root, disk, part):
    """Taking the snapshots is not part of what is measured."""
    real, realOpen = time.time, io.open
    ahead = [0]

    def tick():
        ahead[0] += 100

    def slowOpen(name, *a, **kw):
        if name == '/proc/diskstats':
            tick()
        return realOpen(name, *a, **kw)
    p = SlowPath(root)
    p.tick = tick
    time.time = lambda: real() + ahead[0]
    io.open = slowOpen
    try:
        ch = benchmark.Change()
        ch.start(p, disk, part)
        begun = time.time()
        ahead[0] += 7000
        ended = time.time()
        ch.stop(p, disk, part)
    finally:
        time.time, io.open = real, realOpen
    mon.event('slow-snapshot')
    mon.check(abs(ch.before.time - begun) < 60, 'measuring-was-measured', 'start', begun - ch.before.time)
    mon.check(abs(ch.after.time - ended) < 60, 'measuring-was-measured', 'stop', ch.after.time - ended)


def stats():
    out = {}
    with open('/proc/diskstats') as f:
        for L in f:
            p = L.split()
            out[p[2]] = list(map(int, p[3:14]))
    return out


def take(fn, p, disk, part, root):
    s1 = stats()
    t1 = time.time()
    size = treeSize(root)
    fn(p, disk, part)
    return s1, t1, size, time.time(), stats()


def judge(mon, snap, seen, disk, part):
    s1, t1, size, t2, s2 = seen
    mon.eq(snap.size, size, 'snapshot-size')
    mon.check(t1 - 1e-3 <= snap.time <= t2 + 1e-3, 'snapshot-time', snap.time, t1, t2)
    for what, name, got in (('disk', disk, snap.disk), ('partition', part, snap.partition)):
        if name not in s1:
            mon.eq(got, None, 'snapshot-' + what)
            continue
        names = PART if len(s1[name]) == 4 else DISK
        for k, lo, hi in zip(names, s1[name], s2[name]):
            if k != 'outstandingIOCount':
                mon.check(lo <= getattr(got, k) <= hi or hi < lo, 'snapshot-' + what, name, k, getattr(got, k), lo, hi)


# -- the report

def genReport(rng, i, ctx):
    def snap():
        return [rng.choice((0, 1.5, 1e9 + .1, 0.1, 1 / 3., 3, 1700000000.123456, 1e-9)), [num(rng) for _ in range(11)],
                [num(rng) for _ in range(4)], num(rng)]
    return dict(records=[[rng.choice(('frunk', 'a/b.py', 'é', 'with: colon', 'two words', 'x' * 300, '日本', ' led', 'trailed ', '', 'Frunk', 'two\nlines', 'x.py', '-')), rng.choice((512, 4096, 1)),
                          snap(), snap(), rng.random() < .5, rng.random() < .5,
                          rng.choice(('both', 'both', 'nodisk', 'nopart', 'none', 'diskpart', 'lost', 'appeared'))]
                         for _ in range(rng.randint(1, 3))])


def expectRecord(mon, b, name, sector, s, e, err, tmo, mode):
    want = dict(_command='Result', version='0', error=repr(err), timeout=repr(tmo), name=name, host=benchmark.hostname,
                sector_size=str(sector), python_version=str(sys.hexversion), filesystem_growth=str(e[3] - s[3]))
    if mode in ('both', 'nodisk'):
        for k, j in (('read_count', 0), ('read_sectors', 1), ('write_count', 2), ('write_sectors', 3)):
            want[k] = str(e[2][j] - s[2][j])
    elif mode == 'diskpart':
        for k, j in (('read_count', 0), ('read_sectors', 2), ('write_count', 4), ('write_sectors', 6)):
            want[k] = str(e[1][j] - s[1][j])
    if mode in ('both', 'nopart', 'diskpart'):
        for k, j in (('read_ms', 3), ('write_ms', 7)):
            want[k] = str(e[1][j] - s[1][j])
    got = dict(b)
    mon.eq(float(got.pop('elapsed')), float(e[0] - s[0]), 'elapsed')
    import twisted
    import epsilon
    want['twisted_version'] = twisted.version.short()
    want['divmod_version'] = epsilon.version.short()
    mon.eq(got, want, 'record')


def runReport(case, mon):
    d = tempfile.mkdtemp(prefix='rep')
    old = os.getcwd()
    os.chdir(d)
    try:
        def snapshot(s, mode):
            disk = benchmark.diskstat(*s[1]) if mode not in ('nodisk', 'none') else None
            part = benchmark.partitionstat(*s[2]) if mode not in ('nopart', 'none') else None
            if mode == 'diskpart':
                part = benchmark.diskstat(*s[1])
            return benchmark.ResourceSnapshot(time=s[0], disk=disk, partition=part, size=s[3])
        sofar = b''
        for name, sector, s, e, err, tmo, mode in case['records']:
            # 'lost': the device was there at the start, but not at the end
            # 'appeared': the other way round
            begin = {'lost': 'both', 'appeared': 'none'}.get(mode, mode)
            end = {'lost': 'none', 'appeared': 'both'}.get(mode, mode)
            if mode in ('lost', 'appeared'):
                mon.event('device-' + mode)
                mode = 'none'
            res = benchmark.formatResults(name, sector, snapshot(s, begin), snapshot(e, end), err, tmo)
            boxes = parseBoxes(res)
            mon.eq(len(boxes), 1, 'one-record')
            expectRecord(mon, boxes[0], name, sector, s, e, err, tmo, mode)
            mon.event('record')
            if mode in ('nodisk', 'none'):
                mon.event('record-without-disk')
            if mode in ('nopart', 'none'):
                mon.event('record-without-partition')
            with contextlib.redirect_stdout(io.StringIO()):
                benchmark.reportResults(res)
            sofar += res
            with open('output', 'rb') as f:
                mon.eq(f.read(), sofar, 'appended')
            mon.event('appended')
            mon.sig('rec', mode, err, tmo, name[:5])
        mon.eq(sorted(os.listdir('.')), ['output'], 'other-files')
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# -- outcome to report

def genOutcome(rng, i, ctx):
    out = []
    for _ in range(rng.randint(0, 5)):
        out.append([rng.choice((1, 1, 1, 5)), rng.choice((b'x', b'', b'line\n'))])
    how = rng.choice(('ok', 'ok', 'stderr', 'status', 'died', 'timeout', 'other'))
    if how == 'stderr':
        out.insert(rng.randint(0, len(out)), [2, rng.choice((b'!', b'Traceback', b'\0', b'\n'))])
    out.append([2, None])
    if rng.random() < .5:
        out.append([1, None])
    return dict(how=how, out=out, status=rng.choice((1, 256, 9)) if how == 'status' else 0, name=rng.choice(('n', 'bench mark', 'é')),
                when=rng.choice(('direct', 'deferred')))


class FakeProto(object):
    pass


def runOutcome(case, mon):
    d = tempfile.mkdtemp(prefix='out')
    old = os.getcwd()
    os.chdir(d)
    try:
        R = benchmark.ResourceSnapshot
        proto = FakeProto()
        proto.overallChange = benchmark.Change()
        proto.overallChange.before = R(time=10, disk=None, partition=None, size=5)
        proto.overallChange.after = R(time=30, disk=None, partition=None, size=50)
        proto.benchmarkChange = benchmark.Change()
        proto.benchmarkChange.before = R(time=11, disk=None, partition=None, size=7)
        proto.benchmarkChange.after = R(time=12.5, disk=None, partition=None, size=19)
        res = Deferred()
        calls = []
        output = [tuple(o) for o in case['out']]

        def function():
            calls.append(1)
            if case['when'] == 'deferred':
                # the result may itself be waited for
                res.addBoth(lambda r: more.addCallback(lambda _: r))
            return res
        more = Deferred()

        def go():
            how = case['how']
            if how == 'died':
                res.errback(Failure(benchmark.ProcessDied(3, None, 768, output)))
            elif how == 'timeout':
                res.errback(Failure(error.TimeoutError()))
            elif how == 'other':
                res.errback(Failure(LookupError('odd')))
            else:
                res.callback((proto, case['status'], output))
        log = []

        def run(*a, **k):
            log.append('run')
            mon.eq(calls, [1], 'started')
            if case['when'] == 'deferred':
                go()
                mon.eq(log, ['run'], 'stopped-before-the-end')
                more.callback(None)
            else:
                go()
            log.append('returned')

        def stop():
            log.append('stop')
        saved = {n: reactor.__dict__.get(n) for n in ('run', 'stop')}
        reactor.run, reactor.stop = run, stop
        start, twlog.startLogging = twlog.startLogging, lambda *a, **k: None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                benchmark.bench(case['name'], FilePath(d), function)
        finally:
            twlog.startLogging = start
            for n, v in saved.items():
                if v is None:
                    delattr(reactor, n)
                else:
                    setattr(reactor, n, v)
        mon.eq(log, ['run', 'stop', 'returned'], 'reactor-stopped-at-the-end')
        mon.eq(calls, [1], 'run-once')
        boxes = []
        if os.path.exists('output'):
            with open('output', 'rb') as f:
                boxes = parseBoxes(f.read())
        if case['how'] in ('ok', 'stderr', 'status'):
            mon.eq([b['name'] for b in boxes], [case['name'] + '-overall', case['name'] + '-benchmark'], 'records')
            for b, el, gr in zip(boxes, (20, 1.5), ('45', '12')):
                mon.eq(float(b['elapsed']), el, 'elapsed')
                mon.eq(b['filesystem_growth'], gr, 'growth')
                mon.eq(b['error'], repr(case['how'] != 'ok'), 'error-flag', case)
                mon.eq(b['timeout'], 'False', 'timeout-flag')
                mon.eq(b['sector_size'], str(os.statvfs(d).f_bsize), 'sector-size')
        else:
            mon.eq(boxes, [], 'nothing-to-report')
        mon.event('bench-' + case['how'])
        mon.sig('outcome', case['how'], case['out'], case['when'])
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


WORKLOADS = [Workload('diskstats', genLines, runLines, 6000, 120000),
             Workload('mounts', genMounts, runMounts, 6000, 80000),
             Workload('trees', genTree, runTree, 2400, 40000),
             Workload('report', genReport, runReport, 4000, 60000),
             Workload('outcome', genOutcome, runOutcome, 3000, 40000)]
