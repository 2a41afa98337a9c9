"""C30: a supervised benchmark process yields exactly one truthful outcome, and is killed exactly when it has been silent too long."""
import builtins
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from twisted.internet import error, reactor
from twisted.internet.task import Clock
from twisted.python.failure import Failure

from vf.core import Workload, REPO

from vf.benchlib import benchmark, treeSize, populate, genBytes, parseBoxes

TARGETS = ['epsilon/scripts/benchmark.py']
LEVEL = 'exploration'
RULE = ('one case = a history of output, descriptor closing, start/stop notifications, silence and process death fed to the real '
        'process protocol on a simulated clock, or a real benchmark script run in real processes; a monitor judges the outcome, the '
        'signals sent, the acknowledgements, and what the recorded statistics measured; non-trivial = an outcome was judged')
ASSUMPTIONS = ['the reactor reports the end of the process after all its output',
               'files below the working directory only change where the history says so']
MUST_SEE = ('success', 'died', 'timeout', 'other-failure', 'kill', 'quit', 'ack', 'reset-by-data', 'reset-by-close', 'just-in-time',
            'grown', 'real', 'reported', 'no-report', 'idle-after-end', 'late-data', 'success-though-late', 'disk-measured', 'wrong-ack-refused', 'acked')
LIMIT = 900.0
DEVICES = ['/dev/sda3', '/dev/hdb12', '/dev/vda', 'tmpfs', 'zfs/pool7', '/dev/md127', '/dev/mapper/v-l', '/dev/sda', '/dev/sdc10', '/dev/hdb100']
DISKS = ['sda', 'sda1', 'sda3', 'hdb', 'hdb1', 'hdb12', 'vda', 'pool', 'md', 'md127', 'mapper', 'sd', 'dev', 'sdc', 'sdc1', 'sdc10', 'hdb100']


def gen(rng, i, ctx):
    kind = rng.choice(('basic', 'bench'))
    ops = []
    for _ in range(rng.randint(0, 14)):
        k = rng.random()
        if k < .35:
            ops.append(['data', rng.choice((1, 2, 1, 2, 0, 5) if kind == 'bench' else (1, 2, 3)), genBytes(rng, rng.choice((0, 1, 5, 40)))])
        elif k < .45:
            ops.append(['close', rng.choice((0, 1, 2, 3, 4))])
        elif k < .75:
            ops.append(['wait', rng.choice((0, 1, 10, 899, 899.5, 899.9375, 900, 900, 901, 450, 600, 599, 601, 2000, 300.25))])
        elif k < .85:
            ops.append(['grow', [['f%d' % rng.randint(0, 3), rng.choice((0, 1, 10, 4096, 5000))]]])
        elif kind == 'bench':
            ops.append(['mark', [0, 1] * rng.randint(40, 150) if rng.random() < .04 else rng.choice(([0], [1], [0, 1], [0, 1, 0, 1], [0], [1], [0, 1, 7], [9], [49]))])
    end = rng.choice(('done', 'done', 'done', 'exit', 'signal', 'other', 'none-status'))
    return dict(kind=kind, ops=ops, end=[end, rng.randint(1, 255), rng.choice((1, 2, 9, 11, 15))],
                kill=rng.choice(('nested', 'later', 'later', 'stubborn', 'stubborn')),
                args=[rng.choice(('a', '-x', '', 'b c', '--', 'é')) for _ in range(rng.randint(0, 3))],
                env=[['K%d' % j, rng.choice(('v', '', 'w=1'))] for j in range(rng.randint(0, 3))],
                tree=[['d/s%d' % j, rng.choice((0, 3, 700, 5000))] for j in range(rng.randint(0, 3))],
                atspawn=rng.choice(([], [['early', 9]], [['early', 5000]])),
                afterack=rng.choice((0, 0, 11, 5000)), dev=rng.choice(DEVICES))


class Process(object):
    """What Twisted gives a process protocol as its transport."""
    pid = 4242

    def __init__(self, sim):
        self.sim = sim
        self.signals = []
        self.written = []

    def signalProcess(self, name):
        self.sim.onSignal(name)

    def writeToChild(self, fd, data):
        self.sim.onWrite(fd, data)

    def write(self, data):
        self.sim.onWrite(0, data)

    def closeStdin(self):
        pass

    def closeChildFD(self, fd):
        pass

    def loseConnection(self):
        pass


class Sim(object):
    def __init__(self, case, mon, root):
        self.case, self.mon, self.root = case, mon, root
        self.clock = Clock()
        self.signals = []       # (time, name)
        self.out = []           # outcomes
        self.ended = False
        self.expected = []      # output
        self.bad = False
        self.acks = b''
        self.last = None        # time of last activity
        self.timedOut = False
        self.writes = 0
        self.looks = 0          # how often the disk statistics were read

    def open(self, name, mode='r', *a, **kw):
        if name == '/proc/diskstats':
            self.looks += 1
            text = ''.join('   8 %d %s %s\n' % (k, d, ' '.join(str(self.looks * 1000 + k) for _ in range(11))) for k, d in enumerate(DISKS))
        elif name in ('/proc/self/mounts', '/proc/mounts', '/etc/mtab') and self.case.get('dev'):
            text = 'proc /proc proc rw 0 0\n%s / ext4 rw 0 0\n' % (self.case['dev'],)
        else:
            return self.realOpen(name, mode, *a, **kw)
        return io.BytesIO(text.encode()) if 'b' in mode else io.StringIO(text)

    def judgeDisk(self, snap):
        """A snapshot just taken says how the device the work happens on is doing."""
        if not self.case.get('dev'):
            return
        part = self.case['dev'].split('/')[-1]
        for what, name, got in (('partition', part, snap.partition), ('disk', part.rstrip('0123456789'), snap.disk)):
            if name in DISKS:
                want = self.looks * 1000 + DISKS.index(name)
                self.mon.check(got is not None and got.readCount == want == got.writeCount, 'measured-' + what, name, got, want)
                self.mon.event('disk-measured')
            else:
                self.mon.eq(got, None, 'measured-' + what, name)

    def spawn(self):
        case, mon = self.case, self.mon
        cls = benchmark.BenchmarkProcess if case['kind'] == 'bench' else benchmark.BasicProcess
        populate(self.root, case['tree'])
        spawned = []
        env = dict(map(tuple, case['env']))

        def spawnProcess(proto, executable, args=(), env={}, path=None, uid=None, gid=None, usePTY=0, childFDs=None):
            spawned.append((proto, executable, list(args), path, env, childFDs))
            populate(self.root, case['atspawn'])
            return self.process
        self.process = Process(self)
        self.size0 = treeSize(self.root)
        self.t0 = time.time()
        d = cls.spawn('/x/python', list(case['args']), self.root, env, spawnProcess)
        mon.eq(len(spawned), 1, 'spawned-once')
        proto, executable, args, path, gotenv, fds = spawned[0]
        if case['kind'] == 'bench':
            self.judgeDisk(proto.overallChange.before)
        mon.eq(executable, '/x/python', 'executable')
        mon.eq(args, ['/x/python'] + case['args'], 'arguments')
        mon.eq(os.fspath(path), self.root, 'working-directory')
        mon.eq(dict(gotenv), env, 'environment')
        mon.eq({k: v for k, v in (fds or {}).items()}, {0: 'w', 1: 'r', 2: 'r', 3: 'r', 4: 'w'}, 'descriptors')
        d.addBoth(self.finished)
        self.proto = proto
        mon.eq(self.out, [], 'finished-before-start')
        self.spawned = time.time()
        proto.makeConnection(self.process)
        self.last = self.clock.seconds()

    def finished(self, result):
        self.out.append(result)
        if len(self.out) > 1:
            self.mon.note('outcome-more-than-once', self.out)
        if not self.ended:
            self.mon.note('outcome-before-the-end', result)

    def onSignal(self, name):
        self.mon.event('signal', name)
        self.signals.append((self.clock.seconds(), name))
        if self.ended:
            self.mon.note('signal-after-end', name)
        if name == 'KILL':
            self.timedOut = True
            if self.case['kill'] == 'nested':
                self.end('signal', 0, 9)
            elif self.case['kill'] == 'later':
                self.clock.callLater(3, self.end, 'signal', 0, 9)

    def onWrite(self, fd, data):
        mon = self.mon
        if self.case['kind'] != 'bench' or fd != 4:
            mon.note('unexpected-write', fd, data)
            return
        if self.bad:
            return
        for k in range(len(data)):
            self.acks += data[k:k + 1]
            if len(self.acks) > len(self.due):
                mon.note('unexpected-ack', self.acks, self.due)
                return
            if self.acks != self.due[:len(self.acks)]:
                mon.note('wrong-ack', self.acks, self.due)
                return
            mon.event('ack')
        # The child is told to go on: what it was measured for must be recorded by now
        ch = self.proto.benchmarkChange
        snap = ch.before if self.acks.endswith(b'\0') else ch.after
        mon.eq(snap.size, treeSize(self.root), 'measured-size', self.acks)
        self.judgeDisk(snap)
        now = time.time()
        mon.check(self.marked - 1e-3 <= snap.time <= now + 1e-3, 'measured-time', snap.time, self.marked, now)
        self.writes += 1
        if self.case['afterack']:
            mon.event('grown')
            populate(self.root, [['after%d' % self.writes, self.case['afterack']]])

    def delayed(self):
        """Pending calls the code under test scheduled."""
        return [c for c in self.clock.getDelayedCalls() if getattr(c.func, '__self__', None) is not self]

    def activity(self, how):
        if self.clock.seconds() - self.last > LIMIT - 2:
            self.mon.event('just-in-time')
        self.last = self.clock.seconds()
        self.mon.event(how)

    def wait(self, t):
        """Silence."""
        mon = self.mon
        target = self.clock.seconds() + t
        while not self.ended and self.clock.seconds() < target:
            nxt = target
            due = self.last + LIMIT
            for c in self.clock.getDelayedCalls():
                nxt = min(nxt, max(c.getTime(), self.clock.seconds()))
            if not self.timedOut and self.clock.seconds() < due:
                nxt = min(nxt, due)
            step = nxt - self.clock.seconds()
            self.clock.advance(step)
            kills = [s for s in self.signals if s[1] == 'KILL']
            if self.clock.seconds() < due and not self.timedOut:
                mon.eq(kills, [], 'killed-early')
            if self.clock.seconds() >= due and not self.ended:
                mon.eq(len(kills), 1, 'silent-but-not-killed', self.clock.seconds(), due)
            if kills:
                mon.eq(len(kills), 1, 'killed-again')
                if not self.killseen:
                    mon.eq(kills, [(due, 'KILL')], 'kill-time')
                    self.killseen = True
                    mon.event('kill')
        if self.clock.seconds() < target:
            self.clock.advance(target - self.clock.seconds())
    killseen = False

    def end(self, how, code, sig):
        if self.ended:
            return
        mon = self.mon
        self.ended = True
        self.sizeEnd = treeSize(self.root)
        self.tEnd = time.time()
        exc = None
        if how == 'done':
            reason = error.ProcessDone(0)
        elif how == 'none-status':
            reason = error.ProcessDone(None)
        elif how == 'exit':
            reason = error.ProcessTerminated(exitCode=code, signal=None, status=code << 8)
        elif how == 'signal':
            reason = error.ProcessTerminated(exitCode=None, signal=sig, status=sig)
        else:
            reason = exc = ZeroDivisionError('reactor trouble')
        self.reason, self.how = reason, how
        self.proto.processEnded(Failure(reason))
        mon.eq(len(self.out), 1, 'no-outcome')
        mon.eq(self.delayed(), [], 'timer-left-behind')
        r = self.out[0]
        late = self.timedOut
        ok = not isinstance(r, Failure)
        if how in ('done', 'none-status'):
            if late:
                mon.event('success-though-late')
            mon.check(ok, 'success-reported-as-failure', r)
            proto, status, output = r
            mon.check(proto is self.proto, 'wrong-protocol')
            mon.eq(status, reason.status, 'status')
            mon.eq(list(output), self.expected, 'output')
            mon.event('success')
        else:
            mon.check(not ok, 'failure-reported-as-success', r)
            if late:
                mon.check(r.check(error.TimeoutError) is not None, 'timeout-not-reported', r)
                mon.event('timeout')
            elif exc is not None:
                mon.check(r.value is exc, 'other-reason', r)
                mon.event('other-failure')
            else:
                mon.check(r.check(benchmark.ProcessDied) is not None, 'death-not-reported', r)
                e = r.value
                mon.eq((e.exitCode, e.signal, e.status), (reason.exitCode, reason.signal, reason.status), 'death-details')
                mon.eq(list(e.output), self.expected, 'output')
                mon.event('died')
        if self.case['kind'] == 'bench':
            o = self.proto.overallChange
            mon.eq(o.before.size, self.size0, 'overall-start-size')
            mon.eq(o.after.size, self.sizeEnd, 'overall-end-size')
            mon.check(self.t0 - 1e-3 <= o.before.time <= self.spawned + 1e-3, 'overall-start-time')
            mon.check(self.tEnd - 1e-3 <= o.after.time <= time.time() + 1e-3, 'overall-end-time')
            self.judgeDisk(o.after)
            mon.event('overall')

    def mark(self, codes):
        data = bytes(codes)
        good = data
        for k, b in enumerate(data):
            if b not in (0, 1):
                good = data[:k]
                break
        wasbad = self.bad
        before = len([s for s in self.signals if s[1] == 'QUIT'])
        if not wasbad:
            self.due = good
            self.acks = b''
            self.marked = time.time()
            if len(good) < len(data):
                self.stopAt = len(good)
        self.activity('mark')
        self.proto.childDataReceived(3, data)
        if not wasbad:
            self.mon.eq(self.acks[:len(good)], good, 'missing-ack')
            quits = len([s for s in self.signals if s[1] == 'QUIT']) - before
            if len(good) < len(data):
                self.bad = True
                self.mon.check(quits >= 1, 'bad-notification-ignored', data)
                self.mon.event('quit')
            else:
                self.mon.eq(quits, 0, 'quit-for-good-notification', data)

    def run(self):
        mon = self.mon
        self.spawn()
        for op in self.case['ops']:
            if self.ended:
                mon.event('late-data', 'success-though-late')
                break
            if op[0] == 'data':
                fd, data = op[1], op[2]
                if self.case['kind'] == 'bench' and fd == 3:
                    continue
                self.activity('reset-by-data')
                self.expected.append((fd, data))
                self.proto.childDataReceived(fd, data)
            elif op[0] == 'close':
                self.activity('reset-by-close')
                self.expected.append((op[1], None))
                self.proto.childConnectionLost(op[1])
            elif op[0] == 'wait':
                self.wait(op[1])
            elif op[0] == 'grow':
                populate(self.root, op[1])
            else:
                self.mark(op[1])
            if not self.ended:
                mon.eq(self.out, [], 'outcome-before-the-end')
        if not self.ended:
            self.end(*self.case['end'])
        n = len(self.signals)
        self.clock.advance(5000)
        mon.event('idle-after-end')
        mon.eq(len(self.signals), n, 'signal-after-end', self.signals)
        mon.eq(len(self.out), 1, 'outcome-more-than-once')
        other = [s for s in self.signals if s[1] not in ('KILL', 'QUIT')]
        mon.eq(other, [], 'other-signal')
        if not self.bad:
            mon.eq([s for s in self.signals if s[1] == 'QUIT'], [], 'quit')
        if not self.timedOut:
            mon.eq([s for s in self.signals if s[1] == 'KILL'], [], 'kill')
        mon.sig('run', self.case['kind'], [o[0] for o in self.case['ops']], self.how, self.timedOut, self.bad)


def run(case, mon):
    root = tempfile.mkdtemp(prefix='b')
    sim = Sim(case, mon, root)
    saved = {n: reactor.__dict__.get(n) for n in ('callLater', 'seconds')}
    reactor.callLater = sim.clock.callLater
    reactor.seconds = sim.clock.seconds
    sim.realOpen = realOpen = builtins.open
    builtins.open = io.open = sim.open
    try:
        sim.run()
    finally:
        builtins.open = io.open = realOpen
        for n, v in saved.items():
            if v is None:
                delattr(reactor, n)
            else:
                setattr(reactor, n, v)
        shutil.rmtree(root, ignore_errors=True)


# -- real processes ------------------------------------------------------------

DRIVER = '''
import sys, os, socket
sys.path.insert(0, %(repo)r)
if socket.gethostname() == 'localhost':
    socket.gethostname = lambda: 'vf-host'
if not os.path.exists(os.path.join(%(repo)r, 'epsilon', '_version.py')):
    import types
    m = types.ModuleType('epsilon._version'); m.__version__ = '0.8.0'
    sys.modules['epsilon._version'] = m
from epsilon.scripts import benchmark
'''

SCRIPT = '''
import json, time
def size():
    n = os.stat('.').st_size
    for p, ds, fs in os.walk('.'):
        for x in ds + fs:
            n += os.stat(os.path.join(p, x)).st_size
    return n
def write(name, n):
    with open(name, 'ab') as f:
        f.write(b'y' * n)
log = dict(cwd=os.getcwd(), argv=sys.argv[1:], size0=size())
write('setup', %(setup)d)
log['a'] = time.time()
if %(marks)r:
    benchmark.start()
log['b'] = time.time()
log['size1'] = size()
write('work', %(work)d)
time.sleep(%(sleep)r)
log['size2'] = size()
log['c'] = time.time()
if %(marks)r:
    benchmark.stop()
log['d'] = time.time()
write('after', %(after)d)
os.write(1, b'o' * %(out)d)
log['size3'] = size()
with open(os.environ['VF_LOG'], 'w') as f:
    json.dump(log, f)
if %(err)d:
    os.write(2, b'e' * %(err)d)
end = %(end)r
if end[0] == 'exit':
    os._exit(end[1])
elif end[0] == 'signal':
    os.kill(os.getpid(), end[1])
    time.sleep(60)
os._exit(0)
'''


def genReal(rng, i, ctx):
    end = [['ok', 0], ['ok', 0], ['exit', 3], ['signal', 9], ['ok', 0], ['exit', 255], ['signal', 15], ['ok', 0]][i % 8]
    return dict(setup=rng.choice((0, 100, 9000)), work=rng.choice((0, 1, 5000, 100000)), after=rng.choice((0, 77)),
                out=rng.choice((0, 1, 70000)), err=(0, 5, 0, 0)[(i + i // 8) % 4], sleep=rng.choice((0, .02, .2)),
                marks=i % 8 != 7, end=end, args=rng.choice(([], ['x'], ['x', '-y'])), prior=rng.choice((0, 0, 1)))


def runReal(case, mon):
    root = os.path.realpath(tempfile.mkdtemp(prefix='real'))
    try:
        head = DRIVER % dict(repo=REPO)
        with open(os.path.join(root, 'driver.py'), 'w') as f:
            f.write(head + 'benchmark.main()\n')
        script = os.path.join(root, 'script.py')
        with open(script, 'w') as f:
            f.write(head + SCRIPT % case)
        cwd = os.path.join(root, 'cwd')
        os.mkdir(cwd)
        log = os.path.join(root, 'log.json')
        prior = b'_command: X\r\n\r\n' if case['prior'] else b''
        if prior:
            with open(os.path.join(cwd, 'output'), 'wb') as f:
                f.write(prior)
        env = dict(os.environ, VF_LOG=log, PYTHONDONTWRITEBYTECODE='1')
        mon.event('real')
        p = subprocess.Popen([sys.executable, '-B', os.path.join(root, 'driver.py'), script] + case['args'], cwd=cwd, env=env,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            text, _ = p.communicate(timeout=100)
        except subprocess.TimeoutExpired:
            p.kill()
            text, _ = p.communicate()
            mon.fail('never-finished', text[-800:])
        mon.check(os.path.exists(log), 'script-did-not-run', text[-1500:])
        with open(log) as f:
            got = json.load(f)
        mon.eq(got['argv'], case['args'], 'script-arguments')
        mon.check(os.path.dirname(os.path.realpath(got['cwd'])) == cwd, 'working-directory', got['cwd'])
        left = sorted(os.listdir(cwd))
        out = os.path.join(cwd, 'output')
        data = b''
        if os.path.exists(out):
            left.remove('output')
            with open(out, 'rb') as f:
                data = f.read()
        mon.eq(left, [], 'left-behind')
        mon.check(data.startswith(prior), 'earlier-results-lost')
        boxes = parseBoxes(data[len(prior):])
        if case['end'][0] != 'ok':
            mon.eq(boxes, [], 'dead-process-reported')
            mon.event('no-report')
        else:
            if not case['marks']:
                # nothing was measured between marks, but the command ends all the same
                mon.event('never-marked')
                mon.eq([b.get('name') for b in boxes[:1]], [script + '-overall'], 'reported-boxes', text[-800:])
                return
            mon.eq([b.get('name') for b in boxes], [script + '-overall', script + '-benchmark'], 'reported-boxes', text[-800:])
            overall, bench = boxes
            for b in boxes:
                mon.eq(b['error'], repr(bool(case['err'])), 'error-flag')
                mon.eq(b['timeout'], 'False', 'timeout-flag')
                mon.eq(b['version'], '0', 'version')
            mon.eq(int(overall['filesystem_growth']), got['size3'] - got['size0'], 'overall-growth')
            mon.eq(int(bench['filesystem_growth']), got['size2'] - got['size1'], 'benchmark-growth')
            e = float(bench['elapsed'])
            mon.check(got['c'] - got['b'] - 1e-3 <= e <= got['d'] - got['a'] + 1e-3, 'benchmark-elapsed', e, got)
            mon.check(float(overall['elapsed']) >= got['d'] - got['a'] - 1e-3, 'overall-elapsed', overall)
            mon.event('reported')
        mon.sig('real', case['end'], bool(case['err']), case['marks'], len(boxes))
    finally:
        shutil.rmtree(root, ignore_errors=True)


# -- the child's side

def genChild(rng, i, ctx):
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append(rng.choice(('start', 'stop')))
    answers = bytes(0 if o == 'start' else 1 for o in ops)
    if rng.random() < .5:
        k = rng.randrange(len(answers))
        answers = answers[:k] + rng.choice((b'', bytes([rng.choice((0, 1, 2, 48, 49, 255))]) + answers[k + 1:]))
    return dict(ops=ops, answers=answers)


def runChild(case, mon):
    """start() and stop() notify the parent, and go on only if it acknowledges just that."""
    outR, outW = os.pipe()
    inR, inW = os.pipe()
    resR, resW = os.pipe()
    os.write(inW, case['answers'])
    os.close(inW)
    pid = os.fork()
    if pid == 0:
        try:
            res = b''
            keep = [os.dup2(fd, 20 + n) for n, fd in enumerate((outW, inR, resW))]
            os.dup2(keep[0], 3)
            os.dup2(keep[1], 4)
            for op in case['ops']:
                try:
                    getattr(benchmark, op)()
                except RuntimeError:
                    res += b'R'
                    break
                except BaseException:
                    res += b'X'
                    break
                res += b'.'
            os.write(keep[2], res + b'|')
        finally:
            os._exit(0)
    for fd in (outW, inR, resW):
        os.close(fd)
    try:
        res = b''
        while True:
            b = os.read(resR, 100)
            if not b:
                break
            res += b
        os.waitpid(pid, 0)
        said = b''
        while True:
            b = os.read(outR, 100)
            if not b:
                break
            said += b
    finally:
        os.close(resR)
        os.close(outR)
    want = b''
    for k, op in enumerate(case['ops']):
        ok = case['answers'][k:k + 1] == (b'\0' if op == 'start' else b'\1')
        want += b'.' if ok else b'R'
        if not ok:
            mon.event('wrong-ack-refused')
            break
    else:
        mon.event('acked')
    n = len(want)
    mon.eq(res, want + b'|', 'child-goes-on', case['ops'], case['answers'])
    mon.eq(said, bytes(0 if o == 'start' else 1 for o in case['ops'][:n]), 'child-notified')
    mon.sig('child', case['ops'], case['answers'])


WORKLOADS = [Workload('child', genChild, runChild, 400, 4000),
             Workload('supervise', gen, run, 8000, 100000),
             Workload('real', genReal, runReal, 8, 64, heavy=True)]
