"""C36: tracing sees every call and changes nothing; signal handlers are in place exactly while their service runs."""
import contextlib
import io
import os
import re
import signal
import sys
import threading

from vf.core import Workload
from epsilon import spewer

TARGETS = ['epsilon/spewer.py']
LEVEL = 'exploration'
RULE = ('one case = a generated program of nested calls, returns, exceptions and threads run with a tracer or spewer installed for '
        'parts of it, or a history of signals and service starts and stops; a monitor compares what was traced with the calls '
        'made, and the program\'s results with an untraced run; non-trivial = a traced call or a signal was judged')
ASSUMPTIONS = []
MUST_SEE = ('traced-call', 'traced-return', 'traced-exception', 'untraced', 'thread', 'toggle', 'skipped', 'method', 'bad-repr', 'varargs', 'keyword-only',
            'signal', 'signal-restored', 'signal-taken-over', 'bound-handler', 'signal-before', 'nested-service', 'busy', 'other-tracer', 'toggled-off', 'handed-over', 'nesting-shown', 'every-event', 'many-arguments', 'odd-object', 'many-signals')


def genProgram(rng, depth):
    n = rng.choice((0, 1, 1, 2, 3)) if depth else 0
    return [rng.choice(('f', 'f', 'g', 'm', 'v', 'b', 'k', 'w', 'o')), rng.randint(0, 9), rng.choice((None, 0, 'r', [1], 'raise', 'raise', False, ' Mixed  Case ', 'Long' * 30, list(range(80)))),
            [genProgram(rng, depth - 1) for _ in range(n)]]


def gen(rng, i, ctx):
    return dict(parts=[[rng.choice(('on', 'on', 'off')), rng.choice(('direct', 'direct', 'toggle')), rng.random() < .2,
                        genProgram(rng, rng.randint(0, 4)), rng.choice(('uninstall', 'toggle'))] for _ in range(rng.randint(1, 4))],
                kind=rng.choice(('spew', 'spew', 'own', 'skip', 'hand')), busy=rng.random() < .3, prior=rng.random() < .3)


class Stop(Exception):
    pass


class Program(object):
    """The calls really made are recorded from within, independently of the tracer."""
    def __init__(self):
        self.calls = []         # (name, {arg: value})
        self.returns = []       # (name, value | 'raise')
        self.depths = []
        self.depth = 0


def body(P, prog, name, args):
    kind, n, result, kids = prog
    P.calls.append((name, args))
    P.depths.append(P.depth)
    P.depth += 1
    for k in kids:
        try:
            call(P, k)
        except Stop:
            pass
    P.depth -= 1
    if result == 'raise':
        P.returns.append((name, 'raise', None))
        raise Stop(n)
    P.returns.append((name, 'value', result))
    return result


def f(P, prog, x):
    return body(P, prog, 'f', {'x': x})


def g(P, prog, x, y=None):
    return body(P, prog, 'g', {'x': x, 'y': y})


def k(P, prog, /, x, *, y, z=3):
    return body(P, prog, 'k', {'x': x, 'y': y, 'z': z})


def v(P, prog, *rest, **kw):
    return body(P, prog, 'v', {'rest': rest, 'kw': kw})


class Thing(object):
    def __len__(self):
        return 0

    def m(self, P, prog, x):
        return body(P, prog, 'm', {'x': x})


class Odd(object):
    """Says that it is equal to everything, and different from nothing."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1

    def o(self, P, prog, x):
        return body(P, prog, 'o', {'x': x})


def w(P, prog, a, b, c, d, e, f, g, h, i, j, *, k, l):
    """Many arguments, and many lines."""
    args = dict(a=a, b=b, c=c, d=d, e=e, f=f, g=g, h=h, i=i, j=j, k=k, l=l)
    n = 0
    for x in range(3):
        n += x
        if n > 1:
            n -= 1
    while n > 0: n -= 1
    m = [x for x in range(3)]; n += len(m)
    try:
        if a % 2:
            raise KeyError(a)
    except KeyError:
        n += 1
    return body(P, prog, 'w', args)


class Unreprable(object):
    def __repr__(self):
        raise ValueError('no repr')


BAD = Unreprable()


def b(P, prog, x):
    return body(P, prog, 'b', {'x': x})


def call(P, prog):
    kind, n = prog[0], prog[1]
    if kind == 'f':
        return f(P, prog, n)
    if kind == 'g':
        return g(P, prog, n, y=str(n))
    if kind == 'k':
        return k(P, prog, n, y=n + 1)
    if kind == 'v':
        return v(P, prog, n, n + 1, k=n)
    if kind == 'm':
        return Thing().m(P, prog, n)
    if kind == 'o':
        return Odd().o(P, prog, n)
    if kind == 'w':
        return w(P, prog, n, *'bcdefghij', k=' K  k ', l='l' * 90)
    return b(P, prog, BAD)


MINE = {f.__code__: 'f', g.__code__: 'g', v.__code__: 'v', k.__code__: 'k', Thing.m.__code__: 'm', b.__code__: 'b', w.__code__: 'w', Odd.o.__code__: 'o'}


class Recorder(spewer.Tracer):
    def __init__(self, skip, hand):
        self.seen = []
        self.handed = []
        self.skipping = skip
        self.handing = hand

    def trace_CALL(self, frame, arg):
        if frame.f_code in MINE:
            self.seen.append(('call', MINE[frame.f_code], None, frame.f_lineno))
            if self.skipping and frame.f_code is g.__code__:
                return self.skip
            if self.handing and frame.f_code is g.__code__:
                return self.other

    def other(self, frame, event, arg):
        self.handed.append(event)
        return self.other

    def trace_RETURN(self, frame, arg):
        if frame.f_code in MINE:
            self.seen.append(('return', MINE[frame.f_code], arg, frame.f_lineno))

    def trace_EXCEPTION(self, frame, arg):
        if frame.f_code in MINE:
            self.seen.append(('exception', MINE[frame.f_code], arg[0].__name__, frame.f_lineno))

    def trace_LINE(self, frame, arg):
        if frame.f_code in MINE:
            self.seen.append(('line', MINE[frame.f_code], None, frame.f_lineno))


def go(P, prog):
    try:
        return ('ok', call(P, prog))
    except Stop as e:
        return ('raised', e.args)


def baseline(prog):
    """Everything there is to see, as the interpreter tells it."""
    seen = []

    def local(frame, event, arg):
        if frame.f_code in MINE:
            seen.append((event, MINE[frame.f_code], {'return': arg, 'exception': arg and event == 'exception' and arg[0].__name__}.get(event),
                         frame.f_lineno))
        return local
    old = sys.gettrace()
    sys.settrace(local)
    try:
        go(Program(), prog)
    finally:
        sys.settrace(old)
    return seen


def run(case, mon):
    tracer = spewer.Spewer() if case['kind'] == 'spew' else Recorder(case['kind'] == 'skip', case['kind'] == 'hand')
    on = False
    old = sys.gettrace()
    done = threading.Event()
    if case.get('busy'):
        # another thread is there all the time, with nothing to do
        other = threading.Thread(target=done.wait)
        other.start()
        mon.event('busy')
    try:
        for want, how, inThread, prog, off in case['parts']:
            plain = Program()
            expect = go(plain, prog)
            events = baseline(prog) if want == 'on' else []
            out = io.StringIO()
            if case['kind'] != 'spew':
                del tracer.seen[:], tracer.handed[:]
            P = Program()
            res = []
            with contextlib.redirect_stdout(out):
                if (want == 'on') != on:
                    if how == 'toggle':
                        if case.get('prior') and not on:
                            # whatever else was tracing gives way
                            sys.settrace(lambda frame, event, arg: None)
                            mon.event('other-tracer')
                        tracer.toggle()
                        mon.event('toggle')
                    elif want == 'on':
                        tracer.install()
                    else:
                        tracer.uninstall()
                    on = not on
                if inThread:
                    t = threading.Thread(target=lambda: res.append(go(P, prog)))
                    t.start()
                    t.join()
                else:
                    res.append(go(P, prog))
                # look at the state without the tracer watching
                if on and off == 'toggle':
                    tracer.toggle()
                    mon.event('toggled-off')
                elif on:
                    tracer.uninstall()
            mon.eq(sys.gettrace(), None, 'tracer-left-behind')
            mon.eq(bool(tracer.installed), False, 'installed-flag')
            mon.eq(res, [expect], 'program-changed')
            mon.eq(P.returns, plain.returns, 'program-changed')
            if inThread:
                mon.event('thread')
            judge(case, mon, tracer, out.getvalue(), P, on, inThread, events)
            on = False
            # nothing is seen any more
            out = io.StringIO()
            if case['kind'] != 'spew':
                del tracer.seen[:]
            with contextlib.redirect_stdout(out):
                go(Program(), prog)
                t = threading.Thread(target=go, args=(Program(), prog))
                t.start()
                t.join()
            mon.eq((out.getvalue(), getattr(tracer, 'seen', [])), ('', []), 'traced-after-uninstall')
            mon.event('untraced')
    finally:
        done.set()
        sys.settrace(old)
        threading.settrace(None)


def judge(case, mon, tracer, text, P, on, inThread, events):
    if case['kind'] == 'spew':
        lines = text.split('\n')
        calls = []
        for L in lines:
            m = re.match(r'^[0-9A-F]+ +(?:([\w.]+)\.)?(f|g|v|m|b|k|w|o)\((?:P|self)=', L)
            if m:
                calls.append((m.group(2), m.group(1), L))
        if not on:
            mon.eq(text, '', 'traced-when-off')
            return
        mon.eq([c[0] for c in calls], [c[0] for c in P.calls], 'calls-traced')
        for (name, owner, L), (_, args) in zip(calls, P.calls):
            mon.event('traced-call')
            if name == 'm':
                mon.check(owner is not None and owner.endswith('.Thing'), 'class-named', L)
                mon.event('method')
            for k, val in args.items():
                if isinstance(val, Unreprable):
                    mon.check('x=<Unreprable' in L or 'x=' in L, 'argument', L)
                    mon.event('bad-repr')
                else:
                    mon.check('%s=%r' % (k, val) in L, 'argument', k, val, L)
            if name == 'o':
                mon.check(owner is not None and owner.endswith('.Odd'), 'class-named', L)
                mon.event('odd-object')
            if name == 'w':
                mon.event('many-arguments')
            if name == 'k':
                mon.event('keyword-only')
            if name == 'v':
                mon.event('varargs')
        inner = any(name == 'w' and a['a'] % 2 for name, a in P.calls)
        if not inner and not any(r[1] == 'raise' for r in P.returns) and len(calls) > 1 and not inThread:
            # what was called from further down is shown further to the right
            shown = {}
            for (name, owner, L), depth in zip(calls, P.depths):
                shown.setdefault(depth, set()).add(len(re.match('[0-9A-F]+( *)', L).group(1)))
            mon.check(all(len(s) == 1 for s in shown.values()), 'nesting-shown', shown)
            mon.eq(sorted(shown.items()), sorted(shown.items(), key=lambda i: sorted(i[1])), 'nesting-shown')
            mon.eq(len(set(map(tuple, shown.values()))), len(shown), 'nesting-shown', shown)
            if len(shown) > 1:
                mon.event('nesting-shown')
        rets = [L for L in lines if re.match(r'^[0-9A-F]+ +<= ', L)]
        values = [repr(r[2]) for r in P.returns if r[1] == 'value' and r[2] is not None]
        got = [re.sub(r'^[0-9A-F]+ +<= ', '', L) for L in rets]
        # every returned value is shown, in order (other functions' among them)
        k = 0
        for g_ in got:
            if k < len(values) and g_ == values[k]:
                k += 1
        mon.eq(k, len(values), 'returns-traced', got, values)
        if values:
            mon.event('traced-return')
        excs = [L for L in lines if re.match(r'^[0-9A-F]+ +\^- ', L)]
        raised = [r for r in P.returns if r[1] == 'raise']
        mon.check(len(excs) >= len(raised), 'exceptions-traced', len(excs), len(raised))
        if raised:
            mon.event('traced-exception')
        mon.sig('spew', [c[0] for c in P.calls][:8], [r[1] for r in P.returns][:8])
    else:
        if not on:
            mon.eq(tracer.seen, [], 'traced-when-off')
            return
        skip = case['kind'] in ('skip', 'hand')
        if case['kind'] == 'hand':
            # the frames handed to another tracer are that one's
            gs = [r for r in P.returns if r[0] == 'g']
            mon.eq(tracer.handed.count('return'), len(gs), 'handed-over', tracer.handed)
            mon.eq('line' in tracer.handed, bool(gs), 'handed-over', tracer.handed)
            mon.check(tracer.handed.count('exception') >= len([r for r in gs if r[1] == 'raise']), 'handed-over', tracer.handed)
            if gs:
                mon.event('handed-over')
        mon.eq([s[1] for s in tracer.seen if s[0] == 'call'], [c[0] for c in P.calls], 'calls-traced')
        mon.event('traced-call')
        want = [(r[0], r[2]) for r in P.returns if not (skip and r[0] == 'g')]
        mon.eq([(s[1], s[2]) for s in tracer.seen if s[0] == 'return'], want, 'returns-traced')
        if skip and any(c[0] == 'g' for c in P.calls):
            mon.event('skipped')
            mon.check(not any(s[1] == 'g' for s in tracer.seen if s[0] != 'call'), 'skipped-frame-traced')
        raised = [r[0] for r in P.returns if r[1] == 'raise' and not (skip and r[0] == 'g')]
        mon.check(len([s for s in tracer.seen if s[0] == 'exception']) >= len(raised), 'exceptions-traced')
        # and in general, all that happened, in the order in which it happened
        mon.eq(tracer.seen, [e for e in events if not (skip and e[1] == 'g' and e[0] != 'call')], 'every-event')
        mon.event('every-event')
        lines = [s[1] for s in tracer.seen if s[0] == 'line']
        mon.eq(set(lines), {c[0] for c in P.calls} - ({'g'} if skip else set()), 'lines-traced')
        mon.sig('own', [s[:2] for s in tracer.seen][:12])


# -- signals

SIGS = ['SIGUSR1', 'SIGUSR2', 'SIGWINCH', 'SIGURG', 'SIGHUP', 'SIGINT', 'SIGTERM', 'SIGALRM', 'SIGVTALRM', 'SIGCONT', 'SIGTTIN', 'SIGTTOU', 'SIGIO']


def genSignals(rng, i, ctx):
    ops = []
    for _ in range(rng.randint(2, 16)):
        k = rng.random()
        if k < .3:
            ops.append(['start', rng.randint(0, 1)])
        elif k < .6:
            ops.append(['stop'])
        elif k < .68:
            ops.append(['other', rng.choice(SIGS)])
        else:
            ops.append(['raise', rng.choice(SIGS)])
    return dict(bound=rng.random() < .3, ops=ops, maps=[rng.sample(SIGS, rng.choice((0, 1, 2, 3, 4, 4, 12))) for _ in (0, 1)],
                special=rng.choice((None, 'ign', 'dfl')), specials=rng.sample(SIGS, rng.randint(1, 3)))


class Handler(object):
    def __init__(self, f):
        self.f = f

    def handle(self, n, fr):
        self.f(n, fr)


def runSignals(case, mon):
    log = []
    saved = {}
    base = {}
    try:
        for s in SIGS:
            num = getattr(signal, s)

            def handler(n, fr, s=s):
                log.append(('base', s))
            saved[num] = signal.signal(num, handler)
            base[s] = ('base', s)
        if case['special']:
            # a disposition which is not a Python function must come back, too
            for s in case.get('specials', ['SIGURG']):
                signal.signal(getattr(signal, s), signal.SIG_IGN if case['special'] == 'ign' else signal.SIG_DFL)
                base[s] = None
        services, maps = [], []
        for j, names in enumerate(case['maps']):
            m = {}
            for s in names:
                def h(n, fr, j=j, s=s):
                    log.append((j, s))
                if case.get('bound'):
                    mon.event('bound-handler')
                    h = Handler(h).handle
                m[getattr(signal, s)] = h
            maps.append(m)
            services.append(spewer.SignalService(m))
            if len(m) > 8:
                mon.event('many-signals')
        before = {s: signal.getsignal(getattr(signal, s)) for s in SIGS}
        stack = []
        now = {}        # what other code put in the place of a service's handler
        for op in case['ops']:
            if op[0] == 'start' and op[1] not in stack:
                for s in case['maps'][op[1]]:
                    if s in now:
                        break
                else:
                    s = None
                if s is not None:
                    continue        # keep the nesting simple
                services[op[1]].startService()
                stack.append(op[1])
                mon.check(services[op[1]].running, 'not-running')
                if len(stack) == 2:
                    mon.event('nested-service')
            elif op[0] == 'stop' and stack:
                j = stack.pop()         # in the opposite order, as services of one parent are
                services[j].stopService()
                mon.check(not services[j].running, 'still-running')
                for s in case['maps'][j]:
                    now.pop(s, None)
                mon.event('signal-restored')
            elif op[0] == 'other':
                # somebody else wants that signal, but takes no care to restore anything
                s = op[1]
                if any(s in case['maps'][j] for j in stack):
                    mon.event('signal-taken-over')

                    def other(n, fr, s=s):
                        log.append(('other', s))
                    now[s] = other
                    signal.signal(getattr(signal, s), other)
            elif op[0] == 'raise':
                s = op[1]
                want = base[s]
                for j in stack:
                    if s in case['maps'][j]:
                        want = (j, s)
                if s in now:
                    want = ('other', s)
                if want is None and case['special'] == 'dfl' and s not in ('SIGURG', 'SIGWINCH'):
                    continue        # nobody is there to take it
                if not stack:
                    mon.event('signal-before')
                del log[:]
                signal.raise_signal(getattr(signal, s))
                mon.eq(log, [want] if want else [], 'handled-by', s, stack)
                mon.event('signal')
            for s in SIGS:
                want = before[s]
                for j in stack:
                    if s in case['maps'][j]:
                        want = maps[j][getattr(signal, s)]
                want = now.get(s, want)
                mon.check(signal.getsignal(getattr(signal, s)) is want or signal.getsignal(getattr(signal, s)) == want,
                          'handler', s, stack)
        mon.sig('sig', case['ops'][:8], case['maps'])
    finally:
        for num, h in saved.items():
            signal.signal(num, h)


WORKLOADS = [Workload('tracing', gen, run, 4000, 60000),
             Workload('signals', genSignals, runSignals, 4000, 80000)]
