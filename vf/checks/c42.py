"""C42: a hotfix is installed exactly when the library shows the defect it is for, and at most once."""
import importlib.util
import os
import shutil
import sys
import tempfile
import types
import warnings

from vf.core import Workload
import epsilon
import epsilon.hotfix
import epsilon.hotfixes
import twisted
import twisted.plugin
import twisted.trial.unittest
from twisted.internet import base, defer, task
from twisted.protocols import policies
from twisted.python import filepath, versions
from twisted.test import proto_helpers

TARGETS = ['epsilon/hotfix.py', 'epsilon/hotfixes/internet_task_clock.py', 'epsilon/hotfixes/plugin_package_paths.py',
           'epsilon/hotfixes/trial_assertwarns.py', 'epsilon/hotfixes/timeoutmixin_calllater.py']
LEVEL = 'exploration'
RULE = ('one case = a history of requirements against libraries which do or do not show each defect (simulated by replacing the part of '
        'Twisted concerned, for the duration), with installations failing now and then; a recording installer counts; '
        'non-trivial = a requirement was judged')
ASSUMPTIONS = ['what the fixes for Python 2 and long-gone Twisted versions do once installed cannot be run here',
               'whether the deferred generator fix is needed is judged only where Twisted has no deferred generators']
MUST_SEE = ('needed', 'not-needed', 'again', 'unknown', 'failed-install', 'retried', 'absent', 'plugin-paths', 'warns', 'really-installed', 'timed-out', 'timeout-put-off', 'timeout-given-up')

NAMES = ['filepath_copyTo', 'timeoutmixin_calllater', 'delayedcall_seconds', 'deferredgenerator_tfailure',
         'proto_helpers_stringtransport', 'internet_task_Clock', 'trial_assertwarns', 'plugin_package_paths', 'loopbackasync_reentrancy']


class IdentityPath(object):
    def __init__(self, p):
        pass


class NoCallLater(object):
    pass


class NoSeconds(object):
    def __init__(self, time, func, args, kw, cancel, reset):
        pass


class Lenient(object):
    def write(self, data):
        pass


class WrongClock(object):
    calls = None

    def callLater(self, when, what, *a, **kw):
        if self.calls is None:
            self.calls = object()
        return self.calls


class NoWarns(object):
    pass


# the part of the library to replace to show the defect, and what with (None: take it away)
BROKEN = {
    'filepath_copyTo': (filepath, 'FilePath', IdentityPath),
    'timeoutmixin_calllater': (policies, 'TimeoutMixin', NoCallLater),
    'delayedcall_seconds': (base, 'DelayedCall', NoSeconds),
    'proto_helpers_stringtransport': (proto_helpers, 'StringTransport', Lenient),
    'internet_task_Clock': (task, 'Clock', WrongClock),
    'trial_assertwarns': (twisted.trial.unittest, 'TestCase', NoWarns),
    'plugin_package_paths': (twisted.plugin, 'pluginPackagePaths', None),
    'loopbackasync_reentrancy': (twisted, 'version', versions.Version('twisted', 8, 1, 0)),
}


def gen(rng, i, ctx):
    ops = []
    for _ in range(rng.randint(1, 14)):
        k = rng.random()
        if k < .1:
            ops.append(['unknown', rng.choice((('twisted', 'nonsense'), ('python', 'filepath_copyTo'), ('', ''), ('twisted', ''),
                                               ('twisted', 'internet_task_clock'), ('Twisted', 'trial_assertwarns'), (None, None),
                                               (' twisted', 'trial_assertwarns'), ('twisted', 'trial_assertwarns '),
                                               ('twisted', 'plugin_package_paths\n'), ('twisted', 'trial_assertwarns' + 60 * '_'),
                                               ('twisted' + 80 * 'x', 'filepath_copyTo'), ('twisted', 'FILEPATH_COPYTO')))])
        else:
            ops.append(['require', rng.choice(NAMES), rng.random() < .5, rng.random() < .15])
    return dict(ops=ops, oldversion=rng.choice(([8, 1, 0], [2, 5, 0], [8, 0, 9], [8, 2, 0], [9, 0, 0], [15, 1, 0], [26, 0, 0], [10, 0, 0])))


class Failing(Exception):
    pass


def fresh():
    """A hotfix module which has installed nothing yet."""
    spec = importlib.util.spec_from_file_location('epsilon.hotfix_fresh', epsilon.hotfix.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run(case, mon):
    hotfix = fresh()
    installed = []
    failing = [False]
    saved = {}
    stubs = {}
    for n in NAMES:
        mod = n.lower() if n == 'internet_task_Clock' else n

        def install(n=n):
            if failing[0]:
                raise Failing(n)
            installed.append(n)
        if n == 'internet_task_Clock':
            # its own detection is the real one
            import epsilon.hotfixes.internet_task_clock as real
            stub = types.ModuleType('epsilon.hotfixes.' + mod)
            exec(compile(open(real.__file__).read(), real.__file__, 'exec'), stub.__dict__)
        else:
            stub = types.ModuleType('epsilon.hotfixes.' + mod)
        stub.install = install
        stubs[mod] = stub
    missing = object()
    for mod, stub in stubs.items():
        saved[mod] = (sys.modules.get('epsilon.hotfixes.' + mod, missing), getattr(epsilon.hotfixes, mod, missing))
        sys.modules['epsilon.hotfixes.' + mod] = stub
        setattr(epsilon.hotfixes, mod, stub)
    done = set()
    try:
        for op in case['ops']:
            before = list(installed)
            if op[0] == 'unknown':
                mon.raises(hotfix.NoSuchHotfix, 'unknown-hotfix', hotfix.require, *op[1])
                mon.event('unknown')
                mon.eq(installed, before, 'installed-for-unknown')
                mon.sig('unknown', op[1])
                continue
            _, name, broken, fail = op
            need = False
            place = None
            if broken and name in BROKEN:
                where, attr, value = BROKEN[name]
                if name == 'loopbackasync_reentrancy':
                    value = versions.Version('twisted', *case['oldversion'])
                    need = case['oldversion'][:2] < [8, 2]
                else:
                    need = True
                place = where, attr, getattr(where, attr)
                if value is None:
                    delattr(where, attr)
                else:
                    setattr(where, attr, value)
                if name == 'internet_task_Clock':
                    stubs['internet_task_clock'].Clock = WrongClock
            failing[0] = fail
            try:
                hotfix.require('twisted', name)
                outcome = 'ok'
            except Failing:
                outcome = 'failed'
            except Exception as e:
                mon.fail('require-failed', name, broken, repr(e))
            finally:
                failing[0] = False
                if place:
                    setattr(*place)
                stubs['internet_task_clock'].Clock = task.Clock
            want = before
            if name in done:
                mon.event('again')
                mon.eq(outcome, 'ok', 'required-again', name)
            elif need and fail:
                mon.event('failed-install')
                mon.eq(outcome, 'failed', 'failure-hidden', name)
            else:
                mon.eq(outcome, 'ok', 'require-failed', name)
                done.add(name)
                if need:
                    mon.event('needed')
                    want = before + [name]
                    if ['require', name, True, True] in case['ops'][:case['ops'].index(op)]:
                        mon.event('retried')
                else:
                    mon.event('not-needed')
                    if name == 'deferredgenerator_tfailure' and not hasattr(defer, 'deferredGenerator'):
                        mon.event('absent')
            mon.eq(installed, want, 'installed', name, broken, fail)
            mon.sig(name, broken, fail, name in done, need)
    finally:
        for mod, (m, a) in saved.items():
            if m is missing:
                del sys.modules['epsilon.hotfixes.' + mod]
            else:
                sys.modules['epsilon.hotfixes.' + mod] = m
            if a is missing:
                delattr(epsilon.hotfixes, mod)
            else:
                setattr(epsilon.hotfixes, mod, a)


def genPaths(rng, i, ctx):
    dirs = ['d%d' % k for k in range(rng.randint(1, 5))]
    return dict(dirs=dirs, pkg=rng.choice(('p', 'p.q', 'p.q.r', 'x_1')),
                has=[[rng.random() < .6, rng.random() < .5, rng.random() < .2] for _ in dirs], rel=rng.random() < .2)


def runPaths(case, mon):
    """The fix for plug-in packages does what current Twisted does itself."""
    from epsilon.hotfixes import plugin_package_paths
    top = os.path.realpath(tempfile.mkdtemp(prefix='plug'))
    try:
        paths(case, mon, top, plugin_package_paths)
    finally:
        shutil.rmtree(top)


def paths(case, mon, top, plugin_package_paths):
    path = []
    want = []
    for d, (exists, init, pyc) in zip(case['dirs'], case['has']):
        root = os.path.join(top, d)
        where = os.path.join(root, *case['pkg'].split('.'))
        if exists:
            os.makedirs(where, exist_ok=True)
            if init:
                open(os.path.join(where, '__init__.py'), 'w').close()
            if pyc:
                open(os.path.join(where, '__init__.pyc'), 'w').close()
        path.append(os.path.relpath(root) if case['rel'] else root)
        if not (exists and init):
            want.append(where)
    old = sys.path
    sys.path = path
    try:
        got = plugin_package_paths.pluginPackagePaths(case['pkg'])
        theirs = twisted.plugin.pluginPackagePaths(case['pkg'])
    finally:
        sys.path = old
    mon.event('plugin-paths')
    mon.eq([os.path.realpath(p) for p in got], [os.path.realpath(p) for p in want], 'plugin-paths', path)
    mon.check(all(os.path.isabs(p) for p in got), 'plugin-paths', got)
    mon.eq(got, list(theirs), 'plugin-paths-of-twisted')
    mon.sig('paths', case['pkg'], case['has'])


MESSAGES = ('text', 'text', 'text', 'other', 'text and more', 'Text', '', 'text ', 'tex')


class Category(UserWarning):
    pass


def genWarns(rng, i, ctx):
    return dict(emit=[[rng.choice(('Category', 'Category', 'UserWarning')), rng.choice(MESSAGES)] for _ in range(rng.randint(0, 3))],
                category=rng.choice(('Category', 'UserWarning')), message=rng.choice(MESSAGES), there=rng.random() < .8,
                result=rng.choice((None, 0, 'r')), boom=rng.random() < .15)


def runWarns(case, mon):
    import unittest
    from epsilon.hotfixes import trial_assertwarns
    cats = {'Category': Category, 'UserWarning': UserWarning}

    class Case(unittest.TestCase):
        def assertIdentical(self, a, b):
            self.assertIs(a, b)

        def failUnless(self, c, msg=None):
            self.assertTrue(c, msg)
    tc = Case('assertTrue')

    def f(*a, **kw):
        mon.eq((a, kw), ((1, 2), {'k': 3}), 'arguments')
        for c, m in case['emit']:
            warnings.warn_explicit(m, cats[c], 'here.py', 7)
        if case['boom']:
            raise Failing('boom')
        return case['result']
    old = warnings.warn_explicit
    mon.event('warns')
    try:
        got = ('ok', trial_assertwarns.failUnlessWarns(tc, cats[case['category']], case['message'], 'here.pyc' if case['there'] else 'elsewhere.py',
                                                       f, 1, 2, k=3))
    except Failing:
        got = ('boom',)
    except AssertionError:
        got = ('fail',)
    mon.check(warnings.warn_explicit is old, 'warnings-not-restored')
    if case['boom']:
        want = ('boom',)
    elif case['emit'] and all(e == [case['category'], case['message']] for e in case['emit']) and case['there']:
        want = ('ok', case['result'])
    else:
        want = ('fail',)
    mon.eq(got, want, 'assert-warns')
    mon.sig('warns', case['emit'], case['category'], case['message'], case['there'], case['boom'])


def genReal(rng, i, ctx):
    return dict(names=[rng.choice(('internet_task_Clock', 'trial_assertwarns', 'plugin_package_paths')) for _ in range(rng.randint(1, 5))],
                broken=[rng.random() < .7 for _ in range(5)])


def runReal(case, mon):
    """What a fix is for is there once it is installed."""
    hotfix = fresh()
    import epsilon.hotfixes.internet_task_clock as clock
    done = set()
    for name, broken in zip(case['names'], case['broken']):
        class Clock(WrongClock):
            pass

        class TestCase(object):
            pass
        keep = (twisted.plugin.pluginPackagePaths, twisted.trial.unittest.TestCase, task.Clock, clock.Clock)
        if broken:
            del twisted.plugin.pluginPackagePaths
            twisted.trial.unittest.TestCase = TestCase
            task.Clock = clock.Clock = Clock
        try:
            hotfix.require('twisted', name)
            there = dict(internet_task_Clock=task.Clock.callLater is not WrongClock.callLater,
                         trial_assertwarns=hasattr(twisted.trial.unittest.TestCase, 'failUnlessWarns')
                         and hasattr(twisted.trial.unittest.TestCase, 'assertWarns'),
                         plugin_package_paths=hasattr(twisted.plugin, 'pluginPackagePaths'))
            same = (getattr(twisted.plugin, 'pluginPackagePaths', None), twisted.trial.unittest.TestCase, task.Clock, clock.Clock)
        finally:
            twisted.plugin.pluginPackagePaths, twisted.trial.unittest.TestCase, task.Clock, clock.Clock = keep
        if not broken:
            mon.eq(same, keep, 'library-changed-without-need', name)
        if broken and name not in done:
            mon.eq({n for n in there if there[n]}, {name}, 'not-there-once-installed', name)
            mon.event('really-installed')
        done.add(name)
    mon.sig('real', case['names'], case['broken'][:len(case['names'])])


def genTimeouts(rng, i, ctx):
    return dict(ops=[rng.choice((['set', rng.choice((None, None, 0, 1, 2, 5, 10))], ['set', rng.randint(1, 9)], ['reset'], ['advance', rng.choice((0, 1, 1, 2, 4, 20))],
                                 ['advance', 1])) for _ in range(rng.randint(1, 20))],
                own=rng.random() < .5, again=rng.choice((None, None, 3)))


def runTimeouts(case, mon):
    """The fixed mixin times out a connection exactly once its period has passed since it was last put off."""
    from epsilon.hotfixes import timeoutmixin_calllater
    clock = task.Clock()
    fired = []

    class Transport(object):
        def loseConnection(self):
            fired.append(clock.seconds())

    class Protocol(timeoutmixin_calllater.TimeoutMixin):
        transport = Transport()

        def callLater(self, period, func):
            return clock.callLater(period, func)
    if case['own']:
        def timeoutConnection(self):
            fired.append(clock.seconds())
            if case['again'] and len(fired) < 4:
                self.setTimeout(case['again'])
        Protocol.timeoutConnection = timeoutConnection
    p = Protocol()
    period = due = None
    want = []
    for op in case['ops']:
        if op[0] == 'set':
            mon.eq(p.setTimeout(op[1]), period, 'previous-period')
            if op[1] is None and due is not None:
                mon.event('timeout-given-up')
            period = op[1]
            due = None if period is None else clock.seconds() + period
        elif op[0] == 'reset':
            p.resetTimeout()
            if due is not None:
                due = clock.seconds() + period
                mon.event('timeout-put-off')
        else:
            end = clock.seconds() + op[1]
            while clock.seconds() < end or op[1] == 0:
                clock.advance(1 if op[1] else 0)
                while due is not None and due <= clock.seconds():
                    want.append(clock.seconds())
                    due = None
                    mon.event('timed-out')
                    if case['own'] and case['again'] and len(want) < 4:
                        period, due = case['again'], clock.seconds() + case['again']
                if not op[1]:
                    break
        mon.eq(fired, want, 'timed-out', op)
        mon.eq(len(clock.getDelayedCalls()), 0 if due is None else 1, 'timers')
    mon.sig('timeouts', case['ops'][:10], case['own'], case['again'])


WORKLOADS = [Workload('real', genReal, runReal, 600, 6000),
             Workload('timeouts', genTimeouts, runTimeouts, 2000, 40000),
             Workload('requirements', gen, run, 3000, 60000),
             Workload('paths', genPaths, runPaths, 600, 6000),
             Workload('warns', genWarns, runWarns, 3000, 40000)]
