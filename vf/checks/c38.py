"""C38: a process spawned with named packages can import them from where the parent would, and is otherwise spawned as asked."""
import importlib
import importlib.machinery
import os
import shutil
import subprocess
import sys
import tempfile

from twisted.internet import reactor
from twisted.internet.protocol import ProcessProtocol

from vf.core import Workload, REPO
from epsilon import process

TARGETS = ['epsilon/process.py']
LEVEL = 'exploration'
RULE = ('one case = a spawn request with generated packages, environment and arguments; the request reaching the reactor is compared '
        'with the one made, and a real child with that environment imports the packages; non-trivial = a spawn was judged')
ASSUMPTIONS = ['packages are found on sys.path and are not namespace packages']
MUST_SEE = ('package', 'module', 'library', 'own-path', 'no-own-path', 'several', 'same-directory', 'python', 'child', 'arguments', 'no-packages', 'stdio', 'subpackage', 'submodule', 'near-library', 'found', 'shadowed', 'many-packages', 'connected-once')


def gen(rng, i, ctx):
    roots = rng.choice((1, 1, 2, 2, 3, 3, 12))
    mods = [[rng.choice(('package', 'package', 'module', 'subpackage', 'submodule')), rng.randrange(roots)] for _ in range(rng.choice((0, 1, 2, 3, 4, 14 if roots > 3 else 2)))]
    return dict(roots=roots, mods=mods, layout=rng.choice((None, None, None, 'same', 'nested', 'prefix')), std=rng.sample(('json', 'os', 'email', 'twisted', 'zope.interface'), rng.choice((0, 0, 1, 2))),
                env=[[k, rng.choice(('v', '', 'x=y', ' Two  Words ', 'Long' * 40))] for k in rng.sample(('A', 'HOME2', 'LANG2', 'PYTHONX', 'lower', 'Mixed_%s' % ('x' * 80)), rng.randint(0, 3))],
                own=rng.choice((None, None, [], ['own0'], ['own0', 'own1'], ['own1', 'root0'], ['own0', '', 'own1'])), shadow=rng.random() < .4,
                kw=rng.sample(('path', 'uid', 'gid', 'usePTY'), rng.randint(0, 4)), argn=rng.choice((0, 1, 2, 3, 4, 90)), odd=rng.random() < .3,
                uid=rng.choice((1234, 0)), pty=rng.random() < .4, gid=rng.choice((4321, 0)), noargs=rng.random() < .1, how=rng.choice(('positional', 'keyword')), python=rng.random() < .5, packages=rng.choice(('list', 'tuple', 'iter')), prefix=rng.choice((None, None, None, 'lib', 'libs', 'lib2/site')))


class Captured(object):
    pass


def run(case, mon, child=False):
    base = os.path.realpath(tempfile.mkdtemp(prefix='proc'))
    saved = list(sys.path)
    prefix = sys.prefix
    cap = []

    def spawn(processProtocol, executable, args=(), env={}, path=None, uid=None, gid=None, usePTY=0, childFDs=None):
        cap.append(dict(proto=processProtocol, executable=executable, args=args, env=env, path=path, uid=uid, gid=gid, usePTY=usePTY,
                        childFDs=childFDs))
        return token
    token = Captured()
    had = reactor.__dict__.get('spawnProcess')
    try:
        dirs = []
        for k in range(case['roots']):
            d = os.path.join(base, 'root%d' % k)
            layout = case.get('layout') if case.get('prefix') != 'lib' else None
            if layout == 'same':
                # another directory of the same name
                d = os.path.join(d, 'packages')
            elif layout == 'nested' and k:
                d = os.path.join(dirs[-1], 'more')
            elif layout == 'prefix' and k:
                d = dirs[-1] + '-x'
            if case.get('prefix') and k == 0:
                # next to the library, or (where the child would look anyway) in it
                sys.prefix = base
                d = os.path.join(base, case['prefix'], 'root0')
            os.makedirs(d)
            dirs.append(d)
            sys.path.insert(0, d)
        names, need, files, tops = [], [], [], []
        for k, (kind, r) in enumerate(case['mods']):
            n = 'vfmod%d' % k       # the same names in every case, elsewhere each time
            if kind == 'package':
                os.mkdir(os.path.join(dirs[r], n))
                fn = os.path.join(dirs[r], n, '__init__.py')
            elif kind.startswith('sub'):
                os.makedirs(os.path.join(dirs[r], n, 'mid'))
                for x in ('', 'mid'):
                    with open(os.path.join(dirs[r], n, x, '__init__.py'), 'w') as f:
                        f.write('')
                if kind == 'subpackage':
                    os.mkdir(os.path.join(dirs[r], n, 'mid', 'leaf'))
                    fn = os.path.join(dirs[r], n, 'mid', 'leaf', '__init__.py')
                else:
                    fn = os.path.join(dirs[r], n, 'mid', 'leaf.py')
                n += '.mid.leaf'
            else:
                fn = os.path.join(dirs[r], n + '.py')
            with open(fn, 'w') as f:
                f.write('where = __file__\n')
            names.append(n)
            files.append(fn)
            tops.append(fn if '.' not in n else os.path.join(dirs[r], n.split('.')[0], '__init__.py'))
            if case.get('shadow'):
                # others of the same name, which come later on the path
                for other in dirs[:r]:
                    mon.event('shadowed')
                    with open(os.path.join(other, n.split('.')[0] + '.py'), 'w') as f:
                        f.write('where = "shadow"\n')
            if not (case.get('prefix') == 'lib' and r == 0):
                need.append(dirs[r])
            if case.get('prefix') and r == 0:
                mon.event('near-library')
            mon.event(kind)
        if len(set(need)) > 8:
            mon.event('many-packages')
        if len(need) > 1:
            mon.event('several')
        if len(set(need)) < len(need):
            mon.event('same-directory')
        for s in case['std']:
            if '.' not in s:
                names.append(s)
                mon.event('library')
        if not names:
            mon.event('no-packages', 'stdio')
        env = {k: v for k, v in case['env']}
        own = None
        if case['own'] is not None:
            own = [o and os.path.join(base, o) for o in case['own']]
            env['PYTHONPATH'] = os.pathsep.join(own)
            mon.event('own-path')
        else:
            mon.event('no-own-path')
        env0 = dict(env)
        proto = ProcessProtocol()
        args = ['prog'] + ['arg%d' % k for k in range(case['argn'])]
        if case.get('odd'):
            args[1:1] = ['', ' Two  Words ', '-V', '--x=Y', 'Long' * 40, args[-1]]
        if case.get('noargs'):
            args = ()
        kw = {}
        for k in case['kw']:
            kw[k] = dict(path='/some/where', uid=case.get('uid', 1234), gid=case.get('gid', 4321), usePTY=(5, 6, 'tty') if case.get('pty') else 1)[k]
        pk = {'list': list, 'tuple': tuple, 'iter': iter}[case['packages']](names)
        reactor.spawnProcess = spawn
        exe = sys.executable if case['python'] else '/bin/prog' if not case.get('odd') else '/Some where/%s/ Prog ' % ('x' * 90)
        fn = process.spawnPythonProcess if case['python'] else process.spawnProcess
        lead = (proto,) if case['python'] else (proto, exe)
        if case['python']:
            mon.event('python')
        if case['how'] == 'positional':
            full = dict(path=None, uid=None, gid=None, usePTY=0)
            full.update(kw)
            res = fn(*(lead + (args, env, full['path'], full['uid'], full['gid'], full['usePTY'], pk)))
        else:
            res = fn(*lead, args=args, env=env, packages=pk, **kw)
        mon.eq(len(cap), 1, 'spawned-once')
        c = cap[0]
        mon.check(res is token, 'process-not-returned', res)
        mon.check(c['proto'] is proto, 'protocol')
        mon.eq(c['executable'], exe, 'executable')
        mon.eq(list(c['args']), list(args), 'arguments')
        mon.eq({k: c[k] for k in ('path', 'uid', 'gid', 'usePTY')}, dict(dict(path=None, uid=None, gid=None, usePTY=0), **kw), 'options')
        mon.event('arguments')
        mon.eq(env, env0, 'environment-of-the-caller-changed')
        got = dict(c['env'])
        pp = got.pop('PYTHONPATH', '')
        pp = pp.split(os.pathsep) if pp else []
        env0.pop('PYTHONPATH', None)
        mon.eq(got, env0, 'environment')
        for d in need:
            mon.check(d in pp, 'package-directory-missing', d, pp)
        entries = list(pp)
        if own:
            mon.eq(entries[len(entries) - len(own):], own, 'own-path-changed', pp)
            entries = entries[:len(entries) - len(own)]
        # apart from where the packages named are, only where library packages named are
        lib = set()
        for s in names[len(case['mods']):]:
            f = importlib.import_module(s).__file__
            lib.add(os.path.dirname(os.path.dirname(f) if os.path.basename(f).startswith('__init__.') else f))
        mon.check(set(need) <= set(entries) <= set(need) | lib, 'path-entries', entries, need, lib)
        # what the child is going to find there
        for n, top in zip(names, tops):
            mon.event('found')
            if case.get('prefix') == 'lib' and top.startswith(dirs[0] + os.sep):
                continue
            spec = importlib.machinery.PathFinder.find_spec(n.split('.')[0], [e for e in pp if e])
            mon.check(spec is not None and spec.origin == top, 'found-elsewhere', n, spec, pp)
        mon.eq(len(set(entries)), len(entries), 'entry-repeated', pp)
        mon.sig('spawn', case['mods'], case['own'], sorted(case['kw']))
        if child and case['mods'] and case.get('prefix') != 'lib':
            code = 'import sys\n' + ''.join('import %s\n' % n for n in names) + \
                   ''.join('sys.stdout.write(%s.where + "\\n")\n' % n for n in names[:len(case['mods'])])
            r = subprocess.run([sys.executable, '-B', '-c', code], env=dict(c['env']), cwd=base, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            mon.eq(r.returncode, 0, 'child-cannot-import', r.stdout[-600:])
            want = files
            mon.eq(r.stdout.decode().split('\n')[:-1], want, 'imported-from')
            mon.event('child')
    finally:
        if had is None:
            reactor.__dict__.pop('spawnProcess', None)
        else:
            reactor.spawnProcess = had
        sys.prefix = prefix
        sys.path[:] = saved
        sys.path_importer_cache.clear()
        shutil.rmtree(base, ignore_errors=True)


def runChild(case, mon):
    return run(case, mon, True)


STDIO = """
import sys, os, types
sys.path.insert(0, %(repo)r)
if not os.path.exists(os.path.join(%(repo)r, 'epsilon', '_version.py')):
    m = types.ModuleType('epsilon._version'); m.__version__ = '0.8.0'
    sys.modules['epsilon._version'] = m
from twisted.internet import reactor, protocol
from epsilon.process import StandardIOService
class Echo(protocol.Protocol):
    n = 0
    made = 0
    def connectionMade(self):
        self.made += 1
        sys.stderr.write('made %%d\\n' %% self.made)
        self.transport.write(b'hello\\n')
    def dataReceived(self, data):
        self.n += len(data)
        self.transport.write(data.upper())
        if self.n >= %(want)d:
            self.transport.loseConnection()
    def connectionLost(self, reason):
        if reactor.running:
            reactor.stop()
p = Echo()
s = StandardIOService(p)
assert s.protocol is p
if %(when)r == 'before':
    s.startService()
else:
    reactor.callWhenRunning(s.startService)
reactor.callLater(60, lambda: reactor.running and reactor.stop())
reactor.run()
"""


def genStdio(rng, i, ctx):
    return dict(data=[rng.choice((b'a', b'some text\n', b'z' * 5000, b'\0\n', b'q' * 70000)) for _ in range(rng.randint(1, 4))],
                when=rng.choice(('before', 'running')))


def runStdio(case, mon):
    data = b''.join(case['data'])
    p = subprocess.Popen([sys.executable, '-B', '-c', STDIO % dict(repo=REPO, want=len(data), when=case['when'])], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(data, timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        mon.fail('stdio-hangs')
    mon.eq(out, b'hello\n' + data.upper(), 'stdio', err[-600:])
    mon.event('stdio')
    mon.eq(err.decode().count('made '), 1, 'connected-once', err[-600:])
    mon.event('connected-once')
    mon.sig('stdio', [len(d) for d in case['data']], case['when'])


WORKLOADS = [Workload('requests', gen, run, 1600, 24000),
             Workload('children', gen, runChild, 80, 1200, heavy=True),
             Workload('stdio', genStdio, runStdio, 16, 200, heavy=True)]
