"""C39: automatic setup finds every package, and every data file of each top-level package, and nothing else."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

from vf.core import Workload
import distutils.core
from epsilon import setuphelper

TARGETS = ['epsilon/setuphelper.py']
LEVEL = 'exploration'
RULE = ('one case = a generated source tree of packages, plug-in directories, data and hidden directories, set up in place with a '
        'recording setup function; the packages and data files passed on are compared with an independent walk of the tree; '
        'non-trivial = a tree was judged')
ASSUMPTIONS = ['the top of the tree is neither a package nor a plug-in directory', 'no symbolic links']
MUST_SEE = ('package', 'subpackage', 'plugin-package', 'data', 'code-in-data-directory', 'hidden', 'dropin', 'extra-argument', 'refused',
            'installed', 'not-installed', 'hidden-file', 'plugin-cache', 'plugins-not-importable', 'earlier-release', 'many-files', 'many-directories', 'many-plugin-packages')

FILES = ['a.py', 'b.pyc', 'c.pyo', 'data.txt', 'x.html', 'dropin.cache', '.dot', 'README', 'y.PY', 'py', 'z.py.txt', '__init__.pyc', 'dropin.cache.old',
         'static.png', '.py', 'm.pyd', 'n.pyx', 'o.pyi', 'p.so', 'q.cache', 'r.pyw', 'setup.cfg', 'x.pyc.bak', 'dropin.cache.py']


def tree(rng, depth):
    return dict(init=rng.random() < .55, files=rng.sample(FILES, rng.choice((0, 1, 2, 4))),
                dirs={n: tree(rng, depth - 1) for n in rng.sample(('sub', 'plugins', 'static', '.svn', 'test', 'a-b', '_x', 'templates'),
                                                                  rng.choice((0, 1, 2, 3)))} if depth else {})


def chain(rng, depth):
    """A long way down."""
    t = tree(rng, 0)
    t['init'] = t['init'] or rng.random() < .8
    if depth:
        t['dirs'] = {rng.choice(('sub', 'static', 'test', '_x', 'plugins')): chain(rng, depth - 1)}
    return t


def wide(rng):
    t = tree(rng, 1)
    t['files'] = sorted(set(t['files'] + ['Data File %d.Txt' % k for k in range(rng.choice((0, 5, 20)))] + ['%s.dat' % ('long' * 20)]))
    for k in range(rng.choice((0, 3, 10))):
        t['dirs'][rng.choice(('sub', 'Static', 'Dir with blanks ', 'x' * 70)) + str(k)] = tree(rng, rng.choice((0, 0, 1)))
    return t


def gen(rng, i, ctx):
    case = genTree(rng, i, ctx)
    if rng.random() < .03:
        for k in range(rng.choice((1, 1, 2, 10))):
            case['dirs']['Wide%d' % k] = wide(rng)
    return case


def genTree(rng, i, ctx):
    return dict(dirs={n: tree(rng, rng.choice((0, 1, 2, 3))) if rng.random() < .93 else chain(rng, rng.randint(4, 9)) for n in rng.sample(('pkg', 'other', 'doc', '.git', 'tw', 'build', 'x1', 'pkg-doc', 'pkg2', 'PKG', 'x1_old', 'pk'),
                                                                                  rng.randint(1, 4))},
                files=rng.sample(('setup.py', 'README', 'data.bin', '.hidden'), rng.randint(0, 3)),
                kw=rng.choice(({}, {'name': 'n'}, {'name': 'n', 'version': '1.0', 'author': 'é'})), install=rng.random() < .2, order=rng.randint(0, 2),
                bad=rng.choice((None,) * 10 + ('packages', 'package_data')))


class Dist(object):
    def __init__(self, install, lib, order=0):
        self.commands = [['build', 'install'], ['install', 'clean'], ['install']][order] if install else [['build', 'sdist'], [], ['install_lib']][order]
        self.command_obj = {}
        if install:
            class Cmd(object):
                install_lib = lib
            self.command_obj['install'] = Cmd()


def make(path, spec):
    os.makedirs(path, exist_ok=True)
    for f in spec['files']:
        with open(os.path.join(path, f), 'w') as o:
            o.write('# nothing\n')
    if spec.get('init'):
        with open(os.path.join(path, '__init__.py'), 'w') as o:
            o.write('')
    for n, s in spec['dirs'].items():
        make(os.path.join(path, n), s)


def expect(dirs, mon):
    packages, data = [], {}

    def visit(spec, parts):
        visible = [n for n in spec['dirs'] if not n.startswith('.')]
        if len(visible) < len(spec['dirs']):
            mon.event('hidden')
        if spec['init']:
            packages.append('.'.join(parts))
            mon.event('package' if len(parts) == 1 else 'subpackage')
        elif 'plugins' in visible:
            packages.append('.'.join(parts))
            mon.event('plugin-package')
        for n in visible:
            visit(spec['dirs'][n], parts + [n])

    def files(spec, rel):
        out = []
        for f in spec['files']:
            if f == 'dropin.cache':
                mon.event('dropin')
                continue
            code = os.path.splitext(f)[1] in ('.py', '.pyc', '.pyo')
            if code and spec['init']:
                continue
            if code:
                mon.event('code-in-data-directory')
            if f.startswith('.'):
                mon.event('hidden-file')
            out.append('/'.join(rel + [f]))
            mon.event('data')
        if len(spec['files']) > 8:
            mon.event('many-files')
        if len(spec['dirs']) > 8:
            mon.event('many-directories')
        for n, s in spec['dirs'].items():
            if not n.startswith('.'):
                out += files(s, rel + [n])
        return out
    for n, s in dirs.items():
        if n.startswith('.'):
            mon.event('hidden')
            continue
        visit(s, [n])
    for p in packages:
        if '.' not in p:
            data[p] = sorted(files(dirs[p], []))
    return sorted(packages), data


def run(case, mon):
    d = os.path.realpath(tempfile.mkdtemp(prefix='setup'))
    old, path = os.getcwd(), list(sys.path)
    saved = (getattr(setuphelper, 'setup', None), distutils.core.setup)
    got = []
    dist = Dist(case['install'], os.path.join(d, 'lib'), case.get('order', 0))

    def setup(**kw):
        got.append(kw)
        return dist
    try:
        top = os.path.join(d, 'top')
        make(top, dict(files=case['files'], dirs=case['dirs']))
        os.chdir(top)
        if saved[0] is not None:
            setuphelper.setup = setup
        distutils.core.setup = setup
        kw = dict(case['kw'])
        if case['bad']:
            kw[case['bad']] = []
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                res = setuphelper.autosetup(**kw)
            except AssertionError:
                mon.check(case['bad'] is not None, 'refused')
                mon.eq(got, [], 'set-up-all-the-same')
                mon.event('refused')
                mon.sig('refused', case['bad'])
                return
        mon.check(not case['bad'], 'given-packages-ignored', case['bad'])
        mon.eq(len(got), 1, 'set-up-once')
        mon.check(res is dist, 'distribution', res)
        a = dict(got[0])
        packages, data = expect(case['dirs'], mon)
        mon.eq(sorted(a.pop('packages')), packages, 'packages')
        mon.eq({k: sorted(v) for k, v in a.pop('package_data').items()}, data, 'data-files')
        mon.eq(a, case['kw'], 'other-arguments')
        if a:
            mon.event('extra-argument')
        if case['install']:
            mon.check(os.path.join(d, 'lib') in sys.path, 'plugin-cache-not-regenerated')
            mon.event('installed')
        else:
            mon.eq(sys.path, path, 'path-changed')
            mon.event('not-installed')
        mon.sig('tree', packages, sorted(map(len, data.values())))
    finally:
        os.chdir(old)
        sys.path[:] = path
        if saved[0] is not None:
            setuphelper.setup = saved[0]
        distutils.core.setup = saved[1]
        shutil.rmtree(d, ignore_errors=True)


def genPlugins(rng, i, ctx):
    return dict(packages=[rng.choice(('good', 'good', 'good', 'missing', 'import', 'value', 'other', 'broken-plugin'))
                          for _ in range(rng.choice((1, 2, 3, 4, 4, 3, 2, 1, 12)))], install=rng.random() < .85, older=rng.random() < .4, serial=rng.randint(0, 10 ** 9))


def runPlugins(case, mon):
    """After an installation the plug-in cache of every plug-in package which can be imported is there."""
    d = os.path.realpath(tempfile.mkdtemp(prefix='plug'))
    old, path, mods = os.getcwd(), list(sys.path), set(sys.modules)
    saved = (getattr(setuphelper, 'setup', None), distutils.core.setup)
    lib = os.path.join(d, 'lib')
    dist = Dist(case['install'], lib)

    def setup(**kw):
        return dist
    try:
        top = os.path.join(d, 'top')
        names = []
        for k, kind in enumerate(case['packages']):
            n = 'vfplug%d_%d' % (case['serial'], k) + ('', 'Mixed', 'x' * 70)[k % 3]
            names.append(n)
            os.makedirs(os.path.join(top, n, 'plugins'))
            there = os.path.join(lib, n, 'plugins')
            if kind == 'missing':
                continue
            os.makedirs(there)
            with open(os.path.join(there, 'one.py'), 'w') as f:
                f.write('x = 1\n' if kind != 'broken-plugin' else '1 / 0\n')
            body = {'good': '', 'broken-plugin': '', 'import': 'import no_such_module_vf', 'value': 'raise ValueError("Empty module name")',
                    'other': 'raise KeyError(1)'}[kind]
            if body:
                with open(os.path.join(there, '__init__.py'), 'w') as f:
                    f.write(body + '\n')
            else:
                for q in (os.path.join(lib, n), there):
                    with open(os.path.join(q, '__init__.py'), 'w') as f:
                        f.write('')
        if len(names) > 8:
            mon.event('many-plugin-packages')
        if case.get('older'):
            # an earlier release is on the path already
            for n in names:
                os.makedirs(os.path.join(d, 'older', n, 'plugins'))
                for q in (n, os.path.join(n, 'plugins')):
                    with open(os.path.join(d, 'older', q, '__init__.py'), 'w') as f:
                        f.write('')
            sys.path.insert(0, os.path.join(d, 'older'))
            mon.event('earlier-release')
        os.chdir(top)
        if saved[0] is not None:
            setuphelper.setup = setup
        distutils.core.setup = setup
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            setuphelper.autosetup()
        for n, kind in zip(names, case['packages']):
            cache = os.path.join(lib, n, 'plugins', 'dropin.cache')
            if case['install'] and kind in ('good', 'broken-plugin'):
                mon.check(os.path.exists(cache), 'no-plugin-cache', n, case['packages'])
                mon.event('plugin-cache')
            elif not case['install']:
                mon.check(not os.path.exists(cache), 'plugin-cache-without-installing')
            else:
                mon.event('plugins-not-importable')
        mon.sig('plugins', case['packages'], case['install'])
    finally:
        os.chdir(old)
        sys.path[:] = path
        for m in set(sys.modules) - mods:
            if m.startswith('vfplug'):
                del sys.modules[m]
        sys.path_importer_cache.clear()
        if saved[0] is not None:
            setuphelper.setup = saved[0]
        distutils.core.setup = saved[1]
        shutil.rmtree(d, ignore_errors=True)


WORKLOADS = [Workload('plugins', genPlugins, runPlugins, 200, 3000), Workload('trees', gen, run, 3000, 50000)]
