"""C37: unpacking a project template creates exactly the files it contains, each with exactly its own lines."""
import contextlib
import datetime
import io
import os
import shutil
import subprocess
import sys
import tempfile

from vf.core import Workload, REPO
from epsilon import asplode

TARGETS = ['epsilon/asplode.py']
LEVEL = 'exploration'
RULE = ('one case = a generated template unpacked into an empty directory, through the function or the command; the resulting tree '
        'is compared with an independent unpacking; non-trivial = a tree was compared')
ASSUMPTIONS = ['the template starts with a file marker; file names are relative and stay below the working directory']
MUST_SEE = ('file', 'nested-file', 'empty-file', 'placeholder', 'placeholder-in-name', 'date', 'main', 'existing-directory', 'rewritten',
            'no-final-newline', 'marker-within-line', 'command')


def gen(rng, i, ctx):
    files = []
    for _ in range(rng.randint(1, 6)):
        name = '/'.join([rng.choice(('a', 'b', '_project_', '_Project_', 'c.d')) for _ in range(rng.choice((0, 0, 1, 2, 4)))]
                        + [rng.choice(('f.py', 'README', '_project_.py', 'x_Project_.txt', 'g', '.dot', 'two words'))])
        lines = [rng.choice(('', 'plain', 'import _project_', 'class _Project_App: pass', '_date_', '# _project__Project__date_', '###',
                             '### file: x', '  indented', '\tx', 'a_project', 'é', '%s', '_PROJECT_', '##file: no', '_dated_', 'trailing \t ', 70 * 'long ' + '_project_')) + '\n'
                 for _ in range(rng.choice((0, 1, 3, 10, 10, rng.choice((70, 150)))))]
        files.append([name, lines, rng.choice((' ', '', '  ')), rng.choice(('', '', '', '', '# ', '  ', 'x', '\t'))])
    proj = rng.choice((['zoop', 'Zoop'], ['p', 'P'], ['my-proj', 'MyProj'], ['x.y', 'X'], ['zOOp', 'Zoop'], ['ABC', 'abc'], ['p q', 'P Q'], [' p ', ' P '], ['p' * 80, 'P' * 80], ['\xe9t\xe9', '\xc9t\xe9']))
    return dict(files=files, proj=proj, via=rng.choice(('list', 'iter', 'main')), cut=rng.random() < .3, mkdir=rng.random() < .2)


def run(case, mon):
    proj, cap = ['zoop', 'Zoop'] if case['via'] in ('main', 'command') else case['proj']
    text = []
    for name, lines, pad, front in case['files']:
        if front:
            mon.event('marker-within-line')
        text.append(front + '###file:' + pad + name + '\n')
        text.extend(lines)
    if case['cut'] and text[-1].endswith('\n') and '###file:' not in text[-1]:
        text[-1] = text[-1][:-1]
        if not text[-1]:
            text.pop()
        mon.event('no-final-newline')

    names = []

    def expected(day):
        want = {}
        cur = None
        for L in text:
            s = L.replace('_project_', proj).replace('_Project_', cap).replace('_date_', day)
            if '###file:' in s:
                cur = os.path.normpath(s.split('###file:')[1].strip())
                if cur in want:
                    mon.event('rewritten')
                want[cur] = ''
                names.append(cur)
            else:
                want[cur] += s
        return want
    d = tempfile.mkdtemp(prefix='asp')
    old = os.getcwd()
    os.chdir(d)
    try:
        day = str(datetime.date.today())
        want = expected(day)
        # a name cannot be both a file and a directory
        for n in want:
            parts = n.split('/')
            if any('/'.join(parts[:k]) in want for k in range(1, len(parts))):
                return
        if case['mkdir']:
            for n in want:
                if os.path.dirname(n):
                    os.makedirs(os.path.dirname(n), exist_ok=True)
                    mon.event('existing-directory')
        told = io.StringIO()
        with contextlib.redirect_stderr(told):
            if case['via'] == 'command':
                p = subprocess.run([sys.executable, '-B', '-m', 'epsilon.asplode'], input=''.join(text).encode('utf-8'), timeout=100,
                                   env=dict(os.environ, PYTHONPATH=REPO, PYTHONUTF8='1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                mon.eq(p.returncode, 0, 'command-failed', p.stderr)
                told.write(p.stderr.decode('utf-8'))
                mon.event('command')
            elif case['via'] == 'main':
                stdin, sys.stdin = sys.stdin, io.StringIO(''.join(text), newline='')
                try:
                    asplode.main(['asplode'])
                finally:
                    sys.stdin = stdin
                mon.event('main')
            elif case['via'] == 'iter':
                asplode.splode(iter(text), proj, cap)
            else:
                asplode.splode(text, proj, cap)
        if str(datetime.date.today()) != day:
            return
        # the files are named as they are made
        mon.eq([os.path.normpath(L.split(None, 1)[-1]) for L in told.getvalue().splitlines() if L.strip()], names, 'files-told')
        got = {}
        for p, ds, fs in os.walk('.'):
            for f in fs:
                q = os.path.normpath(os.path.join(p, f))
                with open(q, newline='') as o:
                    got[q] = o.read()
        mon.eq(sorted(got), sorted(want), 'files')
        for n in want:
            mon.eq(got[n], want[n], 'content', n)
            mon.event('nested-file' if '/' in n else 'file')
            if not want[n]:
                mon.event('empty-file')
            if day in want[n]:
                mon.event('date')
            if proj in want[n] or cap in want[n]:
                mon.event('placeholder')
            if proj in n or cap in n:
                mon.event('placeholder-in-name')
        mon.sig('tree', sorted(want), case['via'])
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def genCommand(rng, i, ctx):
    case = gen(rng, i, ctx)
    case['via'] = 'command'
    return case


WORKLOADS = [Workload('command', genCommand, run, 16, 300),
             Workload('templates', gen, run, 4000, 60000)]
