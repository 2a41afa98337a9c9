"""
Runner: executes workloads against the real epsilon code with monitors attached
and turns what the monitors observed into a verdict and an evidence file.
"""
import argparse
import ast
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
NSHARDS = int(os.environ.get('VERIF_SHARDS', '8'))
# only for trying many planted changes quickly (tools/mutate.py)
SCALE = float(os.environ.get('VERIF_SCALE', '1'))
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))
CASE_CPU = float(os.environ.get('VERIF_CASE_CPU', '30'))            # CPU seconds one case may burn before "no progress"
CAPS = {'quick': 240.0, 'thorough': 780.0}   # exploration stops (not a verdict)


class Violation(Exception):
    def __init__(self, rule, detail):
        Exception.__init__(self, '%s: %s' % (rule, detail))
        self.rule = rule
        self.detail = detail


class Hang(BaseException):
    pass


def short(x, n=400):
    try:
        r = repr(x)
    except Exception as e:
        r = '<unreprable %s: %s>' % (type(x).__name__, e)
    return r if len(r) <= n else r[:n] + '...[%d]' % len(r)


class Monitor(object):
    """
    Per-case observer.  Workloads report what they saw to it; it counts what was
    observed and records rule breaches (also when raised inside a callback whose
    exceptions something else swallows).
    """
    TAIL = 60

    def __init__(self, shared):
        self.shared = shared
        self.violations = []
        self.tail = []
        self.nevents = 0
        self.sigs = []

    def event(self, kind, *detail):
        self.nevents += 1
        ev = self.shared['events']
        ev[kind] = ev.get(kind, 0) + 1
        if len(self.tail) < self.TAIL:
            self.tail.append((kind,) + detail)
        else:
            self.tail[self.nevents % self.TAIL] = (kind,) + detail

    def sig(self, *parts):
        """Record a nontrivial situation the oracle judged."""
        h = hashlib.blake2b(repr(parts).encode('utf-8', 'backslashreplace'),
                            digest_size=8).digest()
        self.shared['sigs'].add(h)
        if len(self.shared['samples']) < 6 and self.shared['samplekeys'].get(parts[0], 0) < 2:
            self.shared['samplekeys'][parts[0]] = self.shared['samplekeys'].get(parts[0], 0) + 1
            self.shared['samples'].append(short(parts, 200))

    def fail(self, rule, *detail):
        v = Violation(rule, ' '.join(d if isinstance(d, str) else short(d) for d in detail))
        self.violations.append(v)
        raise v

    def note(self, rule, *detail):
        """Like fail, without raising."""
        try:
            self.fail(rule, *detail)
        except Violation:
            pass

    def check(self, cond, rule, *detail):
        self.shared['evaluations'] += 1
        if not cond:
            self.fail(rule, *detail)

    def eq(self, got, want, rule, *detail):
        self.shared['evaluations'] += 1
        try:
            same = (got == want) is True
        except Exception as e:
            self.fail(rule, 'comparison raised %r;' % (e,), *detail)
        if not same:
            self.fail(rule, 'got', got, 'expected', want, *detail)

    def raises(self, exc, rule, fn, *a, **kw):
        self.shared['evaluations'] += 1
        try:
            r = fn(*a, **kw)
        except exc as e:
            return e
        except Violation:
            raise
        except Exception as e:
            self.fail(rule, 'raised %r instead of %s' % (e, exc), 'for', a, kw)
        else:
            self.fail(rule, 'returned', r, 'instead of raising %s' % (exc,), 'for', a, kw)


class Workload(object):
    """
    name    unique within the check
    gen     gen(rng, i, ctx) -> case  (a literal: repr/literal_eval round trips)
    run     run(case, mon)
    quick, thorough   number of generated cases per tier
    fixed   cases always run
    """
    def __init__(self, name, gen, run, quick, thorough, fixed=(), heavy=False):
        self.name = name
        self.gen = gen
        self.run = run
        self.n = {'quick': quick, 'thorough': thorough}
        self.fixed = list(fixed)
        self.heavy = heavy


class Ctx(object):
    """What generators may look at: tier, and a dictionary of the constants that
    occur in the current source of the modules under test."""
    def __init__(self, targets, tier):
        self.tier = tier
        self.ints, self.strs, self.bytes, self.floats = harvest(targets)

    def size(self, rng, cap):
        k = rng.random()
        if k < .45:
            return rng.randint(0, min(cap, 8))
        if k < .7:
            return rng.randint(0, min(cap, 64))
        if k < .85 and self.ints:
            v = rng.choice(self.ints) + rng.choice((-1, 0, 1))
            if 0 <= v <= cap:
                return v
        if k < .95:
            v = 2 ** rng.randint(0, 17) + rng.choice((-1, 0, 1))
            if 0 <= v <= cap:
                return v
        return rng.randint(0, cap)


def harvest(targets):
    ints, strs, byts, floats = set(), set(), set(), set()
    for t in targets:
        path = os.path.join(REPO, t)
        try:
            with open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                docs.add(id(node.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, bool) or v is None:
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, float):
                    floats.add(v)
                elif isinstance(v, str) and len(v) < 200:
                    strs.add(v)
                elif isinstance(v, bytes) and len(v) < 200:
                    byts.add(v)
    return sorted(ints), sorted(strs), sorted(byts), sorted(floats)


class LineCoverage(object):
    """Which lines of the target modules ran while being monitored."""
    TOOL = 3

    def __init__(self, targets):
        self.files = {os.path.join(REPO, t): t for t in targets}
        self.hits = {t: set() for t in targets}

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, 'vf')
        except ValueError:
            return
        files, hits = self.files, self.hits

        def line(code, lineno):
            t = files.get(code.co_filename)
            if t is not None:
                hits[t].add(lineno)
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)


def codeLines(path):
    try:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        code = compile(src, path, 'exec', dont_inherit=True)
    except (OSError, SyntaxError):
        return set()
    out = set()
    todo = [code]
    while todo:
        c = todo.pop()
        if c.co_flags & 1:      # function bodies only: the rest runs at import
            out.update(l for _, _, l in c.co_lines() if l)
        todo.extend(k for k in c.co_consts if hasattr(k, 'co_lines'))
    return out


def setupImports():
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    # never trust byte code left beside the sources
    sys.pycache_prefix = tempfile.mkdtemp(prefix='vf-pyc-')
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import types
    if not os.path.exists(os.path.join(REPO, 'epsilon', '_version.py')):
        m = types.ModuleType('epsilon._version')
        m.__version__ = '0.8.0'
        sys.modules['epsilon._version'] = m
    import epsilon
    f = os.path.realpath(epsilon.__file__)
    if not f.startswith(REPO + os.sep):
        raise RuntimeError('epsilon imported from %s, not %s' % (f, REPO))


_logEvents = []


def setupLogging():
    from twisted.logger import globalLogBeginner
    def observer(event):
        if event.get('log_namespace') == 'twisted.internet.defer':
            return      # reported by the garbage collector, at no particular time
        f = event.get('log_failure') or event.get('failure')
        if f is not None:
            _logEvents.append(f)
            if len(_logEvents) > 200:
                del _logEvents[:100]
    globalLogBeginner.beginLoggingTo([observer], redirectStandardIO=False, discardBuffer=True)


def loggedFailures():
    """Failures logged since the last call."""
    r = list(_logEvents)
    del _logEvents[:]
    return r


def inEpsilon(tb):
    """Does this traceback enter the code under test?"""
    top = os.path.join(REPO, 'epsilon') + os.sep
    test = os.path.join(REPO, 'epsilon', 'test') + os.sep
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(top) and not fn.startswith(test):
            return True
        tb = tb.tb_next
    return False


# The machine's own timezone: part of the environment of every case.
MACHINE_ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'XYZ9:45', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'LINT-14', 'GMT0BST,M3.5.0/1,M10.5.0']


def setZone(zone):
    if os.environ.get('TZ') != zone:
        os.environ['TZ'] = zone
        time.tzset()


def runCase(wl, case, mon):
    """-> None, or (rule, detail).  Raises on a harness error."""
    hung = []
    setZone(case.get('_TZ', 'UTC0'))

    def onprof(signum, frame):
        hung.append(''.join(traceback.format_stack(frame)[-4:]))
        raise Hang()
    del _logEvents[:]
    old = signal.signal(signal.SIGPROF, onprof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU * (10 if wl.heavy else 1), 2.0)
    try:
        try:
            wl.run(case, mon)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
    except Hang:
        pass
    except Violation as v:
        if not mon.violations:
            mon.violations.append(v)
    except MemoryError:
        mon.violations.append(Violation('resources', 'ran out of memory'))
    except (Exception, SystemExit, GeneratorExit) as e:
        if mon.violations:
            pass
        elif not hung:
            if inEpsilon(e.__traceback__):
                return ('unexpected-exception',
                        ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:]))
            if isinstance(e, (OSError, ImportError, RecursionError)):
                raise           # the environment's or the harness's fault: inconclusive
            # The driver could not digest what the code under test handed it (a wrong
            # type, a missing key or attribute): not what correct code hands out.
            return ('indigestible-observation',
                    ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:]))
    if hung:
        return ('no-progress', 'used %g CPU seconds without finishing; last at\n%s'
                % (CASE_CPU, hung[0]))
    if mon.violations:
        v = mon.violations[0]
        return (v.rule, v.detail)
    return None


def shrink(wl, case, rule, shared, budget=150, seconds=20):
    """Greedy removal of elements of case['ops'] keeping the same rule broken."""
    if not (isinstance(case, dict) and isinstance(case.get('ops'), list)):
        return case
    t0 = time.monotonic()
    best = case

    def still(c):
        m = Monitor(dict(shared, events={}, sigs=set(), samples=[], samplekeys={}))
        try:
            r = runCase(wl, c, m)
        except Exception:
            return False
        return r is not None and r[0] == rule
    n = max(1, len(best['ops']) // 2)
    while n >= 1 and budget > 0 and time.monotonic() - t0 < seconds:
        i = 0
        progress = False
        while i < len(best['ops']) and budget > 0 and time.monotonic() - t0 < seconds:
            c = dict(best, ops=best['ops'][:i] + best['ops'][i + n:])
            budget -= 1
            if still(c):
                best = c
                progress = True
            else:
                i += n
        if not progress or n > 1:
            n = n // 2 if n > 1 else (1 if progress else 0)
    return best


def worker(check, tier, seed, shard, nshards, cap, only):
    # running away with memory ends in a MemoryError here, before the machine runs out
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_DATA, (2 << 30, 2 << 30))
    setupImports()
    setupLogging()
    mod = importlib.import_module('vf.checks.' + check.lower())
    ctx = Ctx(mod.TARGETS, tier)
    shared = dict(evaluations=0, events={}, sigs=set(), samples=[], samplekeys={})
    out = dict(cases={}, violations=[], capped=False, samples=[])
    distinct = set()
    cov = LineCoverage(mod.TARGETS)
    cov.start()
    t0 = time.monotonic()
    for wl in mod.WORKLOADS:
        if only and wl.name != only:
            continue
        n = 0
        todo = [('fixed', j) for j in range(len(wl.fixed))] + [('gen', j) for j in range(max(1, int(wl.n[tier] * SCALE)))]
        nviol = 0
        for kind, j in todo:
            if (j + (0 if kind == 'gen' else 3)) % nshards != shard:
                continue
            if time.monotonic() - t0 > cap:
                out['capped'] = True
                break
            if kind == 'fixed':
                case = wl.fixed[j]
            else:
                rng = random.Random('%s:%s:%s:%d' % (seed, check, wl.name, j))
                case = wl.gen(rng, j, ctx)
            case['_TZ'] = MACHINE_ZONES[(j // nshards) % len(MACHINE_ZONES)]
            random.seed('%s:%d' % (seed, j))
            m = Monitor(shared)
            before = shared['evaluations']
            r = runCase(wl, case, m)
            n += 1
            if shared['evaluations'] > before and m.nevents:
                if n <= 1:
                    out['samples'].append('%s: %s -> %s' % (
                        wl.name, short(case, 240), short([e[0] for e in m.tail[:8]], 120)))
                # nontrivial: the monitors saw events and the oracle decided something
                distinct.add(hashlib.blake2b(
                    repr((wl.name, case)).encode('utf-8', 'backslashreplace'),
                    digest_size=8).digest())
            if r is not None:
                nviol += 1
                c = case if FAILFAST else shrink(wl, case, r[0], shared)
                out['violations'].append(dict(
                    workload=wl.name, index='%s%d' % (kind, j), case=repr(c),
                    rule=r[0], detail=r[1][:4000], events=[short(e, 300) for e in m.tail]))
                if nviol >= 3 or FAILFAST:
                    break
        out['cases'][wl.name] = out['cases'].get(wl.name, 0) + n
        if FAILFAST and out['violations']:
            break
    out['meta'] = dict(level=mod.LEVEL, rule=mod.RULE, targets=list(mod.TARGETS),
                       assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
                       must=list(getattr(mod, 'MUST_SEE', ())))
    out['distinct'] = distinct
    out.update(evaluations=shared['evaluations'], events=shared['events'],
               sigs=shared['sigs'], situations=shared['samples'],
               lines={t: sorted(v) for t, v in cov.hits.items()})
    shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    return out


def scratchPlace():
    """Where scratch files are cheap to make: in memory, if there is room."""
    if 'TMPDIR' not in os.environ:
        try:
            s = os.statvfs('/dev/shm')
            if s.f_bavail * s.f_frsize > 4 << 30 and os.access('/dev/shm', os.W_OK | os.X_OK):
                return '/dev/shm'
        except OSError:
            pass
    return None


def forkShards(check, tier, seed, cap, only):
    tmp = tempfile.mkdtemp(prefix='vf-run-', dir=scratchPlace())
    pids = {}
    try:
        for s in range(NSHARDS):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.setpgid(0, 0)
                    d = os.path.join(tmp, 'scratch%d' % s)
                    os.mkdir(d)
                    os.chdir(d)
                    os.environ['TMPDIR'] = d
                    tempfile.tempdir = d
                    try:
                        res = worker(check, tier, seed, s, NSHARDS, cap, only)
                    except BaseException:
                        res = dict(error=traceback.format_exc())
                    with open(os.path.join(tmp, 'out%d' % s), 'wb') as f:
                        pickle.dump(res, f)
                    code = 0
                finally:
                    os._exit(code)
            pids[pid] = s
        deadline = time.monotonic() + cap + 90
        results = []
        left = dict(pids)
        while left:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in left:
                s = left.pop(pid)
                try:
                    with open(os.path.join(tmp, 'out%d' % s), 'rb') as f:
                        results.append(pickle.load(f))
                except Exception:
                    results.append(dict(error='shard %d ended with status %r and no result' % (s, st)))
                continue
            if time.monotonic() > deadline:
                for p in left:
                    results.append(dict(error='shard %d did not finish in time' % left[p]))
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(p, 0)
                break
            time.sleep(0.02)
        return results
    finally:
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def knownFindings():
    """KNOWN_FINDINGS.txt: lines `finding: property=<id> workload=<w> rule=<r> :: text`
    (suppresses exactly that rule in that workload) and `fixed: ...` (suppresses nothing)."""
    out = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            for L in f:
                if L.startswith('finding:'):
                    head, _, text = L[len('finding:'):].partition('::')
                    d = dict(kv.split('=', 1) for kv in head.split())
                    d['text'] = text.strip()
                    out.append(d)
    except OSError:
        pass
    return out


def runCheck(check, tier, seed, only=None):
    t0 = time.monotonic()
    results = forkShards(check, tier, seed, CAPS[tier], only)
    errors = [r['error'] for r in results if 'error' in r]
    results = [r for r in results if 'error' not in r]
    meta = results[0]['meta'] if results else dict(
        level='exploration', rule='', targets=(), assumptions=[], must=())
    cases, events, lines, sigs, samples, situations = {}, {}, {}, set(), [], []
    ev = 0
    viol = []
    distinct = set()
    capped = False
    for r in results:
        ev += r['evaluations']
        sigs |= r['sigs']
        distinct |= r['distinct']
        capped = capped or r['capped']
        for k, v in r['cases'].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['lines'].items():
            lines.setdefault(k, set()).update(v)
        samples.extend(r['samples'][:4])
        situations.extend(r['situations'][:2])
        viol.extend(r['violations'])
    os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
    known = [k for k in knownFindings() if k.get('property') == check]
    fresh, seenKnown = [], {}
    for v in viol:
        for k in known:
            if k.get('workload') == v['workload'] and k.get('rule') == v['rule']:
                seenKnown[k['text']] = 1
                break
        else:
            fresh.append(v)
    fresh.sort(key=lambda v: (len(v['case']), v['workload'], v['index']))
    rp = []
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(EVIDENCE, 'replays', '%s-%d.json' % (check, i))
        with open(path, 'w') as f:
            json.dump(dict(v, property=check, seed=seed, tier=tier), f, indent=1)
        rp.append(path)
    covered = {}
    for t in meta['targets']:
        all_ = codeLines(os.path.join(REPO, t))
        covered[t] = '%d of %d code lines ran under the monitors' % (
            len(lines.get(t, set()) & all_), len(all_))
    evidence = dict(
        property=check, tier=tier, seed=seed, level=meta['level'],
        coverage=dict(
            evaluations=sum(cases.values()),
            distinct_nontrivial=len(distinct),
            oracle_decisions=ev,
            distinct_situations_observed=len(sigs),
            stopped_at_time_cap=capped,
            rule=meta['rule'],
            samples=samples[:12],
            situations=situations[:12],
            cases=cases,
            events=events,
            code_lines=covered,
            shards=len(results)),
        assumptions=meta['assumptions'],
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(fresh),
        violation_details=[dict(workload=v['workload'], rule=v['rule'],
                                detail=v['detail'][:800], replay=p)
                           for v, p in zip(fresh, rp)])
    if os.environ.get('VERIF_LINES'):
        with open(os.path.join(os.environ['VERIF_LINES'], check + '.json'), 'w') as f:
            json.dump({t: sorted(v) for t, v in lines.items()}, f)
    if seenKnown:
        evidence['known_findings'] = sorted(seenKnown)
    with open(os.path.join(EVIDENCE, check + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for text in sorted(seenKnown):
        print('KNOWN-FINDING: property=%s %s' % (check, text))
    if fresh:
        for v in fresh[:3]:
            print('--- %s/%s rule=%s\n%s' % (v['workload'], v['index'], v['rule'], v['detail'][:1500]))
            print('    case: %s' % v['case'][:600])
        for p in rp[:1]:
            print('VIOLATION property=%s replay=%s' % (check, p))
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR (harness): ' + e)
        print('INCONCLUSIVE property=%s' % check)
        return 2
    need = meta['must']
    missing = [k for k in need if not events.get(k)]
    if not only and (missing or ev == 0 or not sigs):
        print('INCONCLUSIVE property=%s: the monitors never observed %s (evaluations=%d)' % (
            check, missing, ev))
        return 2
    print('OK property=%s tier=%s seed=%s cases=%d decisions=%d situations=%d wall=%.1fs' % (
        check, tier, seed, sum(cases.values()), ev, len(sigs), time.monotonic() - t0))
    return 0


def replay(check, path):
    setupImports()
    setupLogging()
    mod = importlib.import_module('vf.checks.' + check.lower())
    with open(path) as f:
        v = json.load(f)
    case = ast.literal_eval(v['case'])
    wl = [w for w in mod.WORKLOADS if w.name == v['workload']][0]
    d = tempfile.mkdtemp(prefix='vf-replay-')
    os.chdir(d)
    try:
        m = Monitor(dict(evaluations=0, events={}, sigs=set(), samples=[], samplekeys={}))
        r = runCase(wl, case, m)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    for e in m.tail:
        print('  event', short(e, 300))
    if r is None:
        print('replay: property held')
        return 0
    print('replay: rule=%s %s' % r)
    print('VIOLATION property=%s replay=%s' % (check, path))
    return 1


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=('quick', 'thorough'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--workload')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    seed = int(a.seed) if a.seed.lstrip('-').isdigit() else sum(map(ord, a.seed))
    if a.replay:
        return replay(a.property, os.path.abspath(a.replay))
    if a.property == 'all':
        worst = 0
        for f in sorted(os.listdir(os.path.join(VERIF, 'vf', 'checks'))):
            if f.startswith('c') and f.endswith('.py') and f[1:3].isdigit():
                worst = max(worst, runCheck(f[:-3].upper(), a.tier, seed))
                sys.stdout.flush()
        return worst
    return runCheck(a.property, a.tier, seed, a.workload)
