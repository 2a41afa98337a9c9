"""C10: typed command arguments and responses arrive as the values that were sent."""
import math
from twisted.internet.defer import Deferred, succeed
from twisted.python.filepath import FilePath
from vf.core import Workload
from vf.juicelib import *
from vf import timelib
from epsilon.extime import Time

TARGETS = ['epsilon/juice.py', 'epsilon/extime.py']
LEVEL = 'exploration'
RULE = ('one case = a command type with generated argument and response declarations, called over a real connection with '
        'generated values; the handler\'s view and the caller\'s view are compared with what was passed; non-trivial = '
        'the handler ran or the call was refused, and that was judged')
ASSUMPTIONS = ['lists use non-empty sequences of elements containing no character of the separator; texts are valid Unicode; '
               'EncodedString is used with encodings that produce UTF-8 or ASCII bytes', 'Time values are instants ISO 8601 can carry']
MUST_SEE = ('call', 'optional-absent', 'missing-refused', 'wire-missing', 'wire-bad', 'extra-arg', 'nested-list', 'same-command-again', 'unanswered-call',
            'unsendable-argument', 'unsendable-response', 'own-box',
            'list-apart', 'list-not-apart', 'list-overlapping', 'list-part-of-separator', 'many-arguments', 'long-name', 'own-conversion', 'own-conversion-within')

SCALARS = ('int', 'string', 'unicode', 'float', 'bool', 'b64', 'time', 'path', 'enc', 'encascii')


def without(v, sep):
    """The value, with texts which would clash with a separator replaced."""
    if isinstance(v, str):
        return '/plain' if any(c in v for c in sep) else v
    if isinstance(v, list):
        return [without(x, sep) for x in v]
    if isinstance(v, dict):
        return {k: without(x, sep) for k, x in v.items()}
    return v


def genVal(rng, ctx, ty):
    if ty == 'int':
        return rng.choice((0, 1, -1, True, False, rng.randint(-10 ** 6, 10 ** 6), 2 ** 31, 2 ** 63, -2 ** 64, rng.randint(-10 ** 30, 10 ** 30)))
    if ty in ('string', 'unicode', 'enc'):
        return genText(rng, ctx, 400)
    if ty == 'encascii':
        return genText(rng, ctx, 100).encode('ascii', 'ignore').decode()
    if ty == 'float':
        return rng.choice((0.0, -0.0, 1.5, 1e300, -1e-300, 0.1, 1 / 3., float('inf'), float('-inf'), 1e16, 123456789.123456789,
                           rng.uniform(-1e9, 1e9), rng.random()))
    if ty == 'bool':
        return rng.choice((True, False, True, False, 1, 0))
    if ty == 'b64':
        n = ctx.size(rng, 3000)
        return bytes(rng.getrandbits(8) for _ in range(n))
    if ty == 'time':
        return ['dt', timelib.genDatetime(rng, ctx, 30, 9900), None]
    if ty == 'path':
        return '/' + '/'.join(rng.choice(('a', 'b c', '\u00e9t\u00e9', 'x\ny', '-', 'z.txt', '...', 'q:')) for _ in range(rng.randint(1, 4)))
    if ty[0] == 'list':
        out = []
        for _ in range(rng.choice((1, 1, 2, 3, 17))):
            v = genVal(rng, ctx, ty[1])
            out.append(without(v, ty[2]))
        return out
    if ty[0] == 'jlist':
        return [{n: genVal(rng, ctx, t) for n, t, o in ty[1]} for _ in range(rng.choice((0, 1, 2, 3, 9)))]


def genType(rng, ctx, depth=0):
    k = rng.random()
    if k < .75 or depth > 1:
        return rng.choice(SCALARS)
    if k < .88:
        if rng.random() < .15:
            # elements which are lists themselves
            inner = ['list', rng.choice(('int', 'unicode', 'enc')), rng.choice((', ', '|'))] if rng.random() < .5 else ['jlist', genSig(rng, ctx, 2)]
            return ['list', inner, '\x1e']
        return ['list', rng.choice(('int', 'bool', 'unicode', 'float', 'string', 'b64', 'enc', 'encascii', 'path', 'time')),
                rng.choice((', ', ',', '|', '\n', '::'))]
    return ['jlist', genSig(rng, ctx, depth + 1)]


def genSig(rng, ctx, depth=0):
    names = []
    for _ in range(rng.choice((0, 1, 2, 2, 3, 5)) if depth == 0 else rng.choice((1, 2, 3))):
        n = rng.choice((genKey(rng, ctx), 'arg', 'other', 'body', 'x'))
        if n not in names and not n.startswith('_'):
            names.append(n)
    if depth == 0 and rng.random() < .02:
        # many of them
        many = [['%s%d' % (rng.choice(('arg', 'other_', 'Long'.lower() * 20)), k), rng.choice(SCALARS), rng.random() < .25]
                for k in range(rng.choice((9, 20, 70, 130)))]
        return [m for m in many if m[0] not in names]
    return [[n, genType(rng, ctx, depth), depth == 0 and rng.random() < .25] for n in names]


def fixType(ty, sig):
    return ty


def mk(ty, optional=False):
    if isinstance(ty, str):
        a = {'int': juice.Integer, 'string': juice.String, 'unicode': juice.Unicode, 'float': juice.Float,
             'bool': juice.Boolean, 'b64': juice.Base64Binary, 'time': juice.Time, 'path': juice.Path,
             'enc': lambda: juice.EncodedString('utf-8'), 'encascii': lambda: juice.EncodedString('ascii')}[ty]()
    elif ty[0] == 'list':
        a = juice.ListOf(mk(ty[1]), ty[2])
    else:
        a = juice.JuiceList([(n, mk(t)) for n, t, o in ty[1]])
    if optional:
        a.optional = True
    return a


def live(ty, v):
    """literal -> the object handed to epsilon"""
    if ty == 'time':
        return timelib.build(v)
    if ty == 'path':
        return FilePath(v)
    if isinstance(ty, list) and ty[0] == 'list':
        return [live(ty[1], x) for x in v]
    if isinstance(ty, list) and ty[0] == 'jlist':
        return [{n: live(t, d[n]) for n, t, o in ty[1]} for d in v]
    return v


def view(ty, v):
    """object -> comparable"""
    if isinstance(ty, str):
        if ty == 'time':
            return ('time', v.asNaiveDatetime())
        if ty == 'path':
            return ('path', v.path)
        if ty == 'float':
            return ('float', type(v).__name__, repr(v))
        if ty == 'bool' and isinstance(v, int):
            return ('bool', bool(v))
        if ty == 'int' and isinstance(v, int):
            # truth values are integers too
            return ('int', int(v))
        return (type(v).__name__, v)
    if ty[0] == 'list':
        return ('list', [view(ty[1], x) for x in v])
    return ('jlist', [sorted((k, view(dict((n, t) for n, t, o in ty[1])[k], x)) for k, x in d.items()) for d in v])


def gen(rng, i, ctx):
    args = genSig(rng, ctx)
    resp = genSig(rng, ctx)
    return dict(args=args, resp=resp, av={n: genVal(rng, ctx, t) for n, t, o in args},
                rv={n: genVal(rng, ctx, t) for n, t, o in resp},
                drop=[n for n, t, o in args if o and rng.random() < .5], rdrop=[n for n, t, o in resp if o and rng.random() < .5],
                style=rng.choice(('plain', 'upper', 'dash')), async_=rng.random() < .5, cuts=rng.choice((1, 3, 50, 10 ** 6)),
                name=rng.choice(('Foo', 'FooBar', 'do_it', 'X')), classname=rng.random() < .2)


def setup(case, impl):
    ns = dict(arguments=[(n, mk(t, o)) for n, t, o in case['args']], response=[(n, mk(t, o)) for n, t, o in case['resp']])
    if not case.get('classname'):
        ns['commandName'] = case['name']
    # a command which does not say its name is called what its class is
    cmd = type(case['name'] if case.get('classname') else 'Cmd', (juice.Command,), ns)

    def command(self, **kw):
        return impl(kw)
    command.command = cmd
    Server = type('Server', (juice.Juice,), {'command_' + case['name'].upper(): command})
    link = Link(juice.Juice(False), Server(True))
    return cmd, link


def pump(link, n):
    while link.deliver(0, n) or link.deliver(1, n):
        pass


def spell(n, style):
    if style == 'upper':
        return n.upper()
    if style == 'dash':
        return n.replace('_', '-').title()
    return n


def run(case, mon):
    calls = []
    ra = {n: live(t, case['rv'][n]) for n, t, o in case['resp'] if n not in case['rdrop']}

    def impl(kw):
        calls.append(kw)
        mon.event('call')
        return succeed(ra) if case['async_'] else ra
    cmd, link = setup(case, impl)
    kw = {spell(n, case['style']): live(t, case['av'][n]) for n, t, o in case['args'] if n not in case['drop']}
    out = Outcome(cmd(**kw).do(link.p[0]))
    pump(link, case['cuts'])
    mon.eq(len(calls), 1, 'handler-calls', loggedFailures()[:1])
    types = {n: t for n, t, o in case['args']}
    got = calls[0]
    mon.eq(set(got), set(types), 'argument-names')
    for n, t, o in case['args']:
        if n in case['drop']:
            mon.event('optional-absent')
            mon.check(got[n] is None, 'optional-argument', n, got[n])
        else:
            mon.eq(view(t, got[n]), view(t, live(t, case['av'][n])), 'argument-value', n, t)
        if not isinstance(t, str):
            mon.event('nested-list')
        if len(n) > 64:
            mon.event('long-name')
        mon.sig('arg', t if isinstance(t, str) else t[0], n == 'body', n in case['drop'])
    if len(types) > 64:
        mon.event('many-arguments')
    mon.check(out.fired == 1 and out.results[0][0] == 'ok', 'call-result', out.results)
    res = out.results[0][1]
    mon.eq(set(res), set(n for n, t, o in case['resp']), 'response-names')
    for n, t, o in case['resp']:
        if n in case['rdrop']:
            mon.check(res[n] is None, 'optional-response', n)
        else:
            mon.eq(view(t, res[n]), view(t, live(t, case['rv'][n])), 'response-value', n, t)
        mon.sig('resp', t if isinstance(t, str) else t[0], n == 'body', n in case['rdrop'])
    # a forgotten required argument is refused before anything is sent
    req = [n for n, t, o in case['args'] if not o]
    for n in req:
        k2 = {k: v for k, v in kw.items() if juice.normalizeKey(k) != n}
        mon.event('missing-refused')
        mon.raises(RuntimeError, 'forgotten-argument', lambda: cmd(**k2))
    lf = loggedFailures()
    mon.check(not lf, 'logged-error', lf[:1])


def genRepeated(rng, i, ctx):
    args = genSig(rng, ctx)
    resp = genSig(rng, ctx)
    kinds = []
    for _ in range(rng.randint(2, 5)):
        kinds.append(dict(av={n: genVal(rng, ctx, t) for n, t, o in args}, rv={n: genVal(rng, ctx, t) for n, t, o in resp},
                          drop=[n for n, t, o in args if o and rng.random() < .5]))
    ops = []
    for _ in range(rng.randint(2, 8)):
        ops.append([rng.randrange(len(kinds)), rng.choice(('new', 'again', 'again')), rng.choice((0, 0, 1)), rng.random() < .75, rng.random() < .5])
    return dict(args=args, resp=resp, kinds=kinds, ops=ops, name='Foo', cuts=rng.choice((1, 50, 10 ** 6)))


def runRepeated(case, mon):
    """Several calls of one command, on two connections, some of them of one Command object."""
    calls = [[], []]
    answers = [[], []]
    links = []
    for which in (0, 1):
        def impl(kw, which=which):
            calls[which].append(kw)
            mon.event('call')
            return answers[which][len(calls[which]) - 1]
        cmd, link = setup(case, impl)
        if which:
            class Server(juice.Juice):
                def command_FOO(self, **kw):
                    return impl(kw)
                command_FOO.command = first
            link = Link(juice.Juice(False), Server(True))
        else:
            first = cmd
        links.append(link)
    cmd = first
    made = {}
    want = [[], []]
    outs = []
    for k, how, which, answer, now in case['ops']:
        kind = case['kinds'][k]
        if how == 'new' or k not in made:
            made[k] = cmd(**{n: live(t, kind['av'][n]) for n, t, o in case['args'] if n not in kind['drop']})
        else:
            mon.event('same-command-again')
        # everything has been delivered to the handler in order, so its answer can be planned
        answers[which].append({n: live(t, kind['rv'][n]) for n, t, o in case['resp']})
        want[which].append(k)
        d = made[k].do(links[which].p[0], requiresAnswer=answer)
        if answer:
            outs.append((k, Outcome(d)))
        else:
            mon.event('unanswered-call')
            mon.check(d is None, 'unanswered-result', d)
        if now:
            pump(links[which], case['cuts'])
    for link in links:
        pump(link, case['cuts'])
    for which in (0, 1):
        mon.eq(len(calls[which]), len(want[which]), 'handler-calls', loggedFailures()[:1])
        for got, k in zip(calls[which], want[which]):
            kind = case['kinds'][k]
            mon.eq(set(got), set(n for n, t, o in case['args']), 'argument-names')
            for n, t, o in case['args']:
                if n in kind['drop']:
                    mon.check(got[n] is None, 'optional-argument', n, got[n])
                else:
                    mon.eq(view(t, got[n]), view(t, live(t, kind['av'][n])), 'argument-value', n, t)
    for k, out in outs:
        kind = case['kinds'][k]
        mon.check(out.fired == 1 and out.results[0][0] == 'ok', 'call-result', out.results)
        res = out.results[0][1]
        mon.eq(set(res), set(n for n, t, o in case['resp']), 'response-names')
        for n, t, o in case['resp']:
            mon.eq(view(t, res[n]), view(t, live(t, kind['rv'][n])), 'response-value', n, t)
    mon.sig('repeated', len(case['ops']), len(case['args']), len(case['resp']))


NONSENSE = {'int': ('x1', '', '1.5', 'None', '0x1f', '1 2', '12abc', '--1', 'True', '1e3'), 'float': ('y', '', '1;5', '1.2.3', 'None', '0x1', '1e'),
            'bool': ('maybe', '', 'true', 'FALSE', '1', '0', 'None', 'T', 'Truely', 'False '), 'b64': ('abc', 'a', 'abcde', 'YQ='),
            'time': ('whenever', '', '2005-13-01T00:00:00', '2005-02-30T00:00:00', '2005-01-01T25:00:00', '10:00', 'Tue, 1 Jan 2005 00:00:00 +0000', '1234567890'),
            'encascii': ('caf\u00e9', '\u20ac')}


def nonsense(ty, good, k=0):
    """Text which is no value of the type, or None."""
    if isinstance(ty, str):
        return NONSENSE[ty][k % len(NONSENSE[ty])] if ty in NONSENSE else None
    if ty[0] == 'list':
        bad = nonsense(ty[1], '', k)
        return bad if bad is None else ty[2].join([good.decode() if isinstance(good, bytes) else good, bad])
    for n, t, o in ty[1]:
        bad = nonsense(t, '', k)
        if bad is not None and n != 'body':
            return '%s: %s\r\n\r\n' % (n.replace('_', '-').title(), bad) if len(ty[1]) == 1 and isinstance(t, str) else None
    return None


def genWire(rng, i, ctx):
    args = genSig(rng, ctx)
    while not any(not o for n, t, o in args):
        args = genSig(rng, ctx)
    return dict(args=args, resp=[], av={n: genVal(rng, ctx, t) for n, t, o in args}, name='Foo',
                drop=rng.choice([n for n, t, o in args if not o]), extra=rng.random() < .5, bad=rng.random() < .5, k=rng.randrange(100))


def runWire(case, mon):
    """A box on the wire that lacks a required argument, or carries nonsense, never reaches the handler."""
    calls = []
    cmd, link = setup(case, lambda kw: calls.append(kw) or {})
    types = {n: t for n, t, o in case['args']}
    # capture a well formed box, then damage it
    rec = []

    class Cap(juice.Juice):
        def sendPacket(self, box):
            rec.append(box)
    cap = Cap(False)
    cap.makeConnection(Transport())
    cmd(**{n: live(t, case['av'][n]) for n, t, o in case['args']}).do(cap)
    box = rec[0]
    n = case['drop']
    bad = nonsense(types[n], box[n], case['k']) if case['bad'] else None
    if bad is not None:
        mon.event('wire-bad')
        box[n] = bad
    else:
        mon.event('wire-missing')
        del box[n]
    if case['extra']:
        box['unexpected_extra'] = 'v'
    link.p[1].dataReceived(box.serialize())
    mon.eq(calls, [], 'handler-called-with-bad-box', n)
    link.collect()
    answers = juice.parseString(bytes(link.wire[0]))
    mon.check(len(answers) == 1 and '_error' in answers[0] and answers[0]['_error'] == box['_ask'], 'no-error-answer', answers)
    mon.sig('wire', types[n] if isinstance(types[n], str) else types[n][0], case['bad'], case['extra'])


class Q(object):
    def __init__(self, resource, domain):
        self.resource, self.domain = resource, domain


def genExtra(rng, i, ctx):
    kinds = ['Peer', 'PeerDomain', 'PeerUser', 'Host', 'HostDomain', 'HostUser']
    return dict(kinds=rng.sample(kinds, rng.randint(1, 6)), forge=rng.random() < .5, v=genText(rng, ctx, 50))


def runExtra(case, mon):
    calls = []
    cmd = type('Cmd', (juice.Command,), dict(commandName='Foo', arguments=[('a', juice.Unicode())], response=[],
                                            extra=[('e%d' % k, getattr(juice, n)()) for k, n in enumerate(case['kinds'])]))

    class Server(juice.Juice):
        def command_FOO(self, **kw):
            calls.append(kw)
            return {}
        command_FOO.command = cmd
    link = Link(juice.Juice(False), Server(True))
    peer, host = Q('puser', 'pdomain'), Q('huser', 'hdomain')
    for t in link.t:
        t.getQ2QPeer = lambda: peer
        t.getQ2QHost = lambda: host
    vals = {'Peer': peer, 'PeerDomain': 'pdomain', 'PeerUser': 'puser', 'Host': host, 'HostDomain': 'hdomain', 'HostUser': 'huser'}
    box = juice.Box(a=case['v'])
    if case['forge']:
        for k in range(len(case['kinds'])):
            box['e%d' % k] = 'forged'
    out = Outcome(link.p[0].sendBoxCommand('FOO', box))
    link.flush()
    mon.event('extra-arg')
    want = {'e%d' % k: vals[n] for k, n in enumerate(case['kinds'])}
    want['a'] = case['v']
    mon.eq(calls, [want], 'extra-arguments')
    out = Outcome(cmd(a='x').do(link.p[0]))
    link.flush()
    del want['a']
    mon.eq(out.results, [('ok', want)], 'extra-response')
    mon.sig('extra', tuple(case['kinds']), case['forge'])


# ------------------------------------------------- values the declared type cannot carry

def genUnsendable(rng, i, ctx):
    ty = rng.choice(('encascii', 'encascii', 'enc', 'unicode', 'string', 'enclatin'))
    bad = genText(rng, ctx, 20) + (rng.choice(('\u00e9', '\u20ac', '\U0001f600', '\x80')) if ty == 'encascii' else
                                   '\u20ac' if ty == 'enclatin' else rng.choice(('\ud800', '\udfff', '\udc80'))) + genText(rng, ctx, 20)
    shape = rng.choice(('plain', 'plain', 'list', 'jlist'))
    return dict(ty=ty, bad=bad, shape=shape, name=rng.choice(('a', 'body', 'long_name')), where=rng.choice(('argument', 'response')),
                other=genText(rng, ctx, 30), answer=rng.random() < .8)


def runUnsendable(case, mon):
    """What the declared type cannot express is refused: it never arrives as something else."""
    def arg():
        return juice.EncodedString('latin-1') if case['ty'] == 'enclatin' else mk(case['ty'])
    if case['shape'] == 'list':
        decl, value = juice.ListOf(arg(), '\x1e'), ['x', case['bad']]
    elif case['shape'] == 'jlist':
        decl, value = juice.JuiceList([('k', arg())]), [{'k': 'x'}, {'k': case['bad']}]
    else:
        decl, value = arg(), case['bad']
    good = [('other', juice.Unicode())]
    inArg = case['where'] == 'argument'
    cmd = type('Cmd', (juice.Command,), dict(commandName='Foo', arguments=good + ([(case['name'], decl)] if inArg else []),
                                            response=good + ([] if inArg else [(case['name'], decl)])))
    calls = []

    class Server(juice.Juice):
        def command_FOO(self, **kw):
            calls.append(kw)
            r = {'other': case['other']}
            if not inArg:
                r[case['name']] = value
            return r
        command_FOO.command = cmd
    link = Link(juice.Juice(False), Server(True))
    kw = {'other': case['other']}
    if inArg:
        kw[case['name']] = value
    results = []
    try:
        d = cmd(**kw).do(link.p[0], requiresAnswer=case['answer'])
    except Exception as e:
        results.append(('err', e))
    else:
        if d is not None:
            results = Outcome(d).results
    link.flush()
    mon.event('unsendable-' + case['where'])
    if inArg:
        for c in calls:
            mon.eq(c, kw, 'argument-altered', case['ty'])
        if not calls:
            mon.check(not case['answer'] or [k for k, v in results] == ['err'], 'refused-silently', results)
    elif case['answer']:
        mon.eq(len(results), 1, 'unresolved')
        if results[0][0] == 'ok':
            mon.eq(results[0][1], {'other': case['other'], case['name']: value}, 'response-altered', case['ty'])
        mon.eq(len(calls), 1, 'handler-calls')
    loggedFailures()
    mon.sig('unsendable', case['ty'], case['shape'], case['where'], case['name'], [k for k, v in results])


# ------------------------------------------------- lists and their separators

def genLists(rng, i, ctx):
    sep = rng.choice((', ', ',', '|', '||', '--', 'aba', '\r\n', ' ', '::', '\u00e9', 'abab', '\r\n\r\n'))
    chars = list(sep) + ['x', '', rng.choice(sep)]
    items = [''.join(rng.choice(chars) for _ in range(rng.choice((0, 1, 1, 2, 3, 5)))) for _ in range(rng.choice((1, 2, 2, 3, 8)))]
    return dict(sep=sep, items=items, ty=rng.choice(('unicode', 'string', 'enc')), where=rng.choice(('argument', 'response')))


def runLists(case, mon):
    """A list whose elements the separator tells apart arrives as it is; one whose elements it does not is refused."""
    sep, items = case['sep'], case['items']
    apart = sep.join(items).split(sep) == items
    sig = [('l', juice.ListOf(mk(case['ty']), sep))]
    inArg = case['where'] == 'argument'
    cmd = type('Cmd', (juice.Command,), dict(commandName='Foo', arguments=sig if inArg else [], response=[] if inArg else sig))
    calls = []

    class Server(juice.Juice):
        def command_FOO(self, **kw):
            calls.append(kw)
            return {} if inArg else {'l': items}
        command_FOO.command = cmd
    link = Link(juice.Juice(False), Server(True))
    results = []
    try:
        results = Outcome(cmd(**({'l': items} if inArg else {})).do(link.p[0])).results
    except Exception as e:
        results.append(('err', e))
    link.flush()
    mon.eq(len(results), 1, 'unresolved')
    kind, v = results[0]
    if apart:
        mon.event('list-apart')
        if any(c in x for x in items for c in sep):
            mon.event('list-part-of-separator')
        mon.check(kind == 'ok', 'refused', sep, items, v)
        mon.eq((calls[0] if inArg else v)['l'], items, 'list-altered', sep)
    else:
        mon.event('list-not-apart')
        if not any(sep in x for x in items):
            mon.event('list-overlapping')
        mon.check(kind == 'err', 'not-refused', sep, items, calls, v)
        if inArg:
            mon.eq(calls, [], 'handler-called')
    mon.sig('lists', sep, case['ty'], case['where'], apart, len(items), sum(sep in x for x in items))
    loggedFailures()


# ------------------------------------------------- commands with boxes of their own

def genBoxes(rng, i, ctx):
    sig = lambda: [[n, rng.choice(('int', 'unicode')), True] for n in rng.sample(['a', 'b', 'body'], rng.choice((0, 0, 1, 2)))]
    args, resp = sig(), sig()
    return dict(args=args, resp=resp, own=rng.choice((['command'], ['response'], ['command', 'response'])),
                ops=[[rng.random() < .6, rng.random() < .5, genText(rng, ctx, 20)] for _ in range(rng.randint(1, 4))])


def runBoxes(case, mon):
    """Every request of a command is a box of the command's commandType, every response one of its responseType."""
    sent = []

    def boxType(kind):
        class Own(juice.Box):
            def sendTo(self, proto):
                sent.append((kind, dict(self)))
                return juice.Box.sendTo(self, proto)
        return Own
    ns = dict(commandName='Foo', arguments=[(n, mk(t, True)) for n, t, o in case['args']],
              response=[(n, mk(t, True)) for n, t, o in case['resp']])
    for kind in case['own']:
        ns[kind + 'Type'] = boxType(kind)
    cmd = type('Cmd', (juice.Command,), ns)
    calls = []

    def value(t, v):
        return len(v) if t == 'int' else v

    class Server(juice.Juice):
        def command_FOO(self, **kw):
            calls.append(kw)
            return {n: value(t, case['ops'][len(calls) - 1][2]) for n, t, o in case['resp']}
        command_FOO.command = cmd
    link = Link(juice.Juice(False), Server(True))
    for k, (answer, given, v) in enumerate(case['ops']):
        del sent[:]
        kw = {n: value(t, v) for n, t, o in case['args']} if given else {}
        d = cmd(**kw).do(link.p[0], requiresAnswer=answer)
        out = Outcome(d) if d is not None else None
        link.flush()
        mon.event('own-box')
        mon.eq(len(calls), k + 1, 'handler-calls')
        mon.eq(calls[-1], {n: kw.get(n) for n, t, o in case['args']}, 'argument-value')
        want = [kind for kind in ('command', 'response') if kind in case['own'] and (kind == 'command' or answer)]
        mon.eq([kind for kind, b in sent], want, 'box-kind', answer, given)
        if answer:
            mon.eq(out.results, [('ok', {n: value(t, v) for n, t, o in case['resp']})], 'response-value')
        mon.sig('own-box', tuple(case['own']), answer, given, len(case['args']), len(case['resp']))


# ------------------------------------------------- types of argument which depend on the connection

def genOwn(rng, i, ctx):
    shape = lambda: rng.choice(('plain', 'plain', 'list', 'jlist', 'list-in-jlist', 'jlist-in-jlist'))
    return dict(args=[['a%d' % k, shape()] for k in range(rng.randint(0, 3))], resp=[['r%d' % k, shape()] for k in range(rng.randint(0, 3))],
                optional=rng.random() < .3, how=rng.choice(('proto', 'proto', 'plain')), n=rng.randint(1, 4), calls=rng.randint(1, 3),
                both=rng.random() < .3)


class Referred(object):
    def __init__(self, n):
        self.n = n


class Reference(juice.Argument):
    """An object stays where it is: its number in the table of the connection is sent."""
    def toStringProto(self, obj, proto):
        proto.objects.append(obj)
        return '%s%d' % (proto.side, len(proto.objects) - 1)

    def fromStringProto(self, s, proto):
        proto.referred.append(s)
        return (proto.side, s)


class Upside(juice.Argument):
    def toString(self, obj):
        return obj[::-1]

    def fromString(self, s):
        return s[::-1]


def runOwn(case, mon):
    """A type of argument which converts with the help of the connection is given the connection of its end."""
    proto = case['how'] == 'proto'

    def mkOwn(shape):
        t = Reference if proto else Upside
        if shape == 'plain':
            return t(optional=case['optional'])
        if shape == 'list':
            return juice.ListOf(t())
        if shape == 'list-in-jlist':
            return juice.JuiceList([('l', juice.ListOf(t()))])
        if shape == 'jlist-in-jlist':
            return juice.JuiceList([('j', juice.JuiceList([('x', t())]))])
        return juice.JuiceList([('x', t())])
    made = [0]

    def value(shape):
        def one():
            made[0] += 1
            return Referred(made[0]) if proto else 'Text %d' % made[0]
        if shape == 'plain':
            return one()
        if shape == 'list':
            return [one() for _ in range(case['n'])]
        if shape == 'list-in-jlist':
            return [{'l': [one() for _ in range(case['n'])]} for _ in range(2)]
        if shape == 'jlist-in-jlist':
            return [{'j': [{'x': one()} for _ in range(case['n'])]} for _ in range(2)]
        return [{'x': one()} for _ in range(case['n'])]

    def flat(v):
        if isinstance(v, list):
            return [y for x in v for y in flat(x)]
        if isinstance(v, dict):
            return [y for k in sorted(v) for y in flat(v[k])]
        return [v]
    cmd = type('Cmd', (juice.Command,), dict(commandName='Foo', arguments=[(n, mkOwn(s)) for n, s in case['args']],
                                            response=[(n, mkOwn(s)) for n, s in case['resp']]))
    calls, answers = [], []

    class End(juice.Juice):
        def command_FOO(self, **kw):
            calls.append((self, kw))
            r = {n: value(s) for n, s in case['resp']}
            answers.append(r)
            return r
        command_FOO.command = cmd
    link = Link(End(False), End(True))
    for side, p in zip('cs', link.p):
        p.side, p.objects, p.referred = side, [], []
    for k in range(case['calls']):
        me = k % 2 if case['both'] else 0
        here, there = link.p[me], link.p[1 - me]
        at = {p: len(p.objects) for p in link.p}
        kw = {n: value(s) for n, s in case['args']}
        out = Outcome(cmd(**kw).do(here))
        link.flush()
        mon.eq(len(calls), k + 1, 'handler-calls', loggedFailures()[:1])
        mon.check(calls[-1][0] is there, 'handled-by')
        mon.eq([x for x, y in out.results], ['ok'], 'call-result')
        for src, dst, sent, got in ((here, there, kw, calls[-1][1]), (there, here, answers[-1], out.results[0][1])):
            mon.eq(set(got), set(sent), 'names')
            for n in sent:
                mon.event('own-conversion')
                objs, vals = flat(sent[n]), flat(got[n])
                if proto:
                    mon.eq([v[0] for v in vals], [dst.side] * len(objs), 'converted-for-another-connection', n)
                    mon.eq([v[1][0] for v in vals], [src.side] * len(objs), 'converted-by-another-connection', n)
                    mon.check(all(src.objects[int(v[1][1:])] is o for v, o in zip(vals, objs)), 'reference', n)
                    if not isinstance(sent[n], Referred):
                        mon.event('own-conversion-within')
                else:
                    mon.eq(got[n], sent[n], 'value', n)
        mon.sig('own', case['how'], tuple(s for n, s in case['args']), tuple(s for n, s in case['resp']), me)
    mon.check(not loggedFailures(), 'logged')


WORKLOADS = [
    Workload('own-conversions', genOwn, runOwn, 3000, 40000),
    Workload('unsendable', genUnsendable, runUnsendable, 4000, 60000),
    Workload('lists', genLists, runLists, 4000, 60000),
    Workload('own-boxes', genBoxes, runBoxes, 3000, 40000),
    Workload('repeated', genRepeated, runRepeated, 4000, 80000),
    Workload('calls', gen, run, 16000, 400000),
    Workload('wire', genWire, runWire, 6000, 100000),
    Workload('extra', genExtra, runExtra, 3000, 30000),
]
