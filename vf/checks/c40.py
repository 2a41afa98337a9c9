"""C40: juice speaks, and understands, exactly the wire format that other implementations use."""
import base64
import re
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from vf.core import Workload
from vf.juicelib import *
from vf import timelib
from vf.checks import c10

TARGETS = ['epsilon/juice.py', 'epsilon/liner.py']
LEVEL = 'exploration'
RULE = ('one case = a conversation between a juice connection and a peer which is not juice: its own encoder and decoder of the '
        'wire format, sharing no code with epsilon; a monitor decodes every byte written and compares each box, key by key, with '
        'what was asked, answered or raised, and each delivery with what the peer sent; non-trivial = a box was decoded and judged')
ASSUMPTIONS = ['header names are ASCII and, as always in juice, case does not matter in them',
               'the tag of a request is any text not in use by another outstanding request']
MUST_SEE = ('request', 'request-with-body', 'tell', 'answer', 'answer-with-body', 'error', 'fatal-error', 'unhandled-error', 'peer-request', 'peer-tell',
            'peer-answer', 'peer-error', 'folded', 'pipelined', 'empty-body', 'positional-body', 'typed-request', 'typed-answer', 'typed-request-understood', 'typed-answer-understood', 'namespace')


def encode(fields, case, rng, order=True):
    """The wire format, written down independently."""
    lines = []
    body = None
    items = list(fields.items())
    if order:
        rng.shuffle(items)
    for k, v in items:
        v = v.encode('utf-8')
        if k == 'body':
            body = v
            k, v = '_length', str(len(v)).encode()
        k = k.replace('_', '-')
        if case == 'title':
            k = k.title()
        elif case == 'upper':
            k = k.upper()
        elif case == 'mixed':
            k = ''.join(c.upper() if rng.random() < .5 else c.lower() for c in k)
        lines.append(k.encode() + b': ' + v.replace(b'\r\n', b'\r\n ') + b'\r\n')
    return b''.join(lines) + b'\r\n' + (body or b'')


class Decoder(object):
    """Reads boxes off a byte stream."""
    def __init__(self):
        self.buf = b''

    def feed(self, data):
        self.buf += data
        boxes = []
        while True:
            r = self.one()
            if r is None:
                return boxes
            boxes.append(r)

    def one(self):
        pos, box, key = 0, {}, None
        while True:
            e = self.buf.find(b'\r\n', pos)
            if e < 0:
                return None
            line = self.buf[pos:e]
            pos = e + 2
            if not line:
                break
            if line[:1] == b' ':
                box[key] += b'\r\n' + line[1:]
                continue
            k, sep, v = line.partition(b': ')
            if not sep:
                raise ValueError('bad header line %r' % (line,))
            key = k.decode('ascii').lower().replace('-', '_')
            if key in box:
                raise ValueError('header twice: %r' % (line,))
            box[key] = v
        n = box.pop('_length', None)
        if n is not None:
            if not n.isdigit():
                raise ValueError('bad length %r' % (n,))
            n = int(n)
            if len(self.buf) < pos + n:
                return None
            box['body'] = self.buf[pos:pos + n]
            pos += n
        self.buf = self.buf[pos:]
        return {k: v.decode('utf-8') for k, v in box.items()}


RESERVED = ('command', 'self', 'body')


def genFields(rng, ctx):
    f = {}
    for _ in range(rng.choice((0, 1, 1, 2, 4))):
        k = genKey(rng, ctx)
        if k.startswith('_') or k.lower() in RESERVED or not k.isidentifier():
            continue
        f[k] = genText(rng, ctx, 60)
    if rng.random() < .3:
        f['body'] = genText(rng, ctx, 80)
    return f


COMMANDS = ['echo', 'Echo', 'ECHO', 'fail', 'Later', 'later', 'boom', 'fatal', 'nothing-such', 'two-words', 'Two_Words']
CODES = ['CODE', '1', 'some code', '', 'UNKNOWN', 'x\r\ny']


def gen(rng, i, ctx):
    ops = []
    for _ in range(rng.choice((1, 2, 4, 8, 16))):
        k = rng.random()
        if k < .3:
            ops.append(['send', rng.choice(('box', 'box', 'kw')), rng.choice(COMMANDS + ['any Thing', 'a:b']), genFields(rng, ctx), rng.random() < .8])
        elif k < .5:
            ops.append(['reply', rng.randint(0, 99), rng.choice(('answer', 'answer', 'error')), genFields(rng, ctx),
                        rng.choice(CODES), genText(rng, ctx, 30)])
        elif k < .85:
            ops.append(['ask', rng.choice(COMMANDS), genFields(rng, ctx), rng.random() < .8,
                        rng.choice(('%x' % rng.randint(0, 40), genText(rng, ctx, 10)))])
        elif k < .93:
            ops.append(['finish', rng.randint(0, 99), rng.choice(('ok', 'ok', 'err')), genFields(rng, ctx), rng.choice(CODES), genText(rng, ctx, 20)])
        else:
            ops.append(['deliver'])
    return dict(ops=ops, case=rng.choice(('title', 'upper', 'mixed', 'lower')), seed=rng.randint(0, 10 ** 6), server=rng.random() < .5,
                batch=rng.random() < .4, cut=rng.choice((1, 2, 7, 50, 10 ** 6)))


def keyed(f):
    """As the wire has them: keys which are Python words are capitalised only inside boxes."""
    return {k.lower(): v for k, v in f.items()}


def run(case, mon):
    import random
    rng = random.Random(case['seed'])
    later = []
    handled = []

    class End(juice.Juice):
        def juice_ECHO(self, box):
            handled.append(('ECHO', dict(box)))
            r = juice.Box()
            r.update({k: v for k, v in box.items() if not k.startswith('_')})
            return r

        def juice_FAIL(self, box):
            handled.append(('FAIL', dict(box)))
            raise juice.RemoteJuiceError('CODE', 'the text')

        def juice_FATAL(self, box):
            handled.append(('FATAL', dict(box)))
            raise juice.RemoteJuiceError('DEADLY', 'the end', True)

        def juice_BOOM(self, box):
            handled.append(('BOOM', dict(box)))
            raise ZeroDivisionError('hidden')

        def juice_LATER(self, box):
            handled.append(('LATER', dict(box)))
            d = Deferred()
            later.append((box.get('_ask'), d))
            return d

        def juice_TWO_WORDS(self, box):
            handled.append(('TWO_WORDS', dict(box)))
            return juice.Box(two='words')
    end = End(case['server'])
    t = Transport()
    end.makeConnection(t)
    decoder = Decoder()
    outstanding = {}        # tag -> (Outcome)
    asked = set()
    inbound = []            # (bytes, effect) the peer has sent and not yet delivered
    expected = []           # boxes the connection must have written, in order; tag None: any fresh one
    closed = [False]

    def read():
        data = bytes(t.out)
        del t.out[:]
        try:
            boxes = decoder.feed(data)
        except (ValueError, UnicodeDecodeError) as e:
            mon.fail('not-the-wire-format', data[:200], repr(e))
        mon.check(not decoder.buf, 'incomplete-box-written', decoder.buf[:200])
        mon.eq(len(boxes), len(expected), 'boxes-written', boxes, expected)
        if len(boxes) > 1:
            mon.event('pipelined')
        for got, (want, out, what) in zip(boxes, expected):
            if what == 'request':
                mon.check('_ask' in got, 'request-without-tag', got)
                tag = got.pop('_ask')
                mon.check(tag not in outstanding, 'tag-reused', tag)
                outstanding[tag] = out
                if 'body' in want:
                    mon.event('request-with-body')
            if what == 'unhandled-error':
                mon.check(got.pop('_error_description', None) is not None, 'error-without-description', got)
            mon.eq(got, want, what, data[:300])
            mon.event(what)
            if what == 'answer' and 'body' in want:
                mon.event('answer-with-body')
            if any('\r\n' in v for k, v in want.items() if k != 'body'):
                mon.event('folded')
            if want.get('body') == '':
                mon.event('empty-body')
            mon.sig(what, len(want), 'body' in want, case['case'], case['server'])
        del expected[:]

    def push(fields, effect):
        inbound.append((encode(fields, case['case'], rng), effect))
        if not case['batch']:
            deliver()

    def deliver():
        data = b''.join(b for b, e in inbound)
        effects = [e for b, e in inbound]
        del inbound[:]
        if len(effects) > 1:
            mon.event('pipelined')
        for k in range(0, len(data), case['cut']):
            end.dataReceived(data[k:k + case['cut']])
        for e in effects:
            e()
        read()
        mon.eq(t.disconnecting, closed[0], 'connection-closed')

    pending = {}
    for op in case['ops']:
        if closed[0]:
            break
        if op[0] == 'send':
            _, how, cmd, fields, answer = op
            deliver()
            if closed[0]:
                break
            if how == 'kw':
                body = fields.get('body', '')
                rest = {k: v for k, v in fields.items() if k != 'body'}
                if body:
                    mon.event('positional-body')
                    args = (body,)
                else:
                    args = ()
                    fields = rest
                if answer:
                    d = end.sendCommand(cmd, *args, **rest)
                else:
                    d = end.sendCommand(cmd, (args or ('',))[0], False, **rest)
            else:
                b = juice.Box()
                b.update(fields)
                d = end.sendBoxCommand(cmd, b, answer)
            want = dict(keyed(fields), _command=cmd)
            mon.check((d is not None) == answer, 'request-result', d)
            expected.append((want, Outcome(d) if answer else None, 'request' if answer else 'tell'))
            read()
        elif op[0] == 'reply':
            _, n, kind, fields, code, text = op
            free = [x for x in sorted(outstanding) if x not in pending]
            if not free or any(getattr(e, 'closes', False) for b, e in inbound):
                continue
            tag = free[n % len(free)]
            pending[tag] = 1
            out = outstanding[tag]
            if kind == 'answer':
                def effect(out=out, tag=tag, fields=fields):
                    del outstanding[tag], pending[tag]
                    mon.event('peer-answer')
                    mon.eq(out.fired, 1, 'answer-delivered')
                    mon.eq(out.results[0][0], 'ok', 'answer-delivered', out.results)
                    got = dict(out.results[0][1])
                    mon.eq(got.pop('_answer', None), tag, 'answer-tag')
                    mon.eq(got, fields, 'answer-content')
                push(dict(keyed(fields), _answer=tag), effect)
            else:
                def effect(out=out, tag=tag, code=code, text=text):
                    del outstanding[tag], pending[tag]
                    mon.event('peer-error')
                    mon.eq(out.fired, 1, 'error-delivered')
                    mon.eq(out.results[0][0], 'err', 'error-delivered', out.results)
                    f = out.results[0][1]
                    mon.check(f.check(juice.RemoteJuiceError) is not None, 'error-class', f.type)
                    mon.eq((f.value.errorCode, f.value.description), (code, text), 'error-content')
                push({'_error': tag, '_error_code': code, '_error_description': text}, effect)
        elif op[0] == 'ask':
            _, cmd, fields, ask, tag = op
            name = cmd.upper().replace('-', '_')
            if not ask and name in ('FAIL', 'FATAL', 'BOOM', 'NOTHING_SUCH', 'LATER') or ask and tag in asked:
                continue
            req = dict(keyed(fields), _command=cmd)
            if ask:
                asked.add(tag)
                req['_ask'] = tag
            whole = dict(fields, _command=cmd)
            if ask:
                whole['_ask'] = tag
            if closed[0] or any(getattr(e, 'closes', False) for b, e in inbound):
                continue

            def effect(name=name, fields=fields, ask=ask, tag=tag, whole=whole):
                mon.event('peer-request' if ask else 'peer-tell')
                if name != 'NOTHING_SUCH':
                    mon.check(handled, 'request-not-delivered', name)
                    mon.eq(handled.pop(0), (name, whole), 'request-delivered')
                if not ask:
                    return
                if name == 'ECHO':
                    expected.append((dict(keyed(fields), _answer=tag), None, 'answer'))
                elif name == 'TWO_WORDS':
                    expected.append(({'_answer': tag, 'two': 'words'}, None, 'answer'))
                elif name == 'FAIL':
                    expected.append(({'_error': tag, '_error_code': 'CODE', '_error_description': 'the text'}, None, 'error'))
                elif name == 'FATAL':
                    expected.append(({'_error': tag, '_error_code': 'DEADLY', '_error_description': 'the end'}, None, 'fatal-error'))
                    closed[0] = True
                elif name in ('BOOM', 'NOTHING_SUCH'):
                    expected.append(({'_error': tag, '_error_code': 'UNHANDLED'}, None, 'unhandled-error'))
                    closed[0] = True
                    loggedFailures()
            effect.closes = ask and name in ('FATAL', 'BOOM', 'NOTHING_SUCH')
            push(req, effect)
        elif op[0] == 'finish':
            _, n, kind, fields, code, text = op
            deliver()
            if closed[0] or not later:
                continue
            tag, d = later.pop(n % len(later))
            if kind == 'ok':
                r = juice.Box()
                r.update(fields)
                expected.append((dict(keyed(fields), _answer=tag), None, 'answer'))
                d.callback(r)
            else:
                expected.append(({'_error': tag, '_error_code': code, '_error_description': text}, None, 'error'))
                d.errback(Failure(juice.RemoteJuiceError(code, text)))
            read()
        else:
            deliver()
    if not closed[0]:
        deliver()
    mon.check(not handled, 'handled-what-was-not-sent', handled)
    for o in outstanding.values():
        mon.eq(o.fired, 0, 'answered-by-nobody')


# ------------------------------------------------------------- typed arguments

def genTyped(rng, i, ctx):
    case = c10.gen(rng, i, ctx)
    case['seed'] = rng.randint(0, 10 ** 6)
    case['case'] = rng.choice(('title', 'upper', 'mixed', 'lower'))
    case['ns'] = rng.choice((None, None, '', 'ns', 'a:b', 'Some Where'))
    case['us'] = rng.choice(('calls', 'serves'))
    return case


def spelt(ty, v, rng):
    """How another implementation would write the value."""
    if ty == 'int':
        return str(int(v))
    if ty == 'float':
        return repr(v)
    if ty == 'bool':
        return 'True' if v else 'False'
    if ty == 'b64':
        return base64.b64encode(v).decode()
    if ty == 'time':
        return '%04d-%02d-%02dT%02d:%02d:%02d.%06d+00:00' % tuple(v[1])
    if isinstance(ty, str):
        return v
    if ty[0] == 'list':
        return ty[2].join(spelt(ty[1], x, rng) for x in v)
    return b''.join(encode({n.lower(): spelt(t, d[n], rng) for n, t, o in ty[1]}, 'title', rng) for d in v).decode()


def meant(ty, s, mon):
    """What another implementation would make of the text."""
    if ty == 'int':
        mon.check(re.match(r'^-?\d+$', s), 'integer-spelling', s)
        return int(s)
    if ty == 'float':
        return float(s)
    if ty == 'bool':
        mon.check(s in ('True', 'False'), 'boolean-spelling', s)
        return s == 'True'
    if ty == 'b64':
        return base64.b64decode(s.encode('ascii'), validate=True)
    if ty == 'time':
        r = timelib.refISO(s)
        mon.eq(r[0], 'ok', 'time-spelling', s)
        # it says where, too
        mon.eq(timelib.refISO(s, timelib.TD(hours=1)), r, 'time-spelling', s)
        return r[1] + timelib.TD(microseconds=r[3][0])
    if isinstance(ty, str):
        return s
    if ty[0] == 'list':
        return [meant(ty[1], x, mon) for x in s.split(ty[2])]
    d = Decoder()
    boxes = d.feed(s.encode('utf-8'))
    mon.check(not d.buf, 'list-spelling', s[:200])
    out = []
    for b in boxes:
        mon.eq(set(b), {n.lower() for n, t, o in ty[1]}, 'list-spelling', s[:200])
        out.append({n: meant(t, b[n.lower()], mon) for n, t, o in ty[1]})
    return out


def same(ty, v):
    if ty == 'time':
        return timelib.DT(*v[1])
    if ty == 'float':
        return repr(v)
    if isinstance(ty, list) and ty[0] == 'list':
        return [same(ty[1], x) for x in v]
    if isinstance(ty, list):
        return [{n: same(t, d[n]) for n, t, o in ty[1]} for d in v]
    return v


def floats(ty, v):
    if ty == 'float':
        return repr(v)
    if isinstance(ty, list) and ty[0] == 'list':
        return [floats(ty[1], x) for x in v]
    if isinstance(ty, list):
        return [{n: floats(t, d[n]) for n, t, o in ty[1]} for d in v]
    return v


def runTyped(case, mon):
    import random
    rng = random.Random(case['seed'])
    calls = []
    resp = {n: c10.live(t, case['rv'][n]) for n, t, o in case['resp'] if n not in case['rdrop']}

    def impl(kw):
        calls.append(kw)
        return resp
    cmd, link = c10.setup(case, impl)
    sent = {n.lower(): spelt(t, case['av'][n], rng) for n, t, o in case['args'] if n not in case['drop']}
    back = {n.lower(): spelt(t, case['rv'][n], rng) for n, t, o in case['resp'] if n not in case['rdrop']}
    dec = Decoder()

    def judge(box, sig, values, dropped, rule):
        mon.eq(set(box), {n.lower() for n, t, o in sig if n not in dropped}, rule + '-keys', box)
        for n, t, o in sig:
            if n in dropped:
                continue
            mon.eq(floats(t, meant(t, box[n.lower()], mon)), same(t, values[n]), rule, n, t, box[n.lower()][:200])
            mon.event(rule, t if isinstance(t, str) else t[0])
            mon.sig(rule, t if isinstance(t, str) else t[0], n == 'body')

    if case['us'] == 'calls':
        p, t = link.p[0], link.t[0]
        kw = {n: c10.live(ty, case['av'][n]) for n, ty, o in case['args'] if n not in case['drop']}
        ns = case.get('ns')
        if ns is None:
            out = Outcome(cmd(**kw).do(p))
        else:
            cmd.namespaces = [ns]
            mon.event('namespace')
            out = Outcome(cmd(**kw).do(p, namespace=ns))
        data = b''.join(e[1] for e in t.log if e[0] == 'write')
        box, = dec.feed(data)
        mon.eq(box.pop('_command'), (case['name'] if ns is None else ns + ':' + case['name']), 'command-name')
        tag = box.pop('_ask')
        judge(box, case['args'], case['av'], case['drop'], 'typed-request')
        data = encode(dict(back, _answer=tag), case['case'], rng)
        for k in range(0, len(data), case['cuts']):
            p.dataReceived(data[k:k + case['cuts']])
        mon.check(out.fired == 1 and out.results[0][0] == 'ok', 'typed-answer-refused', out.results, data[:200])
        got, sig, values, dropped = out.results[0][1], case['resp'], case['rv'], case['rdrop']
        rule = 'typed-answer-understood'
    else:
        p, t = link.p[1], link.t[1]
        data = encode(dict(sent, _command=case['name'], _ask='tag 1'), case['case'], rng)
        for k in range(0, len(data), case['cuts']):
            p.dataReceived(data[k:k + case['cuts']])
        mon.eq(len(calls), 1, 'typed-request-refused', loggedFailures()[:1], data[:200])
        box, = dec.feed(b''.join(e[1] for e in t.log if e[0] == 'write'))
        mon.eq(box.pop('_answer', None), 'tag 1', 'answer-tag', box)
        judge(box, case['resp'], case['rv'], case['rdrop'], 'typed-answer')
        got, sig, values, dropped = calls[0], case['args'], case['av'], case['drop']
        rule = 'typed-request-understood'
    mon.eq(set(got), {n for n, ty, o in sig}, rule + '-names')
    for n, ty, o in sig:
        if n in dropped:
            mon.check(got[n] is None, rule + '-optional', n)
        else:
            mon.eq(c10.view(ty, got[n]), c10.view(ty, c10.live(ty, values[n])), rule, n, ty)
            mon.event(rule)
    lf = loggedFailures()
    mon.check(not lf, 'logged-error', lf[:1])


WORKLOADS = [Workload('conversations', gen, run, 50000, 1200000),
             Workload('arguments', genTyped, runTyped, 12000, 300000)]
