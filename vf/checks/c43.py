"""C43: what is not juice runs nothing, answers nothing and resolves nothing; the connection ends and everyone waiting is told."""
from twisted.internet.defer import Deferred
from vf.core import Workload
from vf.juicelib import *

TARGETS = ['epsilon/juice.py', 'epsilon/liner.py']
LEVEL = 'exploration'
RULE = ('one case = a conversation with a peer that writes well-formed boxes, cut anyhow, and at some point something that is not '
        'one (or answers what nobody asked); an exception out of dataReceived ends the connection, as it does in Twisted; a '
        'monitor judges what ran, what was resolved, how often, and with what; non-trivial = the offending bytes were delivered')
ASSUMPTIONS = ['as in Twisted, an exception raised by a protocol while it is given data ends its connection']
MUST_SEE = ('offended', 'resolved', 'failed', 'ran', 'outstanding', 'switch-pending', 'answered-before') 

BAD = ('no-separator', 'no-blank', 'continuation-first', 'length-text', 'length-empty', 'length-float', 'empty-packet', 'unknown-answer', 'answered-again', 'unknown-error',
       'errored-again', 'error-without-code', 'error-without-description', 'bare-error', 'not-utf8-value', 'not-utf8-key', 'not-utf8-body',
       'own-tag', 'empty-answer', 'line-within', 'line-within')

# one of these lines among good ones spoils the whole box
LINES = ('garbage', 'a:b', 'n:', 'n:x', 'n :x', ':', '-Ask:1', 'n', '\tn', '-Command:do', 'n=x', 'n\n: x'[:1], 'x' * 3000, 'a;b', 'one two three')


def gen(rng, i, ctx):
    ops = []
    for _ in range(rng.randint(0, 7)):
        k = rng.random()
        if k < .45:
            ops.append(['ask', genText(rng, ctx, 30)])
        elif k < .6:
            ops.append(['answer', rng.randint(0, 9), genText(rng, ctx, 30)])
        elif k < .7:
            ops.append(['error', rng.randint(0, 9), genText(rng, ctx, 30)])
        elif k < .9:
            ops.append(['request', rng.choice(('now', 'later')), rng.random() < .7])
        else:
            ops.append(['complete'])
    return dict(ops=ops, bad=BAD[i % len(BAD)], glued=rng.random() < .4, after=rng.random() < .5, chunk=rng.choice((1, 3, 17, 10 ** 7)),
                switch=rng.random() < .12, line=rng.choice(LINES), at=rng.randint(0, 5), into=rng.choice(('request', 'request', 'answer', 'body')))


def box(**kw):
    body = kw.pop('body', None)
    out = b''
    for k, v in kw.items():
        out += k.replace('_', '-').encode() + b': ' + (v if isinstance(v, bytes) else v.encode('utf-8')).replace(b'\r\n', b'\r\n ') + b'\r\n'
    if body is not None:
        out += b'-Length: %d\r\n' % len(body)
    return out + b'\r\n' + (body or b'')


def spoilt(case, tag):
    if case['into'] == 'answer':
        lines = [b'-Answer: ' + tag.encode(), b'v: forged', b'w: x', b'z: y']
    else:
        lines = [b'-Command: do', b'n: x', b'how: now', b'-Ask: spoilt', b'more: x']
    if case['into'] == 'body':
        lines.append(b'-Length: 3')
    lines.insert(case['at'] % (len(lines) + 1), case['line'].encode())
    return b'\r\n'.join(lines) + b'\r\n\r\n' + (b'abc' if case['into'] == 'body' else b'')


class Switch(juice.ProtocolSwitchCommand):
    commandName = 'Switch'


class Server(juice.Juice):
    def __init__(self, log):
        juice.Juice.__init__(self, False)
        self.log = log

    def juice_DO(self, box):
        self.log.append(box['n'])
        if box['how'] == 'later':
            d = Deferred()
            self.waiting.append((box['n'], d))
            return d
        return juice.Box(n=box['n'])


class Waiter(object):
    """The factory of a protocol to switch to."""
    def __init__(self):
        self.failed = []

    def buildProtocol(self, addr):
        raise AssertionError('switched')

    def clientConnectionFailed(self, connector, reason):
        if not isinstance(reason, Failure):
            raise TypeError('not a Failure: %r' % (reason,))
        self.failed.append(reason)

    clientConnectionLost = clientConnectionFailed


def run(case, mon):
    ran = []
    p = Server(ran)
    p.waiting = []
    t = Transport()
    p.makeConnection(t)
    ended = []
    asked = []          # dicts: tag, got, want
    due = []            # numbers of requests the peer made
    pending = bytearray()
    n = [0]
    pos = [0]

    def end(reason):
        if not ended:
            ended.append(reason)
            t.disconnected = True
            p.connectionLost(reason)

    def feed(final=False):
        while pending and not ended:
            chunk = bytes(pending[:case['chunk']])
            del pending[:len(chunk)]
            try:
                p.dataReceived(chunk)
            except Exception:
                end(Failure())
            else:
                if t.disconnecting:
                    end(Failure(ConnectionDone('closed')))

    def boxes():
        new = [juice.parseString(x[1])[0] for x in t.log[pos[0]:] if x[0] == 'write']
        pos[0] = len(t.log)
        return new

    def open_():
        return [a for a in asked if a['want'] is None]
    for op in case['ops']:
        if op[0] == 'ask':
            boxes()
            d = p.sendBoxCommand('ANY', juice.Box(v=op[1]))
            b, = boxes()
            a = dict(tag=b['_ask'], got=[], want=None)
            d.addCallbacks(lambda r, a=a: a['got'].append(('ok', r.get('v'))), lambda f, a=a: a['got'].append(('err', f)))
            asked.append(a)
        elif op[0] in ('answer', 'error') and open_():
            a = open_()[op[1] % len(open_())]
            if op[0] == 'answer':
                pending.extend(box(_Answer=a['tag'], v=op[2]))
                a['want'] = ('ok', op[2])
            else:
                pending.extend(box(_Error=a['tag'], _Error_Code='X', _Error_Description=op[2]))
                a['want'] = ('err', op[2])
            if not case['glued']:
                feed()
        elif op[0] == 'request':
            n[0] += 1
            due.append(str(n[0]))
            kw = dict(_Ask='t%d' % n[0]) if op[2] else {}
            pending.extend(box(_Command='do', n=str(n[0]), how=op[1], **kw))
            if not case['glued']:
                feed()
        elif op[0] == 'complete' and p.waiting:
            k, d = p.waiting.pop(0)
            d.callback(juice.Box(n=k))
    waiter = None
    if case['switch']:
        mon.event('switch-pending')
        waiter = Waiter()
        d = Switch(waiter).do(p)
        swres = []
        d.addBoth(lambda r: swres.append(r) and None)
        boxes()
    # now the offence
    bad = case['bad']
    old = [a for a in asked if a['want'] is not None]
    live = open_()
    known = rng_pick(old)
    anyTag = (rng_pick(live) or {'tag': 'no-such-tag'})['tag']
    oldTag = known['tag'] if known else 'no-such-tag'
    if bad in ('answered-again', 'errored-again') and known:
        mon.event('answered-before')
    wire = {
        'no-separator': b'this is not a header\r\n\r\n', 'no-blank': b'-Command:do\r\nn:1\r\n\r\n', 'continuation-first': b' do: it\r\n-Command: do\r\nn: x\r\nhow: now\r\n\r\n',
        'length-text': b'-Command: do\r\nn: x\r\nhow: now\r\n-Length: five\r\n\r\nabcde', 'length-empty': b'-Command: do\r\nn: x\r\nhow: now\r\n-Length: \r\n\r\n',
        'length-float': b'-Command: do\r\nn: x\r\nhow: now\r\n-Length: 1.5\r\n\r\n',
        'empty-packet': b'n: x\r\nhow: now\r\n\r\n', 'unknown-answer': box(_Answer='zzz-none', v='forged'), 'answered-again': box(_Answer=oldTag, v='forged'),
        'unknown-error': box(_Error='zzz-none', _Error_Code='X', _Error_Description='forged'),
        'errored-again': box(_Error=oldTag, _Error_Code='X', _Error_Description='forged'),
        'error-without-code': box(_Error=anyTag, _Error_Description='d'), 'error-without-description': box(_Error=anyTag, _Error_Code='X'),
        'bare-error': box(_Error=anyTag), 'not-utf8-value': b'-Command: do\r\nn: \xff\xfe\r\nhow: now\r\n\r\n',
        'not-utf8-key': b'-Command: do\r\n\xff\xfe: 1\r\nn: x\r\nhow: now\r\n\r\n', 'not-utf8-body': b'-Command: do\r\nn: x\r\nhow: now\r\n-Length: 3\r\n\r\na\xffb',
        'own-tag': box(_Answer='1' * 40, v='forged'),
        'empty-answer': box(_Answer='', v='forged'), 'line-within': spoilt(case, anyTag)}[bad]
    pending.extend(wire)
    if case['after']:
        pending.extend(box(_Command='do', n='after', how='now'))
    feed()
    mon.event('offended', bad)
    mon.check(ended, 'connection-kept', bad)
    mon.check([b for b in ran if b not in due] == [], 'ran-for-bad-input', bad, ran)
    if waiter is None:
        mon.eq(ran, due, 'ran', bad)
    reason = ended[0]
    for a in asked:
        mon.eq(len(a['got']), 1, 'resolved-count', a['tag'], a['want'], bad)
        kind, v = a['got'][0]
        if a['want'] is None:
            mon.event('outstanding')
            mon.check(kind == 'err', 'resolved-by-bad-input', bad, a['got'])
            mon.check(v is reason or v.value is reason.value, 'failed-with', bad, v, reason)
            mon.event('failed')
        elif a['want'][0] == 'ok':
            mon.check((kind, v) == a['want'], 'resolved-with', a['want'], a['got'])
            mon.event('resolved')
        else:
            mon.check(kind == 'err' and v.check(juice.RemoteJuiceError) is not None and v.value.description == a['want'][1], 'resolved-with', a['want'], a['got'])
            mon.event('resolved')
    if waiter is not None:
        mon.eq(len(waiter.failed), 1, 'factory-told', bad)
    if ran:
        mon.event('ran')
    # what was still being worked on ends in silence
    m = len(t.log)
    while p.waiting:
        k, d = p.waiting.pop()
        d.callback(juice.Box(n=k))
    mon.eq(t.log[m:], [], 'wrote-after-the-end')
    mon.sig(bad, [o[0] for o in case['ops']], case['switch'], case['chunk'] > 100)
    loggedFailures()


def rng_pick(xs):
    return xs[len(xs) // 2] if xs else None


WORKLOADS = [Workload('offences', gen, run, 40000, 800000)]
