"""
A monitored pair of juice peers issuing requests to each other under an arbitrary schedule.

Every request has a unique id; the monitor keeps, per request, what was issued, how often the
peer's handler ran for it, what the peer answered and what the caller saw.
"""
from twisted.internet.defer import Deferred

from vf.juicelib import *


class Declared(Exception):
    pass


class Ask(juice.Command):
    commandName = 'Ask'
    arguments = [('id', juice.Unicode()), ('mode', juice.String()), ('payload', juice.Unicode())]
    response = [('answer', juice.Unicode())]
    errors = {Declared: 'DECLARED'}


class BodyAsk(juice.Command):
    commandName = 'BodyAsk'
    arguments = [('id', juice.Unicode()), ('mode', juice.String()), ('body', juice.Unicode())]
    response = [('body', juice.Unicode())]
    errors = {Declared: 'DECLARED'}


class Peer(juice.Juice):
    """mode: 'now' answers at once, 'later' when the schedule says so, 'err'/'errlater' likewise with an error."""
    def __init__(self, server, sess, side):
        juice.Juice.__init__(self, server)
        self.sess = sess
        self.side = side
        self.shared = juice.Box()

    def _handle(self, id, mode, payload):
        return self.sess.handled(self.side, id, mode, payload)

    def command_ASK(self, id, mode, payload):
        r = self._handle(id, mode, payload)
        if isinstance(r, Deferred):
            return r.addCallback(lambda a: {'answer': a})
        return {'answer': r}
    command_ASK.command = Ask

    def command_BODYASK(self, id, mode, body):
        r = self._handle(id, mode, body)
        if isinstance(r, Deferred):
            return r.addCallback(lambda a: {'body': a})
        return {'body': r}
    command_BODYASK.command = BodyAsk

    def juice_OLDASK(self, box):
        try:
            r = self._handle(box['id'], box['mode'], box['payload'])
        except Declared as e:
            raise juice.RemoteJuiceError('DECLARED', str(e))
        if isinstance(r, Deferred):
            def conv(f):
                f.trap(Declared)
                raise juice.RemoteJuiceError('DECLARED', str(f.value))
            return r.addCallbacks(lambda a: juice.Box(answer=a), conv)
        return juice.Box(answer=r)

    def juice_ECHO(self, box):
        # the very box that asked is the answer
        r = self._handle(box['id'], box['mode'], box['payload'])
        if isinstance(r, Deferred):
            return r.addCallbacks(lambda a: self._fill(box, a), self._declared)
        return self._fill(box, r)

    def juice_SHARED(self, box):
        # one and the same box answers every request
        r = self._handle(box['id'], box['mode'], box['payload'])
        if isinstance(r, Deferred):
            return r.addCallbacks(lambda a: self._fill(self.shared, a), self._declared)
        return self._fill(self.shared, r)

    def _fill(self, box, answer):
        box['answer'] = answer
        return box

    def _declared(self, f):
        f.trap(Declared)
        raise juice.RemoteJuiceError('DECLARED', str(f.value))

    def juice_TELL(self, box):
        self.sess.told(self.side, box['id'])
        return juice.Box()


class Request(object):
    __slots__ = ('id', 'side', 'kind', 'mode', 'payload', 'handled', 'answer', 'outcome', 'issued', 'after', 'chain')


class Session(object):
    def __init__(self, mon):
        self.mon = mon
        self.reqs = {}
        self.order = [[], []]           # ids handled on each side, in order
        self.sent = [[], []]            # ids sent by each side, in order
        self.pending = [[], []]         # (id, Deferred, mode) handlers waiting on each side
        self.tells = {}
        self.boxes = [juice.Box(), juice.Box()]     # sent again and again
        self.answers = [None, None]
        self.link = Link(Peer(False, self, 0), Peer(True, self, 1))
        self.n = 0
        self.maxOutstanding = 0
        self.outstanding = 0

    # -- caller side
    def send(self, side, kind, mode, payload, chain=0):
        r = Request()
        self.n += 1
        r.id = '%d.%d' % (side, self.n)
        r.side, r.kind, r.mode, r.payload = side, kind, mode, payload
        r.handled = 0
        r.answer = None
        r.outcome = []
        r.chain = chain
        r.after = self.link.lost[side]
        self.reqs[r.id] = r
        self.sent[side].append(r.id)
        p = self.link.p[side]
        self.mon.event('issue', r.id, kind, mode)
        if kind == 'tell':
            self.tells[r.id] = 0
            if self.n % 3 == 0:
                # a box which asked for an answer before is sent once more, wanting none
                box = self.boxes[side]
                box['id'] = r.id
                res = p.sendBoxCommand('TELL', box, requiresAnswer=False)
            elif self.n % 2:
                res = p.sendCommand('TELL', '', False, id=r.id)
            else:
                res = p.sendBoxCommand('TELL', juice.Box(id=r.id), requiresAnswer=False)
            if not r.after:
                self.mon.check(res is None, 'tell-result', res)
            elif res is not None:
                res.addErrback(lambda f: None)
            return r
        self.outstanding += 1
        self.maxOutstanding = max(self.maxOutstanding, self.outstanding)
        if kind == 'cmd':
            d = Ask(id=r.id, mode=mode, payload=payload).do(p)
        elif kind == 'body':
            d = BodyAsk(id=r.id, mode=mode, body=payload).do(p)
        elif kind in ('echo', 'shared', 'onward'):
            if mode.startswith('err'):
                mode = r.mode = 'later'
            box = self.boxes[side] if kind == 'shared' else juice.Box()
            if kind == 'onward':
                # the box a former answer came in is the next request
                box, self.answers[side] = self.answers[side] or box, None
                kind = 'echo'
            box.update(id=r.id, mode=mode, payload=payload)
            d = p.sendBoxCommand(kind.upper(), box)
        else:
            d = p.sendCommand('OLDASK', id=r.id, mode=mode, payload=payload)
        d.addCallbacks(self._ok, self._err, callbackArgs=(r,), errbackArgs=(r,))
        return r

    def _ok(self, result, r):
        self.outstanding -= 1
        if isinstance(result, juice.Box):
            self.answers[r.side] = result
        r.outcome.append(('ok', result['body'] if r.kind == 'body' else result['answer']))
        self._resolved(r)

    def _err(self, f, r):
        self.outstanding -= 1
        r.outcome.append(('err', f))
        self._resolved(r)

    def _resolved(self, r):
        self.mon.event('resolve', r.id, r.outcome[-1][0])
        if len(r.outcome) > 1:
            self.mon.note('resolved-twice', r.id, r.outcome)
        if r.chain:
            self.send(r.side, r.kind, r.mode, r.payload, r.chain - 1)

    # -- callee side
    def handled(self, side, id, mode, payload):
        r = self.reqs.get(id)
        if r is None or r.side == side or r.kind == 'tell':
            self.mon.note('handled-unknown', id)
            return 'x'
        r.handled += 1
        self.mon.event('handle', id)
        if r.handled > 1:
            self.mon.note('handled-twice', id)
        if (mode, payload) != (r.mode, r.payload):
            self.mon.note('request-content', id, mode, payload, 'sent', r.mode, r.payload)
        self.order[side].append(id)
        token = 'answer to %s via %d \u00e9\r\n:' % (id, side)
        r.answer = ('err' if mode.startswith('err') else 'ok', token)
        if mode == 'now':
            return token
        if mode == 'err':
            raise Declared(token)
        d = Deferred()
        self.pending[side].append((id, d, mode))
        return d

    def told(self, side, id):
        r = self.reqs.get(id)
        if r is None or r.side == side or r.kind != 'tell':
            self.mon.note('told-unknown', id)
            return
        self.tells[id] += 1
        r.handled += 1
        self.order[side].append(id)
        if self.tells[id] > 1:
            self.mon.note('told-twice', id)

    def complete(self, side, k):
        if not self.pending[side]:
            return
        id, d, mode = self.pending[side].pop(k % len(self.pending[side]))
        r = self.reqs[id]
        self.mon.event('complete', id)
        if mode == 'errlater':
            d.errback(Declared(r.answer[1]))
        else:
            d.callback(r.answer[1])
        self.link.collect()

    def drain(self):
        for _ in range(10000):
            self.link.flush()
            if self.mon.violations:
                raise self.mon.violations[0]
            if not (self.pending[0] or self.pending[1]):
                return
            for s in (0, 1):
                while self.pending[s]:
                    self.complete(s, len(self.pending[s]) // 2)
        self.mon.fail('never-quiet', 'traffic did not stop')

    # -- oracle pieces
    def judge(self, r, rule=''):
        """r has an outcome: is it the peer's answer to r?"""
        mon = self.mon
        kind, val = r.outcome[0]
        mon.check(r.answer is not None, rule + 'resolved-before-answer', r.id, r.outcome)
        if r.answer[0] == 'ok':
            mon.check(kind == 'ok', rule + 'wrong-outcome', r.id, val)
            mon.eq(val, r.answer[1], rule + 'wrong-answer', r.id)
        else:
            mon.check(kind == 'err', rule + 'wrong-outcome', r.id, val)
            if r.kind == 'old':
                mon.check(val.check(juice.RemoteJuiceError) is not None, rule + 'wrong-error', r.id, val)
                mon.eq((val.value.errorCode, val.value.description), ('DECLARED', r.answer[1]), rule + 'wrong-error-text', r.id)
            else:
                mon.check(val.check(Declared) is not None, rule + 'wrong-error', r.id, val)
                mon.eq(str(val.value), r.answer[1], rule + 'wrong-error-text', r.id)


def genOps(rng, ctx, n, lossy=False):
    ops = []
    for _ in range(n):
        k = rng.random()
        side = rng.randint(0, 1)
        if k < .38:
            ops.append(['send', side, rng.choice(('cmd', 'cmd', 'old', 'body', 'tell', 'tell', 'echo', 'shared', 'onward')),
                        rng.choice(('now', 'later', 'later', 'err', 'errlater')), genText(rng, ctx, 200),
                        rng.choice((0, 0, 0, 0, 0, 1, 2))])
        elif k < .72:
            ops.append(['deliver', side, rng.choice((1, 2, 7, 20, 60, 200, 10 ** 6, 10 ** 6, 10 ** 6))])
        elif k < .97:
            ops.append(['complete', side, rng.randint(0, 50)])
        else:
            ops.append(['flush'])
    return ops


def play(sess, ops):
    for op in ops:
        if op[0] == 'send':
            sess.send(*op[1:])
        elif op[0] == 'deliver':
            sess.link.deliver(op[1], op[2])
        elif op[0] == 'complete':
            sess.complete(op[1], op[2])
        elif op[0] == 'flush':
            sess.link.flush()
