"""C41: the messages for logging in and routing over AMP have the form that other implementations use."""
import hashlib
import struct

from twisted.cred.portal import Portal
from vf.core import Workload
from vf.amplib import *
from epsilon.amprouter import Router

TARGETS = ['epsilon/ampauth.py', 'epsilon/amprouter.py']
LEVEL = 'exploration'
RULE = ('one case = a conversation between epsilon and a client or server which shares no code with it or with Twisted: length-prefixed '
        'keys and values are encoded and decoded independently, and every message is compared, key by key, with the published '
        'form; non-trivial = a message was decoded and judged')
ASSUMPTIONS = ['the published form: commands PasswordLogin(username) -> challenge, PasswordChallengeResponse(cnonce, response), '
               'OTPLogin(pad); error codes UNAUTHORIZED_LOGIN and NOT_IMPLEMENTED_ERROR; the key _route',
               'the response is the SHA-1 hash of challenge, nonce and password, separated by blanks']
MUST_SEE = ('client-login', 'client-refused', 'server-login', 'server-refused', 'server-not-implemented', 'otp-login', 'otp-refused', 'otp-not-implemented',
            'route-out', 'route-in', 'default-route', 'avatar-answers')


def enc(box):
    """AMP, written down independently: two-byte lengths before keys and values, an empty key at the end."""
    r = b''
    for k, v in box.items():
        r += struct.pack('!H', len(k)) + k + struct.pack('!H', len(v)) + v
    return r + b'\0\0'


class Dec(object):
    def __init__(self):
        self.buf = b''

    def feed(self, data):
        self.buf += data
        out = []
        while True:
            pos, box, key = 0, {}, None
            while True:
                if len(self.buf) < pos + 2:
                    return out
                n, = struct.unpack('!H', self.buf[pos:pos + 2])
                if len(self.buf) < pos + 2 + n:
                    return out
                s = self.buf[pos + 2:pos + 2 + n]
                pos += 2 + n
                if key is None:
                    if not s:
                        break
                    key = s
                else:
                    box[key] = s
                    key = None
            out.append(box)
            self.buf = self.buf[pos:]


def text(rng, n=12):
    return bytes(rng.choice((rng.getrandbits(8), rng.choice(b'abcAB12 _'))) for _ in range(rng.randint(0, n)))


def gen(rng, i, ctx):
    users = {text(rng): text(rng) for _ in range(rng.randint(1, 3))}
    ops = []
    for _ in range(rng.randint(1, 5)):
        u = rng.choice(sorted(users) + [text(rng)])
        ops.append([rng.choice(('client', 'client-refused', 'server', 'server', 'server-wrong', 'otp', 'otp-wrong', 'otp-none', 'server-none')), u,
                    rng.choice((users.get(u, b'x'), text(rng))), text(rng, 20), text(rng, 20)])
    return dict(users=users, ops=ops, cut=rng.choice((1, 3, 10 ** 6)))


class World(object):
    def __init__(self, case, none=False):
        self.admitted = []
        self.none = none
        self.users = dict(case['users'])
        self.pads = {}

    def onAvatarBox(self, av, box):
        pass

    def requestAvatar(self, avatarId, interfaces):
        if self.none:
            raise NotImplementedError('no such avatar')
        self.admitted.append(avatarId)
        return amp.IBoxReceiver, Avatar(self, avatarId), lambda: None

    def server(self):
        portal = Portal(Realm(self), [PasswordChecker(self.users), ampauth.OneTimePadChecker(self.pads)])
        p = ampauth.CredAMPServerFactory(portal).buildProtocol(None)
        t = Transport()
        p.makeConnection(t)
        return p, t


def feed(p, data, cut):
    for k in range(0, len(data), cut):
        p.dataReceived(data[k:k + cut])


def run(case, mon):
    for kind, user, password, salt, other in case['ops']:
        dec = Dec()

        def written(t):
            data = bytes(t.out)
            del t.out[:]
            r = dec.feed(data)
            mon.check(not dec.buf, 'incomplete-message', data[:100])
            return r
        good = user in case['users'] and case['users'][user] == password
        mon.sig(kind, good, case['cut'])
        if kind.startswith('client'):
            # epsilon logs in to somebody else's server
            p, t = amp.AMP(), Transport()
            p.makeConnection(t)
            out = Outcome(ampauth.login(p, UsernamePassword(user, password)))
            box, = written(t)
            tag = box.pop(b'_ask', None)
            mon.check(tag, 'request-without-tag', box)
            mon.eq(box, {b'_command': b'PasswordLogin', b'username': user}, 'client-first-message')
            challenge = salt
            feed(p, enc({b'_answer': tag, b'challenge': challenge}), case['cut'])
            box, = written(t)
            tag = box.pop(b'_ask', None)
            nonce = box.pop(b'cnonce', None)
            mon.check(tag and nonce, 'client-second-message', box)
            mon.eq(box, {b'_command': b'PasswordChallengeResponse',
                         b'response': hashlib.sha1(challenge + b' ' + nonce + b' ' + password).digest()}, 'client-second-message')
            mon.eq(out.fired, 0, 'login-fired-early')
            if kind == 'client':
                mon.event('client-login')
                feed(p, enc({b'_answer': tag}), case['cut'])
                mon.eq(out.results, [('ok', p)], 'client-login')
            else:
                mon.event('client-refused')
                feed(p, enc({b'_error': tag, b'_error_code': b'UNAUTHORIZED_LOGIN', b'_error_description': b'no'}), case['cut'])
                mon.check(out.fired == 1 and out.results[0][0] == 'err' and out.results[0][1].check(UnauthorizedLogin), 'client-refused', out.results)
            continue
        w = World(case, kind in ('server-none', 'otp-none'))
        p, t = w.server()
        if kind.startswith('otp'):
            w.pads[other] = user
            pad = other if kind != 'otp-wrong' else other + b'x'
            feed(p, enc({b'_command': b'OTPLogin', b'_ask': b'7', b'pad': pad}), case['cut'])
            box, = written(t)
            if kind == 'otp':
                mon.event('otp-login')
                mon.eq(box, {b'_answer': b'7'}, 'otp-login')
                mon.eq(w.admitted, [user], 'otp-login')
                mon.eq(w.pads, {}, 'pad-kept')
            elif kind == 'otp-none':
                refused(mon, box, b'7', b'NOT_IMPLEMENTED_ERROR', 'otp-not-implemented')
                mon.check(not t.disconnecting, 'connection-closed')
                mon.eq(w.pads, {}, 'pad-kept')
            else:
                refused(mon, box, b'7', b'UNAUTHORIZED_LOGIN', 'otp-refused')
                mon.check(not t.disconnecting, 'connection-closed')
                mon.eq(w.admitted, [], 'otp-refused')
            continue
        feed(p, enc({b'_ask': b'1', b'username': user, b'_command': b'PasswordLogin'}), case['cut'])
        box, = written(t)
        challenge = box.pop(b'challenge', None)
        mon.check(challenge, 'server-first-message', box)
        mon.eq(box, {b'_answer': b'1'}, 'server-first-message')
        digest = hashlib.sha1(challenge + b' ' + salt + b' ' + password).digest()
        if kind == 'server-wrong':
            digest = hashlib.sha1(challenge + salt + password).digest()
            good = False
        feed(p, enc({b'_command': b'PasswordChallengeResponse', b'_ask': b'two', b'response': digest, b'cnonce': salt}), case['cut'])
        box, = written(t)
        if good and w.none:
            refused(mon, box, b'two', b'NOT_IMPLEMENTED_ERROR', 'server-not-implemented')
        elif good:
            mon.event('server-login')
            mon.eq(box, {b'_answer': b'two'}, 'server-login')
            mon.eq(w.admitted, [user], 'server-login')
            feed(p, enc({b'_command': b'Secret', b'_ask': b'3'}), case['cut'])
            box, = written(t)
            mon.event('avatar-answers')
            mon.eq(box, {b'_answer': b'3', b'who': user}, 'avatar-answers')
        else:
            refused(mon, box, b'two', b'UNAUTHORIZED_LOGIN', 'server-refused')
            mon.eq(w.admitted, [], 'server-refused')
        mon.check(not t.disconnecting, 'connection-closed')
    loggedFailures()


def refused(mon, box, tag, code, rule):
    mon.event(rule)
    mon.eq(set(box), {b'_error', b'_error_code', b'_error_description'}, rule, box)
    mon.eq((box[b'_error'], box[b'_error_code']), (tag, code), rule, box)


# -- routing

ROUTES = ['0', 'left', 'r\u00f6ute', 'x y', '_route', 'None', 'a' * 200]


def genRoutes(rng, i, ctx):
    n = rng.randint(1, 4)
    return dict(local=rng.sample(ROUTES + [None], n), remote=[rng.choice(ROUTES + [None]) for _ in range(n)],
                ops=[[rng.choice(('in', 'out')), rng.randrange(n), {b'k%d' % k: text(rng) for k in range(rng.randint(0, 3))}]
                     for _ in range(rng.randint(1, 12))], cut=rng.choice((1, 5, 10 ** 6)))


class Got(object):
    def __init__(self):
        self.boxes = []
        self.sender = None

    def startReceivingBoxes(self, sender):
        self.sender = sender

    def ampBoxReceived(self, box):
        self.boxes.append(dict(box))

    def stopReceivingBoxes(self, reason):
        pass


def runRoutes(case, mon):
    router = Router()
    got = []
    for local, remote in zip(case['local'], case['remote']):
        r = Got()
        got.append(r)
        router.bindRoute(r, local).connectTo(remote)
    p = amp.BinaryBoxProtocol(router)
    t = Transport()
    p.makeConnection(t)
    dec = Dec()
    for kind, n, box in case['ops']:
        local, remote = case['local'][n], case['remote'][n]
        if not box:
            box = {b'k': b''}
        mon.sig('route', kind, local, remote, len(box))
        if kind == 'in':
            wire = dict(box)
            if local is not None:
                wire[b'_route'] = local.encode('utf-8')
            before = [list(g.boxes) for g in got]
            data = enc(wire)
            feed(p, data, case['cut'])
            before[n].append(box)
            mon.eq([g.boxes for g in got], before, 'route-in', local)
            mon.event('default-route' if local is None else 'route-in')
        else:
            b = amp.AmpBox()
            b.update(box)
            got[n].sender.sendBox(b)
            data = bytes(t.out)
            del t.out[:]
            boxes = dec.feed(data)
            want = dict(box)
            if remote is not None:
                want[b'_route'] = remote.encode('utf-8')
            mon.eq(boxes, [want], 'route-out', remote)
            mon.event('default-route' if remote is None else 'route-out')


WORKLOADS = [Workload('logins', gen, run, 8000, 200000),
             Workload('routes', genRoutes, runRoutes, 12000, 300000)]
