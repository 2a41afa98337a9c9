"""Several clients logging in to one AMP server over real sockets, with a listener on every wire and connections which break."""
import random

from twisted.internet.error import ConnectionClosed

from vf.amplib import *
from vf.realnet import Net

USERS = {b'ann': 'first secret', b'bob': b'second \xff secret', b'cay': 'third \u20ac secret'}


def gen(rng, i, ctx):
    clients = []
    for _ in range(rng.randint(1, 5)):
        clients.append(dict(
            user=rng.choice((b'ann', b'ann', b'bob', b'cay', b'dee')).decode(),
            how=rng.choice(('right', 'right', 'right', 'wrong', 'pad', 'usedpad', 'none')),
            before=rng.random() < .4, again=rng.random() < .3,
            asks=rng.choice((0, 1, 1, 2, 5)), big=rng.random() < .1,
            end=rng.choice(('client', 'client', 'server', 'cut', 'cut', 'abort')),
            cut=[rng.randint(0, 1), rng.choice((0, 1, rng.randint(0, 60), rng.randint(0, 400)))],
            delay=rng.choice((0, 0, 0, .002, .01))))
    return dict(clients=clients, sizes=rng.choice(([1, 2, 7, 50], [10 ** 6], [10, 30])), seed=rng.randint(0, 10 ** 9))


class Grant(object):
    def __init__(self, who):
        self.avatar = Avatar(None, who)
        self.logouts = 0

    def logout(self):
        self.logouts += 1


def converse(case):
    """-> what happened, as a dict, once everything is over."""
    rng = random.Random(case['seed'])
    net = Net(rng, case['sizes'])
    r = net.reactor
    grants = []
    delays = []
    pads = {}
    n = len(case['clients'])
    state = dict(left=2 * n, pending=0)

    def later(value):
        d = Deferred()
        if not delays:
            return value
        state['pending'] += 1

        def now():
            d.callback(value)
            state['pending'] -= 1
        r.callLater(rng.choice(delays), now)
        return d

    @implementer(ICredentialsChecker)
    class Checker(object):
        credentialInterfaces = (IUsernameHashedPassword,)

        def requestAvatarId(self, credentials):
            u = credentials.username
            ok = u in USERS and credentials.checkPassword(USERS[u])
            d = maybeDeferred(later, u)

            def verdict(u):
                if not ok:
                    raise UnauthorizedLogin('no')
                return u
            return d.addCallback(verdict)

    class World(object):
        def requestAvatar(self, avatarId, interfaces):
            g = Grant(avatarId)
            grants.append(g)
            return later((amp.IBoxReceiver, g.avatar, g.logout))
    delays.extend(c['delay'] for c in case['clients'] if c['delay'])
    factory = ampauth.CredAMPServerFactory(Portal(Realm(World()), [Checker(), ampauth.OneTimePadChecker(pads)]))
    servers = []

    def gone():
        state['left'] -= 1
        if state['left'] == 0:
            settle()

    def settle():
        # what takes a moment may still finish
        if state['pending']:
            r.callLater(.002, settle)
        else:
            r.callLater(0, net.stop)

    def serve(addr):
        p = factory.buildProtocol(addr)
        servers.append(p)
        lost = p.connectionLost

        def connectionLost(reason):
            lost(reason)
            gone()
        p.connectionLost = connectionLost
        made = p.makeConnection

        def makeConnection(transport):
            transport.setTcpNoDelay(True)
            made(transport)
        p.makeConnection = makeConnection
        return p
    stories = []

    def start(k, c):
        user = c['user'].encode()
        story = dict(c, user=user, results=[], login=None, lost=0, cutOff=False)
        stories.append(story)
        pad = b'%d-%d' % (k, case['seed'])
        if c['how'] == 'pad':
            pads[pad] = user
        known = passwordBytes(USERS.get(user, b'unknown'))

        class Client(amp.AMP):
            def connectionMade(self):
                self.transport.setTcpNoDelay(True)
                if c['before']:
                    self.note('before', self.callRemote(Secret))
                if c['how'] in ('right', 'wrong'):
                    d = ampauth.login(self, UsernamePassword(user, known if c['how'] == 'right' else known + b'?'))
                elif c['how'] in ('pad', 'usedpad'):
                    d = self.callRemote(ampauth.OTPLogin, pad=pad)
                else:
                    self.after(None)
                    return
                story['login'] = o = Outcome(d)
                d.addCallback(self.after)

            def note(self, what, d):
                o = Outcome(d)
                story['results'].append((what, o))
                return d

            def after(self, ignored):
                ds = []
                for _ in range(c['asks']):
                    if c['big']:
                        ds.append(self.note('ping', self.callRemote(Ping, n=b'x' * 60000)))
                    else:
                        ds.append(self.note('secret', self.callRemote(Secret)))
                if c['again']:
                    ds.append(self.note('again', self.callRemote(ampauth.PasswordLogin, username=user)))
                if c['how'] == 'none' and c['again']:
                    ds.append(self.note('answer', self.callRemote(ampauth.PasswordChallengeResponse, cnonce=b'', response=b'')))
                end = [len(ds)]

                def one(x):
                    end[0] -= 1
                    if end[0] <= 0:
                        self.finish()
                for d in ds:
                    d.addCallback(one)
                if not ds:
                    self.finish()

            def finish(self):
                if c['end'] in ('client', 'cut'):
                    self.transport.loseConnection()
                elif c['end'] == 'server':
                    story['wire'].ends[1].transport.loseConnection()
                else:
                    self.transport.abortConnection()

            def connectionLost(self, reason):
                amp.AMP.connectionLost(self, reason)
                story['lost'] += 1
                gone()
        client = Client()
        wire = net.connect(serve, lambda addr: client)
        story['wire'] = wire
        if c['end'] == 'cut':
            way, at = c['cut']

            def cut(w, seen):
                if w == way and len(seen[w]) > at:
                    story['cutOff'] = True
                    return True
                return False
            wire.cut = cut
        # whoever never gets an answer hangs up, as somebody waiting does
        clients.append((client, story))
    clients = []
    for k, c in enumerate(case['clients']):
        start(k, c)

    def impatient():
        # a refused login leaves the client to hang up
        for client, story in clients:
            if story['lost'] or client.transport is None:
                continue
            o = story['login']
            pending = [x for w, x in story['results'] if not x.fired]
            if (o is None or o.fired) and not pending and (o is None or o.results[0][0] == 'err' or any(
                    x.results[0][0] == 'err' for w, x in story['results'])):
                client.transport.loseConnection()
        if state['left']:
            r.callLater(.002, impatient)
    r.callLater(.002, impatient)
    ended = net.run()
    return dict(ended=ended, grants=grants, stories=stories, pads=pads, servers=servers)


def runLives(case, mon):
    """C18: whatever was granted is logged out once, when its connection is gone, and answers its own connection only."""
    w = converse(case)
    mon.event('sockets')
    mon.check(w['ended'], 'not-over')
    for g in w['grants']:
        mon.event('granted')
        mon.eq(g.logouts, 1, 'socket-logouts', g.avatar.who, g.avatar.started)
        mon.eq(g.avatar.stopped, g.avatar.started, 'socket-stopped')
        mon.check(g.avatar.started <= 1, 'socket-started', g.avatar.started)
        mon.event('logged-out')
    boxes = 0
    for s in w['stories']:
        welcome = s['login'] is not None and s['login'].fired and s['login'].results[0][0] == 'ok'
        if s['cutOff']:
            mon.event('socket-cut')
        for what, o in s['results']:
            mon.eq(o.fired, 1, 'socket-answers', what)
            k, v = o.results[0]
            if k == 'ok':
                mon.check(welcome or what == 'again', 'socket-answered', what, s['how'])
                if what == 'secret':
                    mon.eq(v, {'who': s['user']}, 'socket-owner')
                    boxes += 1
                elif what == 'ping':
                    mon.eq(v, {'n': b'x' * 60000}, 'socket-owner')
                    boxes += 1
            elif welcome and what in ('secret', 'ping'):
                mon.check(s['cutOff'] or s['end'] in ('server', 'abort', 'client'), 'socket-unanswered', what, v)
                mon.check(v.check(ConnectionClosed) is not None, 'socket-unanswered', what, v)
    mon.check(boxes <= sum(g.avatar.boxes for g in w['grants']), 'socket-boxes')
    mon.sig('sock', sorted((s['how'], s['end'], s['cutOff'], s['again']) for s in w['stories'])[:3], len(w['grants']))
    loggedFailures()


def runLogins(case, mon):
    """C16: whoever knows the password, and nobody else, gets in; no password can be heard."""
    w = converse(case)
    mon.event('sockets')
    mon.check(w['ended'], 'not-over')
    allowed = []
    for s in w['stories']:
        heard = bytes(s['wire'].seen[0]) + b'|' + bytes(s['wire'].seen[1])
        for p in USERS.values():
            mon.check(
                passwordBytes(p) not in heard, 'password-heard', p)
        o = s['login']
        if s['user'] in USERS and s['how'] == 'right' or s['how'] == 'pad':
            allowed.append(s['user'])
            if o is None:
                mon.check(s['cutOff'], 'never-tried')
                continue
            if o.fired and o.results[0][0] == 'ok':
                mon.event('accepted')
            else:
                mon.check(s['cutOff'] and o.fired == 1 and o.results[0][1].check(ConnectionClosed) is not None, 'refused-right', o.results, s['cutOff'])
        elif o is not None:
            mon.check(o.fired == 1 and o.results[0][0] == 'err', 'let-in', s['how'], s['user'], o.results)
            mon.event('socket-refused')
            mon.check(o.results[0][1].check(UnauthorizedLogin) is not None or s['cutOff'] and o.results[0][1].check(ConnectionClosed) is not None,
                      'refusal', o.results, s['cutOff'])
    got = [g.avatar.who for g in w['grants']]
    for u in set(got):
        mon.check(got.count(u) <= allowed.count(u), 'grants', u, got, allowed)
    mon.sig('sock', sorted((s['how'], s['end'], s['cutOff']) for s in w['stories'])[:3], len(got))
    loggedFailures()
