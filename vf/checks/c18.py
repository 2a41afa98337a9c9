"""C18: an authenticated AMP session is owned by one avatar from login to connection loss and is logged out exactly once."""
from vf.core import Workload
from vf import ampnet
from vf.amplib import *

TARGETS = ['epsilon/ampauth.py']
LEVEL = 'exploration'
RULE = ('one case = several connections on which logins are attempted, repeated, delayed, failed and interrupted by connection '
        'loss under a generated schedule, with application boxes in between; a monitor on every avatar and logout callable '
        'keeps the session state machine; non-trivial = an avatar was granted or a login ended and was judged')
ASSUMPTIONS = ['single thread; the realm\'s logout callable is the only way a session ends']
MUST_SEE = ('granted', 'logged-out', 'loss-before-grant', 'loss-after-grant', 'second-login', 'denied', 'box-before-login', 'box-to-avatar',
            'concurrent', 'avatar-sends', 'start-failed', 'grant-during-loss', 'sockets', 'socket-cut')


def gen(rng, i, ctx):
    ops = []
    for _ in range(rng.randint(2, 16)):
        k = rng.random()
        c = rng.randint(0, 2)
        if k < .35:
            ops.append(['login', c, rng.choice(('now', 'now', 'later', 'later', 'deny', 'denylater', 'broken', 'startfails', 'startfailslater'))])
        elif k < .55:
            ops.append(['finish', rng.randint(0, 9)])
        elif k < .75:
            ops.append(['box', c])
        elif k < .83:
            ops.append(['push', c])
        else:
            ops.append(['lose', c, rng.randint(0, 1), rng.random() < .4])
    return dict(ops=ops, chunk=rng.choice((1, 40, 10 ** 6)), end=rng.random() < .8)


class Session(object):
    """One grant: avatar, its logout, and what is known about it."""
    def __init__(self, world, conn):
        self.world, self.conn = world, conn
        self.avatar = Avatar(world, b'who')
        self.logouts = 0
        self.done = False

    def logout(self):
        self.logouts += 1
        self.world.mon.event('logged-out')
        if self.logouts > 1:
            self.world.mon.note('logged-out-twice', self.conn)
        if self.world.owner[self.conn] is self and not self.avatar.failStart and not self.world.link[self.conn].lost[1]:
            self.world.mon.note('logged-out-while-connected', self.conn)


class Falsy(object):
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()

    def __len__(self):
        return 0


class World(object):
    def __init__(self, mon):
        self.mon = mon
        self.current = None
        self.mode = 'now'
        self.sessions = []
        self.waiting = []
        self.owner = {}
        self.link = {}

    def onAvatarBox(self, av, box):
        own = [c for c, s in self.owner.items() if s is not None and s.avatar is av]
        if not own:
            self.mon.note('box-to-unowned-avatar')

    def requestAvatar(self, avatarId, interfaces):
        mode = self.mode
        if amp.IBoxReceiver not in interfaces:
            self.mon.note('wrong-interface', interfaces)
        if mode == 'broken':
            raise NotImplementedError('only other things')
        s = Session(self, self.current)
        self.sessions.append(s)
        # a callable is a callable even if it happens to be false
        r = (amp.IBoxReceiver, s.avatar, s.logout if len(self.sessions) % 3 else Falsy(s.logout))
        s.avatar.failStart = mode.startswith('startfails')
        if mode in ('later', 'denylater', 'startfailslater'):
            d = Deferred()
            self.waiting.append((d, r, mode, s))
            return d
        if mode == 'deny':
            s.done = 'denied'
            raise UnauthorizedLogin('denied')
        return r


class Any(object):
    def __contains__(self, x):
        return True


def run(case, mon):
    w = World(mon)
    checker = PasswordChecker({b'u': b'p'})
    pads = {}
    factory = ampauth.CredAMPServerFactory(Portal(Realm(w), [ampauth.OneTimePadChecker(pads)]))
    links = []
    outs = []
    for c in range(3):
        server = factory.buildProtocol(None)

        class Client(amp.AMP):
            pinged = 0

            @Ping.responder
            def ping(self, n):
                self.pinged += 1
                return {'n': n}
        link = Link(Client(), server)
        links.append(link)
        w.owner[c] = None
        w.link[c] = link

    def pump():
        progress = True
        while progress:
            progress = False
            for l in links:
                if l.deliver(1, case['chunk']) or l.deliver(0, case['chunk']):
                    progress = True

    def granted(s, c):
        """The realm granted s for connection c: does the session start?"""
        if links[c].lost[1]:
            mon.event('loss-before-grant')
            s.done = 'late'
        elif w.owner[c] is not None:
            mon.event('second-login')
            s.done = 'superseded'
        else:
            w.owner[c] = s
            s.done = 'live'
            mon.event('granted')

    def hangUp(c):
        # after an unforeseen failure nothing more is judged on this connection but its end
        check('start failed')
        links[c].lose(1)
        links[c].lose(0)

    def check(where):
        for s in w.sessions:
            c = s.conn
            st = s.done
            av = s.avatar
            if st in (False, 'denied'):
                mon.eq((s.logouts, av.started, av.boxes), (0, 0, 0), 'no-session', where, st)
            elif st in ('late', 'superseded'):
                mon.eq((s.logouts, av.started, av.boxes), (1, 0, 0), 'unusable-session', where, st)
            elif st == 'live' and av.failStart:
                # granted, but it could not start: it ends with the connection at the latest
                gone = links[c].lost[1]
                mon.check(s.logouts == 1 if gone else s.logouts <= 1, 'unstartable-session', where, s.logouts, gone)
            elif st == 'live':
                gone = links[c].lost[1]
                mon.eq((s.logouts, av.started, av.stopped), (int(gone), 1, int(gone)), 'session', where, 'connection lost' if gone else 'connected')
    n = 0
    live = [0, 0, 0]
    for op in case['ops']:
        if op[0] == 'login':
            c, w.mode = op[1], op[2]
            w.current = c
            if links[c].lost[0] or links[c].lost[1]:
                continue
            if w.owner[c] is not None:
                # requests now belong to the avatar, which knows no login command
                before = len(w.sessions)
                o = Outcome(links[c].p[0].callRemote(ampauth.OTPLogin, pad=b'never'))
                pump()
                mon.event('second-login')
                mon.eq(len(w.sessions), before, 'login-inside-session')
                mon.check(o.fired == 1 and o.results[0][0] == 'err', 'login-inside-session', o.results)
                check('login inside session')
                continue
            n += 1
            p = b'pad%d' % n
            pads[p] = b'avatar%d' % n
            k = len(w.sessions)
            if len([1 for x in w.waiting if x[3].conn == c]):
                mon.event('concurrent')
            o = Outcome(links[c].p[0].callRemote(ampauth.OTPLogin, pad=p))
            # the session starts when the realm grants it, which happens during delivery
            w.owner[c] = None
            if w.mode in ('now', 'startfails'):
                class Hook(object):
                    pass
                # mark ownership at the moment the realm returns
                orig = w.requestAvatar

                def req(avatarId, interfaces, orig=orig, c=c):
                    r = orig(avatarId, interfaces)
                    granted(w.sessions[-1], c)
                    return r
                w.requestAvatar = req
                try:
                    pump()
                finally:
                    w.requestAvatar = orig
                if w.mode == 'now':
                    mon.eq(o.results, [('ok', {})], 'login-result')
                else:
                    mon.event('start-failed')
                    mon.check(o.fired == 1 and o.results[0][0] == 'err', 'unstartable-login-result', o.results)
                    hangUp(c)
            else:
                pump()
                if w.mode in ('deny', 'broken'):
                    mon.event('denied')
                    mon.check(o.fired == 1 and o.results[0][0] == 'err', 'denied-result', o.results)
                    mon.check(o.results[0][1].check(UnauthorizedLogin if w.mode == 'deny' else NotImplementedError) is not None,
                              'denied-error', o.results)
                else:
                    mon.eq(o.fired, 0, 'early-result')
                    w.waiting[-1][3].out = o
            check('login')
        elif op[0] == 'finish' and w.waiting:
            d, r, mode, s = w.waiting.pop(op[1] % len(w.waiting))
            c = s.conn
            w.current = c
            if mode in ('later', 'startfailslater'):
                granted(s, c)
                d.callback(r)
                pump()
                if s.done == 'live' and s.avatar.failStart:
                    mon.event('start-failed')
                    if not links[c].lost[0]:
                        mon.check(s.out.fired == 1 and s.out.results[0][0] == 'err', 'unstartable-login-result', s.out.results)
                        hangUp(c)
                elif s.done == 'live' and not links[c].lost[0]:
                    mon.eq(s.out.results, [('ok', {})], 'late-login-result')
                elif s.done == 'superseded' and not links[c].lost[0]:
                    mon.check(s.out.fired == 1 and s.out.results[0][0] == 'err', 'superseded-login-result', s.out.results)
            else:
                s.done = 'denied'
                mon.event('denied')
                d.errback(UnauthorizedLogin('late denial'))
                pump()
            check('finish')
        elif op[0] == 'box':
            c = op[1]
            l = links[c]
            if l.lost[0] or l.lost[1]:
                continue
            counts = [s.avatar.boxes for s in w.sessions]
            own = w.owner[c]
            o = Outcome(l.p[0].callRemote(Secret))
            pump()
            for s, k in zip(w.sessions, counts):
                mon.eq(s.avatar.boxes, k + (1 if s is own else 0), 'box-delivery', 'owner' if s is own else 'other')
            if own is not None:
                mon.event('box-to-avatar')
                mon.eq(o.results, [('ok', {'who': b'who'})], 'box-answer')
            else:
                mon.event('box-before-login')
                mon.check(o.fired == 1 and o.results[0][0] == 'err', 'box-answered-without-login', o.results)
            check('box')
            if l.t[0].disconnecting or l.t[1].disconnecting:
                l.lose(1)
                l.lose(0)
                check('drop')
        elif op[0] == 'push':
            c = op[1]
            own = w.owner[c]
            if own is not None and not links[c].lost[0] and not links[c].lost[1]:
                mon.event('avatar-sends')
                k = links[c].p[0].pinged
                o = Outcome(own.avatar.callRemote(Ping, n=b'5'))
                pump()
                mon.eq(o.results, [('ok', {'n': b'5'})], 'avatar-request')
                mon.eq(links[c].p[0].pinged, k + 1, 'avatar-request')
        elif op[0] == 'lose':
            c = op[1]
            if w.owner[c] is not None and not links[c].lost[1]:
                mon.event('loss-after-grant')
            mine = [x for x in w.waiting if x[3].conn == c and x[2] == 'later']
            if op[3] and mine and w.owner[c] is None and not links[c].lost[1]:
                # the login completes while the loss is being handled
                def finish(f, entry=mine[0]):
                    d, r, mode, s = entry
                    w.waiting.remove(entry)
                    mon.event('grant-during-loss')
                    granted(s, s.conn)
                    d.callback(r)
                links[c].p[1].callRemote(Ping, n=b'5').addErrback(finish)
            links[c].lose(op[2])
            links[c].lose(1 - op[2])
            check('loss')
    if case['end']:
        for l in links:
            l.lose(1)
            l.lose(0)
        check('end')
        for d, r, mode, s in w.waiting:
            if mode != 'denylater':
                granted(s, s.conn)
                d.callback(r)
            else:
                s.done = 'denied'
                d.errback(UnauthorizedLogin('late'))
        check('after the end')
    mon.sig('life', [o[0] for o in case['ops']][:8], [s.done for s in w.sessions][:6], case['end'])
    loggedFailures()


WORKLOADS = [Workload('sessions', gen, run, 10000, 200000),
             Workload('sockets', ampnet.gen, ampnet.runLives, 600, 12000)]
