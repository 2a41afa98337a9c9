"""C16: a login over AMP succeeds only for the user whose password the client knows, against a fresh challenge."""
import hashlib
import random
import unicodedata
from vf.core import Workload
from vf import ampnet
from vf.amplib import *

TARGETS = ['epsilon/ampauth.py']
LEVEL = 'exploration'
RULE = ('one case = a password database and a history of honest, mistaken and hostile login attempts (replayed, truncated, stale '
        'or foreign responses) over real AMP connections; the realm records who was let in, a wire monitor records challenges '
        'and looks for passwords; non-trivial = an attempt reached a verdict which was judged')
ASSUMPTIONS = ['SHA-1 of the challenge, client nonce and password, separated by single blanks, is the protocol',
               'the checker asks the credentials to verify the stored password']
MUST_SEE = ('accepted', 'wrong-password', 'unknown-user', 'replay', 'stale-challenge', 'forged', 'challenge', 'unhandled-credentials', 'no-challenge', 'forked',
            'service-login', 'other-service-refused', 'sockets', 'socket-refused',
            'many-challenges', 'long-accepted', 'long-refused')

ATTACKS = ('replay', 'stale', 'truncated', 'empty', 'otheruser', 'nonceless', 'zeroes', 'wrongnonce', 'switchuser', 'extra', 'none', 'swapcase', 'hex', 'lower', 'upper', 'blank', 'reversed', 'onebit')


def name(rng):
    return rng.choice((b'alice', b'bob', b'', b'a b', b'\xc3\xa9', b'\x00', b'alice ', b'Alice', b'carol', b'e\xcc\x81', b'\xef\xac\x81n', b'long' * 20, b'long' * 20 + b'er', b'long' * 20 + b'est'))


def pw(rng, ctx):
    k = rng.random()
    if k < .1:
        return b''
    if k < .6:
        return bytes(rng.choice(b'abcAB12 _') for _ in range(rng.randint(1, 12)))
    if k < .8:
        return ''.join(rng.choice('ab\u00e9\u20ac e\u0301\ufb01') for _ in range(rng.randint(1, 9)))
    return bytes(rng.getrandbits(8) for _ in range(rng.choice((rng.randint(1, 60), rng.randint(60, 300)))))


def near(rng, p):
    b = passwordBytes(p)
    k = rng.randint(0, 6)
    if k == 0:
        return b + b' '
    if k == 1:
        return b[:-1]
    if k == 2:
        return b + b'\0'
    if k == 3:
        return b.swapcase()
    if k == 4:
        return b''
    if k == 5:
        return b + b
    try:
        t = b.decode('utf-8')
    except UnicodeDecodeError:
        t = ''
    for form in ('NFC', 'NFD', 'NFKC', 'NFKD'):
        if unicodedata.normalize(form, t) != t:
            return unicodedata.normalize(form, t).encode('utf-8')
    return b[::-1] + b'x'


def gen(rng, i, ctx):
    users = {}
    for _ in range(rng.randint(1, 4)):
        users[name(rng)] = pw(rng, ctx)
    ops = []
    for _ in range(rng.randint(1, 6)):
        u = rng.choice(sorted(users))
        k = rng.random()
        if k < .3:
            ops.append(['login', u, users[u]])
        elif k < .45:
            ops.append(['login', u, near(rng, users[u])])
        elif k < .55:
            ops.append(['login', name(rng), rng.choice([users[x] for x in sorted(users)])])
        else:
            ops.append(['attack', rng.choice(ATTACKS), u, rng.choice(sorted(users))])
    return dict(users=users, ops=ops, chunk=rng.choice((1, 9, 10 ** 6)), seed=rng.randint(0, 9),
                nonce=rng.choice((b'n0nce', b'', b'n' * 100, b'a nonce', b'\xff\0', b'N0nce ')))


def digest(challenge, nonce, password):
    return hashlib.sha1(challenge + b' ' + nonce + b' ' + passwordBytes(password)).digest()


class World(object):
    def __init__(self, case, mon):
        self.mon = mon
        self.admitted = []
        self.checker = PasswordChecker(dict(case['users']))
        self.factory = ampauth.CredAMPServerFactory(Portal(Realm(self), [self.checker]))
        self.chunk = case['chunk']

    def onAvatarBox(self, av, box):
        pass

    def requestAvatar(self, avatarId, interfaces):
        self.admitted.append(avatarId)
        return amp.IBoxReceiver, Avatar(self, avatarId), lambda: None

    def connect(self):
        server = self.factory.buildProtocol(None)
        return Link(amp.AMP(), server)

    def pump(self, link):
        while link.deliver(1, self.chunk) or link.deliver(0, self.chunk):
            pass

    def ask(self, link, cmd, **kw):
        o = Outcome(link.p[0].callRemote(cmd, **kw))
        self.pump(link)
        return o


challenges = set()


def run(case, mon):
    w = World(case, mon)
    captured = []           # (user, challenge, nonce, response) of honest successes
    for op in case['ops']:
        # challenges must not be predictable from anything an attacker can arrange
        random.seed(case['seed'])
        link = w.connect()
        n = len(w.admitted)
        if op[0] == 'login':
            _, u, p = op
            good = u in case['users'] and passwordBytes(case['users'][u]) == passwordBytes(p)
            out = Outcome(ampauth.login(link.p[0], UsernamePassword(u, p)))
            w.pump(link)
            mon.eq(out.fired, 1, 'login-outcome')
            log = [e[1] for e in link.t[0].log + link.t[1].log if e[0] == 'write']
            wire = b''.join(log)
            pb = passwordBytes(p)
            if len(pb) > 5:
                mon.check(pb not in wire, 'password-on-the-wire', pb)
            boxes = boxesIn(b''.join(e[1] for e in link.t[1].log if e[0] == 'write'))
            for b in boxes:
                if b'challenge' in b:
                    c = b[b'challenge']
                    mon.event('challenge')
                    mon.check(len(c) >= 12, 'challenge-too-short', c)
                    mon.check(c not in challenges, 'challenge-repeated', c)
                    challenges.add(c)
            if good:
                mon.event('accepted')
                mon.eq(out.results[0], ('ok', link.p[0]), 'honest-login-refused')
                mon.eq(w.admitted[n:], [u], 'honest-login-avatar')
                cb = boxesIn(b''.join(e[1] for e in link.t[0].log if e[0] == 'write'))
                for b in cb:
                    if b'response' in b:
                        captured.append((u, [x for x in boxes if b'challenge' in x][0][b'challenge'], b[b'cnonce'], b[b'response']))
                who = w.ask(link, Secret)
                mon.eq(who.results[:1], [('ok', {'who': u})], 'logged-in-as')
            else:
                mon.event('wrong-password' if u in case['users'] else 'unknown-user')
                mon.eq(w.admitted[n:], [], 'wrong-login-admitted', u, p)
                mon.check(out.results[0][0] == 'err' and out.results[0][1].check(UnauthorizedLogin) is not None,
                          'wrong-login-result', out.results)
                mon.eq([b[b'_error_code'] for b in boxes if b'_error_code' in b], [b'UNAUTHORIZED_LOGIN'], 'refusal-on-the-wire')
                who = w.ask(link, Secret)
                mon.check(who.results and who.results[0][0] == 'err', 'service-without-login', who.results)
            mon.sig('login', good, u in case['users'], isinstance(p, str), len(passwordBytes(p)) == 0)
            continue
        _, kind, u, other = op
        pwd = case['users'][u]
        ok = False
        if kind == 'none':
            mon.event('no-challenge')
            out = w.ask(link, ampauth.PasswordChallengeResponse, cnonce=b'n', response=digest(b'', b'n', pwd))
        else:
            first = w.ask(link, ampauth.PasswordLogin, username=u)
            mon.eq(first.results[0][0], 'ok', 'no-challenge', first.results)
            ch = first.results[0][1]['challenge']
            mon.event('challenge')
            mon.check(ch not in challenges, 'challenge-repeated', ch)
            challenges.add(ch)
            nonce = case.get('nonce', b'n0nce')
            resp = digest(ch, nonce, pwd)
            mon.event('forged')
            if kind == 'replay':
                old = [c for c in captured if c[0] == u]
                if old:
                    mon.event('replay')
                    nonce, resp = old[-1][2:]
                else:
                    resp = b'\0' * 20
            elif kind == 'stale':
                second = w.ask(link, ampauth.PasswordLogin, username=u)
                challenges.add(second.results[0][1]['challenge'])
                mon.event('stale-challenge')
            elif kind == 'truncated':
                resp = resp[:random.choice((0, 1, 5, 19))]
            elif kind == 'empty':
                resp = b''
            elif kind == 'zeroes':
                resp = b'\0' * 20
            elif kind == 'otheruser':
                resp = digest(ch, nonce, case['users'][other])
                ok = passwordBytes(case['users'][other]) == passwordBytes(pwd)
            elif kind == 'nonceless':
                resp = hashlib.sha1(ch + b' ' + passwordBytes(pwd)).digest()
            elif kind == 'wrongnonce':
                nonce = nonce[:-1] + b'!' if len(nonce) > 64 else b'another'
            elif kind == 'switchuser':
                # ask for a challenge as one user after computing the answer as another
                second = w.ask(link, ampauth.PasswordLogin, username=other)
                ch2 = second.results[0][1]['challenge']
                mon.check(ch2 not in challenges, 'challenge-repeated', ch2)
                challenges.add(ch2)
                resp = digest(ch2, nonce, pwd)
                ok = passwordBytes(case['users'][other]) == passwordBytes(pwd)
                u = other
            elif kind == 'extra':
                resp = resp + b'\0'
            elif kind == 'hex':
                resp = resp.hex().encode()
            elif kind in ('swapcase', 'lower', 'upper', 'blank', 'reversed', 'onebit'):
                # almost the right answer
                k = random.randrange(20)
                near_ = dict(swapcase=resp.swapcase(), lower=resp.lower(), upper=resp.upper(), blank=resp + b' ', reversed=resp[::-1],
                             onebit=resp[:k] + bytes([resp[k] ^ 1 << random.randrange(8)]) + resp[k + 1:])[kind]
                ok = near_ == resp
                resp = near_
                mon.event('almost')
            out = w.ask(link, ampauth.PasswordChallengeResponse, cnonce=nonce, response=resp)
        mon.eq(out.fired, 1, 'login-outcome', kind)
        if ok:
            mon.eq(w.admitted[n:], [u], 'honest-login-avatar', kind)
        else:
            mon.eq(w.admitted[n:], [], 'hostile-login-admitted', kind)
            mon.check(out.results[0][0] == 'err', 'hostile-login-result', kind)
            if kind != 'none':
                mon.check(out.results[0][1].check(UnauthorizedLogin) is not None, 'hostile-login-result', kind, out.results)
            if not link.t[1].disconnecting:
                who = w.ask(link, Secret)
                mon.check(not who.results or who.results[0][0] == 'err', 'service-without-login', kind)
        mon.sig('attack', kind, ok, u == other)
    loggedFailures()


def genLong(rng, i, ctx):
    users = {}
    for _ in range(rng.randint(1, 3)):
        users[name(rng)] = pw(rng, ctx)
    ops = []
    links = rng.randint(1, 3)
    for _ in range(rng.choice((3, 8, 20, 60))):
        l = rng.randrange(links)
        if rng.random() < .6:
            ops.append(['ask', l, rng.choice(sorted(users)) if rng.random() < .9 else name(rng)])
        else:
            # the answer to a challenge so many challenges ago, of whichever connection, as whichever user
            ops.append(['answer', l, rng.choice((0, 0, 1, 1, 2, 3, 4, 8)), rng.randrange(links) if rng.random() < .3 else l,
                        rng.choice(sorted(users)) if rng.random() < .3 else None, rng.random() < .3])
    return dict(users=users, ops=ops, links=links, chunk=rng.choice((1, 9, 10 ** 6)), seed=rng.randint(0, 9))


def runLong(case, mon):
    """Connections on which challenge after challenge is asked for: only the answer to the latest one of each counts."""
    w = World(case, mon)
    links = [w.connect() for _ in range(case['links'])]
    asked = [[] for _ in links]             # (user, challenge) of each connection, latest last
    done = [False for _ in links]
    nonces = 0
    for op in case['ops']:
        random.seed(case['seed'])
        l = op[1]
        if done[l]:
            continue
        if op[0] == 'ask':
            out = w.ask(links[l], ampauth.PasswordLogin, username=op[2])
            mon.check(out.fired == 1 and out.results[0][0] == 'ok', 'no-challenge', out.results)
            c = out.results[0][1]['challenge']
            mon.event('challenge')
            mon.check(len(c) >= 12, 'challenge-too-short', c)
            mon.check(c not in challenges, 'challenge-repeated', c)
            challenges.add(c)
            asked[l].append((op[2], c))
            if len(asked[l]) > 3:
                mon.event('many-challenges')
            continue
        _, l, back, of, asWhom, wrong = op
        if not asked[l] or len(asked[of]) <= back:
            continue
        user, c = asked[of][-1 - back]
        if asWhom is not None:
            user = asWhom
        nonces += 1
        nonce = b'nonce%d' % nonces
        answer = digest(c, nonce, case['users'].get(user, b'none'))
        if wrong:
            answer = answer[1:] + answer[:1]
        latestUser, latest = asked[l][-1]
        good = latestUser in case['users'] and answer == digest(latest, nonce, case['users'][latestUser])
        n = len(w.admitted)
        out = w.ask(links[l], ampauth.PasswordChallengeResponse, cnonce=nonce, response=answer)
        mon.eq(out.fired, 1, 'login-outcome')
        done[l] = True
        mon.eq(w.admitted[n:], [latestUser] if good else [], 'admitted', back, of == l, wrong)
        mon.eq(out.results[0][0], 'ok' if good else 'err', 'verdict', out.results)
        mon.event('long-accepted' if good else 'long-refused')
        if not good:
            mon.check(out.results[0][1].check(UnauthorizedLogin) is not None, 'refusal', out.results)
            # a refused login leaves the connection usable for another one
            mon.check(not links[l].t[1].disconnecting, 'refusal-closes')
            done[l] = False
            asked[l] = []                   # answered: ask again
        mon.sig('long', back, of == l, asWhom is None, wrong, good, min(len(asked[l]), 5))
    loggedFailures()


def genCreds(rng, i, ctx):
    return dict(kind=rng.choice(('otp', 'object', 'anonymous', 'hashed', 'lookalike', 'pad')))


def runCreds(case, mon):
    from twisted.cred.credentials import Anonymous, UsernameHashedPassword
    sent = []

    class Client(amp.AMP):
        def callRemote(self, *a, **k):
            sent.append(a)
            return Deferred()

    class Lookalike(object):
        # has everything, but does not say it is meant for this
        username, password = b'u', b'p'

        def checkPassword(self, p):
            return True
    c = {'otp': None, 'object': object(), 'anonymous': Anonymous(), 'hashed': UsernameHashedPassword(b'u', b'h'),
         'lookalike': Lookalike(), 'pad': ampauth._AMPOneTimePad(b'p') if hasattr(ampauth, '_AMPOneTimePad') else None}[case['kind']]
    mon.event('unhandled-credentials')
    mon.raises(ampauth.UnhandledCredentials, 'unhandled-credentials', ampauth.login, Client(), c)
    mon.eq(sent, [], 'sent-before-refusing')
    mon.sig('creds', case['kind'])


def genFresh(rng, i, ctx):
    return dict(n=rng.choice((5, 40)), seed=rng.randint(0, 3), password=pw(rng, ctx), size=rng.choice((16, 16, 0, 1, 100)))


def runFresh(case, mon):
    """Nonces of the client, like challenges of the server, never repeat."""
    for _ in range(case['n']):
        random.seed(case['seed'])
        ch = bytes(random.getrandbits(8) for _ in range(case.get('size', 16)))
        random.seed(case['seed'])
        a = ampauth.PasswordChallengeResponse.determineFrom(ch, case['password'])
        mon.eq(sorted(a), ['cnonce', 'response'], 'response-arguments')
        mon.event('nonce')
        mon.check(a['cnonce'] not in challenges and len(a['cnonce']) >= 12, 'nonce-repeated', a['cnonce'])
        challenges.add(a['cnonce'])
        mon.eq(a['response'], digest(ch, a['cnonce'], case['password']), 'response-value')
    mon.sig('fresh', case['n'], case['seed'])


def genFork(rng, i, ctx):
    return dict(n=rng.randint(1, 3), seed=rng.randint(0, 9), user=name(rng))


def runFork(case, mon):
    """Two identical copies of a server, in the same state at the same time, do not issue the same challenges."""
    import os
    import time

    def child(fd):
        random.seed(case['seed'])
        time.time = time.monotonic = time.perf_counter = lambda: 1234567890.0
        os.getpid = lambda: 99
        w = World(dict(users={}, chunk=10 ** 6), mon)
        out = []
        for _ in range(case['n']):
            link = w.connect()
            first = w.ask(link, ampauth.PasswordLogin, username=case['user'])
            out.append(first.results[0][1]['challenge'].hex())
            out.append(ampauth.PasswordChallengeResponse.determineFrom(b'c', b'p')['cnonce'].hex())
        os.write(fd, ' '.join(out).encode())
    got = []
    for _ in range(2):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                child(wfd)
            finally:
                os._exit(0)
        os.close(wfd)
        data = b''
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            data += c
        os.close(r)
        os.waitpid(pid, 0)
        got.append(data.decode().split())
    mon.event('forked', got)
    mon.eq([len(g) for g in got], [2 * case['n']] * 2, 'fork-challenges')
    mon.check(not set(got[0]) & set(got[1]), 'challenge-predictable', got)
    mon.eq(len(set(got[0])), 2 * case['n'], 'challenge-repeated', got[0])
    mon.sig('fork', case['n'])


def genServices(rng, i, ctx):
    users = [{name(rng): pw(rng, ctx) for _ in range(rng.randint(1, 3))} for _ in range(rng.randint(2, 3))]
    return dict(users=users, conns=[rng.randrange(len(users)) for _ in range(rng.randint(2, 5))], early=rng.random() < .5,
                ops=[[rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 9), rng.random() < .4] for _ in range(rng.randint(1, 6))], chunk=10 ** 6)


def runServices(case, mon):
    """Several services in one process, each with its own users: a connection logs in to the service it was made to."""
    worlds = [World(dict(users=u, chunk=case['chunk']), mon) for u in case['users']]
    conns = []
    for k in case['conns']:
        link = worlds[k].connect()
        conns.append([k, link, None])
    for c, v, u, near_ in case['ops']:
        k, link, who = conns[c % len(conns)]
        if who is not None:
            continue
        src = case['users'][v % len(case['users'])]
        user = sorted(src)[u % len(src)]
        password = src[user]
        w = worlds[k]
        before = [len(x.admitted) for x in worlds]
        good = user in case['users'][k] and passwordBytes(case['users'][k][user]) == passwordBytes(password)
        out = Outcome(ampauth.login(link.p[0], UsernamePassword(user, password)))
        w.pump(link)
        mon.event('service-login' if good else 'other-service-refused')
        mon.eq([x.admitted[n:] for x, n in zip(worlds, before)], [[user] if good and x is w else [] for x in worlds], 'service', k, user)
        mon.check(out.fired == 1 and (out.results[0][0] == 'ok') == good, 'service-login-result', out.results)
        if good:
            conns[c % len(conns)][2] = user
        mon.sig('services', len(worlds), len(conns), k, good)
    for k, link, who in conns:
        out = worlds[k].ask(link, Secret)
        if who is None:
            mon.check(out.results and out.results[0][0] == 'err', 'service-without-login', out.results)
        else:
            mon.eq(out.results, [('ok', {'who': who})], 'logged-in-as')
    loggedFailures()


WORKLOADS = [
    Workload('services', genServices, runServices, 1500, 30000),
    Workload('twins', genFork, runFork, 40, 200),
    Workload('logins', gen, run, 4000, 80000),
    Workload('challenges', genLong, runLong, 1500, 30000),
    Workload('credentials', genCreds, runCreds, 30, 100),
    Workload('fresh', genFresh, runFresh, 400, 4000),
    Workload('sockets', ampnet.gen, ampnet.runLogins, 600, 12000),
]
