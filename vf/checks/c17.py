"""C17: a one-time pad lets in exactly the avatar it was issued for, and at most once."""
from vf.core import Workload
from vf.amplib import *
from epsilon.iepsilon import IOneTimePad

TARGETS = ['epsilon/ampauth.py']
LEVEL = 'exploration'
RULE = ('one case = a set of issued pads and a history of attempts to use pads (good, used, unknown, near-miss) over several '
        'connections whose logins finish in any order, with issuing of new pads and failing realms in between; the realm\'s '
        'record is checked against at-most-once use; non-trivial = a pad was accepted or refused and judged')
ASSUMPTIONS = ['pads are byte strings; issuing a pad again after its use makes it a new pad']
MUST_SEE = ('used-elsewhere', 'accepted', 'reuse-refused', 'unknown-refused', 'realm-failed', 'late', 'reissued', 'direct', 'lost-connection')


def pad(rng):
    return rng.choice((b'pad1', b'pad2', b'pad', b'PAD1', b'', b'\x00\xff', b'pad1 ', b'p' * 200, bytes([rng.randint(0, 255)]), b'0', b'None'))


AVATARS = (b'alice', b'bob', 'carol', b'zed', ('tuple', 1), 7, b'', '', 0, ())


def gen(rng, i, ctx):
    pads = {}
    for _ in range(rng.randint(0, 5)):
        pads[pad(rng)] = rng.choice(AVATARS)
    ops = []
    for _ in range(rng.randint(1, 14)):
        k = rng.random()
        if k < .62:
            p = rng.choice(sorted(pads)) if pads and rng.random() < .7 else pad(rng)
            ops.append(['use', p, rng.choice(('now', 'now', 'later', 'fail')), rng.choice(('amp', 'amp', 'direct')), rng.choice((0, 0, 1))])
        elif k < .75:
            ops.append(['finish', rng.randint(0, 9)])
        elif k < .85:
            ops.append(['issue', pad(rng), rng.choice(AVATARS)])
        elif k < .93:
            ops.append(['lose', rng.randint(0, 9)])
        else:
            ops.append(['withdraw', pad(rng)])
    return dict(pads=pads, ops=ops, own=rng.random() < .5, chunk=rng.choice((1, 10 ** 6)))


@implementer(IOneTimePad)
class Pad(object):
    def __init__(self, v):
        self.padValue = v


class World(object):
    def __init__(self):
        self.admitted = []
        self.mode = 'now'
        self.waiting = []
        self.logouts = 0

    def onAvatarBox(self, av, box):
        pass

    def logout(self):
        self.logouts += 1

    def requestAvatar(self, avatarId, interfaces):
        self.admitted.append(avatarId)
        if self.mode == 'fail':
            raise NotImplementedError('no avatar')
        r = (amp.IBoxReceiver, Avatar(self, b'x'), self.logout)
        if self.mode == 'later':
            d = Deferred()
            self.waiting.append((d, r))
            return d
        return r


def run(case, mon):
    w = World()
    pads = dict(case['pads'])
    # two servers for the same pads
    checkers = [ampauth.OneTimePadChecker(pads), ampauth.OneTimePadChecker(pads)]
    model = dict(pads)
    used = set()
    usedAt = {}
    factories = [ampauth.CredAMPServerFactory(Portal(Realm(w), [c])) for c in checkers]
    links = []

    def pump(link):
        while link.deliver(1, case['chunk']) or link.deliver(0, case['chunk']):
            pass
    for op in case['ops']:
        if op[0] == 'use':
            _, p, w.mode, how, which = op
            checker, factory = checkers[which], factories[which]
            if p in used and usedAt[p] != which:
                mon.event('used-elsewhere')
            usedAt.setdefault(p, which)
            n = len(w.admitted)
            good = p in model
            if how == 'direct':
                mon.event('direct')
                out = Outcome(maybeDeferred(checker.requestAvatarId, Pad(p)))
                mon.eq(out.fired, 1, 'direct-outcome')
                if good:
                    mon.event('accepted')
                    mon.eq(out.results[0], ('ok', model.pop(p)), 'direct-avatar', p)
                    used.add(p)
                else:
                    mon.event('reuse-refused' if p in used else 'unknown-refused')
                    mon.check(out.results[0][0] == 'err' and out.results[0][1].check(UnauthorizedLogin) is not None,
                              'pad-accepted', p, out.results)
            else:
                link = Link(amp.AMP(), factory.buildProtocol(None))
                out = Outcome(link.p[0].callRemote(ampauth.OTPLogin, pad=p))
                pump(link)
                links.append((link, out, w.mode, good))
                if good:
                    mon.event('accepted')
                    mon.eq(w.admitted[n:], [model.pop(p)], 'pad-avatar', p)
                    used.add(p)
                    if w.mode == 'later':
                        mon.event('late')
                        mon.eq(out.fired, 0, 'early-outcome')
                    elif w.mode == 'fail':
                        mon.event('realm-failed')
                        mon.check(out.fired == 1 and out.results[0][0] == 'err', 'failed-realm-outcome', out.results)
                    else:
                        mon.eq(out.results, [('ok', {})], 'pad-outcome')
                else:
                    mon.event('reuse-refused' if p in used else 'unknown-refused')
                    mon.eq(w.admitted[n:], [], 'pad-accepted', p, 'used' if p in used else 'never issued')
                    mon.check(out.fired == 1 and out.results[0][0] == 'err' and
                              out.results[0][1].check(UnauthorizedLogin) is not None, 'refusal', out.results)
            mon.sig('use', good, p in used, how, w.mode, len(model))
        elif op[0] == 'finish':
            if w.waiting:
                d, r = w.waiting.pop(op[1] % len(w.waiting))
                d.callback(r)
                for link, out, m, good in links:
                    pump(link)
        elif op[0] == 'issue':
            if op[1] in used and op[1] not in model:
                mon.event('reissued')
            (pads if case['own'] else checkers[0].pads)[op[1]] = op[2]
            model[op[1]] = op[2]
        elif op[0] == 'withdraw':
            (pads if case['own'] else checkers[0].pads).pop(op[1], None)
            model.pop(op[1], None)
        elif op[0] == 'lose' and links:
            link = links[op[1] % len(links)][0]
            mon.event('lost-connection')
            link.lose(1)
            link.lose(0)
    # afterwards: whatever is left works once, nothing else does
    for p in sorted(set(model) | used):
        for again in (0, 1):
            out = Outcome(maybeDeferred(checkers[again].requestAvatarId, Pad(p)))
            if p in model:
                mon.eq(out.results, [('ok', model.pop(p))], 'left-over-pad', p)
            else:
                mon.check(out.fired == 1 and out.results[0][0] == 'err' and out.results[0][1].check(UnauthorizedLogin) is not None,
                          'pad-accepted', p, out.results)
    loggedFailures()


WORKLOADS = [Workload('pads', gen, run, 12000, 240000)]
