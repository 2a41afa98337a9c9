"""C33: a version negotiation leaves both ends speaking the version agreed on, or both as they were."""
from vf.core import Workload
from vf.juicelib import *

TARGETS = ['epsilon/juice.py']
LEVEL = 'exploration'
RULE = ('one case = two connected juice peers built by the real factories, each supporting a generated set of versions, negotiating in '
        'either direction among other traffic, cut and delayed arbitrarily, possibly losing the connection; a monitor follows the '
        'version of each end against what it asked, answered and was answered; non-trivial = a negotiation was judged')
ASSUMPTIONS = ['each end\'s supported versions are fixed while one negotiation is in progress']
MUST_SEE = ('agreed', 'refused', 'not-supported-here', 'lost', 'concurrent', 'raw-offer', 'chosen-second', 'traffic', 'roles', 'again')


def gen(rng, i, ctx):
    ops = []
    for _ in range(rng.randint(1, 8)):
        k = rng.random()
        if k < .4:
            ops.append(['negotiate', rng.randint(0, 1), rng.choice((1, 1, 1, 2, 3, 0, 7, 12, -1))])
        elif k < .6:
            ops.append(['offer', rng.randint(0, 1), [rng.choice((0, 1, 2, 3, 4, 9, 12, -1)) for _ in range(rng.randint(0, 4))]])
        elif k < .8:
            ops.append(['deliver', rng.randint(0, 1), rng.choice((1, 5, 40, None))])
        elif k < .95:
            ops.append(['ask', rng.randint(0, 1), genText(rng, ctx, 20)])
        else:
            ops.append(['lose'])
    return dict(ops=ops, versions=[rng.choice(([1], [1], [1, 2], [2, 1], [1, 2, 3], [2], [3], [1, 3], [1, 0], [3, 12, 1], [-1, 1])) for _ in (0, 1)],
                settle=rng.random() < .6)


def run(case, mon):
    orig = juice.VERSIONS
    if not isinstance(orig, list):
        case = dict(case, versions=[list(orig), list(orig)])
    try:
        sim(case, mon)
    finally:
        juice.VERSIONS = orig


def sim(case, mon):
    supported = case['versions']
    answered = [[], []]         # versions each end gave as an answer
    asked = []                  # texts handled

    class P(juice.Juice):
        def juice_ECHO(self, box):
            asked.append(box['t'])
            return juice.Box(t=box['t'])

    class SF(juice.JuiceServerFactory):
        protocol = P

    class CF(juice.JuiceClientFactory):
        protocol = P
    sf, cf = SF(), CF()
    server, client = sf.buildProtocol(None), cf.buildProtocol(None)
    for p, f, isServer in ((server, sf, True), (client, cf, False)):
        mon.check(type(p) is P and p.factory is f, 'factory')
        mon.eq((bool(p.isServer), bool(p.isClient)), (isServer, not isServer), 'role')
        mon.event('roles')
    mon.check(sf.buildProtocol(None) is not server, 'shared-protocol')
    link = Link(client, server)
    peers = [client, server]
    state = [client.protocolVersion, server.protocolVersion]
    mon.eq(state, [0, 0], 'initial-version')
    open_ = []      # negotiations in progress: dicts

    def use(i):
        juice.VERSIONS = list(supported[i])

    def check(where):
        mon.eq([p.protocolVersion for p in peers], state, 'version', where)

    def start(i, versions, raw):
        use(i)
        n = dict(side=i, versions=versions, raw=raw, done=False)
        if raw:
            d = juice.Negotiate(versions=versions).do(peers[i])
            mon.event('raw-offer')
        else:
            d = peers[i].renegotiateVersion(versions[0])
        n['out'] = Outcome(d)
        if any(o['out'].fired == 0 and o['side'] != i for o in open_):
            mon.event('concurrent')
        if any(o['side'] == i for o in open_):
            mon.event('again')
        open_.append(n)
        # what the other end will do with it
        choice = [v for v in versions if v in supported[1 - i]]
        n['choice'] = choice[0] if choice else None
        if choice and choice[0] != versions[0]:
            mon.event('chosen-second')

    def deliver(i, k):
        """Deliver byte by byte, so that the model can follow every box."""
        use(i)
        p = peers[i]
        link.collect()
        todo = len(link.wire[i]) if k is None else k
        while todo > 0 and not link.lost[i]:
            fired = [n['out'].fired for n in open_]
            wrote = len(link.wire[1 - i])
            got = link.deliver(i, 1)
            if not got:
                break
            todo -= got
            link.collect()
            # negotiations of the other side answered just now, in order
            text = bytes(link.wire[1 - i][wrote:])
            if text:
                for b in juice.parseString(text):
                    if '_answer' in b and 'version' in b:
                        q = [n for n in open_ if n['side'] == 1 - i and not n.get('answered')]
                        mon.check(q, 'answer-to-nothing', b)
                        n = q[0]
                        n['answered'] = True
                        mon.eq(int(b['version']), n['choice'], 'version-chosen', n['versions'], supported[i])
                        state[i] = int(b['version'])
                    elif '_error' in b:
                        q = [n for n in open_ if n['side'] == 1 - i and not n.get('answered')]
                        if q:
                            mon.eq(q[0]['choice'], None, 'refused-a-supported-version', q[0]['versions'], supported[i])
                            q[0]['answered'] = True
            for n, f in zip(open_, fired):
                if n['out'].fired > f:
                    mon.eq(n['side'], i, 'wrong-side')
                    judge(n)
            check('after delivery to %d' % i)
            if peers[i].transport.disconnecting:
                break

    def judge(n):
        kind, r = n['out'].results[0]
        mon.eq(n['out'].fired, 1, 'more-than-one-outcome')
        if kind == 'ok':
            v = r['version'] if n['raw'] else r
            mon.check(n['choice'] is not None, 'agreed-on-nothing', r)
            mon.eq(v, n['choice'], 'result')
            if not n['raw']:
                state[n['side']] = v
            mon.event('agreed')
        else:
            mon.check(n['choice'] is None or any(link.lost), 'failed-needlessly', r)
            mon.event('refused' if n['choice'] is None else 'lost')
    dead = [False]

    def settle():
        for _ in range(50):
            if any(link.lost):
                return
            moved = 0
            for i in (0, 1):
                link.collect()
                moved += len(link.wire[i])
                deliver(i, None)
                if peers[i].transport.disconnecting:
                    dead[0] = True
            if not moved or dead[0]:
                break
    for op in case['ops']:
        if any(link.lost) or dead[0]:
            break
        if op[0] == 'negotiate':
            i, v = op[1], op[2]
            use(i)
            if v not in supported[i]:
                # refused at once, and nothing is sent
                link.collect()
                before = bytes(link.wire[1 - i])
                try:
                    d = peers[i].renegotiateVersion(v)
                except Exception:
                    pass
                else:
                    o = Outcome(d)
                    mon.check(o.fired and o.results[0][0] == 'err', 'negotiating-what-is-not-supported', v)
                link.collect()
                mon.eq(bytes(link.wire[1 - i]), before, 'offered-what-is-not-supported', v)
                mon.event('not-supported-here')
                check('after refusing')
                continue
            alone = not any(n['out'].fired == 0 for n in open_)
            start(i, [v], False)
            check('after asking')
            if case['settle'] and alone:
                settle()
                n = open_[-1]
                if not any(link.lost) and not dead[0]:
                    mon.eq(n['out'].fired, 1, 'no-outcome')
                if n['out'].fired and n['out'].results[0][0] == 'ok':
                    mon.eq([p.protocolVersion for p in peers], [v, v], 'ends-disagree')
        elif op[0] == 'offer':
            start(op[1], op[2], True)
        elif op[0] == 'deliver':
            deliver(op[1], op[2])
            if peers[op[1]].transport.disconnecting:
                dead[0] = True
        elif op[0] == 'ask':
            use(op[1])
            Outcome(peers[op[1]].sendCommand('echo', t=op[2]))
            mon.event('traffic')
            check('traffic')
        else:
            link.lose(0)
            link.lose(1)
            for n in open_:
                if n['out'].fired == 0:
                    mon.fail('no-outcome-after-loss', n['versions'])
                if n['out'].results[0][0] == 'err':
                    mon.event('lost')
            check('after loss')
    if not any(link.lost) and not dead[0]:
        settle()
        if not any(link.lost) and not dead[0]:
            for n in open_:
                mon.eq(n['out'].fired, 1, 'no-outcome')
    check('at the end')
    if open_:
        mon.sig('neg', case['versions'], [(n['side'], n['versions'], n['out'].results[0][0] if n['out'].fired else None) for n in open_])


WORKLOADS = [Workload('negotiations', gen, run, 6000, 120000)]
