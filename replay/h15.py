"""C15: proposal cycles over scripted proposals."""
from samp import *
import cpnest.proposal as PR


class P(PR.EnsembleProposal):
    def __init__(self, i):
        self.i, self.calls, self.ens, self.k = i, 0, [], 0

    def get_sample(self, old, **kw):
        self.calls += 1
        self.log_J = self.i + 0.001 * self.calls
        self.kw = kw
        self.out = object()
        return self.out

    def get_direction(self, mu=1.0, **kw):
        self.mu = mu
        return self.get_sample(None, **kw)

    def set_ensemble(self, e):
        self.ens.append(e)


class Q(PR.Proposal):
    """no ensemble proposal"""
    def __init__(self, i):
        self.i, self.calls = i, 0

    get_sample = P.__dict__['get_sample']


def gen(rng, tier):
    for _ in range(2000 if tier == 'thorough' else 400):
        n = rng.choice([1, 2, 3, 5])
        yield dict(seed=rng.randrange(10**6), w=[rng.choice([0, 1, 2, 5, 0.1, 10]) if i else 1 for i in range(n)], kinds=[rng.choice(['P', 'P', 'Q']) for _ in range(n)],
                   length=rng.choice([1, 2, 7, 100]), extra=[rng.choice([0.3, 1, 4]) for _ in range(rng.choice([0, 1, 2]))], slice=rng.random() < 0.2, kw=rng.random() < 0.4)


def weights_ok(cyc, given):
    s = sum(given)
    need(len(cyc.weights) == len(given), 'number of weights')
    need(all(abs(a - b / s) < 1e-12 for a, b in zip(cyc.weights, given)), 'weights %s from %s' % (list(cyc.weights), given))
    need(abs(sum(cyc.weights) - 1) < 1e-12, 'the weights add to %r' % sum(cyc.weights))


def place(cyc, ps):
    return [next(i for i, p in enumerate(ps) if p is x) for x in cyc.cycle]


def draws(cyc, ps, c, count):
    cycle = place(cyc, ps)
    n = len(cycle)
    i0 = cyc.idx
    for k in range(1, count + 1):
        before = [p.calls for p in ps]
        kw = {'logLmin': 3.5} if c['kw'] and not c['slice'] else {}
        new = cyc.get_direction(mu=0.25) if c['slice'] else cyc.get_sample(object(), **kw)
        hit = [i for i, p in enumerate(ps) if p.calls != before[i]]
        w = cycle[(i0 + k) % n]
        need(hit == [w] and ps[w].calls == before[w] + 1, 'draw %d delegates to %s, place %d of the cycle holds %d' % (k, hit, (i0 + k) % n, w))
        need(new is ps[w].out, 'the point of the proposal is not returned unchanged')
        need(cyc.log_J == ps[w].log_J, 'log-Jacobian %r, the proposal used has %r' % (cyc.log_J, ps[w].log_J))
        need(ps[w].kw == kw, 'arguments of the draw are not passed on')
        if c['slice']:
            need(ps[w].mu == 0.25, 'length scale is not passed on')
    need(place(cyc, ps) == cycle, 'drawing changes the cycle')


def run(c):
    np.random.seed(c['seed'])
    ps = [P(i) if k == 'P' or c['slice'] else Q(i) for i, k in enumerate(c['kinds'])]
    cls = PR.ProposalCycle
    if c['slice']:
        cls = type('C', (PR.EnsembleSliceProposalCycle,), {'__init__': PR.ProposalCycle.__init__})
    given = list(c['w'])
    cyc = cls(list(ps), list(c['w']), cyclelength=c['length'])
    weights_ok(cyc, given)
    need(len(cyc.cycle) == c['length'], 'cycle length %d' % len(cyc.cycle))
    need(all(given[i] > 0 for i in place(cyc, ps)), 'a proposal of weight zero is in the cycle')
    draws(cyc, ps, c, 2 * min(c['length'], 9) + 1)
    for e in (['a'], ['b', 'c']):
        cyc.set_ensemble(e)
        for p in ps:
            if isinstance(p, P):
                need(p.ens and p.ens[-1] is e, 'proposal %d is not given the new ensemble' % p.i)
    for x in c['extra']:
        old = list(cyc.weights)
        p = P(len(ps))
        ps.append(p)
        cyc.add_proposal(p, x)
        weights_ok(cyc, old + [x])
        need(len(cyc.cycle) == c['length'], 'cycle length %d' % len(cyc.cycle))
        draws(cyc, ps, c, min(c['length'], 9) + 1)
        e = [len(ps)]
        cyc.set_ensemble(e)
        need(p.ens[-1] is e, 'an added proposal is not given the new ensemble')
    for bad in (given + [1], given[:-1]):
        try:
            cls([P(i) for i in range(len(c['kinds']))], list(bad), cyclelength=5)
        except Hang:
            raise
        except Exception:
            continue
        raise Failure('%d weights for %d proposals are taken' % (len(bad), len(c['kinds'])))


def gen2(rng, tier):
    for _ in range(6):
        yield dict(seed=rng.randrange(10**6))


def run2(c):
    """the cycles that ship: a new ensemble reaches every part; frequencies follow the weights"""
    np.random.seed(c['seed'])
    cyc = PR.DefaultProposalCycle()
    need(abs(sum(cyc.weights) - 1) < 1e-12 and [round(30 * w) for w in cyc.weights] == [5, 5, 10, 10], 'default weights %s' % list(cyc.weights))
    e = [LivePoint(['a', 'b'], array.array('d', [np.random.normal(), np.random.normal()])) for _ in range(9)]
    for x in (cyc, PR.EnsembleSliceProposalCycle()):
        x.set_ensemble(e)
        for p in x.proposals:
            need(p.ensemble is e or list(p.ensemble) == e, '%s has not got the ensemble' % type(p).__name__)
    ps = [P(0), P(1), P(2)]
    big = PR.ProposalCycle(ps, [1, 2, 5], cyclelength=4000)
    n = np.bincount(place(big, ps), minlength=3) / 4000.0
    need(np.all(np.abs(n - np.array([0.125, 0.25, 0.625])) < 0.05), 'frequencies %s' % n)


CHECKS = {'cycles': (gen, run), 'shipped cycles': (gen2, run2)}
if __name__ == '__main__':
    main(CHECKS, limit=30)
