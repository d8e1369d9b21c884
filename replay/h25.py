"""C25: likelihood and prior of every point recomputed from its coordinates, scripted and real proposals, initial pool."""
from kern import *
import cpnest.proposal as PR


def gen(rng, tier):
    return cases(rng, tier, 500)


def run(c):
    rng = random_of(c)
    m, man, s = setup(c, rng)
    start(rng.random)
    try:
        for _ in range(3):
            first = {key(p) for p in s.evolution_points}
            cnt, out = next(s.yield_sample(c['thr']))
            true_point(m, out, 'returned point')
            for p in s.evolution_points:
                true_point(m, p, 'pool point')
            for p in s.samples:
                true_point(m, p, 'chain point')
            if key(out) not in first:
                need(out.logL > c['thr'], 'returned a new point of log-likelihood %r, threshold %r' % (out.logL, c['thr']))
                need(out.logP > -INF, 'returned a new point of zero prior')
            if s.sub_acceptance > 0:
                need(out.logL > c['thr'] and out.logP > -INF, 'returned an accepted point below the threshold or without prior')
    finally:
        stop()


class Smooth(cpnest.model.Model):
    def __init__(self, dim, hole):
        self.names = ['q%d' % i for i in range(dim)]
        self.bounds = [[-3.0, 4.0]] * dim
        self.hole = hole
        self.lls = {}

    def lp(self, v):
        if not all(-3 < x < 4 for x in v) or (self.hole and abs(v[0] - 1.0) < 0.2):
            return -INF
        return -0.1 * sum(x * x for x in v)

    def ll(self, v):
        return -0.5 * sum((x - 0.3 * i) ** 2 for i, x in enumerate(v)) + 0.25 * math.sin(3 * v[0])

    def log_prior(self, p):
        return self.lp(p.values)

    def log_likelihood(self, p):
        return self.ll(p.values)

    def force(self, p):
        f = np.zeros(1, dtype={'names': self.names, 'formats': ['f8'] * len(self.names)})
        for n in self.names:
            f[n] = 0.2 * p[n]
        return f


def gen2(rng, tier):
    n = 0
    for _ in range(12 if tier == 'thorough' else 3):
        for kind in ('mh', 'slice', 'hmc'):
            for dim in (1, 2, 3):
                n += 1
                yield dict(kind=kind, dim=dim, pool=60 if kind == 'hmc' else 12, maxmcmc=20, seed=rng.randrange(10**4), hole=(n % 2 == 0) and kind != 'hmc', q=rng.choice([0.0, 0.3, 0.6]))


def run2(c):
    import random
    random.seed(c['seed'])
    m = Smooth(c['dim'], c['hole'])
    man = Man(-INF)
    prop = {'mh': PR.DefaultProposalCycle, 'slice': PR.EnsembleSliceProposalCycle}.get(c['kind'], lambda: PR.HamiltonianProposalCycle(model=m))()
    s = worker(KINDS[c['kind']], m, man, c, prop)
    np.random.seed(c['seed'])
    s.reset()
    need(len(s.evolution_points) == c['pool'], 'pool of %d points, %d asked' % (len(s.evolution_points), c['pool']))

    def ok(p, what):
        need(p.logP == m.lp(p.values), '%s: log-prior %r, the model gives %r' % (what, p.logP, m.lp(p.values)))
        need(p.logL == m.ll(p.values), '%s: log-likelihood %r, the model gives %r' % (what, p.logL, m.ll(p.values)))
    for p in s.evolution_points:
        ok(p, 'initial pool')
        need(np.isfinite(p.logP), 'initial point with log-prior %r' % p.logP)
    lls = sorted(p.logL for p in s.evolution_points)
    thr = lls[int(c['q'] * len(lls))] if c['q'] else -INF
    for i in range(12):
        feed = m.draw(thr) if False else None
        cand = [p for p in s.evolution_points if p.logL > thr]
        p = cand[i % len(cand)].copy()
        s.evolution_points.append(p)
        first = {key(x) for x in s.evolution_points}
        cnt, out = next(s.yield_sample(thr))
        ok(out, 'returned point')
        for x in s.evolution_points:
            ok(x, 'pool point')
        for x in s.samples:
            ok(x, 'chain point')
        if key(out) not in first:
            need(out.logL > thr and out.logP > -INF, 'returned a new point with log-prior %r, log-likelihood %r over %r' % (out.logP, out.logL, thr))
        need(len(s.evolution_points) == c['pool'], 'pool size')


def gen3(rng, tier):
    for kind in ('mh', 'slice'):
        for k in range(6):
            yield dict(kind=kind, dim=2, pool=8, maxmcmc=10, seed=rng.randrange(10**4))


def run3(c):
    """initial pool: priors of zero are drawn again, likelihoods are evaluated"""
    import random
    random.seed(c['seed'])
    np.random.seed(c['seed'])
    m = Smooth(c['dim'], True)
    m.new_point = lambda: LivePoint(m.names, array.array('d', [random.uniform(-4, 5) for _ in m.names]))
    pool = []
    s = worker(KINDS[c['kind']], m, Man(-INF), c, PR.DefaultProposalCycle() if c['kind'] == 'mh' else PR.EnsembleSliceProposalCycle())
    orig = s.proposal.set_ensemble

    def first(e):
        if not pool:
            pool.extend((list(p.values), p.logP, p.logL) for p in e)
        return orig(e)
    s.proposal.set_ensemble = first
    s.reset()
    need(len(pool) == c['pool'], 'initial pool of %d' % len(pool))
    for v, lp, ll in pool:
        need(lp == m.lp(v) and np.isfinite(lp), 'initial point with log-prior %r, the model gives %r' % (lp, m.lp(v)))
        need(ll == m.ll(v), 'initial point with log-likelihood %r, the model gives %r' % (ll, m.ll(v)))


CHECKS = {'scripted proposals': (gen, run), 'real proposals': (gen2, run2), 'initial pool': (gen3, run3)}
if __name__ == '__main__':
    main(CHECKS, limit=60)
