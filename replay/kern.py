"""the three samplers on scripted proposals"""
from samp import *


class Jump(object):
    """proposal double for all three samplers"""
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.log_J = 0.0
        self.proposals = [self]

    def set_ensemble(self, e):
        pass

    def new(self, old):
        v = [x + self.rng.gauss(0, 0.7) for x in old.values]
        self.log_J = self.rng.choice([0.0, -0.2, -1.0])
        return v

    def get_sample(self, old, logLmin=None, **k):
        v = self.new(old)
        if logLmin is None:
            p = old.copy()
            for n, x in zip(self.m.names, v):
                p[n] = x
            return p
        # a trajectory: ends inside the prior, likelihood and prior evaluated on it
        for _ in range(200):
            if self.m.lp(v) > -INF:
                break
            v = self.new(old)
        p = self.m.pt(v)
        if p.logP == -INF:
            self.log_J = -INF
        return p

    def get_direction(self, mu=1.0, **k):
        return LivePoint(self.m.names, array.array('d', [self.rng.gauss(0, 0.5) * mu for _ in self.m.names]))

    def update_time_step(self, a):
        pass

    def update_trajectory_length(self, n):
        pass


KINDS = {'mh': MetropolisHastingsSampler, 'slice': SliceSampler, 'hmc': HamiltonianMonteCarloSampler}


def setup(c, rng, bumps=False, lmax=-INF):
    m = Mod(c['dim'], c['seed'] % 7)
    man = Man(c['thr'], lmax, rng if bumps else None)
    s = worker(KINDS[c['kind']], m, man, c, Jump(m, rng))
    s.Nmcmc, s.maxmcmc = c['N'], c['maxmcmc']
    if c['kind'] == 'slice':
        s.mu, s.max_steps_out, s.max_slices, s.tuning_steps = 1.0, 5, 8, 10**6
    while len(s.evolution_points) < c['pool']:
        p = m.draw(rng)
        if c['kind'] == 'hmc' and p.logL <= c['thr'] and rng.random() < 0.9:
            continue
        s.evolution_points.append(p)
    return m, man, s


def cases(rng, tier, k):
    for i in range(k * (6 if tier == 'thorough' else 1)):
        kind = ['mh', 'slice', 'hmc'][i % 3]
        yield dict(kind=kind, seed=rng.randrange(10**6), dim=rng.choice([1, 2, 3]), pool=rng.choice([1, 2, 5]), N=rng.choice([1, 3, 6]), maxmcmc=rng.choice([6, 20]),
                   thr=rng.choice([-INF, -2.5, -1.0, 0.0, 1.0]))
