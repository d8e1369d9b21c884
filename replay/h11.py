"""C11: every decision of the Metropolis-Hastings sampler, recomputed."""
from samp import *


class Prop(object):
    """scripted jumps; remembers what it was asked and what it answered"""
    def __init__(self, m, rng, near):
        self.m, self.rng, self.near = m, rng, near
        self.log_J = 0.0
        self.asked = []
        self.ens = None

    def set_ensemble(self, e):
        self.ens = e

    def get_sample(self, old, **k):
        v = [x + self.rng.gauss(0, self.near) for x in old.values]
        self.log_J = self.rng.choice([0.0, 0.0, 0.5, -0.5, 3.0, -3.0])
        was = key(old)
        if self.rng.random() < 0.3:
            # a jump may move the point it is given (the ensemble walk does)
            new = old
            for i, n in enumerate(self.m.names):
                new[n] = v[i]
        else:
            new = LivePoint(self.m.names, array.array('d', v))
        self.asked.append((was, tuple(v), self.log_J, len(TAPE.log)))
        return new


def gen(rng, tier):
    k = 0
    while k < (4000 if tier == 'thorough' else 700):
        k += 1
        N = rng.choice([1, 2, 3, 5, 9])
        yield dict(seed=rng.randrange(10**6), dim=rng.choice([1, 2, 3]), pool=rng.choice([1, 2, 5, 8]), N=N, maxmcmc=rng.choice([N, N + 1, 12, 30]),
                   thr=rng.choice([-INF, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0]), us=rng.choice(['fixed', 'low', 'high', 'free']), near=rng.choice([0.01, 0.3, 1.0]))


def run(c):
    rng = random_of(c)
    m = Mod(c['dim'], c['seed'] % 7)
    man = Man(c['thr'])
    pr = Prop(m, rng, c['near'])
    s = worker(MetropolisHastingsSampler, m, man, c, pr)
    s.Nmcmc, s.maxmcmc = c['N'], c['maxmcmc']
    pool = [m.draw(rng) for _ in range(c['pool'])]
    for p in pool:
        s.evolution_points.append(p)
    acc0, cnt0 = rng.choice([(0, 0), (3, 10)])
    s.mcmc_accepted, s.mcmc_counter = acc0, cnt0
    fix = {'fixed': rng.random(), 'low': 1e-9, 'high': 1 - 1e-9}.get(c['us'])
    for req in range(3):
        pr.asked = []
        n0 = len(s.samples)
        before = [(key(p), p.logL, p.logP) for p in s.evolution_points]
        start((lambda: fix) if fix is not None else rng.random)
        try:
            cnt, out = next(s.yield_sample(c['thr']))
        finally:
            stop()
        us = [u for k, u in TAPE.log]
        n = len(pr.asked)
        cur = before[0][0]
        clp = m.lp(cur)
        acc = 0
        draws = [a[3] for a in pr.asked] + [len(us)]
        hist = []
        for i, (old, new, J, at) in enumerate(pr.asked):
            need(old == cur, 'step %d proposes from %s, the chain is at %s' % (i, old, cur))
            got = us[draws[i]:draws[i + 1]]
            if fix is None and len(got) > 1:
                raise Failure('step %d draws %d uniform numbers' % (i, len(got)))
            np_ = m.lp(new)
            r = np_ - clp + J
            u = fix if fix is not None else (got[0] if got else None)
            if u is None:
                need(np_ == -INF or m.ll(new) <= c['thr'], 'step %d draws no fresh uniform number' % i)
                ok = False
            else:
                ok = r > math.log(u) and m.ll(new) > c['thr']
            if ok:
                cur, clp, acc = new, np_, acc + 1
            hist.append(cur)
            nxt = pr.asked[i + 1][0] if i + 1 < n else key(out)
            need(nxt == cur, 'step %d: prior ratio %r, Jacobian %r, u=%r, logL %r over %r should %s the move' % (i, np_ - clp, J, u, m.ll(new), c['thr'], 'accept' if ok else 'refuse'))
            stop_now = (i + 1 >= c['N'] and acc > 0) or i + 1 >= c['maxmcmc']
            need(stop_now == (i + 1 == n), 'the request %s after %d steps with %d acceptances (chain length %d, maximum %d)' % ('goes on' if stop_now else 'ends', i + 1, acc, c['N'], c['maxmcmc']))
        need(n > 0, 'no step was made')
        need(cnt == n, 'step count %r for %d steps' % (cnt, n))
        acc0, cnt0 = acc0 + acc, cnt0 + n
        need(s.sub_acceptance == acc / n, 'acceptance of the request %r is not %d/%d' % (s.sub_acceptance, acc, n))
        need((s.mcmc_accepted, s.mcmc_counter) == (acc0, cnt0), 'totals %r, expected %r' % ((s.mcmc_accepted, s.mcmc_counter), (acc0, cnt0)))
        need(s.acceptance == acc0 / cnt0, 'acceptance %r is not %d/%d' % (s.acceptance, acc0, cnt0))
        rec = list(s.samples)[n0:]
        need([key(p) for p in rec] == hist, 'the chain records %d points for %d steps, or other points' % (len(rec), n))
        ev = list(s.evolution_points)
        need([(key(p), p.logL, p.logP) for p in ev[:-1]] == before[1:] and ev[-1] is out or key(ev[-1]) == key(out) and
             [(key(p), p.logL, p.logP) for p in ev[:-1]] == before[1:], 'the pool is not the old one with its first point replaced by the final one')
        true_point(m, out, 'returned point')
        true_point(m, ev[-1], 'pool point')


CHECKS = {'metropolis-hastings request': (gen, run)}
if __name__ == '__main__':
    main(CHECKS, limit=20)
