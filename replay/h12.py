"""C12: every slice recomputed from the random numbers it drew."""
from samp import *


class Dir(object):
    log_J = 0.0

    def __init__(self, m, rng, as_array, scale):
        self.m, self.rng, self.as_array, self.scale, self.mus = m, rng, as_array, scale, []
        self.given = []

    def set_ensemble(self, e):
        pass

    def get_direction(self, mu=1.0, **k):
        v = [self.rng.gauss(0, 1) * self.scale for _ in self.m.names]
        self.mus.append(mu)
        self.given.append((tuple(v), len(TAPE.log)))
        if self.as_array:
            return np.array(v)
        return LivePoint(self.m.names, array.array('d', v))


def gen(rng, tier):
    for _ in range(4000 if tier == 'thorough' else 600):
        yield dict(seed=rng.randrange(10**6), dim=rng.choice([1, 2, 3]), pool=rng.choice([1, 2, 5, 8]), N=rng.choice([0, 1, 2, 5]), maxmcmc=rng.choice([1, 2, 6, 20]),
                   thr=rng.choice([-INF, -2.5, -1.0, 0.0, 1.0, 3.0]), arr=rng.random() < 0.3, scale=rng.choice([0.05, 0.3, 2.0]), slices=rng.choice([1, 3, 20]),
                   out=rng.choice([1, 2, 5, 20]), tune=rng.choice([0, 10**6]), bad=rng.random() < 0.3, flat=rng.random() < 0.3)


def close(a, b):
    return all(abs(x - y) <= 1e-9 * (1 + abs(x)) for x, y in zip(a, b))


def run(c):
    rng = random_of(c)
    calls = []
    m = Mod(c['dim'], c['seed'] % 7, c['flat'], calls)
    man = Man(c['thr'])
    pr = Dir(m, rng, c['arr'], c['scale'])
    s = worker(SliceSampler, m, man, c, pr)
    s.mu, s.max_steps_out, s.max_slices, s.tuning_steps = 1.0, c['out'], c['slices'], c['tune']
    s.Nmcmc, s.maxmcmc = c['N'], c['maxmcmc']
    for _ in range(c['pool']):
        while True:
            p = m.draw(rng)
            if c['bad'] or p.logL > c['thr'] or rng.random() < 0.02:
                break
        s.evolution_points.append(p)
    s.mcmc_accepted, s.mcmc_counter = 0, 0
    tot = [0, 0]
    for req in range(2):
        pr.given, pr.mus = [], []
        del calls[:]
        before = [(key(p), p.logL, p.logP) for p in s.evolution_points]
        # the first point above the threshold, rotating the others to the back
        rot = next((i for i, b in enumerate(before) if b[1] > c['thr']), None)
        n0 = len(s.samples)
        mu0 = s.mu
        start(rng.random)
        try:
            cnt, out = next(s.yield_sample(c['thr']))
        finally:
            stop()
        tape = list(TAPE.log)
        need(rot is not None or len(before) > 0, 'empty pool')
        if rot is None:
            # nobody above the threshold: the whole pool was looked at, the walk starts from whichever point was taken last
            rest, cur = None, None
        else:
            cur = before[rot]
            rest = before[rot + 1:] + before[:rot]
        need(all(x == mu0 for x in pr.mus), 'the direction is not scaled by the length scale')
        # walk through the slices
        n = len(pr.given)
        need(cnt == n, 'slice count %r for %d slices' % (cnt, n))
        pos = 0
        acc = 0
        ends = [g[1] for g in pr.given] + [len(tape)]
        # the interval of a slice is drawn before or after its direction
        ci = 0
        groups = []
        t = 0
        for i in range(n):
            groups.append([])
        i = -1
        for kd, u in tape:
            if kd == ('u', 0.0, 1.0) and (i < 0 or sum(1 for g in groups[i] if g[0] == ('u', 0.0, 1.0)) >= 2):
                i += 1
                need(i < n, 'more intervals than directions')
            need(i >= 0, 'a slice level is drawn before the interval')
            groups[i].append((kd, u))
        for i in range(n):
            g = groups[i]
            u01 = [u for kd, u in g if kd == ('u', 0.0, 1.0)]
            ue = [u for kd, u in g if kd[0] == 'e']
            ush = [(kd, u) for kd, u in g if kd[0] == 'u' and kd != ('u', 0.0, 1.0)]
            if len(u01) != 2 or len(ue) != 1:
                raise Failure('slice %d draws %s' % (i, [kd for kd, u in g]))
            d = pr.given[i][0]
            L = -u01[0]
            R = L + 1.0
            J = math.floor(c['out'] * u01[1])
            K = c['out'] - 1 - J
            if cur is None:
                # deduce the start from the first probe
                cur = guess(calls, before, d, L, R, ush)
                if cur is None:
                    return
                rest = None
            x0, ll0, lp0 = cur
            at = lambda t: tuple(a + t * b for a, b in zip(x0, d))
            Yp = lp0 + math.log(1 - ue[0])
            Ne = Nc = 0
            for side in (0, 1):
                while (J if side == 0 else K) > 0:
                    e = at(L if side == 0 else R)
                    if not all(b[0] < x < b[1] for x, b in zip(e, m.bounds)) or Yp > m.lp(e):
                        break
                    Ne += 1
                    if side == 0:
                        L, J = L - 1, J - 1
                    else:
                        R, K = R + 1, K - 1
            k = 0
            moved = False
            while k < c['slices']:
                need(k < len(ush), 'slice %d stops after %d of %d proposals' % (i, k, c['slices']))
                (kd, u) = ush[k]
                need(abs(kd[1] - L) < 1e-9 and abs(kd[2] - R) < 1e-9, 'slice %d, proposal %d is drawn from [%r, %r], the bracket is [%r, %r]' % (i, k, kd[1], kd[2], L, R))
                need(L <= 0 <= R, 'the bracket left the current point')
                x = kd[1] + (kd[2] - kd[1]) * u
                L, R = kd[1], kd[2]
                new = at(x)
                k += 1
                if m.lp(new) > Yp and m.ll(new) > c['thr']:
                    need(close(new, new), '')
                    moved = True
                    break
                if x < 0:
                    L, Nc = x, Nc + 1
                elif x > 0:
                    R, Nc = x, Nc + 1
            need(k == len(ush), 'slice %d goes on after %d proposals (%s)' % (i, k, 'a point was accepted' if moved else 'the maximum'))
            nxt = None
            if moved:
                acc += 1
                cur = (new, m.ll(new), m.lp(new))
            done = (i + 1 > c['N'] and acc > 0) or i + 1 > c['maxmcmc']
            need(done == (i + 1 == n), 'the request %s after %d slices with %d acceptances (chain length %d, maximum %d)' % ('goes on' if done else 'ends', i + 1, acc, c['N'], c['maxmcmc']))
        need(close(key(out), cur[0]), 'the returned point is at %s, the slices lead to %s' % (key(out), cur[0]))
        tot[0] += acc
        tot[1] += n
        need(s.sub_acceptance == acc / n, 'acceptance of the request %r is not %d/%d' % (s.sub_acceptance, acc, n))
        need((s.mcmc_accepted, s.mcmc_counter) == tuple(tot), 'totals %r, expected %r' % ((s.mcmc_accepted, s.mcmc_counter), tot))
        need(s.acceptance == tot[0] / tot[1], 'acceptance fraction')
        ev = [(key(p), p.logL, p.logP) for p in s.evolution_points]
        need(len(ev) == len(before), 'the pool went from %d to %d points' % (len(before), len(ev)))
        need(close(ev[-1][0], cur[0]), 'the final point is not at the back of the pool')
        if rest is not None:
            need(ev[:-1] == rest, 'the other points of the pool changed')
        else:
            need(all(e in before for e in ev[:-1]), 'the other points of the pool changed')
        rec = list(s.samples)[n0:]
        need(len(rec) == 1 and close(key(rec[0]), cur[0]), 'the final point is not recorded')
        need(s.mu > 0 and s.mu < INF, 'length scale %r' % s.mu)
        if acc:
            need(out.logL > c['thr'] and out.logP > -INF, 'an accepted point at or below the threshold or without prior')
            true_point(m, out, 'returned point')
        if tot[1] < c['tune'] and n:
            want = mu0 * 2 * max(1, Ne) / (max(1, Ne) + max(1, Nc))
            need(abs(s.mu - want) < 1e-12 * want, 'length scale %r, expected %r from %d expansions and %d contractions' % (s.mu, want, Ne, Nc))
        else:
            need(s.mu == mu0, 'the length scale changes after tuning')


def guess(calls, before, d, L, R, ush):
    """which pool point the walk started from, from the first probed point"""
    for kind, x in calls:
        for b in before:
            for t in [L, R] + [kd[1] + (kd[2] - kd[1]) * u for kd, u in ush[:1]]:
                if close(tuple(a + t * e for a, e in zip(b[0], d)), x):
                    return b
    return None


CHECKS = {'slice request': (gen, run)}
if __name__ == '__main__':
    main(CHECKS, limit=20)
