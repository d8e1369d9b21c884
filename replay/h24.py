"""C24: other processes raise the shared maximum between any unlocked read and the write that follows."""
from kern import *
import multiprocessing as mp


def gen(rng, tier):
    for c in cases(rng, tier, 600):
        c['lmax'] = rng.choice([-INF, -2.0, 0.0, 2.5])
        yield c


def run(c):
    rng = random_of(c)
    m, man, s = setup(c, rng, True, c['lmax'])
    sh = man.logLmax
    start(rng.random)
    try:
        for _ in range(4):
            n0 = len(s.samples)
            cnt, out = next(s.yield_sample(c['thr']))
            need(sh.lost is None, 'update lost: %s' % sh.lost)
            top = max([p.logL for p in list(s.samples)[n0:]] + [out.logL]) if s.mcmc_accepted else -INF
            best = max((m.ll(p.values) for p in list(s.samples)[n0:] if key(p) not in START(c, s)), default=-INF)
            need(sh.v >= best, 'a point of log-likelihood %r was accepted, the shared maximum is %r' % (best, sh.v))
            need(sh.v >= c['lmax'], 'the shared maximum went down')
            for b in sh.bumps:
                need(sh.v >= b, 'the update %r of another process was lost (%r)' % (b, sh.v))
    finally:
        stop()


def START(c, s):
    return s._start


_setup = setup


def setup(c, rng, *a):
    m, man, s = _setup(c, rng, *a)
    s._start = {key(p) for p in s.evolution_points}
    return m, man, s


def gen2(rng, tier):
    for kind in ('mh', 'slice', 'hmc'):
        yield dict(kind=kind, procs=3, seed=rng.randrange(1000))


def run2(c):
    """real processes, real shared memory, real locks"""
    ctx = mp.get_context('fork')
    mx = ctx.Value('d', -INF)
    q = ctx.SimpleQueue()

    def work(i):
        cc = dict(kind=c['kind'], dim=2, pool=3, N=3, maxmcmc=10, thr=-INF, seed=c['seed'] + i)
        rng = random_of(cc)
        m = Mod(2, 1)
        man = Man(-INF)
        man.logLmax = mx
        s = worker(KINDS[c['kind']], m, man, cc, Jump(m, rng))
        s.Nmcmc, s.maxmcmc = 3, 10
        if c['kind'] == 'slice':
            s.mu, s.max_steps_out, s.max_slices, s.tuning_steps = 1.0, 5, 8, 10**6
        for _ in range(3):
            s.evolution_points.append(m.draw(rng))
        first = {key(p) for p in s.evolution_points}
        start(rng.random)
        best = last = -INF
        bad = ''
        for _ in range(40):
            cnt, out = next(s.yield_sample(-INF))
            if key(out) not in first:
                best = max(best, out.logL)
            v = mx.value
            if v < last or v < best:
                bad = 'maximum %r after %r, best accepted %r' % (v, last, best)
            last = v
        q.put(bad)
    ps = [ctx.Process(target=work, args=(i,)) for i in range(c['procs'])]
    for p in ps:
        p.start()
    out = [q.get() for p in ps]
    for p in ps:
        p.join()
    need(not any(out), str(out))


CHECKS = {'no lost update': (gen, run), 'real processes': (gen2, run2)}
if __name__ == '__main__':
    main(CHECKS, limit=30)
