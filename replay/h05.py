"""C05: insertion ranks against their definition; the input of the uniformity test."""
from coord import *
import scipy.stats


def run(c):
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        n, N = c['n'], c['N']
        for it in range(c['iters']):
            before = sorted(list(ns.params), key=lambda p: p.logL)
            surv = [p.logL for p in before[n:]]
            r0, i0 = len(co.replies), len(ns.insertion_indices)
            ns.consume_sample()
            acc = [p for _, p in co.replies[r0:] if p.logL > co.logLmin.value]
            got = ns.insertion_indices[i0:]
            need(len(got) == n and len(acc) == n, '%d ranks recorded for %d replacements' % (len(got), n))
            for g, p in zip(got, acc):
                want = sum(l <= p.logL for l in surv) / len(surv)
                need(0 <= g <= 1, 'rank %r outside [0,1]' % g)
                need(abs(g - want) < 1e-12, 'rank %r recorded, the new point has rank %r' % (g, want))
                surv.append(p.logL)
    finally:
        co.close()


def gen_ks(rng, tier):
    for N in (2, 3, 5, 10):
        for k in (0, 1, N - 1, N, N + 1, 3 * N + 1):
            for rolling in (0, 1):
                yield dict(N=N, n=1, k=k, rolling=rolling, seed=0)


def run_ks(c):
    co = Coord(c)
    calls = []

    def fake(x, *a, **k):
        calls.append((list(x), a, k))
        return real(x, *a, **k)
    real = scipy.stats.kstest
    had = getattr(NSmod, 'kstest', None)
    try:
        ns = co.make()
        rng = random.Random(c['k'])
        data = [rng.random() for _ in range(c['k'])]
        ns.insertion_indices = list(data)
        scipy.stats.kstest = fake
        if had is not None:
            NSmod.kstest = fake
        rp = list(ns.rolling_p)
        ns.check_insertion_indices(rolling=bool(c['rolling']), filename=None)
        if not data:
            need(not calls and ns.rolling_p == rp, 'test run without ranks')
            return
        want = data[-c['N']:] if c['rolling'] else data
        need(len(calls) == 1, 'the uniformity test ran %d times' % len(calls))
        x, a, k = calls[0]
        need(x == want, 'tested %d ranks %s, expected %d' % (len(x), x[:4], len(want)))
        D, p = real(want, 'uniform', args=(0, 1))
        D2, p2 = real(x, *a, **k)
        need(abs(p - p2) < 1e-12, 'not the test against the uniform distribution on [0,1]')
        if c['rolling']:
            need(len(ns.rolling_p) == len(rp) + 1 and abs(ns.rolling_p[-1] - p) < 1e-12, 'p-value not recorded: %r' % ns.rolling_p)
        else:
            need(ns.rolling_p == rp, 'the final test was recorded among the rolling ones')
        need(ns.insertion_indices == data, 'the test changed the ranks')
    finally:
        scipy.stats.kstest = real
        if had is not None:
            NSmod.kstest = had
        co.close()


CHECKS = {'ranks': (lambda r, t: cases(r, t), run), 'uniformity test': (gen_ks, run_ks)}
main(CHECKS)
