"""C06: the running evidence against the sum it stands for, on arbitrary histories."""
import math
import numpy as np
from common import *
from cpnest.NestedSampling import _NSintegralState

INF = float('inf')


def lse(xs):
    xs = [x for x in xs if x != -INF]
    if not xs:
        return -INF
    m = max(xs)
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


def close(a, b, tol=1e-9):
    return a == b or (a == a and b == b and abs(a) != INF and abs(b) != INF and abs(a - b) <= tol * (1 + abs(a) + abs(b)))


def run(c):
    shift = c.get('shift', 0.0)
    s, t = _NSintegralState(c['N']), _NSintegralState(c['N'])
    need(s.logZ == -INF and s.logw == 0 and list(s.logLs) == [-INF] and list(s.log_vols) == [0.0] and s.iteration == 0 and s.info == 0,
         'does not start from zero evidence at volume one')
    terms, vols, Ls, logw, info = [], [0.0], [-INF], 0.0, 0.0
    Z = -INF
    for L, n, m in c['steps']:
        L = -INF if L is None else L
        kw, nn = {}, c['N']
        if n is not None:
            kw['nlive'] = nn = n
        mm = 1
        if m is not None:
            kw['nreplace'] = mm = m
        s.increment(L, **kw)
        t.increment(L + shift, **kw)
        new = logw - mm / nn
        terms.append(L + logw + math.log(-math.expm1(-mm / nn)))
        old, Z = Z, lse(terms)
        logw = new
        vols.append(logw)
        Ls.append(L)
        need(close(s.logZ, Z), 'log-evidence %r, the volume weighted sum is %r' % (s.logZ, Z))
        need(close(s.logw, logw), 'log-volume %r instead of %r' % (s.logw, logw))
        need(s.logZ >= old - 1e-12 * abs(old) if old != -INF else True, 'the evidence went down')
        need(close(t.logZ, s.logZ + shift), 'scaled likelihoods: %r instead of %r' % (t.logZ, s.logZ + shift))
        if old != -INF and L != -INF:
            wt = math.exp(terms[-1] - Z)
            info = wt * L + math.exp(old - Z) * (info + old) - Z
            need(abs(s.info - info) <= 1e-7 * (1 + abs(info) + abs(Z) + abs(L)), 'information %r instead of %r' % (s.info, info))
            info = s.info
        else:
            need(s.info == info, 'information changed from %r to %r by a contour without weight' % (info, s.info))
    need(len(s.logLs) == len(Ls) and all(a == b for a, b in zip(s.logLs, Ls)), 'recorded likelihoods are %r, the contours were %r' % (s.logLs[:8], Ls[:8]))
    need(len(s.log_vols) == len(vols) and all(close(a, b, 1e-12) for a, b in zip(s.log_vols, vols)), 'recorded volumes differ')
    need(all(a > b for a, b in zip(s.log_vols, s.log_vols[1:])), 'volumes do not strictly decrease')
    need(s.iteration == len(c['steps']), 'contours counted: %r' % s.iteration)


def gen(rng, tier):
    yield dict(N=10, steps=[[0.0, None, None]])
    yield dict(N=1, steps=[[0.0, None, None], [0.0, None, None]], shift=1.0)
    yield dict(N=3, steps=[[-1e5, None, 2], [-1e5, 3, 1], [-10.0, 2, 1], [0.0, 1, 1]], shift=-1e4)
    yield dict(N=3, steps=[[None, None, 1], [None, None, 1], [2.0, None, 1], [3.0, None, 1]], shift=3.0)
    yield dict(N=4, steps=[[1.0, None, 1], [0.5, None, 1], [None, None, 1], [3.0, None, 1]], shift=3.0)
    for _ in range(120 if tier == 'quick' else 3000):
        N = rng.choice([1, 2, 5, 17, 100, 1000])
        k = rng.randrange(1, 40)
        sc = rng.choice([1e-3, 1.0, 50.0, 1e4])
        off = rng.choice([0.0, -300.0, 800.0, 1e5, -1e6])
        x, st = off, []
        for i in range(k):
            x += sc * rng.random() * rng.choice([0, 1, 1, -0.2])
            st.append([x, None, rng.choice([None, 1, min(3, N)])])
        if rng.random() < 0.5:
            for i in range(min(N, 20)):
                x += sc * rng.random()
                st.append([x, N - i, rng.choice([None, 1])])
        yield dict(N=N, steps=st, shift=rng.choice([0.0, 5.0, -1000.0]))


def gen_runs(rng, tier):
    from coord import cases
    for c in cases(rng, tier, 12 if tier == 'quick' else 120):
        c['maxit'] = 25
        yield c


def run_runs(c):
    """a whole run with scripted workers: the contours the sampler feeds in, and the sum over them"""
    from coord import Coord, ident
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        n, N = c['n'], c['N']
        want, vols = [-INF], [0.0]
        orig = ns.consume_sample

        def step():
            want.append(sorted(p.logL for p in ns.params)[n - 1])
            vols.append(vols[-1] - n / N)
            orig()
            if len(want) > c['maxit']:
                ns.tolerance = INF
            need(close(ns.state.logw, vols[-1]), 'log-volume %r after %d iterations of %d out of %d' % (ns.state.logw, len(want) - 1, n, N))
            need(list(ns.state.logLs) == want, 'contours %r, the highest removed points were %r' % (ns.state.logLs[-3:], want[-3:]))
            terms = [want[i] + vols[i - 1] + math.log(-math.expm1(vols[i] - vols[i - 1])) for i in range(1, len(want))]
            need(close(ns.state.logZ, lse(terms)), 'running evidence %r, the volume-weighted sum is %r' % (ns.state.logZ, lse(terms)))
        ns.consume_sample = step
        ns.nested_sampling_loop()
        for i, l in enumerate(sorted(p.logL for p in ns.params)):
            want.append(l)
            vols.append(vols[-1] - 1.0 / (N - i))
        need(list(ns.state.logLs) == want, 'contours of the run are not the removed and the final points')
        need(all(close(a, b, 1e-9) for a, b in zip(ns.state.log_vols, vols)) and len(vols) == len(ns.state.log_vols), 'volumes of the run')
    finally:
        co.close()


CHECKS = {'history': (gen, run), 'runs': (gen_runs, run_runs)}
main(CHECKS)
