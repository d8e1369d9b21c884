"""C17: prior support and unit cube."""
import array
import math
from common import *
import numpy as np
import cpnest.model
from cpnest.parameter import LivePoint
INF = float('inf')


def model(c, **kw):
    class M(cpnest.model.Model):
        names = ['v%d' % i for i in range(len(c['b']))]
        bounds = [list(b) for b in c['b']] if c.get('lists', True) else [tuple(b) for b in c['b']]

        def log_likelihood(self, p):
            return 0.0
    for k, v in kw.items():
        setattr(M, k, v)
    return M()


def gen(rng, tier):
    for _ in range(4000 if tier == 'thorough' else 800):
        d = rng.choice([1, 2, 3, 6])
        b = []
        for _ in range(d):
            l = rng.choice([0.0, -1.0, rng.uniform(-9, 9), 1e-3, -1e6])
            b.append([l, l + rng.choice([1.0, 2.5, 1e-3, 10.0, 1e6])])
        yield dict(b=b, seed=rng.randrange(10**6), lists=rng.random() < 0.5)


def run(c):
    import random
    rng = random.Random(c['seed'])
    np.random.seed(c['seed'])
    m = model(c)
    d = len(c['b'])
    pt = lambda v: LivePoint(m.names, array.array('d', v))
    inside = [rng.uniform(l + 1e-6 * (h - l), h - 1e-6 * (h - l)) for l, h in c['b']]
    cases = [inside]
    for i in range(d):
        l, h = c['b'][i]
        for x in (l, h, np.nextafter(l, INF), np.nextafter(h, -INF), np.nextafter(l, -INF), np.nextafter(h, INF), l - 1, h + 1, INF, -INF, float('nan')):
            v = list(inside)
            v[i] = float(x)
            cases.append(v)
    for v in cases:
        ok = all(l < x < h for x, (l, h) in zip(v, c['b']))
        p = pt(v)
        need(bool(m.in_bounds(p)) == ok, 'in_bounds(%s) is %s, bounds %s' % (v, m.in_bounds(p), c['b']))
        lp = m.log_prior(p)
        need(lp == (0.0 if ok else -INF), 'log-prior %r at %s, bounds %s' % (lp, v, c['b']))
        need(m.potential(p) == -lp, 'potential %r, log-prior %r' % (m.potential(p), lp))
    for _ in range(5):
        p = m.new_point()
        need(list(p.names) == list(m.names) and len(p.values) == d, 'names of a new point')
        need(all(l <= x <= h for x, (l, h) in zip(p.values, c['b'])), 'new point %s outside %s' % (list(p.values), c['b']))
        need(m.log_prior(p) > -INF, 'new point of zero prior')
    # a prior with holes, and one that is not flat
    for k in range(2):
        mid = [(l + h) / 2 for l, h in c['b']]
        m2 = model(c, log_prior=lambda self, p: -INF if p.values[0] < mid[0] else -1.5)
        for _ in range(4):
            p = m2.new_point()
            need(m2.log_prior(p) > -INF, 'new point of zero prior')
            need(all(l <= x <= h for x, (l, h) in zip(p.values, c['b'])), 'new point outside the bounds')
            need(m2.potential(p) == 1.5, 'potential of a non-flat prior')
    us = [[0.0] * d, [1.0] * d, [rng.random() for _ in range(d)], [rng.uniform(-1, 2) for _ in range(d)], [0.5] * d]
    for u in us:
        for t in (list, tuple, np.array):
            p = m.from_normalised(t(u))
            need(list(p.names) == list(m.names), 'names')
            for x, z, (l, h) in zip(p.values, u, c['b']):
                need(abs(x - (l + z * (h - l))) <= 1e-12 * (abs(l) + abs(h)), 'from_normalised(%r) is %r in [%r, %r]' % (z, x, l, h))
        q = m.to_normalised(p)
        need(len(q) == d, 'length')
        for z, w, (l, h) in zip(u, q, c['b']):
            need(abs(z - w) <= 1e-9 * (1 + (abs(l) + abs(h)) / (h - l) * 1e-3), 'the inverse of %r is %r' % (z, w))
    v = [rng.uniform(l, h) for l, h in c['b']]
    p = pt(v)
    p.logL, p.logP = 1.0, 2.0
    w = m.from_normalised(m.to_normalised(p))
    for x, y, (l, h) in zip(v, w.values, c['b']):
        need(abs(x - y) <= 1e-9 * (abs(l) + abs(h)), 'the point is not mapped back')
    need(list(p.values) == v and (p.logL, p.logP) == (1.0, 2.0), 'mapping changes the point')


def gen2(rng, tier):
    for _ in range(4):
        yield dict(b=[[-1.0, 3.0], [2.0, 2.5]], seed=rng.randrange(10**6))


def run2(c):
    """new points fill the whole box independently"""
    np.random.seed(c['seed'])
    m = model(c)
    x = np.array([list(m.new_point().values) for _ in range(2000)])
    for i, (l, h) in enumerate(c['b']):
        n = np.histogram(x[:, i], bins=4, range=(l, h))[0]
        need(n.sum() == 2000 and np.all(np.abs(n - 500) < 130), 'coordinate %d is not uniform: %s' % (i, n))
    need(abs(np.corrcoef(x.T)[0, 1]) < 0.15, 'coordinates are correlated')


CHECKS = {'support': (gen, run), 'new points': (gen2, run2)}
if __name__ == '__main__':
    main(CHECKS, limit=20)
