"""C16: the compiled LivePoint against vectors."""
import array
import copy
import pickle
from common import *
import numpy as np
from cpnest.parameter import LivePoint


INF = float('inf')


def gen(rng, tier):
    for _ in range(6000 if tier == 'thorough' else 1500):
        d = rng.choice([1, 1, 2, 3, 5, 8])
        num = lambda: rng.choice([0.0, 1.0, -1.0, rng.uniform(-5, 5), rng.uniform(-1e6, 1e6), 1e-12])
        yield dict(d=d, a=[num() for _ in range(d)], b=[num() for _ in range(d)], s=rng.choice([2.0, -0.5, 1.0, 0.0, rng.uniform(-9, 9)]),
                   l=rng.choice([num(), num(), num(), -INF]), p=rng.choice([num(), num(), num(), -INF]), names=rng.sample(['x', 'y', 'z', 'alpha', 'b2', 'c c', 'mu', 'logm'], d))


def mk(c, v, l=None, p=None):
    return LivePoint(c['names'], array.array('d', v), c['l'] if l is None else l, c['p'] if p is None else p)


def st(p):
    return (list(p.names), list(p.values), p.logL, p.logP, p.dimension)


def same(a, b):
    # the extension is compiled with -ffast-math
    return abs(a - b) <= 1e-14 * max(abs(a), abs(b))


def run(c):
    d, a, b, s = c['d'], c['a'], c['b'], c['s']
    A, B = mk(c, a), mk(c, b, 7.5, -3.25)
    a0, b0 = st(A), st(B)
    ops = [('+', lambda x, y: x + y, lambda x, y: x + y, B), ('-', lambda x, y: x - y, lambda x, y: x - y, B), ('*', lambda x, y: x * y, lambda x, y: x * s, s)]
    if s:
        ops.append(('/', lambda x, y: x / y, lambda x, y: x / s, s))
    for nm, f, g, arg in ops:
        r = f(A, arg)
        need(type(r) is LivePoint and r is not A and r is not B, '%s makes no new point' % nm)
        need(list(r.names) == c['names'] and r.dimension == d and len(r.values) == d, '%s: names' % nm)
        need(all(same(z, g(x, y)) for z, x, y in zip(r.values, a, b)), '%s: %s of %s and %s' % (nm, list(r.values), a, arg if arg is s else b))
        need(st(A) == a0 and st(B) == b0, '%s changes an operand' % nm)
        need(r.logL == -INF and r.logP == -INF, 'the result of %s carries the likelihood %r and the prior %r of another point' % (nm, r.logL, r.logP))
        for i in range(d):
            r.values[i] = 123.0
        need(st(A) == a0 and st(B) == b0, 'the result of %s shares its coordinates with an operand' % nm)

    def iadd(x, y): x += y; return x
    def isub(x, y): x -= y; return x
    def imul(x, y): x *= y; return x
    def idiv(x, y): x /= y; return x
    iops = [('+=', iadd, lambda x, y: x + y, B), ('-=', isub, lambda x, y: x - y, B), ('*=', imul, lambda x, y: x * s, s)]
    if s:
        iops.append(('/=', idiv, lambda x, y: x / s, s))
    for nm, f, g, arg in iops:
        T = mk(c, a)
        keep = T
        r = f(T, arg)
        need(r is keep, '%s makes a new point' % nm)
        need(all(same(z, g(x, y)) for z, x, y in zip(r.values, a, b)), '%s: %s of %s and %s' % (nm, list(r.values), a, arg if arg is s else b))
        need((r.logL, r.logP, list(r.names), r.dimension) == (c['l'], c['p'], c['names'], d), '%s changes more than the coordinates' % nm)
        need(st(B) == b0, '%s changes the right operand' % nm)
    # both operands the same point
    T = mk(c, a)
    T += T
    need(all(same(z, x + x) for z, x in zip(T.values, a)), 'p += p')
    T = mk(c, a)
    T -= T
    need(all(z == 0 for z in T.values), 'p -= p')
    # access by name
    need(len(A) == d and list(A.keys()) == c['names'], 'len and keys')
    for i, n in enumerate(c['names']):
        need(A[n] == a[i], 'reading %r' % n)
        T = mk(c, a)
        T[n] = 42.5
        e = list(a)
        e[i] = 42.5
        need(st(T) == (c['names'], e, c['l'], c['p'], d), 'writing %r gives %s' % (n, st(T)))
    for bad in ('nope', c['names'][0] + 'x', ''):
        for op in (lambda: A[bad], lambda: A.__setitem__(bad, 1.0)):
            try:
                op()
            except KeyError:
                need(st(A) == a0, 'a refused access changes the point')
                continue
            raise Failure('unknown name %r is accepted' % bad)
    # copies
    for nm, f in (('copy()', lambda p: p.copy()), ('copy.copy', copy.copy), ('copy.deepcopy', copy.deepcopy), ('pickle', lambda p: pickle.loads(pickle.dumps(p))),
                  ('pickle protocol 2', lambda p: pickle.loads(pickle.dumps(p, 2)))):
        T = mk(c, a)
        r = f(T)
        need(st(r) == st(T) and type(r) is LivePoint, '%s gives %s of %s' % (nm, st(r), st(T)))
        for i, n in enumerate(c['names']):
            r[n] = 9.0 + i
        r.values[0] = 77.0
        r += B
        r.logL, r.logP = 1.0, 2.0
        need(st(T) == a0, 'changing the %s changes the original' % nm)
        r = f(T)
        T[c['names'][0]] = 5.0
        T.logL = 3.0
        need(st(r) == a0, 'changing the original changes the %s' % nm)
    src = array.array('d', a)
    T = LivePoint(c['names'], src)
    src[0] = 99.0
    need(list(T.values) == a, 'the point shares the array it was made from')
    need(T.logL == float('-inf') and T.logP == float('-inf'), 'default likelihood and prior')
    need(list(LivePoint(c['names']).values) == [0.0] * d, 'default coordinates')
    # record array
    r = A.asnparray()
    need(tuple(r.dtype.names) == tuple(c['names'] + ['logL', 'logPrior']) and r.shape == (1,), 'fields %s' % (r.dtype.names,))
    need(all(float(r[n][0]) == x for n, x in zip(c['names'], a)) and float(r['logL'][0]) == c['l'] and float(r['logPrior'][0]) == c['p'], 'record %s of %s' % (r, st(A)))
    r['logL'] = 0.0
    r[c['names'][0]] = 1e9
    need(st(A) == a0, 'the record shares memory with the point')
    if d > 1:
        O = LivePoint(c['names'][:-1], array.array('d', b[:-1]))
        for f in (lambda: A + O, lambda: A - O, lambda: iadd(A, O), lambda: isub(A, O)):
            try:
                f()
            except AssertionError:
                need(st(A) == a0, 'a refused operation changes the point')
                continue
            raise Failure('points of different dimension are combined')


CHECKS = {'points': (gen, run)}
if __name__ == '__main__':
    main(CHECKS, limit=20)
