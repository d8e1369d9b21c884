"""C08: posterior weights of a chain against the definition."""
import math
import numpy as np
from common import *
from cpnest import nest2pos

INF = float('inf')


def lse(xs):
    xs = [x for x in xs if x != -INF]
    if not xs:
        return -INF
    m = max(xs)
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


def lsub(a, b):
    return a + math.log(-math.expm1(b - a))


def definition(L, N):
    M = len(L)
    c = math.log1p(-1.0 / N)
    V = [0.0]
    for i in range(M - N + 2):
        V.append(V[-1] + c)
    for i in range(N - 1):
        V.append(V[-1] + math.log1p(-1.0 / (N - i)))
    # V_0 .. V_{M+1}
    F = [-INF] + list(L) + [L[-1]]
    d = [lsub(V[i], V[i + 1]) for i in range(M + 1)]
    Z = lse([lse([F[i], F[i + 1]]) - math.log(2) + d[i] for i in range(M + 1)])
    return Z, [L[j] + d[j] - Z for j in range(M)]


def close(a, b, tol):
    return a == b or abs(a - b) <= tol * (1 + abs(a) + abs(b))


def run(c):
    L = np.array(c['L'], dtype=float)
    L0 = L.copy()
    with np.errstate(all='ignore'):
        Z, w = nest2pos.compute_weights(L, c['N'])
    WZ, W = definition(list(L), c['N'])
    tol = 1e-8
    need(close(float(Z), WZ, tol), 'log-evidence %r, trapezoidal sum %r' % (Z, WZ))
    need(len(w) == len(L), '%d weights for %d samples' % (len(w), len(L)))
    for j in range(len(L)):
        need(close(float(w[j]), W[j], tol), 'weight of sample %d of %d (N=%d): %r instead of %r' % (j, len(L), c['N'], w[j], W[j]))
    need(np.array_equal(L, L0), 'the chain was changed')
    with np.errstate(all='ignore'):
        Z2, w2 = nest2pos.compute_weights(L + c['shift'], c['N'])
    need(close(float(Z2), float(Z) + c['shift'], tol), 'evidence does not shift with the likelihood')
    need(np.allclose(w2, w, rtol=1e-7, atol=1e-7 * (1 + abs(c['shift']))), 'weights change with a constant factor of the likelihood')


def gen(rng, tier):
    for N, M in [(2, 2), (2, 3), (3, 3), (3, 4), (3, 10), (5, 5), (5, 30)]:
        yield dict(N=N, L=[0.1 * i * i for i in range(M)], shift=2.0)
    for _ in range(100 if tier == 'quick' else 2000):
        N = rng.choice([2, 3, 4, 8, 20, 100])
        M = N + rng.choice([0, 1, 2, rng.randrange(0, 200)])
        x, L = rng.choice([0.0, -1000.0, 500.0]), []
        for i in range(M):
            x += rng.random() * rng.choice([0, 1e-3, 1.0, 10.0])
            L.append(x)
        yield dict(N=N, L=L, shift=rng.choice([0.0, 10.0, -700.0, 1e4]))


CHECKS = {'weights': (gen, run)}
main(CHECKS)
