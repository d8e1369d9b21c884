"""The definitions of the weights and draws of nest2pos, for chains held as record arrays (harness side)."""
import math
import numpy as np
import samp
from samp import TAPE, start, stop, random_of, need
from cpnest import nest2pos

INF = float('inf')
NAMES = ['x', 'y', 'logL', 'logPrior']


def lse(xs):
    xs = [x for x in xs if x != -INF]
    if not xs:
        return -INF
    m = max(xs)
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


def lsub(a, b):
    return a + math.log(-math.expm1(b - a))


def definition(L, N):
    """C08's weights"""
    M = len(L)
    V = [0.0]
    for i in range(M - N + 2):
        V.append(V[-1] + math.log1p(-1.0 / N))
    for i in range(N - 1):
        V.append(V[-1] + math.log1p(-1.0 / (N - i)))
    F = [-INF] + list(L) + [L[-1]]
    d = [lsub(V[i], V[i + 1]) for i in range(M + 1)]
    Z = lse([lse([F[i], F[i + 1]]) - math.log(2) + d[i] for i in range(M + 1)])
    return Z, [L[j] + d[j] - Z for j in range(M)]


def chain(c, tag=0):
    """a nested-sample record array; column x is the row number (plus 1000*tag), so rows can be told apart"""
    L = c['L']
    a = np.zeros(len(L), dtype=[(n, 'f8') for n in NAMES])
    a['x'] = np.arange(len(L)) + 1000.0 * tag
    a['y'] = np.sin(np.arange(len(L)))
    a['logL'] = L
    return a


def rows(a):
    return [tuple(float(v) for v in r) for r in a]


def constant(u):
    """every uniform number is u; counts them"""
    start(lambda: u)


def rand_chain(rng, nmax=40):
    N = rng.choice([2, 3, 5, 10])
    M = N + rng.choice([0, 1, 2, rng.randrange(0, nmax)])
    x, L = rng.choice([0.0, -300.0, 40.0]), []
    for i in range(M):
        x += rng.random() * rng.choice([0, 0.1, 1.0, 5.0])
        L.append(x)
    return dict(N=N, L=L)


EPS = 1e-9
