"""C07: the final evidence and its helpers against exact sums."""
import math
import numpy as np
from fractions import Fraction
from common import *
from cpnest import nest2pos
from cpnest.NestedSampling import _NSintegralState

INF = float('inf')


def trap(L, V):
    """log of the trapezoidal sum over log likelihoods and log volumes"""
    m = max([x for x in L if x != -INF] or [0.0])
    v0 = max([x for x in V if x != -INF] or [0.0])
    e = lambda x: math.exp(x - m) if x != -INF else 0.0
    t, lo, up = [], [], []
    for i in range(len(L) - 1):
        if V[i] == -INF:
            dx = 0.0
        else:
            dx = math.exp(V[i] - v0) * (-math.expm1(V[i + 1] - V[i]) if V[i + 1] != -INF else 1.0)
        t.append(0.5 * (e(L[i]) + e(L[i + 1])) * dx)
        lo.append(min(e(L[i]), e(L[i + 1])) * dx)
        up.append(max(e(L[i]), e(L[i + 1])) * dx)
    f = lambda xs: math.log(math.fsum(xs)) + m + v0 if math.fsum(xs) > 0 else -INF
    return f(t), f(lo), f(up)


def close(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * (1 + abs(a) + abs(b))


def run_trap(c):
    L = np.array([-INF if x is None else x for x in c['L']])
    V = np.array([-INF if x is None else x for x in c['V']])
    L0, V0 = L.copy(), V.copy()
    with np.errstate(all='ignore'):
        got = float(nest2pos.log_integrate_log_trap(L, V))
    want, lo, up = trap(list(L), list(V))
    need(close(got, want), 'log integral %r, trapezoidal sum %r' % (got, want))
    need(got >= lo - 1e-9 * (1 + abs(lo)) and got <= up + 1e-9 * (1 + abs(up)), 'outside the rectangle sums')
    need(np.array_equal(L, L0) and np.array_equal(V, V0), 'arguments were changed')


def run_sub(c):
    x, y = [np.array([-INF if v is None else v for v in z]) for z in c['xy']]
    bad = bool(np.any(x < y))
    for args in ([(x, y)] if len(x) != 1 else [(x, y), (float(x[0]), float(y[0]))]):
        try:
            with np.errstate(all='ignore'):
                got = nest2pos.logsubexp(*args)
        except AssertionError:
            need(bad, 'refuses %r - %r' % args)
            continue
        need(not bad, 'log of a negative number accepted: %r - %r' % args)
        got = np.atleast_1d(got)
        for a, b, g in zip(x, y, got):
            if a == -INF:
                continue        # -inf - -inf is undefined
            want = -INF if a == b else a + (math.log(-math.expm1(b - a)) if b != -INF else 0.0)
            need(close(float(g), want, 1e-9 if a - b > 1e-3 else 1e-2), 'logsubexp(%r, %r) = %r, exactly %r' % (a, b, g, want))


def run_fin(c):
    s = _NSintegralState(c['N'])
    for L, n, m in c['steps']:
        s.increment(L, **(dict(nlive=n, nreplace=m) if n is not None else dict(nreplace=m)))
    L, V = [-INF] + [x[0] for x in c['steps']], [0.0]
    for x, n, m in c['steps']:
        V.append(V[-1] - m / (c['N'] if n is None else n))
    l0, v0, it = list(s.logLs), list(s.log_vols), s.iteration
    r = s.finalise()
    want = trap(L, V)[0]
    need(close(float(s.logZ), want), 'final log-evidence %r, trapezoidal sum over the history %r' % (s.logZ, want))
    need(close(float(r), want), 'finalise returns %r' % (r,))
    need(list(s.logLs) == l0 and list(s.log_vols) == v0 and s.iteration == it, 'finalise changed the history')


def gen_trap(rng, tier):
    yield dict(L=[None, 0.0], V=[0.0, -1.0])
    yield dict(L=[None, 0.0, 0.0], V=[0.0, -1.0, None])
    yield dict(L=[5.0, 0.0, 7.0], V=[0.0, 0.0, -1.0])
    for _ in range(120 if tier == 'quick' else 3000):
        n = rng.randrange(2, 60)
        x = rng.choice([0.0, -1000.0, 1e5])
        L = []
        for i in range(n):
            x += rng.choice([0, 1, 1, 1, -1]) * rng.random() * rng.choice([1e-3, 1, 100])
            L.append(x)
        if rng.random() < 0.7:
            L[0] = None
        v, V = 0.0, []
        for i in range(n):
            V.append(v)
            v -= rng.random() * rng.choice([1e-2, 1, 10]) + (0 if rng.random() < 0.1 else 1e-3)
        if rng.random() < 0.4:
            V[-1] = None
        yield dict(L=L, V=V)


def gen_sub(rng, tier):
    yield dict(xy=[[0.0], [0.0]])
    yield dict(xy=[[0.0], [None]])
    yield dict(xy=[[0.0], [1.0]])
    yield dict(xy=[[0.0, 1.0, 2.0], [-1.0, 2.0, 0.0]])
    yield dict(xy=[[0.0, 1.0, 2.0], [1.0, 0.0, 0.0]])
    yield dict(xy=[[0.0, 1.0, 2.0], [-1.0, 0.0, 2.5]])
    for _ in range(150 if tier == 'quick' else 3000):
        n = rng.choice([1, 1, 2, 5])
        y = [rng.choice([rng.uniform(-5, 5), rng.uniform(-1e3, 1e3), None]) for _ in range(n)]
        x = [(0.0 if v is None else v) + rng.choice([0.0, 1e-6, 1.0, 50.0, 1000.0]) * rng.random() for v in y]
        if rng.random() < 0.3:
            i = rng.randrange(n)
            if y[i] is not None:
                x[i] = y[i] - rng.choice([1e-9 * (1 + abs(y[i])), 1.0, 100.0])
        yield dict(xy=[x, y])


def gen_fin(rng, tier):
    for _ in range(80 if tier == 'quick' else 2000):
        N = rng.choice([2, 5, 20, 100])
        x, st = rng.choice([0.0, -500.0, 1e4]), []
        for i in range(rng.randrange(1, 40)):
            x += rng.random() * rng.choice([0, 1e-3, 1, 30])
            st.append([x, None, rng.choice([1, 2])])
        for i in range(min(N, 15)):
            x += rng.random()
            st.append([x, N - i, 1])
        yield dict(N=N, steps=st)


CHECKS = {'trapezoid': (gen_trap, run_trap), 'logsubexp': (gen_sub, run_sub), 'finalise': (gen_fin, run_fin)}
main(CHECKS)
