"""C29: resampling of MCMC chains, with controlled shuffles and uniform numbers."""
import posts
from posts import *
from common import *


def acl_def(x):
    x = np.asarray(x, dtype=float)
    with np.errstate(all='ignore'):
        y = x - x.mean()
        f = np.fft.fft(y)
        r = np.fft.ifft(f.conjugate() * f).real / np.var(x) / len(x)
    T, i = 1.0, 0
    while i < len(r) and r[i] > 0.01:
        T += 2 * r[i]
        i += 1
    return T


def series(c):
    rng = random_of(c)
    n, a = c['n'], c['rho']
    out, x = [], rng.gauss(0, 1)
    for i in range(n):
        x = a * x + math.sqrt(1 - a * a) * rng.gauss(0, 1)
        out.append(x)
    return np.array(out)


def run(c):
    cols = ['x%d' % i for i in range(c['dim'])]
    order = cols + ['logL', 'logPrior']
    if c.get('front'):
        order = ['logPrior'] + cols + ['logL']
    a = np.zeros(c['n'], dtype=[(k, 'f8') for k in order])
    for i, k in enumerate(cols):
        a[k] = series(dict(c, col=i, rho=c['rho'][i]))
    rng = random_of(c)
    # the likelihood column moves much more slowly than the parameters: it must not set the thinning
    a['logL'] = np.linspace(-3, 3, c['n']) + np.array([0.01 * rng.gauss(0, 1) for _ in range(c['n'])])
    a['logPrior'] = np.array([rng.gauss(0, c['sp']) for _ in range(c['n'])])
    orig = a.copy()
    perm = []
    import numpy.random as NR
    old = NR.shuffle
    back = c['order']

    def shuffle(x, *k):
        n = len(x)
        p = list(range(n))
        if back == 'reverse':
            p = p[::-1]
        elif back == 'random':
            rng.shuffle(p)
        perm.append(p)
        x[:] = x[np.array(p, dtype=int)].copy()

    def permutation(x):
        if isinstance(x, (int, np.integer)):
            p = np.arange(int(x))
            shuffle(p)
            return p
        y = np.array(x)
        shuffle(y)
        return y
    oldp = NR.permutation
    NR.shuffle, np.random.shuffle, NR.permutation, np.random.permutation = shuffle, shuffle, permutation, permutation
    us = []

    def src():
        us.append(rng.random() if c['u'] is None else c['u'])
        return us[-1]
    start(src)
    try:
        out = nest2pos.resample_mcmc_chain(a, burnin=c['burnin'])
    finally:
        stop()
        NR.shuffle, np.random.shuffle, NR.permutation, np.random.permutation = old, old, oldp, oldp
    half = orig[c['n'] // 2:] if c['burnin'] else orig
    T = max(acl_def(half[k]) for k in cols)
    if abs(T - math.floor(T) - 0.5) < 1e-6:
        return
    k = int(round(T))
    thin = half[::k]
    R, D = rows(out), rows(thin)
    need(len(R) >= 1, 'no row is returned')
    need(out.dtype.names == orig.dtype.names, 'columns %r' % (out.dtype.names,))
    need(len(set(R)) == len(R), 'a row is returned twice')
    need(all(r in D for r in R), 'a returned row is not one of every %d-th row%s' % (k, ' of the second half' if c['burnin'] else ''))
    need(len(us) >= len(D) - 1, '%d uniform numbers for %d decisions' % (len(us), len(D) - 1))
    if len(perm) == 1 and len(perm[0]) == len(D):
        s = [D[i] for i in perm[0]]
        cand = [s]
        p = perm[0]
    elif not perm:
        cand = [D]
    else:
        return
    iL, iP = order.index('logL'), order.index('logPrior')
    s = cand[0]
    lp = [r[iL] + r[iP] for r in s]
    need(s[0] in R, 'the first row of the thinned chain is missing')
    if len(us) == len(D) - 1 or c['u'] is not None:
        for i in range(1, len(s)):
            u = us[i - 1]
            g, t = lp[i] - lp[i - 1], (math.log(u) if u > 0 else -INF)
            if abs(g - t) < 1e-9:
                continue
            if c['u'] is not None or len(us) == len(D) - 1:
                ok = (s[i] in R) == (g > t)
                need(ok, 'row %d with log-posterior gain %g is %s though log u is %g' % (i, g, 'kept' if s[i] in R else 'left out', t))


def gen(rng, tier):
    yield dict(n=2, dim=1, rho=[0.0], sp=0.1, burnin=False, order='same', u=0.5)
    for _ in range(80 if tier == 'quick' else 1500):
        d = rng.choice([1, 2, 3])
        yield dict(n=rng.choice([5, 20, 61, 200]), dim=d, rho=[rng.choice([0.0, 0.5, 0.9, 0.97]) for _ in range(d)], sp=rng.choice([0.0, 1.0]),
                   burnin=rng.random() < 0.5, order=rng.choice(['same', 'reverse', 'random']), u=rng.choice([None, 0.3, 0.9, 1 - 1e-12]), front=rng.random() < 0.3, k=rng.random())


def run_acl(c):
    x = series(c)
    x0 = x.copy()
    T = nest2pos.acl(x)
    need(abs(T - acl_def(x)) <= 1e-6 * (1 + abs(T)), 'autocorrelation length %r instead of %r' % (T, acl_def(x)))
    need(np.array_equal(x, x0), 'the chain is changed')


def gen_acl(rng, tier):
    for _ in range(30 if tier == 'quick' else 300):
        yield dict(n=rng.choice([2, 5, 20, 61, 200]), rho=rng.choice([0.0, 0.5, 0.9]), k=rng.random())


CHECKS = {'resample': (gen, run), 'acl': (gen_acl, run_acl)}
main(CHECKS)
