"""C23: adaptive chain length and autocorrelation length against their definitions."""
from samp import *
import samp
import kern
from cpnest import nest2pos


def acf(x):
    """autocorrelation at lags 0, 1, ... by the circular definition"""
    n = len(x)
    m = math.fsum(x) / n
    y = [v - m for v in x]
    v = math.fsum(a * a for a in y) / n
    return [math.fsum(y[i] * y[(i + k) % n] for i in range(n)) / v / n for k in range(n)]


def acl_def(x, tol=0.01):
    T, r, near = 1.0, acf(x), False
    for a in r:
        if abs(a - tol) < 1e-9:
            near = True
        if not a > tol:
            break
        T += 2 * a
    return T, near


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def run_fly(c):
    rng = random_of(c)
    m, man, s = kern.setup(dict(c, thr=-INF), rng)
    s.maxmcmc, s.poolsize = c['max'], c['ps']
    s.Nmcmc_exact = float(c['e0'])
    for a in c['accs']:
        kw = {}
        if c['safety'] is not None:
            kw['safety'] = c['safety']
        if c['tau'] is not None:
            kw['tau'] = c['tau']
        sf = c['safety'] if c['safety'] is not None else 5
        tau = c['tau'] if c['tau'] is not None else c['ps'] / sf
        s.sub_acceptance = a
        e = s.Nmcmc_exact
        new = (1 + 1 / tau) * e if a == 0 else (1 - 1 / tau) * e + (sf / tau) * (2 / a - 1)
        new = min(new, c['max'])
        r = s.estimate_nmcmc_on_the_fly(**kw)
        need(r == s.Nmcmc, 'returns %r but sets %r' % (r, s.Nmcmc))
        need(isinstance(r, (int, np.integer)) and not isinstance(r, bool), 'chain length %r is no integer' % (r,))
        need(sf <= r <= max(sf, c['max']), 'chain length %r outside [%r, %r] (acceptance %r, estimate %r)' % (r, sf, max(sf, c['max']), a, s.Nmcmc_exact))
        need(close(s.Nmcmc_exact, new), 'moving average %r after acceptance %r instead of %r' % (s.Nmcmc_exact, a, new))
        f = new - math.floor(new)
        if 1e-6 < f < 1 - 1e-6 or new == math.floor(new):
            need(r == max(sf, int(new)) or new == math.floor(new), 'chain length %r for the estimate %r (minimum %r)' % (r, new, sf))
        if a == 0 and e > 0:
            need(s.Nmcmc_exact >= min(e, c['max']), 'the estimate shrinks although nothing was accepted')


def gen_fly(rng, tier):
    for kind in ('mh', 'slice', 'hmc'):
        yield dict(kind=kind, seed=1, dim=1, pool=2, N=1, maxmcmc=6, max=5000, ps=100, e0=10, safety=None, tau=None, accs=[0.0] * 300)
        yield dict(kind=kind, seed=1, dim=1, pool=2, N=1, maxmcmc=6, max=100, ps=100, e0=10, safety=None, tau=None, accs=[1.0] * 200 + [0.01] * 50 + [0.0] * 50)
        yield dict(kind=kind, seed=1, dim=1, pool=2, N=1, maxmcmc=6, max=3, ps=10, e0=0, safety=None, tau=None, accs=[0.0, 1.0, 0.5, 0.0])
    for _ in range(100 if tier == 'quick' else 2000):
        mx = rng.choice([1, 4, 20, 100, 5000])
        yield dict(kind=rng.choice(['mh', 'slice', 'hmc']), seed=1, dim=1, pool=2, N=1, maxmcmc=6, max=mx, ps=rng.choice([1, 4, 10, 100, 1000]), e0=rng.choice([0, 1, mx // 10, mx]),
                   safety=rng.choice([None, None, 1, 5, 20]), tau=rng.choice([None, None, 1.0, 2.5, 50.0]),
                   accs=[rng.choice([0.0, 1.0, 1.0 / rng.randrange(1, 200), rng.random()]) for _ in range(rng.choice([1, 5, 40]))])


def series(rng, n, rho):
    out, x = [], rng.gauss(0, 1)
    for _ in range(n):
        x = rho * x + math.sqrt(1 - rho * rho) * rng.gauss(0, 1)
        out.append(x)
    return out


def run_chain(c):
    rng = random_of(c)
    m, man, s = kern.setup(dict(c, thr=-INF, dim=len(c['rho'])), rng)
    s.maxmcmc = c['maxmcmc']
    cols = [series(rng, c['n'], r) for r in c['rho']]
    s.samples = [LivePoint(m.names, array.array('d', [col[i] for col in cols])) for i in range(c['n'])]
    last = [col[-5 * c['maxmcmc']:] for col in cols]
    Ts = [acl_def(x) for x in last]
    kw = {} if c['safety'] is None else dict(safety=c['safety'])
    r = s.estimate_nmcmc(**kw)
    sf = 20 if c['safety'] is None else c['safety']
    need(r == s.Nmcmc, 'returns %r but sets %r' % (r, s.Nmcmc))
    need(isinstance(r, (int, np.integer)), 'chain length %r is no integer' % (r,))
    need(r >= max(1, sf), 'chain length %r below its minimum %r' % (r, sf))
    T = max(t for t, _ in Ts)
    if not any(n for _, n in Ts) and abs(T - round(T)) > 1e-6:
        need(r == max(sf, 1, int(T)), 'chain length %r for autocorrelation lengths %r, minimum %r' % (r, [t for t, _ in Ts], sf))


def gen_chain(rng, tier):
    for _ in range(40 if tier == 'quick' else 400):
        yield dict(kind=rng.choice(['mh', 'slice', 'hmc']), seed=1, pool=2, N=1, maxmcmc=rng.choice([6, 20]), n=rng.choice([8, 40, 150]),
                   rho=[rng.choice([0.0, 0.7, 0.97]) for _ in range(rng.choice([1, 2, 3]))], safety=rng.choice([None, 0, 1, 3, 20]), k=rng.random())


def run_acl(c):
    rng = random_of(c)
    x = np.array(series(rng, c['n'], c['rho']))
    x0 = x.copy()
    T = nest2pos.acl(x) if c['tol'] is None else nest2pos.acl(x, tolerance=c['tol'])
    need(T >= 1, 'autocorrelation length %r below 1' % T)
    W, near = acl_def(list(x), 0.01 if c['tol'] is None else c['tol'])
    need(near or abs(T - W) <= 1e-6 * W, 'autocorrelation length %r instead of %r' % (T, W))
    need(np.array_equal(x, x0), 'the chain is changed')


def gen_acl(rng, tier):
    for _ in range(60 if tier == 'quick' else 500):
        yield dict(n=rng.choice([2, 3, 10, 60, 150]), rho=rng.choice([0.0, 0.5, 0.9, 0.99]), tol=rng.choice([None, None, 0.3, 0.9]), k=rng.random())


CHECKS = {'on the fly': (gen_fly, run_fly), 'from the chain': (gen_chain, run_chain), 'acl': (gen_acl, run_acl)}
main(CHECKS)
