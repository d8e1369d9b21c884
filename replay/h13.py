"""C13: leap-frog steps, trajectories and acceptance, recomputed."""
from kern import *
import cpnest.proposal as PR


class HM(cpnest.model.Model):
    def __init__(self, dim, slope, seed):
        self.names = ['q%d' % i for i in range(dim)]
        self.bounds = [[-1.0 - 0.5 * i, 1.0 + i] for i in range(dim)]
        self.slope, self.seed = slope, seed
        self.nl = 0

    def lp(self, v):
        if not all(b[0] < x < b[1] for x, b in zip(v, self.bounds)):
            return -INF
        return -self.slope * sum(x * x for x in v)

    def ll(self, v):
        return -sum((x - 0.2) ** 2 for x in v)

    def log_prior(self, p):
        return self.lp(p.values)

    def log_likelihood(self, p):
        self.nl += 1
        return self.ll(p.values)

    def grad(self, v):
        return [2 * self.slope * x for x in v]

    def force(self, p):
        f = np.zeros(1, dtype={'names': self.names, 'formats': ['f8'] * len(self.names)})
        for n, g in zip(self.names, self.grad(p.values)):
            f[n] = g
        return f

    def pt(self, v):
        p = LivePoint(self.names, array.array('d', v))
        p.logP, p.logL = self.lp(v), self.ll(v)
        return p


def make(c, rng):
    d = c['dim']
    m = HM(d, c['slope'], c['seed'])
    f = PR.ConstrainedLeapFrog(model=m)
    a = np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)])
    cov = a.dot(a.T) + 0.3 * np.eye(d)
    f.covariance = cov if d > 1 else np.atleast_1d(cov[0, 0])
    f.update_mass()
    # spline normals replaced by a given smooth field
    f.normal = [(lambda x, s=rng.uniform(-1, 1) or 0.5: -2 * (x - 0.2) + s) for _ in range(d)]
    f.dt, f.L = c['dt'], c['L']
    return m, f


def case(rng):
    return dict(seed=rng.randrange(10**6), dim=rng.choice([1, 2, 3]), slope=rng.choice([0.0, 0.3, 2.0]), dt=rng.choice([0.01, 0.2, 1.0, 4.0]), L=rng.choice([1, 2, 3, 7]))


def gen(rng, tier):
    for _ in range(5000 if tier == 'thorough' else 800):
        yield case(rng)


def reflect(x, p, l, u):
    n = 0
    while x < l or x > u:
        if x > u:
            x, p, n = u - (x - u), -p, n + 1
        if x < l:
            x, p, n = l + (l - x), -p, n + 1
    return x, p


def near(a, b, t=1e-9):
    return all(abs(x - y) <= t * (1 + abs(x) + abs(y)) for x, y in zip(a, b))


def o_pos(m, f, q, p):
    im = np.atleast_1d(np.diag(np.atleast_2d(f.covariance)))
    q, p = list(q), list(p)
    for j in range(len(q)):
        q[j], p[j] = reflect(q[j] + f.dt * p[j] * im[j], p[j], *m.bounds[j])
    return q, p


def o_norm(f, q):
    v = np.array([float(f.normal[i](x)) for i, x in enumerate(q)])
    v[np.isnan(v)] = -1.0
    return v / math.sqrt(float((v * v).sum()))


def o_mom(m, f, q, p, thr, half):
    g = np.array(m.grad(q))
    p = np.array(p)
    if half:
        return list(p - 0.5 * f.dt * g)
    if m.ll(q) - thr > 0:
        return list(p - f.dt * g)
    n = o_norm(f, q)
    return list(p - 2 * p.dot(n) * n)


def run(c):
    rng = random_of(c)
    m, f = make(c, rng)
    for _ in range(4):
        v = [rng.uniform(*b) for b in m.bounds]
        q = m.pt(v)
        p = np.array([rng.gauss(0, 2) for _ in v])
        w = list(p)
        p2, q2 = f.evolve_trajectory_one_step_position(p.copy(), q.copy())
        eq, ep = o_pos(m, f, v, w)
        need(all(b[0] <= x <= b[1] for x, b in zip(q2.values, m.bounds)), 'the position step leaves the bounds: %s' % list(q2.values))
        need(near(q2.values, eq) and near(p2, ep), 'position step gives %s, %s; expected %s, %s' % (list(q2.values), list(p2), eq, ep))
        need(all(abs(abs(a) - abs(b)) < 1e-12 for a, b in zip(p2, w)), 'the position step changes a momentum other than by its sign')
        thr = rng.choice([-INF, m.ll(v) - 0.1, m.ll(v), m.ll(v) + 0.1, INF])
        for half in (True, False):
            qq = m.pt(v)
            qq.logL, qq.logP = 99.0, 99.0
            r = f.evolve_trajectory_one_step_momentum(p.copy(), qq, thr, half=half)
            e = o_mom(m, f, v, w, thr, half)
            need(near(r[0], e), '%s momentum step gives %s, expected %s (logL %r, threshold %r)' % ('half' if half else 'full', list(r[0]), e, m.ll(v), thr))
            need(key(r[1]) == tuple(v), 'the momentum step moves the position')
            if not half:
                need(bool(r[2]) == (not m.ll(v) - thr > 0), 'reflection flag')
                if r[2]:
                    need(abs(np.dot(r[0], r[0]) - np.dot(w, w)) < 1e-9 * (1 + np.dot(w, w)), 'the reflection changes the momentum norm')
                need(r[1].logL == m.ll(v) and r[1].logP == m.lp(v), 'likelihood and prior of the new position')
        n = f.unit_normal(q)
        need(abs(float(np.dot(n, n)) - 1) < 1e-12 and near(n, o_norm(f, v)), 'unit normal')


def trajectory(m, f, q0, p0, thr):
    out = [(list(q0), list(p0))]
    for s in (1, -1):
        q = list(q0)
        p = o_mom(m, f, q, [s * x for x in p0], thr, True)
        for _ in range(f.L):
            q, p = o_pos(m, f, q, p)
            p = o_mom(m, f, q, p, thr, False)
            out.append((list(q), list(p)))
    return out


def energy(m, f, q, p):
    cov = np.atleast_2d(f.covariance)
    p = np.array(p)
    ld = np.linalg.slogdet(np.linalg.inv(cov))[1]
    return 0.5 * p.dot(cov.dot(p)) - ld - 0.5 * len(p) * math.log(2 * math.pi) - m.lp(q)


class RV(object):
    def __init__(self, p):
        self.p = p

    def rvs(self, *a, **k):
        return np.array(self.p) if len(self.p) > 1 else self.p[0]


def gen2(rng, tier):
    for _ in range(400 if tier == 'thorough' else 60):
        c = case(rng)
        c['dt'] = rng.choice([0.01, 0.2, 0.6])
        c['L'] = rng.choice([1, 2, 3, 5])
        c['n'] = 40
        yield c
    for _ in range(3):
        c = case(rng)
        c.update(dt=0.3, L=2, slope=0.0, n=400)
        yield c
        c = dict(c, slope=2.0, L=3, n=1500)
        yield c


def run2(c):
    rng = random_of(c)
    np.random.seed(c['seed'])
    m, f = make(c, rng)
    v = [rng.uniform(0.3 * b[0], 0.3 * b[1]) for b in m.bounds]
    p0 = [rng.gauss(0, 0.7) for _ in v]
    thr = rng.choice([-INF, m.ll(v) - 0.3, m.ll(v) - 0.02])
    f.momenta_distribution = RV(p0)
    tr = trajectory(m, f, v, p0, thr)
    H = [energy(m, f, q, p) for q, p in tr]
    H0 = H[0]
    inner = list(range(1, len(tr) - 1))
    if min(H[i] for i in inner) == INF:
        return
    lo = min(H[i] for i in inner)
    w = np.array([math.exp(lo - H[i]) for i in inner])
    w /= w.sum()
    seen = np.zeros(len(inner))
    for _ in range(c['n']):
        q0 = m.pt(v)
        l0 = m.nl
        q = f.get_sample(q0, logLmin=thr)
        need(key(q0) == tuple(v), 'the starting point is moved')
        hit = [k for k, i in enumerate(inner) if near(q.values, tr[i][0], 1e-7)]
        need(hit, 'the proposed point %s is no interior point of the trajectory of %d steps each way' % (list(q.values), f.L))
        need(any(abs(f.log_J - min(0.0, H0 - H[inner[k]])) < 1e-7 * (1 + abs(H0)) for k in hit), 'log-Jacobian %r, expected %s' % (f.log_J, [min(0.0, H0 - H[inner[k]]) for k in hit]))
        need(q.logL == m.ll(q.values) and q.logP == m.lp(q.values), 'the proposed point does not carry its own likelihood and prior')
        for k in hit:
            seen[k] += 1.0 / len(hit)
    if c['n'] >= 400 and len({tuple(np.round(tr[i][0], 7)) for i in inner}) == len(inner):
        for k in range(len(inner)):
            sd = math.sqrt(c['n'] * w[k] * (1 - w[k])) + 1
            need(abs(seen[k] - c['n'] * w[k]) < 6 * sd, 'interior point %d of %d proposed %d times, expected %.1f' % (k, len(inner), seen[k], c['n'] * w[k]))


def gen3(rng, tier):
    for c in cases(rng, tier, 900):
        if c['kind'] == 'hmc':
            c['us'] = rng.choice(['free', 'fixed'])
            yield c


class Log(Jump):
    def __init__(self, j):
        self.__dict__.update(j.__dict__)
        self.proposals = [self]
        self.hist = []
        self.upd = []

    def get_sample(self, old, logLmin=None, **k):
        was = key(old)
        p = Jump.get_sample(self, old, logLmin=logLmin)
        self.hist.append((was, key(p), self.log_J, logLmin, len(TAPE.log)))
        return p

    def update_time_step(self, a):
        self.upd.append(('t', a))

    def update_trajectory_length(self, n):
        self.upd.append(('n', n))


def run3(c):
    """the sampler: accepted only with the Hamiltonian change over log u and above the threshold"""
    rng = random_of(c)
    m, man, s = setup(c, rng)
    s.proposal = pr = Log(s.proposal)
    fix = rng.choice([1e-9, 0.5, 0.9]) if c['us'] == 'fixed' else None
    tot = [0, 0]
    for _ in range(3):
        before = [key(p) for p in s.evolution_points]
        pr.hist, n0 = [], len(s.samples)
        start((lambda: fix) if fix is not None else rng.random)
        try:
            cnt, out = next(s.yield_sample(c['thr']))
        finally:
            stop()
        us = [u for k, u in TAPE.log]
        n = len(pr.hist)
        at = [h[4] for h in pr.hist] + [len(us)]
        need(cnt == n, 'count %r for %d trajectories' % (cnt, n))
        for i, (old, new, J, thr, _) in enumerate(pr.hist):
            need(old == before[-1], 'trajectory %d starts at %s, the chain is at %s' % (i, old, before[-1]))
            need(thr == c['thr'], 'the trajectory is run with threshold %r' % thr)
            got = us[at[i]:at[i + 1]]
            need(fix is not None or len(got) <= 1, 'several uniform numbers per trajectory')
            u = fix if fix is not None else (got[0] if got else None)
            if u is None:
                need(m.ll(new) <= c['thr'] or J == -INF, 'no fresh uniform number is drawn')
                ok = False
            else:
                ok = J > math.log(u) and m.ll(new) > c['thr']
            need(ok == (i + 1 == n), 'trajectory %d with dH %r, u=%r, logL %r over %r is %s' % (i, J, u, m.ll(new), c['thr'], 'refused' if ok else 'accepted'))
        need(key(out) == pr.hist[-1][1], 'the accepted point is not the one returned')
        ev = [key(p) for p in s.evolution_points]
        need(ev == before[:-1] + [key(out)], 'the pool is not the old one with the final point in place')
        need([key(p) for p in list(s.samples)[n0:]] == [key(out)], 'the accepted point is recorded once')
        tot = [tot[0] + 1, tot[1] + n]
        need(s.sub_acceptance == 1.0 / n and s.acceptance == tot[0] / tot[1], 'acceptance fractions')


CHECKS = {'steps': (gen, run), 'trajectories': (gen2, run2), 'acceptance': (gen3, run3)}
if __name__ == '__main__':
    main(CHECKS, limit=60)
