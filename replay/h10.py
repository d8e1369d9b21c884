"""C10: fixed-size posterior draws against the inverse cumulative rule, for controlled uniform numbers."""
import posts
from posts import *
from common import *

TOL = 1e-9


def cum(w):
    m = max(x for x in w if x > -INF)
    e = [math.exp(x - m) if x > -INF else 0.0 for x in w]
    t = math.fsum(e)
    c, out = 0.0, [0.0]
    for x in e:
        c += x
        out.append(c / t)
    out[-1] = 1.0
    return out


def allowed(C, u, n, w):
    """rows whose interval [C_i, C_(i+1)) holds u, give or take rounding"""
    return {i for i in range(n) if w[i] > -INF and C[i] - TOL * (1 if C[i] > 1e-6 else C[i]) <= u <= C[i + 1] + TOL * (1 if C[i + 1] > 1e-6 else C[i + 1])}


def seq(us):
    it = iter(us)
    start(lambda: next(it))


def run_one(c):
    w = np.array([x if x is not None else -INF for x in c['w']], dtype=float)
    data = chain(dict(L=[0.0] * len(w)))
    d0, w0 = data.copy(), w.copy()
    C = cum(list(w))
    us = c['u']
    N = len(us)
    seq(us)
    try:
        with np.errstate(all='ignore'):
            out = nest2pos.draw_N_posterior(data, w, N)
    finally:
        stop()
    need(len(out) == N, '%d rows for N=%d' % (len(out), N))
    D = rows(data)
    got = []
    for r in rows(out):
        need(r in D, 'row %r is no row of the chain' % (r,))
        got.append(D.index(r))
    need(len(TAPE.log) >= N, '%d uniform numbers for %d rows' % (len(TAPE.log), N))
    need(all(w[i] > -INF for i in got), 'a row of zero weight is drawn')
    # the numbers decide the rows one by one, in whatever order
    want = [allowed(C, u, len(w), w) for u in us]
    if not all(g in a for g, a in zip(got, want)):
        left = list(got)
        for a in sorted(want, key=len):
            k = [g for g in left if g in a]
            need(k, 'uniform numbers %r do not give rows %r (cumulative %r)' % (us[:8], got[:8], C[:8]))
            left.remove(k[0])
    need(np.array_equal(data, d0) and np.array_equal(w, w0), 'the draw changes its input')


def gen_one(rng, tier):
    yield dict(w=[0.0, -1.0, -2.0], u=[])
    yield dict(w=[0.0], u=[0.0, 0.5, 1 - 2.0 ** -53])
    yield dict(w=[None, 0.0, None, 1.0, None], u=[0.0, 1e-300, 0.2, 0.5, 0.9, 1 - 2.0 ** -53])
    yield dict(w=[-800.0, -801.0, -1300.0], u=[0.0, 0.3, 0.8, 1 - 2.0 ** -53])
    yield dict(w=[-900.0, 0.0, -900.0, -36.0, -37.0, -38.0], u=[0.0, 0.3, 0.8, 1 - 2.0 ** -53])
    for _ in range(100 if tier == 'quick' else 3000):
        s, o = rng.choice([0.1, 1.0, 20.0]), rng.choice([0, -700, 900.0, -5.0])
        w = [rng.gauss(0, s) + o if rng.random() < 0.85 else None for _ in range(rng.choice([1, 2, 5, 30]))]
        if all(x is None for x in w):
            w[0] = 0.0
        if rng.random() < 0.5:
            C = cum([x if x is not None else -INF for x in w])
            u = [min(max(x + rng.choice([0, 1e-12, -1e-12, 1e-3, -1e-3]), 0.0), 1 - 2.0 ** -53) for x in rng.sample(C, min(len(C), 4))]
        else:
            u = [rng.choice([rng.random(), rng.random() ** 6, 1 - rng.random() * 1e-12]) for _ in range(rng.choice([1, 1, 3, 20]))]
        yield dict(w=w, u=[min(x, 1 - 2.0 ** -53) for x in u])


def run_many(c):
    cs = c['runs']
    datas = [chain(x, k) for k, x in enumerate(cs)]
    Z, W = zip(*[definition(x['L'], x['N']) for x in cs])
    T = lse(Z)
    share = [c['Npost'] * math.exp(z - T) for z in Z]
    rng = random_of(c)
    us = []

    def src():
        us.append(rng.random())
        return us[-1]
    start(src)
    try:
        with np.errstate(all='ignore'):
            out = nest2pos.draw_N_posterior_many(datas, [x['N'] for x in cs], c['Npost'])
    finally:
        stop()
    R = rows(out)
    tot, want = 0, []
    for k, d in enumerate(datas):
        D = rows(d)
        mine = [D.index(r) for r in R if r in D]
        tot += len(mine)
        f = share[k] - math.floor(share[k])
        ok = {int(round(share[k]))} | ({math.floor(share[k]), math.ceil(share[k])} if abs(f - 0.5) < 1e-6 else set())
        need(len(mine) in ok, 'run %d with share %g of %d gives %d rows' % (k, share[k], c['Npost'], len(mine)))
        C = cum(list(W[k]))
        want.append((mine, C, W[k]))
    need(tot == len(R), 'a returned row belongs to no run')
    need(len(us) >= tot, '%d uniform numbers for %d rows' % (len(us), tot))
    # every returned row is the one some number of the tape selects in its run
    if len(us) == tot:
        p = 0
        ok = True
        for mine, C, w in want:
            u = us[p:p + len(mine)]
            p += len(mine)
            ok = ok and all(g in allowed(C, x, len(w), w) for g, x in zip(mine, u))
        if not ok:
            for mine, C, w in want:
                for g in mine:
                    need(any(g in allowed(C, x, len(w), w) for x in us), 'row %d is selected by no uniform number' % g)


def gen_many(rng, tier):
    for _ in range(60 if tier == 'quick' else 2000):
        k = rng.choice([1, 2, 2, 3])
        rs = [rand_chain(rng) for _ in range(k)]
        if k > 1 and rng.random() < 0.8:
            for r in rs:
                m = definition(r['L'], r['N'])[0]
                s = rng.choice([0.0, rng.gauss(0, 0.7), -20.0])
                r['L'] = [x - m + s for x in r['L']]
        yield dict(runs=rs, Npost=rng.choice([1, 2, 3, 7, 10, 50, 101]))


CHECKS = {'draw_N_posterior': (gen_one, run_one), 'draw_N_posterior_many': (gen_many, run_many)}
main(CHECKS)
