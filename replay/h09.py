"""C09: posterior draws without repetition against the rule, for controlled uniform numbers."""
import posts
from posts import *
from common import *


def drawn(f, u):
    constant(u)
    try:
        with np.errstate(all='ignore'):
            out = f()
        return out, len(TAPE.log)
    finally:
        stop()


def distinct_in_order(out, data, what):
    """rows of the chain, in order, none twice"""
    R, D = rows(out), rows(data)
    i = -1
    for r in R:
        need(r in D, '%s: row %r is no row of the chain' % (what, r))
        j = D.index(r)
        need(j > i, '%s: rows out of order or repeated' % what)
        i = j
    return {D.index(r) for r in R}


def keep(pr, u, got, what):
    for i, p in enumerate(pr):
        if p > u + EPS:
            need(i in got, '%s: row %d of relative probability %g is left out though the uniform number is %g' % (what, i, p, u))
        elif p < u - EPS:
            need(i not in got, '%s: row %d of relative probability %g is kept though the uniform number is %g' % (what, i, p, u))


def run_single(c):
    data = chain(dict(L=[0.0] * len(c['w'])))
    w = np.array([x if x is not None else -INF for x in c['w']], dtype=float)
    mx = max(w)
    pr = [math.exp(x - mx) if x > -INF else 0.0 for x in w]
    top = {i for i, x in enumerate(w) if x == mx}
    d0, w0 = data.copy(), w.copy()
    for u in c['u']:
        out, n = drawn(lambda: nest2pos.draw_posterior(data, w), u)
        got = distinct_in_order(out, data, 'draw_posterior')
        need(n >= len(w), 'draw_posterior: %d uniform numbers for %d rows' % (n, len(w)))
        keep(pr, u, got, 'draw_posterior')
        need(top <= got, 'draw_posterior: a row of the largest weight is left out (uniform %g)' % u)
    need(np.array_equal(data, d0) and np.array_equal(w, w0), 'draw_posterior changes its input')
    # independent numbers: each row is decided by a number of its own
    rng = random_of(c)
    us = [rng.random() for _ in range(5 * len(w))]
    it = iter(us)
    start(lambda: next(it))
    try:
        out = nest2pos.draw_posterior(data, w)
    finally:
        stop()
    got = distinct_in_order(out, data, 'draw_posterior')
    used = us[:len(TAPE.log)]
    if len(used) == len(w):
        need(any(all((i in got) == (pr[i] > x) or abs(pr[i] - x) < EPS for i, x in enumerate(o)) for o in (used, used[::-1])),
             'draw_posterior: the rows kept do not follow the uniform numbers one by one')


def gen_single(rng, tier):
    yield dict(w=[0.0], u=[0.0, 0.5, 0.9999999999])
    yield dict(w=[-1.0, -1.0, -1.0], u=[0.0, 0.5, 1 - 2.0 ** -53])
    yield dict(w=[None, -3.0, None, -700.0, 5.0], u=[1e-300, 0.2, 0.9])
    for _ in range(60 if tier == 'quick' else 2000):
        s, o = rng.choice([0.1, 1.0, 20.0, 1e-12]), rng.choice([0, -700, 900.0])
        w = [rng.gauss(0, s) + o if rng.random() < 0.9 else None for _ in range(rng.choice([1, 2, 5, 30]))]
        if all(x is None for x in w):
            w[0] = 0.0
        if rng.random() < 0.3:
            m = max(x for x in w if x is not None)
            w.append(m)
        yield dict(w=w, u=[rng.random(), 1 - rng.random() * 1e-9, rng.random() ** 8])


def many_rule(cs):
    Z, W = zip(*[definition(c['L'], c['N']) for c in cs])
    n = [math.log(len(c['L'])) for c in cs]
    f = [z - k for z, k in zip(Z, n)]
    m = max(f)
    return [math.exp(x - m) for x in f], W, [i for i, x in enumerate(f) if x == m]


def check_many(call, cs, datas, us, what):
    f, W, best = many_rule(cs)
    for u in us:
        out, n = drawn(call, u)
        R = rows(out)
        need(len(set(R)) == len(R), what + ': a row is repeated')
        tot = 0
        for r, (c, d) in enumerate(zip(cs, datas)):
            D = rows(d)
            got = {i for i, x in enumerate(D) if x in R}
            mine = [D.index(x) for x in R if x in D]
            need(mine == sorted(mine), what + ': the rows of one run are out of order')
            tot += len(got)
            mx = max(W[r])
            keep([min(math.exp(x - mx), f[r]) for x in W[r]], u, got, '%s, run %d of %d' % (what, r, len(cs)))
            if r in best and len(best) == 1:
                for i, x in enumerate(W[r]):
                    if x == mx:
                        need(i in got, what + ': the favoured run loses its best row')
        need(tot == len(R), what + ': a returned row belongs to no run')
        need(n >= sum(len(d) for d in datas), what + ': %d uniform numbers for %d rows' % (n, sum(len(d) for d in datas)))


def run_many(c):
    cs = c['runs']
    datas = [chain(x, k) for k, x in enumerate(cs)]
    d0 = [d.copy() for d in datas]
    check_many(lambda: nest2pos.draw_posterior_many(datas, [x['N'] for x in cs]), cs, datas, c['u'], 'draw_posterior_many')
    need(all(np.array_equal(a, b) for a, b in zip(datas, d0)), 'draw_posterior_many changes its input')


def gen_many(rng, tier):
    for _ in range(60 if tier == 'quick' else 2000):
        k = rng.choice([1, 2, 2, 3])
        rs = [rand_chain(rng) for _ in range(k)]
        if k > 1 and rng.random() < 0.8:
            # comparable evidences
            for r in rs:
                m = definition(r['L'], r['N'])[0]
                s = rng.gauss(0, 0.7)
                r['L'] = [x - m + s for x in r['L']]
        if rng.random() < 0.2:
            rs.append(dict(rs[0]))
        yield dict(runs=rs, u=[rng.random(), rng.random() ** 4, 1 - rng.random() * 1e-6, 0.0])


def run_user(c):
    """CPNest.get_posterior_samples: one run, through draw_posterior_many, with that run's live points"""
    import array
    import os
    import tempfile
    from cpnest.cpnest import CPNest
    from cpnest.parameter import LivePoint
    d = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    pts = []
    for i, l in enumerate(c['L']):
        p = LivePoint(['x', 'y'], array.array('d', [float(i), math.sin(i)]))
        p.logL, p.logP = l, 0.0
        pts.append(p)

    class O(object):
        pass
    o = CPNest.__new__(CPNest)
    o.NS, o.user, o.nlive, o.verbose, o.output = O(), O(), c['N'], 0, d
    o.NS.nested_samples, o.NS.output_folder, o.user.names = pts, d, ['x', 'y']
    o.NS.Nlive = c['N']
    import logging
    o.logger = logging.getLogger('cpnest')
    ref = chain(c)
    f, W, _ = many_rule([c])
    mx = max(W[0])
    for u in c['u']:
        out, n = drawn(lambda: o.get_posterior_samples(filename=None), u)
        x = [int(v) for v in out['x']]
        need(x == sorted(set(x)), 'get_posterior_samples: rows out of order or repeated')
        need(all(out['logL'][k] == c['L'][i] and out['y'][k] == math.sin(i) for k, i in enumerate(x)), 'get_posterior_samples: a row does not carry its own values')
        keep([math.exp(v - mx) for v in W[0]], u, set(x), 'get_posterior_samples')
    import shutil
    shutil.rmtree(d)


def gen_user(rng, tier):
    for _ in range(10 if tier == 'quick' else 100):
        yield dict(rand_chain(rng), u=[rng.random(), rng.random() ** 4])


CHECKS = {'draw_posterior': (gen_single, run_single), 'draw_posterior_many': (gen_many, run_many), 'get_posterior_samples': (gen_user, run_user)}
main(CHECKS)
