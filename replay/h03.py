"""C03: whole runs with scripted workers; record, evidence history and result against the definition."""
from coord import *


def gen(rng, tier):
    for c in cases(rng, tier, 25 if tier == 'quick' else 200):
        c['maxit'] = 40
        yield c


def run(c):
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        n, N = c['n'], c['N']
        recs = []
        orig = ns.consume_sample
        prev = []

        def step():
            before = list(ns.params)
            l0 = len(ns.nested_samples)
            h0 = len(ns.state.logLs)
            orig()
            add = ns.nested_samples[l0:]
            gone = [p for p in before if ident(p) not in set(ids(ns.params))]
            need(sorted(ids(add)) == sorted(ids(gone)), 'recorded %r in an iteration that removed %r' % (ids(add), ids(gone)))
            need([p.logL for p in add] == sorted(p.logL for p in add), 'dead points recorded out of order')
            need(len(ns.state.logLs) == h0 + 1, 'iteration fed %d contours' % (len(ns.state.logLs) - h0))
            need(ns.state.logLs[-1] == max(p.logL for p in gone), 'contour is not the highest removed point')
            need(abs(ns.state.log_vols[-1] - ns.state.log_vols[-2] + n / N) < 1e-9, 'contour removed the wrong volume')
            recs.append(add)
            if len(recs) >= c['maxit']:
                # let the run end: nothing above the threshold matters any more
                ns.tolerance = INF
        ns.consume_sample = step
        live0 = None
        out = ns.nested_sampling_loop()
        recorded = list(ns.nested_samples)
        need(len(recorded) == len(recs) * n + N, 'record has %d samples, %d replacements and %d live points' % (len(recorded), len(recs) * n, N))
        ll = [p.logL for p in recorded]
        need(ll == sorted(ll), 'record is not in non-decreasing likelihood order')
        need(len(set(ids(recorded))) == len(recorded), 'a point is recorded twice')
        live = [p for p in ns.params]
        need(ids(sorted(recorded[-N:], key=ident)) == ids(sorted(live, key=ident)), 'the final live points are not the last recorded ones')
        need(len(ns.state.logLs) == 1 + len(recs) + N, '%d contours for %d iterations and %d live points' % (len(ns.state.logLs), len(recs), N))
        want = ns.state.log_vols[len(recs)]
        for i in range(N):
            need(ns.state.logLs[1 + len(recs) + i] == ll[len(recs) * n + i], 'final contour %d has the wrong likelihood' % i)
            want -= 1.0 / (N - i)
            need(abs(ns.state.log_vols[1 + len(recs) + i] - want) < 1e-8, 'final live point %d removed with the wrong live count' % i)
        need(isinstance(out, tuple) and len(out) == 2, 'loop returned %r' % (out,))
        need(out[0] == ns.state.logZ, 'loop does not return the final evidence')
        need(ids(out[1]) == ids(recorded), 'loop does not return the record')
        from cpnest import nest2pos
        ref = trap(ns.state.logLs, ns.state.log_vols)
        need(abs(out[0] - ref) < 1e-6 * (1 + abs(ref)), 'returned evidence %r is not the integral over the recorded contours %r' % (out[0], ref))
        for p in recorded:
            need(p.logL == co.seen[p['x']], 'recorded point changed')
    finally:
        co.close()


def trap(ls, lv):
    m = max(ls)
    v = np.exp(np.array(lv))
    f = np.exp(np.array(ls) - m)
    return m + np.log(np.sum(0.5 * (f[1:] + f[:-1]) * (v[:-1] - v[1:])))


CHECKS = {'runs': (gen, run)}
main(CHECKS)
