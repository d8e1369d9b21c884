"""C27: when the loop stops, with scripted workers."""
from coord import *


def gen(rng, tier):
    for c in cases(rng, tier, 40 if tier == 'quick' else 300):
        for tol in (0.1, 0.5, 2.0, 1e-3):
            d = dict(c, tol=tol, step=rng.choice([0.1, 0.5, 2.0]), cap=rng.choice([2.0, 5.0, 20.0]), boost=rng.choice([0, 0, 0.5, 3.0]))
            yield d


def run(c):
    co = Coord(c)
    cap = c['cap']

    def reply(i, m):
        # likelihoods climb towards a plateau, so that the remaining evidence runs out
        thr = co.logLmin.value
        if c.get('boost') and co.rng.random() < 0.3:
            # a worker accepted a better point that it has not handed over
            co.logLmax._v = max(co.logLmax._v, cap + c['boost'] * co.rng.random())
        if co.phase == 'reset':
            return co.point(co.rng.uniform(-3, 0))
        if co.rng.random() < c['rej']:
            return co.point(thr - co.rng.random())
        return co.point(thr + max(1e-9, (cap - thr) * 0.3 * co.rng.random()))
    co.reply = reply
    try:
        ns = co.make()
        co.populate()
        orig = ns.consume_sample
        n, N = c['n'], c['N']
        k = [0]
        est = []

        def step():
            lmax = co.logLmax.value
            orig()
            k[0] += 1
            # evidence by the definition
            h = ns.state
            logZ = ns.state.logZ
            need(all(np.isfinite(h.log_vols)), 'volumes')
            a = logZ
            b = est_lmax[0] - (k[0] - 1) * n / float(N)
            e = float(np.logaddexp(a, b) - a)
            est.append(e)
            need(len(est) < 2 or est[-2] > c['tol'], 'iteration made although the remaining evidence was %r <= %r' % (est[-2] if len(est) > 1 else None, c['tol']))
            if k[0] > 3000:
                raise Failure('no end: remaining evidence estimate %r, tolerance %r' % (e, c['tol']))
        est_lmax = [None]
        oldsend = co.on_send

        def watch():
            # the maximum as it stands when the iteration sends its requests, before any reply of this iteration
            est_lmax[0] = co.logLmax.value

        def send(i, m):
            if m is not None and not isinstance(m, str) and not pending[0]:
                pending[0] = True
                watch()
            oldsend(i, m)
        pending = [False]
        co.on_send = send

        def step2():
            pending[0] = False
            step()
        ns.consume_sample = step2
        try:
            ns.nested_sampling_loop()
        except Failure:
            raise
        need(k[0] >= 1, 'a fresh run made no iteration')
        need(est[-1] <= c['tol'], 'stopped while the remaining evidence estimate was %r > %r' % (est[-1], c['tol']))
    finally:
        co.close()


def gen_tie(rng, tier):
    for c in cases(rng, tier, 8):
        yield dict(c, cap=4.0, frac=rng.random())


def conditions(c, tol, most):
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        cap, orig, est = c['cap'], ns.consume_sample, []

        def reply(i, m):
            thr = co.logLmin.value
            return co.point(thr + max(1e-9, (cap - thr) * 0.3 * co.rng.random()))
        co.reply = reply

        def step():
            orig()
            est.append(ns.condition)
            if len(est) >= most:
                raise Stop()
        ns.consume_sample = step
        ns.tolerance = tol
        np.random.seed(5)
        try:
            ns.nested_sampling_loop()
        except Stop:
            pass
        return est
    finally:
        co.close()


class Stop(Exception):
    pass


def run_tie(c):
    """a remaining evidence exactly equal to the tolerance does not exceed it"""
    est = conditions(dict(c, tol=0.01), 0.01, 400)
    if len(est) < 2:
        return
    k = int(c['frac'] * (len(est) - 1))
    while k > 0 and min(est[:k]) <= est[k]:
        k -= 1
    again = conditions(dict(c, tol=est[k]), est[k], 400)
    need(again[:k + 1] == est[:k + 1], 'the run is not reproducible')
    need(len(again) == k + 1, 'an iteration is made although the remaining evidence %r equals the tolerance' % est[k])


def gen_prior(rng, tier):
    for c in cases(rng, tier, 20):
        yield dict(c, prior=1)


def run_prior(c):
    co = Coord(c)
    try:
        ns = co.make()
        k = [0]
        orig = ns.consume_sample

        def step():
            k[0] += 1
            return orig()
        ns.consume_sample = step
        co.phase = 'reset'
        r = ns.reset

        def reset():
            r()
            co.stale = co.outstanding()
            init.extend(ids(ns.params))
        init = []
        ns.reset = reset
        ns.nested_sampling_loop()
        need(k[0] == 0, 'a prior run made %d iterations' % k[0])
        need(sorted(ids(ns.nested_samples)) == sorted(init) and len(init) == c['N'], 'a prior run does not record exactly the initial live points')
    finally:
        co.close()


CHECKS = {'stopping rule': (gen, run), 'tie': (gen_tie, run_tie), 'prior run': (gen_prior, run_prior)}
main(CHECKS)
