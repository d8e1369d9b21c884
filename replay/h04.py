"""C04: who owes what, over population, iterations and the end of the run."""
from coord import *


def gen_reset(rng, tier):
    for c in cases(rng, tier):
        yield c
    for N, n in [(1, 1), (2, 2), (6, 3), (4, 4), (9, 4)]:
        for z in (0, 0.3, 0.8):
            yield dict(N=N, n=n, seed=5, zero=z, rej=0, ties=0, iters=3)


def run_reset(c):
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()      # on_recv fails if the coordinator waits for nothing
        need(len(list(ns.params)) == c['N'], 'population has %d points' % len(list(ns.params)))
        need(all(p.logL > -INF for p in ns.params), 'a point of zero likelihood was accepted')
        need(len(set(ids(ns.params))) == c['N'], 'a point was used twice')
        # whatever is still unanswered never makes a later reply be awaited in vain
        if c['N'] > c['n']:
            for _ in range(c['iters']):
                ns.consume_sample()
    finally:
        co.close()


def gen_iter(rng, tier):
    for c in cases(rng, tier):
        c['N'] = max(c['n'] + 1, (c['N'] // c['n']) * c['n'])
        if c['N'] % c['n'] == 0:
            yield c


def run_iter(c):
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        for p in co.pipes:
            p.q.clear()
        for _ in range(c['iters']):
            e0 = len(co.events)
            qs = co.outstanding()
            need(not any(qs), 'requests left unanswered after an iteration: %r' % qs)
            r0 = len(co.replies)
            ns.consume_sample()
            ev = co.events[e0:]
            sends = sum(e[0] == 'send' for e in ev)
            recvs = sum(e[0] == 'recv' for e in ev)
            need(sends == recvs, '%d requests, %d replies read' % (sends, recvs))
            asked = [sum(e[0] == 'send' and e[1] == i for e in ev) for i in range(c['n'])]
            need(min(asked) >= 1, 'worker not asked in an iteration: %r' % asked)
            bad = [0] * c['n']
            good = [0] * c['n']
            for i, p in co.replies[r0:]:
                if p.logL > co.logLmin.value:
                    good[i] += 1
                else:
                    bad[i] += 1
            need(good == [1] * c['n'], 'accepted replies per worker %r' % good)
            need(asked == [1 + b for b in bad], 'requests per worker %r, rejected replies %r' % (asked, bad))
        need(not any(co.outstanding()), 'requests left unanswered: %r' % co.outstanding())
    finally:
        co.close()


def gen_end(rng, tier):
    for c in gen_iter(rng, tier):
        for prior in (0, 1):
            c = dict(c, prior=prior, maxit=c['iters'])
            yield c


def run_end(c):
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        for p in co.pipes:
            p.q.clear()
        k = [0]
        orig = ns.consume_sample

        def step():
            orig()
            k[0] += 1
            if k[0] >= c['maxit']:
                ns.tolerance = INF
        ns.consume_sample = step
        ns.nested_sampling_loop()
        need(co.stops == [1] * c['n'], 'stop messages per worker: %r' % co.stops)
        need(co.ckpt == [0] * c['n'], 'checkpoint messages in a finished run')
        need(co.logLmin.value == INF, 'threshold is %r after the run' % co.logLmin.value)
        need(not any(co.outstanding()), 'requests left unanswered at the end: %r' % co.outstanding())
        # nothing is sent or awaited after the stop
        first = min(i for i, e in enumerate(co.events) if e == ('send', 0, None) or (e[0] == 'send' and e[2] is None))
        need(all(e[0] == 'send' and e[2] is None for e in co.events[first:]), 'messages after the first stop message')
    finally:
        co.close()


CHECKS = {'population': (gen_reset, run_reset), 'iterations': (gen_iter, run_iter), 'end': (gen_end, run_end)}
main(CHECKS)
