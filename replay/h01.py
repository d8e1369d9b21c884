"""C01: histories of insertions and removals against a sorted-multiset oracle."""
from common import *
from cpnest.NestedSampling import OrderedLivePoints


class P(object):
    def __init__(self, i, l):
        self.i, self.logL = i, l

    def __repr__(self):
        return 'P(%d,%r)' % (self.i, self.logL)


def val(rng):
    return rng.choice([0.0, 1.0, -1.5, 2.0, 3.25, float(rng.randrange(4)), rng.uniform(-5, 5), '-inf', 1e300, -1e300])


def gen(rng, tier):
    import itertools
    # every start of up to 3 points over two values, then every pair of operations
    ops = [['i', 0.0], ['i', 1.0], ['i', 0.5], ['r', 0], ['r', 1], ['r', 2]]
    for k in range(0, 4):
        for st in itertools.product([0.0, 1.0], repeat=k):
            for seq in itertools.product(ops, repeat=2):
                yield dict(start=list(st), ops=[list(o) for o in seq])
    for _ in range(400 if tier == 'quick' else 6000):
        n = rng.randrange(0, 12)
        yield dict(start=[val(rng) for _ in range(n)], ops=[['i', val(rng)] if rng.random() < .65 else ['r', rng.randrange(0, 4)] for _ in range(rng.randrange(1, 25))])


def f(x):
    return float(x)


def run(c):
    ctr = 0
    pts = []
    for v in c['start']:
        pts.append(P(ctr, f(v)))
        ctr += 1
    olp = OrderedLivePoints(list(pts))
    model = sorted(pts, key=lambda p: p.logL)

    def agree(strict=True):
        got = list(olp)
        need(len(olp) == len(model), 'holds %d points, expected %d' % (len(olp), len(model)))
        need([p.logL for p in got] == [p.logL for p in model], 'order or content wrong: %r' % got)
        need(sorted(p.i for p in got) == sorted(p.i for p in model), 'not the same points: %r / %r' % (got, model))
    agree()
    model = list(olp)
    for op, a in c['ops']:
        if op == 'i':
            p = P(ctr, f(a))
            ctr += 1
            pos = sum(q.logL <= p.logL for q in model)
            r = olp.insert_live_point(p)
            need(r == pos, 'insert of %r reported position %r, expected %d' % (p.logL, r, pos))
            need(olp[r] is p, 'reported position does not hold the new point')
            model.insert(pos, p)
        else:
            a = min(a, len(model))
            olp.remove_n_worst_points(a)
            model = model[a:]
        agree()
        need([p.i for p in olp] == [p.i for p in model], 'kept points reordered')
        model = list(olp)


CHECKS = {'history': (gen, run)}
main(CHECKS)
