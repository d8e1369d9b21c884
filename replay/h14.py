"""C14: every jump explained by members of the ensemble and the normal numbers drawn."""
import itertools
import random as R
import numpy as np
import numpy.random as NR
G = []


def _rec(mod, name):
    o = getattr(mod, name)

    def f(*a, **k):
        v = o(*a, **k)
        G.extend([float(x) for x in np.ravel(v)])
        return v
    setattr(mod, name, f)


for mod, names in ((R, ('gauss', 'normalvariate')), (NR, ('normal', 'randn', 'standard_normal'))):
    for nm in names:
        _rec(mod, nm)
from samp import *
import cpnest.proposal as PR
from collections import deque


def gen(rng, tier):
    for _ in range(3000 if tier == 'thorough' else 400):
        yield dict(seed=rng.randrange(10**6), dim=rng.choice([1, 1, 2, 3, 4]), n=rng.choice([3, 4, 6, 9]), kind=rng.choice(['list', 'deque']))


def ens(c, rng):
    names = ['n%d' % i for i in range(c['dim'])]
    e = []
    for _ in range(c['n']):
        p = LivePoint(names, array.array('d', [rng.uniform(-3, 5) for _ in names]))
        p.logL, p.logP = rng.uniform(-9, 0), rng.uniform(-9, 0)
        e.append(p)
    old = LivePoint(names, array.array('d', [rng.uniform(-3, 5) for _ in names]))
    old.logL, old.logP = -1.0, -2.0
    return (deque(e) if c['kind'] == 'deque' else e), old


def snap(e):
    return [(id(p), key(p), p.logL, p.logP, tuple(p.names)) for p in e]


def near(a, b, t=1e-9):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= t * (1 + np.abs(np.asarray(b)))))


def walk(X, d, g, pr, c):
    need(len(g) >= 3, 'fewer than three normal numbers')
    for t in itertools.permutations(range(len(X)), 3):
        s = X[list(t)]
        if near(np.dot(g[:3], s - s.mean(axis=0)), d):
            return
    raise Failure('the jump %s is no combination of three distinct members\' deviations with the normal numbers %s' % (d, g))


def jump(c, cls, check, zero):
    rng = random_of(c)
    R.seed(c['seed'])
    np.random.seed(c['seed'])
    e, old = ens(c, rng)
    pr = cls()
    pr.set_ensemble(e)
    before = snap(e)
    X = np.array([list(p.values) for p in e])
    for _ in range(4):
        o = old.copy()
        del G[:]
        new = pr.get_sample(o)
        need(snap(e) == before, 'the proposal changes the ensemble')
        need(not any(new is p for p in e), 'a member of the ensemble itself is proposed')
        need(list(new.names) == list(old.names) and len(new.values) == c['dim'], 'names')
        if zero:
            need(pr.log_J == 0.0, 'log-Jacobian %r' % pr.log_J)
        check(X, np.array(old.values), np.array(new.values), list(G), pr)
        v = new.values
        for i in range(c['dim']):
            v[i] = 1e9
        need(snap(e) == before, 'the proposed point shares its coordinates with the ensemble')
    # a second ensemble replaces the first
    rng2 = random_of(dict(c, x=1))
    e2, _ = ens(c, rng2)
    pr.set_ensemble(e2)
    X2 = np.array([list(p.values) for p in e2])
    o = old.copy()
    del G[:]
    new = pr.get_sample(o)
    check(X2, np.array(old.values), np.array(new.values), list(G), pr)
    need(snap(e) == before, 'the proposal changes an older ensemble')


def c_walk(X, old, new, g, pr):
    walk(X, new - old, np.array(g), pr, None)


def c_stretch(X, old, new, g, pr):
    for a in X:
        d = old - a
        i = int(np.argmax(np.abs(d)))
        if d[i] == 0:
            continue
        Z = (new[i] - a[i]) / d[i]
        if near(a + Z * d, new) and 0.5 - 1e-12 <= Z <= 2 + 1e-12:
            if abs(pr.log_J - len(old) * math.log(Z)) < 1e-9:
                return
    raise Failure('no member and factor in [1/2, 2] explain the move from %s to %s with log-Jacobian %r' % (old, new, pr.log_J))


def c_de(X, old, new, g, pr):
    for a, b in itertools.permutations(range(len(X)), 2):
        d = X[b] - X[a]
        i = int(np.argmax(np.abs(d)))
        f = (new - old)[i] / d[i]
        if abs(f - 1) < 2e-3 and near(f * d, new - old, 1e-8) and any(abs(f - x) < 1e-8 for x in g):
            return
    raise Failure('no two distinct members and near-unit factor explain the move %s' % (new - old))


def c_eig(X, old, new, g, pr):
    d = new - old
    if X.shape[1] == 1:
        lam, vec = np.array([X[:, 0].var()]), np.eye(1)
    else:
        lam, vec = np.linalg.eigh(np.cov(X.T))
    for i in range(len(lam)):
        for x in g:
            for sg in (1, -1):
                if near(d, sg * x * math.sqrt(abs(lam[i])) * vec[:, i], 1e-7):
                    return
    raise Failure('no eigenvector explains the move %s with the normal numbers %s' % (d, g))


def spread(cls, what):
    """over many draws every member / eigenvector / both directions are used"""
    def g(rng, tier):
        for _ in range(2):
            yield dict(seed=rng.randrange(10**6), dim=3, n=4, kind='list')

    def r(c):
        rng = random_of(c)
        R.seed(c['seed'])
        np.random.seed(c['seed'])
        e, old = ens(c, rng)
        pr = cls()
        pr.set_ensemble(e)
        X = np.array([list(p.values) for p in e])
        seen = set()
        zs = []
        for _ in range(400):
            del G[:]
            new = np.array(pr.get_sample(old.copy()).values)
            o = np.array(old.values)
            if what == 'stretch':
                for j, a in enumerate(X):
                    z = (new - a)[0] / (o - a)[0]
                    if near(a + z * (o - a), new) and 0.49 < z < 2.01:
                        seen.add(j)
                        zs.append(math.log(z))
            elif what == 'de':
                for a, b in itertools.permutations(range(4), 2):
                    if near(X[b] - X[a], new - o, 5e-3):
                        seen.add((a, b))
            elif what == 'eig':
                lam, vec = np.linalg.eigh(np.cov(X.T))
                d = (new - o) / np.linalg.norm(new - o)
                i = int(np.argmax(np.abs(vec.T.dot(d))))
                seen.add(i)
                zs.append(float((new - o).dot(vec[:, i]) / math.sqrt(abs(lam[i]))))
        if what == 'stretch':
            need(len(seen) == 4, 'members used: %s' % seen)
            zs = np.array(zs) / math.log(2)
            h = np.histogram(zs, bins=4, range=(-1, 1))[0]
            need(h.min() > 0.5 * len(zs) / 4, 'the log-factor is not uniform: %s' % h)
        elif what == 'de':
            need(len(seen) == 12, 'ordered pairs used: %s' % sorted(seen))
        else:
            need(len(seen) == 3, 'eigenvectors used: %s' % seen)
            need(0.8 < np.std(zs) < 1.2 and abs(np.mean(zs)) < 0.2, 'jump size: mean %r, deviation %r' % (np.mean(zs), np.std(zs)))
    return g, r


def gd(rng, tier):
    for _ in range(60):
        yield dict(seed=rng.randrange(10**6), dim=rng.choice([2, 3]), n=rng.choice([4, 9]), kind=rng.choice(['list', 'deque']))


def dirs(c):
    """slice directions: the ensemble stays as it is"""
    rng = random_of(c)
    R.seed(c['seed'])
    np.random.seed(c['seed'])
    e, old = ens(c, rng)
    X = np.array([list(p.values) for p in e])
    before = snap(e)
    cyc = PR.EnsembleSliceProposalCycle()
    cyc.set_ensemble(e)
    for _ in range(6):
        d = cyc.get_direction(mu=0.7)
        need(snap(e) == before, 'a slice direction changes the ensemble')
    df = PR.EnsembleSliceDifferential()
    df.set_ensemble(e)
    d = np.array(df.get_direction(mu=0.7).values)
    need(any(near(0.7 * (X[a] - X[b]), d) for a, b in itertools.permutations(range(len(X)), 2)), 'differential direction')
    ga = PR.EnsembleSliceGaussian()
    ga.set_ensemble(e)
    d = np.asarray(ga.get_direction(mu=0.7))
    need(abs(np.linalg.norm(d) - 0.7) < 1e-9, 'the gaussian direction has length mu')
    need(snap(e) == before, 'a slice direction changes the ensemble')


CHECKS = {'walk': (gen, lambda c: jump(c, PR.EnsembleWalk, c_walk, True)), 'stretch': (gen, lambda c: jump(c, PR.EnsembleStretch, c_stretch, False)),
          'differential evolution': (gen, lambda c: jump(c, PR.DifferentialEvolution, c_de, True)), 'eigenvector': (gen, lambda c: jump(c, PR.EnsembleEigenVector, c_eig, True)),
          'stretch spread': spread(PR.EnsembleStretch, 'stretch'), 'differential spread': spread(PR.DifferentialEvolution, 'de'), 'eigenvector spread': spread(PR.EnsembleEigenVector, 'eig'),
          'slice directions': (gd, dirs)}
if __name__ == '__main__':
    main(CHECKS, limit=30)
