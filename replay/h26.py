"""C26: chain file, evidence file and user arrays against the recorded samples."""
import array
import math
import shutil
import tempfile
from coord import *
import cpnest.cpnest as CP


class M(cpnest.model.Model):
    def __init__(self, names):
        self.names = names
        self.bounds = [[-1e9, 1e9]] * len(names)

    def log_likelihood(self, p):
        return 0.0


def fl(x):
    return {None: -INF, 'inf': INF}.get(x, x) if not isinstance(x, float) else x


def setup(c):
    co = Coord(dict(N=c.get('N', 3), n=1, seed=1, prior=c.get('prior', 0)))
    ns = co.make()
    m = M(c['names'])
    ns.model = m
    pts = []
    for vals, L, P in c['pts']:
        p = LivePoint(c['names'], array.array('d', vals))
        p.logL, p.logP = fl(L), fl(P)
        pts.append(p)
    return co, ns, m, pts


def same6(s, x):
    """the text s stands for x to at least 6 digits"""
    v = float(s)
    return v == x or abs(v - x) <= 2e-6 * abs(x)


def check_chain(text, c, pts, what):
    lines = text.split('\n')
    need(lines[-1] == '', what + ' does not end with a complete line')
    lines = lines[:-1]
    need(lines and lines[0].lstrip('# ').split() == c['names'] + ['logL'], what + ': header %r' % (lines[:1],))
    need(len(lines) - 1 == len(pts), '%s: %d lines for %d samples' % (what, len(lines) - 1, len(pts)))
    for k, (l, p) in enumerate(zip(lines[1:], pts)):
        f = l.split()
        need(len(f) == len(c['names']) + 1, '%s: line %d has %d fields: %r' % (what, k, len(f), l))
        for n, s, v in zip(c['names'], f, p.values):
            need(float(s) == v and (v != 0 or math.copysign(1, float(s)) == math.copysign(1, v)), '%s: line %d holds %s for %s instead of %r' % (what, k, s, n, v))
        need(same6(f[-1], p.logL), '%s: line %d ends with %s, the log-likelihood is %r' % (what, k, f[-1], p.logL))


def run_chain(c):
    co, ns, m, pts = setup(c)
    try:
        ns.nested_samples = pts
        before = [(list(p.values), p.logL, p.logP) for p in pts]
        if c.get('old'):
            open(ns.output_file, 'w').write('rubbish\n' * 50)
        ns.write_chain_to_file()
        check_chain(open(ns.output_file).read(), c, pts, 'chain file')
        need(before == [(list(p.values), p.logL, p.logP) for p in pts], 'writing the chain changes the samples')
        ns.state.logZ, ns.state.info = c['Z'], c['H']
        co.logLmax._v = c['lmax']
        if c.get('old'):
            open(ns.evidence_file, 'w').write('rubbish\n' * 50)
        ns.write_evidence_to_file()
        t = open(ns.evidence_file).read().split('\n')
        need(len(t) == 3 and t[2] == '' and t[0].lstrip('#').split() == ['logZ', 'logLmax', 'H'], 'evidence file %r' % t)
        v = t[1].split()
        need(len(v) == 3, 'evidence file line %r' % t[1])
        for s, x, tol, n in zip(v, (c['Z'], c['lmax'], c['H']), (5.1e-6, 5.1e-6, 5.1e-3), ('log-evidence', 'maximum log-likelihood', 'information')):
            need(float(s) == x or abs(float(s) - x) <= tol + 1e-12 * abs(x), 'evidence file holds %s as %s instead of %r' % (s, n, x))
        # the arrays given to the user
        class O(object):
            pass
        o = CP.CPNest.__new__(CP.CPNest)
        o.NS, o.user, o.verbose, o.output = ns, m, 0, co.dir
        ns.nested_samples = pts
        for fname in (None, 'nested_samples.dat'):
            if not pts:
                break
            a = o.get_nested_samples(filename=fname)
            need(len(a) == len(pts), '%d rows for %d nested samples' % (len(a), len(pts)))
            need(set(a.dtype.names) == set(c['names'] + ['logL', 'logPrior']), 'columns %r' % (a.dtype.names,))
            for k, p in enumerate(pts):
                r = a[k]
                for n, v in zip(c['names'], p.values):
                    need(float(r[n]) == v, 'row %d: %s is %r instead of %r' % (k, n, float(r[n]), v))
                need(float(r['logL']) == p.logL, 'row %d: log-likelihood %r instead of %r' % (k, float(r['logL']), p.logL))
                need(float(r['logPrior']) == p.logP, 'row %d: log-prior %r instead of %r' % (k, float(r['logPrior']), p.logP))
            if fname:
                t = open(os.path.join(co.dir, fname)).read().split('\n')
                need(t[0].lstrip('# ').split() == list(a.dtype.names), 'header of nested_samples.dat %r' % t[0])
                need(len(t) == len(pts) + 2, 'nested_samples.dat has %d lines for %d samples' % (len(t), len(pts)))
                for k, p in enumerate(pts):
                    f = [float(x) for x in t[k + 1].split()]
                    d = dict(zip(a.dtype.names, f))
                    need(all(d[n] == v for n, v in zip(c['names'], p.values)) and d['logL'] == p.logL and d['logPrior'] == p.logP, 'line %d of nested_samples.dat %r' % (k, t[k + 1]))
        need(before == [(list(p.values), p.logL, p.logP) for p in pts], 'handing out the samples changes them')
    finally:
        co.close()


def gen_chain(rng, tier):
    spec = [0.1, 1 / 3.0, -2.0 ** 0.5, 1e-300, 5e-324, -1e300, 123456789.123456789, 0.0, -0.0, 1.0]
    yield dict(names=['x', 'y'], pts=[], Z=-1.5, H=0.25, lmax=2.0)
    yield dict(names=['x'], pts=[([v], -1.0, 0.0) for v in spec], Z=-123456.654321, H=12.345, lmax=-0.000004, old=True)
    yield dict(names=['mass', 'a', 'z', 'b'], pts=[([0.1, 0.2, 0.3, 0.4], -12345.678, -1.0), ([0.1, 0.2, 0.3, 0.4], -12345.678, -1.0)], Z=1e4 + 1 / 3.0, H=0.0, lmax=-1e-3)
    for _ in range(40 if tier == 'quick' else 600):
        names = rng.sample(['x', 'y', 'mass', 'alpha', 'b2', 'Omega', 'a', 'zz'], rng.randrange(1, 6))
        n = rng.choice([1, 2, 5, 30])
        x, pts = rng.choice([-1e5, -10.0, 0.0, 1000.0]), []
        for _ in range(n):
            x += rng.choice([0.0, rng.random(), 1e-7, 100.0])
            pts.append(([rng.choice([rng.gauss(0, 1), rng.choice(spec), rng.gauss(0, 1e6)]) for _ in names], rng.choice([x, x, -x]), rng.choice([0.0, rng.gauss(0, 3)])))
        yield dict(names=names, pts=pts, Z=rng.choice([1.0, 1e3, 1e6]) * rng.gauss(0, 1), H=abs(rng.gauss(0, 10)), lmax=rng.gauss(0, 100), old=rng.random() < 0.5)


def run_full(c):
    """a whole run with scripted workers: the files hold what the run returns"""
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        if c.get('old'):
            open(ns.output_file, 'w').write('x\n' * 9)
        out = ns.nested_sampling_loop()
        rec = list(ns.nested_samples)
        check_chain(open(ns.output_file).read(), dict(names=['x', 'y']), rec, 'chain file after the run')
        v = open(ns.evidence_file).read().split('\n')[1].split()
        if not c.get('prior'):
            need([ident(p) for p in out[1]] == ids(rec), 'the run returns another record than it writes')
            need(abs(float(v[0]) - out[0]) <= 5.1e-6 + 1e-9 * abs(out[0]), 'the evidence file holds %s, the run returns %r' % (v[0], out[0]))
            need(abs(float(v[2]) - ns.state.info) <= 5.1e-3, 'information %s instead of %r' % (v[2], ns.state.info))
        need(abs(float(v[1]) - co.logLmax.value) <= 5.1e-6, 'maximum log-likelihood %s instead of %r' % (v[1], co.logLmax.value))
    finally:
        co.close()


def gen_full(rng, tier):
    for i, c in enumerate(cases(rng, tier, 12, tol=0.5)):
        yield dict(c, prior=int(i % 4 == 3), old=i % 2, zero=0)


CHECKS = {'files': (gen_chain, run_chain), 'run': (gen_full, run_full)}
main(CHECKS)
