"""C14: the ensemble proposals."""
from .ns import *
from .sums import psum, induct
from pyvc import comp
from pyvc.npmodel import nparr

PR = 'cpnest.proposal.'


def ensemble(ex, lo=3):
    n = ex.fresh_int('nens', lo=lo)
    s = ex.fresh_seq('ens', n, KLP())
    return s, (ex.new_list(s) if ex.choose(2) else ex.new('deque', pay=s))


def V(ex, p, i):
    return z3.Select(ex.lp_vals(p), zi(i))


class World:
    """every point that exists before the call"""
    def __init__(self, ex, ens, old):
        self.vals = ex.st.lp['vals']
        self.logL, self.logP = ex.st.lp.get('logL'), ex.st.lp.get('logP')
        self.ens, self.old = ens, old

    def v(self, p, i):
        return z3.Select(z3.Select(self.vals, p.ref), zi(i))

    def check(self, ex):
        e = self.ens
        now = ex.st.lp['vals']
        k = z3.Int(ex._n('k'))
        ex.prove(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(e.n)), z3.Select(now, e.get(k).ref) == z3.Select(self.vals, e.get(k).ref))), 'no point of the ensemble moves')
        for f in ('logL_k', 'logL_r', 'logP_k', 'logP_r', 'logL', 'logP'):
            if f in ex.st.lp and f in self.others:
                a, b = ex.st.lp[f], self.others[f]
                ex.prove(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(e.n)), z3.Select(a, e.get(k).ref) == z3.Select(b, e.get(k).ref))), 'no point of the ensemble changes: ' + f)


def world(ex, ens, old):
    w = World(ex, ens, old)
    w.others = dict(ex.st.lp)
    return w


def setup(ex, klass, lo=3, apart=False, **at):
    s, ref = ensemble(ex, lo)
    if apart or ex.choose(2):
        old = ex.fresh_lp('old')
        k = z3.Int(ex._n('k'))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(s.n)), s.get(k).ref != old.ref)))
    else:
        old = s.get(ex.fresh_int('olds', 0, s.n))
    k, j = z3.Int(ex._n('k')), z3.Int(ex._n('j'))
    me = ex.new(cls(ex, PR + klass), attrs=dict(ensemble=ref, **at))
    return s, old, me, world(ex, s, old)


def go(ex, klass, me, old):
    r = noraise(ex, lambda: call_real(ex, PR + klass + '.get_sample', [me, old]), klass)
    ex.prove(isinstance(r, LP), 'a live point is proposed')
    return r


def draws(ex, *kinds):
    d = ex.st.ghost.get('_draws', ())
    ex.prove(sorted(k for k, v in d) == sorted(kinds), 'the random numbers drawn are %s, not %s' % (list(kinds), [k for k, v in d]))
    return [v for kind in dict.fromkeys(kinds) for k, v in d if k == kind]


def logj(ex, me, f, label):
    j = flt(lib.as_num(ex.getattr(me, 'log_J')))
    ex.prove(f_same(j, f), label)


def result(ex, r, f, label):
    ex.prove(z3.ForAll([K], z3.Implies(z3.And(K >= 0, K < ex.dim), V(ex, r, K) == f(K)), patterns=[V(ex, r, K)]), label)


K = z3.Int('coord?')


def gausses(ex, mu, small=None):
    out = []
    for m, s, v in ex.st.ghost['_gauss']:
        ex.prove(f_eq(flt(lib.as_num(m)), mu), 'the Gaussian multiple is centred at %s' % mu)
        ex.prove(f_lt(0, flt(lib.as_num(s))), 'the Gaussian multiple is random')
        if small:
            ex.prove(f_le(flt(lib.as_num(s)), small), 'the multiple is near unit')
        out.append(v.zr())
    return out


def t_walk(ex):
    s, old, me, w = setup(ex, 'EnsembleWalk', apart=True)
    o = lambda k: w.v(old, k)
    r = go(ex, 'EnsembleWalk', me, old)
    ids = draws(ex, 'sample', 'gauss', 'gauss', 'gauss')[0]
    ex.prove(len(ids) == 3, 'three members are drawn')
    g = gausses(ex, 0)
    x = [lambda k, i=i: w.v(s.get(i), k) for i in ids]
    m = lambda k: (x[0](k) + x[1](k) + x[2](k)) / 3
    k = z3.Int(ex._n('k'))
    ex.assume(And(k >= 0, k < ex.dim))
    f = o(k) + (x[0](k) - m(k)) * g[0] + (x[1](k) - m(k)) * g[1] + (x[2](k) - m(k)) * g[2]
    ex.prove(V(ex, r, k) == f, "Gaussian multiples of three distinct members' deviations from their mean are added")
    logj(ex, me, flt(0), 'the walk has zero log-Jacobian')
    w.check(ex)


def t_stretch(ex):
    s, old, me, w = setup(ex, 'EnsembleStretch', 1)
    o = lambda k: w.v(old, k)
    r = go(ex, 'EnsembleStretch', me, old)
    d = dict(ex.st.ghost.get('_draws', ()))
    draws(ex, 'choice', 'pyuniform')
    a, u = s.get(d['choice']), d['pyuniform'].zr()
    L2 = LOG(z3.RealVal(2))
    ex.prove(And(L2 > 0, EXP(L2) == 2), 'log 2')
    x = z3.Real(ex._n('x'))
    ex.assume(x == u * L2)
    Z = z3.Real(ex._n('Z'))
    ex.assume(Z == EXP(u * L2))
    ex.prove(And(x <= L2, x >= -L2), 'the log factor is within log 2 of 0')
    ex.prove(EXP(L2 + -L2) == EXP(L2) * EXP(-L2), 'exp of a sum')
    ex.prove(EXP(-L2) * 2 == 1, 'exp(-log 2)')
    ex.prove(And(EXP(-L2) <= Z, Z <= EXP(L2)), 'the factor is monotone')
    ex.prove(And(2 * Z >= 1, Z <= 2), 'the factor is within [1/2, 2]')
    k = z3.Int(ex._n('k'))
    ex.assume(And(k >= 0, k < ex.dim))
    ex.prove(V(ex, r, k) == w.v(a, k) + Z * (o(k) - w.v(a, k)), 'the point moves along the line through a member, by the factor')
    logj(ex, me, SFlt(z3.ToReal(ex.dim) * x), 'the log-Jacobian is the dimension times the log factor')
    w.check(ex)


def t_de(ex):
    s, old, me, w = setup(ex, 'DifferentialEvolution', 2)
    o = lambda k: w.v(old, k)
    r = go(ex, 'DifferentialEvolution', me, old)
    ids = draws(ex, 'sample', 'gauss')[0]
    ex.prove(len(ids) == 2, 'two members are drawn')
    g = gausses(ex, 1, Fraction(1, 100))[0]
    a, b = [lambda k, i=i: w.v(s.get(i), k) for i in ids]
    k = z3.Int(ex._n('k'))
    ex.assume(And(k >= 0, k < ex.dim))
    ex.prove(Or(V(ex, r, k) == o(k) + (b(k) - a(k)) * g, V(ex, r, k) == o(k) + (a(k) - b(k)) * g), 'a near-unit multiple of the difference of two distinct members is added')
    logj(ex, me, flt(0), 'differential evolution has zero log-Jacobian')
    w.check(ex)


class Mat(Model):
    """a matrix given by a function"""
    def __init__(self, f, shape, name='matrix'):
        self.f, self.shape, self.name = f, shape, name

    def py_getitem(self, ex, ij):
        if not (isinstance(ij, tuple) and len(ij) == 2):
            raise Unsupported('matrix index')
        i, j = [lib.norm_index(ex, n, x) for n, x in zip(self.shape, ij)]
        return SFlt(self.f(zi(i), zi(j)), 0, None, True)

    def py_getattr(self, ex, name):
        if name == 'shape':
            return self.shape
        raise Unsupported('matrix.' + name)


def cand_done(L):
    """some point has the jump added to its first `it` coordinates"""
    ex = L.ex
    env = ex.frames[-1].env
    js = [v for k, v in sorted(env.items()) if isinstance(v, SFlt)]
    ps = [v for k, v in sorted(env.items()) if isinstance(v, LP)]
    if not ps or ex.jump is None:
        return None
    q = ps[-1] if len(ps) == 1 else [p for p in ps if not p.ref.eq(ex.old.ref)][0]
    i = [v for k, v in ex.st.ghost['_draws'] if k == 'randrange'][0]
    return z3.ForAll([K], z3.Implies(z3.And(K >= 0, K < ex.dim), V(ex, q, K) == ex.w.v(ex.old, K) + z3.If(K < zi(L.it), ex.jump(i, K), 0)))


def cand_rest(L):
    ex = L.ex
    e, now = ex.w.ens, ex.st.lp['vals']
    return And(forall(e.n, lambda k: z3.Select(now, e.get(k).ref) == z3.Select(ex.w.vals, e.get(k).ref)), z3.Select(now, ex.old.ref) == z3.Select(ex.w.vals, ex.old.ref))


def t_eigen(ex):
    lam = ex.fresh_seq('eigval', ex.dim, KFlt(True))
    vec = z3.Function(ex._n('eigvec'), I, I, R)
    M = Mat(lambda i, j: vec(i, j), (ex.dim, ex.dim))
    s, old, me, w = setup(ex, 'EnsembleEigenVector', 1, eigen_values=nparr(ex, lam), eigen_vectors=M)
    ex.w, ex.old = w, old

    def jump(i, k):
        l = lam.get(i).zr()
        g = ex.st.ghost['_gauss'][0][2].zr()
        rt = npmodel.SQRT(z3.simplify(lib.f_abs(lam.get(i)).zr()))
        return rt * g * vec(zi(k), zi(i))
    ex.jump = jump
    r = go(ex, 'EnsembleEigenVector', me, old)
    i = draws(ex, 'randrange', 'gauss')[0]
    gausses(ex, 0)
    ex.prove(And(le(0, i), lt(i, ex.dim)), 'one of the eigenvectors is picked')
    k = z3.Int(ex._n('k'))
    ex.assume(And(k >= 0, k < ex.dim))
    ex.prove(V(ex, r, k) == w.v(old, k) + jump(i, k), 'a Gaussian multiple of one eigenvector, scaled by the root of its eigenvalue, is added')
    logj(ex, me, flt(0), 'the eigenvector jump has zero log-Jacobian')
    w.check(ex)


# ------------------------------------------------------------------ ensemble statistics
A2 = z3.ArraySort(I, z3.ArraySort(I, R))


class GMat(Model):
    """the matrix being filled"""
    def __init__(self, ex, n, m):
        self.shape = (n, m)
        ex.st.ghost['mat'] = z3.K(I, z3.K(I, z3.RealVal(0)))

    def py_setitem(self, ex, ij, v):
        if not (isinstance(ij, tuple) and len(ij) == 2) or ex.binders:
            raise Unsupported('matrix index')
        i, j = [zi(lib.norm_index(ex, n, x)) for n, x in zip(self.shape, ij)]
        v = flt(lib.as_num(v))
        if not v.fin:
            ex.prove(f_isfinite(v), 'coordinates stay finite')
        m = ex.st.ghost['mat']
        ex.st.ghost['mat'] = z3.Store(m, i, z3.Store(z3.Select(m, i), j, v.zr()))

    def py_getattr(self, ex, name):
        if name == 'shape':
            return self.shape
        raise Unsupported('matrix.' + name)


class Stat(Model):
    """a statistic of given data: covariance, eigenvalues, ... (numpy's)"""
    def __init__(self, kind, *of):
        self.kind, self.of = kind, of

    def py_getattr(self, ex, name):
        if name == 'shape':
            return self.of[1] if self.kind == 'cov' else (self.of[1][0],)
        raise Unsupported(self.kind + '.' + name)


def stats_ext():
    def zeros(ex, shape, *a, **k):
        if isinstance(shape, tuple) and len(shape) == 2:
            return GMat(ex, *shape)
        raise Unsupported('zeros')

    def cov(ex, m, **k):
        if not isinstance(m, GMat) or k:
            raise Unsupported('cov')
        return Stat('cov', ex.st.ghost['mat'], (m.shape[0], m.shape[0]), m.shape)

    def mean(ex, m, axis=None, **k):
        if isinstance(m, GMat):
            if axis != 1:
                raise Unsupported('mean')
            return Stat('mean', ex.st.ghost['mat'], m.shape)
        return Stat('mean', lib.to_seq(ex, m))

    def eigh(ex, c):
        if not isinstance(c, Stat) or c.kind != 'cov':
            raise Unsupported('eigh')
        return (Stat('eigval', c), Stat('eigvec', c))

    def same(ex, x):
        return x if isinstance(x, Stat) else npmodel.NP['atleast_1d'].f(ex, x)
    return {'numpy.zeros': Fn(zeros), 'numpy.cov': Fn(cov), 'numpy.linalg.eigh': Fn(eigh), 'numpy.var': Fn(lambda ex, s: Stat('var', lib.to_seq(ex, s))),
            'numpy.mean': Fn(mean), 'numpy.atleast_1d': Fn(same), 'numpy.atleast_2d': Fn(same), 'numpy.eye': Fn(lambda ex, n: Stat('eye', n))}


def rows(L):
    return [v for k, v in sorted(L.ex.frames[-1].env.items()) if lib.isint(v) and is_z(v) and not zi(v).eq(zi(L.it))]


def filled(ex, r, c):
    """the first r rows, and the first c entries of row r, are in place"""
    m, e = ex.st.ghost['mat'], ex.ens
    a, b = z3.Int('row?'), z3.Int('col?')
    return z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b >= 0, b < zi(e.n), z3.Or(a < zi(r), z3.And(a == zi(r), b < zi(c)))),
                                        z3.Select(z3.Select(m, a), b) == z3.Select(ex.lp_vals(e.get(b)), a)))


def cand_rows(L):
    return filled(L.ex, L.it, 0) if 'mat' in L.ex.st.ghost else None


def cand_row(q):
    def c(L):
        r = rows(L)
        return filled(L.ex, r[q], L.it) if q < len(r) and 'mat' in L.ex.st.ghost else None
    return c


def data(ex, mat, shape):
    e = ex.ens
    ex.prove(And(eq(shape[0], ex.dim), eq(shape[1], e.n)), 'one row per parameter, one column per member')
    a, b = z3.Int('row?'), z3.Int('col?')
    ex.prove(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < ex.dim, b >= 0, b < zi(e.n)), z3.Select(z3.Select(mat, a), b) == z3.Select(ex.lp_vals(e.get(b)), a))),
             'the statistics are those of the coordinates of the ensemble')


def column(ex, s):
    e = ex.ens
    ex.prove(And(eq(s.n, e.n), forall(e.n, lambda j: f_same(flt(s.get(j)), SFlt(z3.Select(ex.lp_vals(e.get(j)), 0))))), 'the statistics are those of the coordinate of the ensemble')


def t_stats(klass):
    def run(ex):
        s, ref = ensemble(ex, 1)
        ex.ens = s
        me = ex.new(cls(ex, PR + klass), attrs=dict(ensemble=None))
        ex.st.ghost['mat'] = z3.K(I, z3.K(I, z3.RealVal(0)))
        w = world(ex, s, None)
        noraise(ex, lambda: call_real(ex, PR + klass + '.set_ensemble', [me, ref]), 'set_ensemble')
        at = ex.obj(me).attrs
        ex.prove(isinstance(at['ensemble'], Ref) and at['ensemble'] == ref, 'the ensemble is kept')
        want = ('eigen_values', 'eigen_vectors') if klass == 'EnsembleEigenVector' else ('covariance', 'mean')
        for a in want:
            if a not in at:
                ex.prove(False, 'the statistics follow the ensemble')
                return
        x, y = [at[a] for a in want]
        if not (isinstance(x, Stat) and isinstance(y, Stat)):
            raise Unsupported('statistics of another form')
        if ex.branch(eq(ex.dim, 1)):
            ex.prove(x.kind == 'var', 'the variance of the single coordinate')
            column(ex, x.of[0])
            if y.kind == 'mean':
                column(ex, y.of[0])
            else:
                ex.prove(y.kind == 'eye' and And(eq(y.of[0], 1)), 'the single direction')
        else:
            if klass == 'EnsembleEigenVector':
                ex.prove(x.kind == 'eigval' and y.kind == 'eigvec' and x.of[0] is y.of[0] and x.of[0].kind == 'cov', 'eigenvalues and eigenvectors of one covariance matrix')
                c = x.of[0]
            else:
                ex.prove(x.kind == 'cov' and y.kind == 'mean', 'covariance and mean')
                c = x
                data(ex, y.of[0], y.of[1])
            data(ex, c.of[0], c.of[2])
        w.check(ex)
    return run


def targets(tier):
    pool = [('rows filled', cand_rows)] + [('row filled so far %d' % q, cand_row(q)) for q in range(3)]
    e = stats_ext()
    return TARGETS + [
        Target(PR + 'EnsembleEigenVector.set_ensemble', t_stats('EnsembleEigenVector'), pool=pool, externals=e,
               covers=(PR + 'EnsembleEigenVector.set_ensemble', PR + 'EnsembleEigenVector.update_eigenvectors', PR + 'EnsembleProposal.set_ensemble')),
        Target(PR + 'EnsembleSliceCorrelatedGaussian.set_ensemble', t_stats('EnsembleSliceCorrelatedGaussian'), pool=pool, externals=e,
               covers=(PR + 'EnsembleSliceCorrelatedGaussian.set_ensemble', PR + 'EnsembleSliceCorrelatedGaussian.update_mean_covariance'))]


TARGETS = [Target(PR + 'EnsembleWalk.get_sample', t_walk, opts={'nl': True, 'lpres': True}),
            Target(PR + 'EnsembleStretch.get_sample', t_stretch, opts={'nl': True}),
            Target(PR + 'DifferentialEvolution.get_sample', t_de, opts={'nl': True}),
            Target(PR + 'EnsembleEigenVector.get_sample', t_eigen, pool=[('coordinates moved', cand_done), ('nothing else moves', cand_rest)], opts={'nl': True, 'lpres': True})]


ASSUMES = ['coordinates are finite; live-point arithmetic by the contracts proved under C16', 'random.sample gives distinct positions, random.choice and randrange positions in range, uniform(a, b) a number between a and b',
           'numpy cov, mean, var and linalg.eigh compute what they are named after', 'the walk is given a point that is not itself a member (the samplers pass a copy; proved under C11)']
BOUNDED = ['replay/h14.py runs the same contracts on the real code, including numpy\'s part of the eigenvector statistics']
