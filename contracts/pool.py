"""Sampler.reset: the initial pool (C25).  The user's model and the kernels are used by contract."""
from .kern import *

BASE = 'cpnest.sampler.Sampler'


class PModel(KModel):
    def py_getattr(self, ex, name):
        if name == 'new_point':
            def npt(ex):
                p = ex.new_lp()
                ex.lp_set(p, 'vals', z3.Const(ex._n('drawn'), A))
                ex.lp_set(p, 'logL', NINF)
                ex.lp_set(p, 'logP', NINF)
                return p
            return Fn(npt)
        return KModel.py_getattr(self, ex, name)

    def same(self, o):
        return isinstance(o, PModel)

    def py_same(self, ex, o):
        return isinstance(o, PModel)


def good(ex, p):
    v = ex.lp_vals(p)
    return And(f_same(ex.lp_get(p, 'logL'), LL(v)), f_same(ex.lp_get(p, 'logP'), PP(v)), PK(v) == 0)


def pool_good(ex, pool, what):
    ex.prove(forall(pool.n, lambda i: f_isfinite(ex.lp_get(pool.get(i), 'logP'))), what + ': every pool point has a finite log-prior')
    ex.prove(forall(pool.n, lambda i: good(ex, pool.get(i))), what + ': every pool point carries the likelihood and prior of its own coordinates')


class Ens(Model):
    def same(self, o):
        return isinstance(o, Ens)

    def py_getattr(self, ex, name):
        if name == 'set_ensemble':
            def se(ex, e):
                at = ex.obj(ex.me).attrs
                ex.prove(isinstance(e, Ref) and e == at['evolution_points'], 'the ensemble of the proposal is the pool')
                pool = ex.obj(e).pay
                ex.prove(eq(pool.n, at['poolsize']), 'the pool has its size')
                pool_good(ex, pool, 'ensemble')
                ex.st.ghost['sets'] = add(ex.st.ghost['sets'], 1)
            return Fn(se)
        raise Unsupported('proposal.' + name)


def kernel(ex, gen):
    """C11, C12, C13, C25: one move; the pool keeps its size, every point in it is its own"""
    at = ex.obj(ex.me).attrs
    logLmin = lib.as_num(gen.env['logLmin'])
    ex.prove(f_same(flt(logLmin), NINF), 'the pool evolves in the prior: no likelihood threshold')
    o = ex.obj(at['evolution_points'])
    ex.prove(eq(o.pay.n, at['poolsize']), 'the kernel is run on a full pool')
    pool_good(ex, o.pay, 'before a move')
    s = ex.fresh_seq('pool', at['poolsize'], KLP())
    o.pay = s
    for f in sorted(ex.st.lp):       # the kernel may make and change points
        ex.st.lp[f] = z3.Const(ex._n(f), ex.st.lp[f].sort())
    ex.assume(forall(s.n, lambda i: good(ex, s.get(i))))
    for x in ('acceptance', 'sub_acceptance'):
        at[x] = ex.fresh_flt(x, fin=True)
    at['mcmc_counter'], at['mcmc_accepted'] = ex.fresh_int('counter', lo=1), ex.fresh_int('accepted', lo=0)
    return (ex.fresh_int('Nmcmc', lo=1), s.get(sub(s.n, 1)))


def adapt(ex, ref, *a, **k):
    ex.obj(ref).attrs['Nmcmc'] = ex.fresh_int('Nmcmc', lo=1)
    return ex.obj(ref).attrs['Nmcmc']


def run(kind):
    def go(ex):
        n = ex.fresh_int('poolsize', lo=1)
        ex.st.ghost['sets'] = 0
        k = Kernel(ex, 'C25', kind)
        k.setup(n, proposal=Ens(), model=PModel(), mu=flt(1), thread_id=ex.fresh_int('thread', lo=0), seed=ex.fresh_int('seed', lo=0), sample_prior=ex.fresh_bool('sample_prior'), initialised=False,
                verbose=ex.choose(4), output='out', samples=ex.new('deque', pay=ex.fresh_seq('old', 0, KLP())), evolution_points=ex.new('deque', pay=ex.fresh_seq('none', 0, KLP()), meta={'maxlen': n}))
        ex.me = k.me
        noraise(ex, lambda: call_real(ex, S + kind + '.reset' if kind == 'SliceSampler' else BASE + '.reset', [k.me]), 'reset')
        at = ex.obj(k.me).attrs
        pool = ex.obj(at['evolution_points']).pay
        ex.prove(eq(pool.n, n), 'the pool has its size')
        pool_good(ex, pool, 'after the set-up')
        ex.prove(at['initialised'], 'the worker is marked initialised')
        if kind == 'SliceSampler':
            ex.prove(And(f_isfinite(flt(lib.as_num(at['mu']))), f_lt(0, flt(lib.as_num(at['mu'])))), 'the length scale is positive')
            ex.prove(And(eq(at['max_steps_out'], k.a0['maxmcmc']), eq(at['max_slices'], k.a0['maxmcmc'])), 'the limits on expansions and slices are the configured chain length')
    return go


def full(L):
    ex = L.ex
    at = ex.obj(ex.me).attrs
    pool = ex.obj(at['evolution_points']).pay
    return forall(pool.n, lambda i: good(ex, pool.get(i)))


def count(L):
    ex = L.ex
    return eq(ex.obj(ex.obj(ex.me).attrs['evolution_points']).pay.n, L.it)


def filled(L):
    ex = L.ex
    return eq(ex.obj(ex.obj(ex.me).attrs['evolution_points']).pay.n, ex.obj(ex.me).attrs['poolsize'])


def exist(L):
    ex = L.ex
    pool = ex.obj(ex.obj(ex.me).attrs['evolution_points']).pay
    return forall(pool.n, lambda i: zi(pool.get(i).ref) < zi(ex.st.alloc))


def targets():
    e = dict(externals())
    e['tqdm.tqdm'] = Fn(lambda ex, it=None, **k: it)
    e['numpy.random.seed'] = Fn(lambda ex, *a, **k: None)
    from . import c26
    e['numpy.lib.recfunctions.stack_arrays'] = Fn(c26.stack_arrays)
    T = []
    for kind in ('MetropolisHastingsSampler', 'SliceSampler'):
        c = {'next:' + S + kind + '.yield_sample': kernel, BASE + '.estimate_nmcmc_on_the_fly': adapt}
        T.append(Target(S + kind + '.reset', run(kind), contracts=c, externals=e, pool=[('pool points are their own', full), ('one point per round', count), ('the pool is full', filled), ('pool points exist', exist)],
                        opts={'lpres': True}, covers=(BASE + '.reset',), min_obl=6))
    return T
