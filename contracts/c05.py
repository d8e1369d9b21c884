"""C05: insertion ranks."""
from .c02 import *
from . import c02


def on_insert(ex, ref, p, idx, s):
    n = ex.nthreads
    g = ex.st.ghost
    # the places below n hold the points this iteration removes: the others survive
    ex.prove(And(le(n, idx), le(idx, s.n)), 'the new point sits above the points being replaced')
    ex.prove(lt(n, s.n), 'some point survives')
    ex.lemma('a part of a positive whole is a fraction in [0, 1]', lambda a, b: Implies(And(0 <= a, a <= b, b > 0), And(a / b >= 0, a / b <= 1)),
             z3.ToReal(zi(idx) - zi(n)), z3.ToReal(zi(s.n) - zi(n)))
    v = rdivz(zi(idx) - zi(n), zi(s.n) - zi(n))
    ex.prove(And(v >= 0, v <= 1), 'ranks lie in [0, 1]')
    g['rk'] = lib.seq_append(g['rk'], SFlt(rdivz(zi(idx) - zi(n), zi(s.n) - zi(n))))


def rdivz(a, b):
    return z3.ToReal(a) / z3.ToReal(b)


def cand_rk(L):
    ex, o, g, pr, s = P(L)
    ii = ex.obj(o.attrs['insertion_indices']).pay
    n0 = pre(L)['ii'].n
    rk = g['rk']
    return And(eq(rk.n, sub(g['inserts'], pre(L)['ins0'])),
               forall(rk.n, lambda k: f_same(ii.get(add(n0, k)), rk.get(k))))


def cand_unit(L):
    rk = g_(L)['rk']
    return forall(rk.n, lambda k: And(f_le(0, rk.get(k)), f_le(rk.get(k), 1)))


def g_(L):
    return P(L)[2]


def cand_old(L):
    ex, o, g, pr, s = P(L)
    ii = ex.obj(o.attrs['insertion_indices']).pay
    i0 = pre(L)['ii']
    return forall(i0.n, lambda k: f_same(ii.get(k), i0.get(k)))


def t_ranks(ex):
    ref, N = sampler(ex)
    g = ex.st.ghost
    g['_on_insert'] = on_insert
    g['rk'] = ex.fresh_seq('rk', 0, KFlt())
    start(ex, ref, N)
    o, pre_ = ex.obj(ref), ex.pre
    n = ex.nthreads
    ii, i0, rk = ex.obj(o.attrs['insertion_indices']).pay, pre_['ii'], ex.st.ghost['rk']
    ex.prove(eq(ii.n, add(i0.n, n)), 'exactly one rank per replacement')
    ex.prove(eq(rk.n, n), 'one insertion per replacement')
    ex.prove(forall(n, lambda k: f_same(ii.get(add(i0.n, k)), rk.get(k))),
             'each rank is (surviving points not above the new one) / (surviving points)')
    ex.prove(forall(n, lambda k: And(f_le(0, ii.get(add(i0.n, k))), f_le(ii.get(add(i0.n, k)), 1))), 'ranks lie in [0, 1]')
    ex.prove(forall(i0.n, lambda k: f_same(ii.get(k), i0.get(k))), 'earlier ranks are kept')


def t_ks(ex):
    ref, N = sampler(ex)
    live_state(ex, ref, N)
    o = ex.obj(ref)
    g = ex.st.ghost
    g['ks'] = None
    g['ksn'] = z3.IntVal(0)
    rolling = ex.fresh_bool('rolling')
    i0 = ex.obj(o.attrs['insertion_indices']).pay
    r0 = ex.obj(o.attrs['rolling_p']).pay
    noraise(ex, lambda: call_real(ex, NS + 'NestedSampler.check_insertion_indices', [ref], {'rolling': rolling}), 'check_insertion_indices')
    i1 = ex.obj(o.attrs['insertion_indices']).pay
    r1 = ex.obj(o.attrs['rolling_p']).pay
    ex.prove(And(eq(i1.n, i0.n), forall(i0.n, lambda k: f_same(i1.get(k), i0.get(k)))), 'the test leaves the ranks alone')
    if g['ks'] is None:
        ex.prove(eq(i0.n, 0), 'the test is only left out when there is no rank')
        ex.prove(eq(r1.n, r0.n), 'no test, no p-value')
        return
    x, p = g['ks'], g['ksp']
    ex.prove(eq(g['ksn'], 1), 'the test runs once')
    k = z3.If(zb(rolling), z3.If(zi(N) < zi(i0.n), zi(N), zi(i0.n)), zi(i0.n))
    ex.prove(eq(x.n, k), 'the test uses the latest live-point-count of ranks while running, all at the end')
    ex.prove(forall(x.n, lambda j: f_same(x.get(j), i0.get(zi(i0.n) - k + j))), 'the tested ranks are the recorded ones')
    ex.prove(z3.If(zb(rolling), zb(And(eq(r1.n, add(r0.n, 1)), f_same(r1.get(r0.n), p))), zb(eq(r1.n, r0.n))), 'the p-value is recorded while running')


def ks_model(ex, x, cdf=None, args=(), **k):
    g = ex.st.ghost
    ex.prove(isinstance(cdf, str) and cdf == 'uniform', 'tested against the uniform distribution')
    a = args
    if isinstance(a, tuple) and a:
        ex.prove(len(a) == 2 and And(f_same(flt(lib.as_num(a[0])), flt(0)), f_same(flt(lib.as_num(a[1])), flt(1))), 'on [0, 1]')
    g['ks'] = lib.to_seq(ex, x)
    g['ksn'] = z3.simplify(g['ksn'] + 1)
    D, p = ex.fresh_flt('D', fin=True), ex.fresh_flt('p', fin=True)
    g['ksp'] = p
    return (D, p)


def targets(tier):
    e = externals()
    e['scipy.stats.kstest'] = Fn(ks_model)
    q = NS + 'NestedSampler.'
    return [T(q + 'consume_sample', t_ranks, pool=POOL + [('ranks are the counted ones', cand_rk), ('earlier ranks', cand_old), ('unit interval', cand_unit)],
              covers=(q + 'consume_sample', q + 'get_worst_n_live_points')),
            T(q + 'check_insertion_indices', t_ks, externals_=e)]


ASSUMES = c02.ASSUMES + ['scipy.stats.kstest is only given its input (its statistics are scipy\'s)']
