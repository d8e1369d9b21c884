"""C03: the nested-sample record."""
from .c02 import *
from . import c02, nsloop


def t_iter(ex):
    ref, N = iteration(ex)
    o, g, pre_ = ex.obj(ref), ex.st.ghost, ex.pre
    n = ex.nthreads
    s0 = pre_['s']
    ns, n0 = ex.obj(o.attrs['nested_samples']).pay, pre_['ns']
    ex.prove(eq(ns.n, add(n0.n, n)), 'an iteration records exactly n points')
    ex.prove(forall(n0.n, lambda k: eq(ns.get(k).ref, n0.get(k).ref)), 'what was recorded stays')
    ex.prove(forall(n, lambda k: eq(ns.get(add(n0.n, k)).ref, s0.get(k).ref)), 'the points recorded are the ones removed, in order')
    L, Ns, M = g['incL'], g['incN'], g['incM']
    i0 = pre_['incL'].n
    ex.prove(And(eq(L.n, add(i0, 1)), eq(Ns.n, L.n), eq(M.n, L.n)), 'one contour per iteration')
    ex.prove(And(f_same(L.get(i0), logl(ex, s0.get(sub(n, 1)))), eq(Ns.get(i0), N), eq(M.get(i0), n)), 'the contour is the highest removed point, n points out of N')
    ex.prove(forall(n, lambda k: And(f_same(ex.lp_get(s0.get(k), 'logL'), old_logl(ex, s0.get(k))))), 'recorded points keep their likelihood')


def old_logl(ex, p):
    lp = ex.pre['lp']
    return SFlt(z3.Select(lp['logLr'], p.ref), z3.Select(lp['logLk'], p.ref))


def targets(tier):
    q = NS + 'NestedSampler.'
    return [T(q + 'consume_sample', t_iter, covers=(q + 'consume_sample', q + 'get_worst_n_live_points')),
            nsloop.target('C03', q + 'nested_sampling_loop', nsloop.t_record)]


ASSUMES = c02.ASSUMES + ['iteration contract in the loop target (proved on the real consume_sample in C02, C03, C04, C05, C27)']
