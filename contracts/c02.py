"""C02: one iteration of the coordinator."""
from .ns import *


def P(L):
    """the objects of the running iteration"""
    ex = L.ex
    o = ex.obj(ex.target_self)
    return ex, o, ex.st.ghost, o.attrs['params'], ex.obj(o.attrs['params']).pay


def pre(L):
    return L.ex.pre


def cand_pos(L):
    ex, o, g, pr, s = P(L)
    N = pre(L)['N']
    s0 = pre(L)['s']
    pos = g['pos']
    return forall(N, lambda i: z3.And(pos[i] >= 0, pos[i] < zi(s.n), zb(eq(s.get(pos[i]).ref, s0.get(i).ref))))


def cand_pos_mono(L):
    ex, o, g, pr, s = P(L)
    return forall2(pre(L)['N'], lambda i, j: g['pos'][i] < g['pos'][j])


def cand_pos_first(L):
    ex, o, g, pr, s = P(L)
    return forall(ex.nthreads, lambda i: g['pos'][i] == i)


def cand_pos_rest(L):
    ex, o, g, pr, s = P(L)
    return forall(pre(L)['N'], lambda i: g['pos'][i] >= i)


def cand_org(L):
    ex, o, g, pr, s = P(L)
    org, pos = g['org'], g['pos']
    return forall(s.n, lambda t: z3.And(org[t] >= -1, org[t] < zi(pre(L)['N']), z3.Implies(org[t] >= 0, pos[org[t]] == t),
                                        z3.Implies(org[t] == -1, zb(f_lt(g['sh:logLmin'], logl(ex, s.get(t)))))))


def cand_org2(L):
    ex, o, g, pr, s = P(L)
    return forall(pre(L)['N'], lambda i: g['org'][g['pos'][i]] == i)


def cand_sorted(L):
    ex, o, g, pr, s = P(L)
    return c01.ordered(ex, s)


def cand_len(L):
    ex, o, g, pr, s = P(L)
    return eq(s.n, add(pre(L)['N'], sub(g['inserts'], pre(L)['ins0'])))


def cand_ins(L):
    ex, o, g, pr, s = P(L)
    return eq(g['inserts'], add(L.entry.ghost['inserts'], L.it))


def cand_thr(L):
    ex, o, g, pr, s = P(L)
    return f_same(g['sh:logLmin'], logl(ex, pre(L)['s'].get(sub(ex.nthreads, 1))))


def cand_alloc(L):
    ex, o, g, pr, s = P(L)
    return forall(s.n, lambda i: And(le(0, s.get(i).ref), lt(s.get(i).ref, ex.st.alloc)))


def qrel(L, d):
    """worker number j comes d(j) places after the queue counter at the start"""
    pass


def cand_out(L):
    """workers in the order q0, q0+1, ... (mod n): the first r have answered, the others owe one reply"""
    ex, o, g, pr, s = P(L)
    n, q0 = ex.nthreads, pre(L)['q0']
    r = sub(g['inserts'], pre(L)['ins0'])
    return forall(n, lambda j: g['out'][j] == z3.If(z3.If(j >= q0, j - q0, j - q0 + n) < zi(r), 0, 1))


def cand_qc(L):
    ex, o, g, pr, s = P(L)
    n, q0 = ex.nthreads, pre(L)['q0']
    r = zi(sub(g['inserts'], pre(L)['ins0']))
    return o.attrs['queue_counter'] == z3.If(q0 + r >= n, q0 + r - n, q0 + r)


def cand_r(L):
    ex, o, g, pr, s = P(L)
    r = sub(g['inserts'], pre(L)['ins0'])
    return And(le(0, r), le(r, ex.nthreads))


def cand_sent(L):
    """sending loop: the workers reached so far"""
    ex, o, g, pr, s = P(L)
    pq = g.get('_perm')
    if pq is None:
        return None
    p, q = pq
    return forall(ex.nthreads, lambda j: g['out'][j] == L.entry.ghost['out'][j] + z3.If(q(j) < zi(L.it), 1, 0))


def cand_sent2(L):
    ex, o, g, pr, s = P(L)
    return forall(ex.nthreads, lambda j: g['out'][j] == L.entry.ghost['out'][j] + z3.If(j < zi(L.it), 1, 0))


def cand_range(L):
    ex, o, g, pr, s = P(L)
    ii = ex.obj(o.attrs['insertion_indices']).pay
    return forall(ii.n, lambda k: z3.Implies(k >= zi(pre(L)['ii'].n), zb(And(f_le(0, ii.get(k)), f_le(ii.get(k), 1)))))


def cand_iter(L):
    ex, o, g, pr, s = P(L)
    it0, r = pre(L)['iter0'], sub(g['inserts'], pre(L)['ins0'])
    return eq(o.attrs['iteration'], add(it0, r))


def cand_iter1(L):
    ex, o, g, pr, s = P(L)
    it0, r = pre(L)['iter0'], sub(g['inserts'], pre(L)['ins0'])
    return eq(o.attrs['iteration'], add(add(it0, r), 1))


def cand_iilen(L):
    ex, o, g, pr, s = P(L)
    ii = ex.obj(o.attrs['insertion_indices']).pay
    return eq(ii.n, add(pre(L)['ii'].n, sub(g['inserts'], pre(L)['ins0'])))


def cand_acc(L):
    ex, o, g, pr, s = P(L)
    return And(le(1, o.attrs['rejected']), le(0, o.attrs['accepted']))


POOL = [('pos', cand_pos), ('pos mono', cand_pos_mono), ('pos first', cand_pos_first), ('pos rest', cand_pos_rest), ('origin', cand_org), ('origin of pos', cand_org2),
        ('ordered', cand_sorted), ('length', cand_len), ('inserts', cand_ins), ('threshold', cand_thr), ('allocated', cand_alloc),
        ('outstanding', cand_out), ('queue', cand_qc), ('replaced', cand_r), ('sent', cand_sent), ('sent in order', cand_sent2),
        ('ranks in [0,1]', cand_range), ('iteration', cand_iter), ('iteration+1', cand_iter1), ('ranks', cand_iilen), ('accepted', cand_acc)]


def on_insert(ex, ref, p, idx, s):
    """C05: the rank recorded for this insertion"""
    pass


def iteration(ex):
    """run consume_sample from an arbitrary between-iterations state; returns the pre-state"""
    ref, N = sampler(ex)
    start(ex, ref, N)
    return ref, N


def start(ex, ref, N):
    s, ns = live_state(ex, ref, N)
    o = ex.obj(ref)
    g = ex.st.ghost
    # the invariant of the run: recorded points are not above any live point, the threshold not above the worst
    ex.target_self = ref
    ex.pre = dict(N=N, s=s, ns=ns, ins0=g['inserts'], q0=o.attrs['queue_counter'], iter0=o.attrs['iteration'], lp=dict(ex.st.lp),
                  ii=ex.obj(o.attrs['insertion_indices']).pay, incL=g['incL'], incN=g['incN'], incM=g['incM'], thr0=g['sh:logLmin'],
                  ans0=g['answers'])
    ex.assume(f_le(g['sh:logLmin'], logl(ex, s.get(0))))
    noraise(ex, lambda: call_real(ex, NS + 'NestedSampler.consume_sample', [ref]), 'consume_sample')


def post_c02(ex):
    ref, N = iteration(ex)
    o, g, pre = ex.obj(ref), ex.st.ghost, ex.pre
    n = ex.nthreads
    s0 = pre['s']
    s = ex.obj(o.attrs['params']).pay
    thr = logl(ex, s0.get(sub(n, 1)))
    pos, org = g['pos'], g['org']
    ex.prove(eq(s.n, N), 'the live set keeps its size')
    ex.prove(f_same(g['sh:logLmin'], thr), 'the threshold is the n-th lowest likelihood')
    ex.prove(f_le(pre['thr0'], g['sh:logLmin']), 'the threshold never decreases')
    ex.prove(forall(N, lambda i: z3.Implies(i >= n, z3.And(pos[i] >= n, pos[i] - n < zi(s.n), zb(eq(s.get(pos[i] - n).ref, s0.get(i).ref))))),
             'every point but the n lowest is kept')
    ex.prove(forall2(N, lambda i, j: pos[i] < pos[j]), 'kept points are kept once, in order')
    ex.prove(forall(s.n, lambda t: z3.Or(z3.And(org[t + n] >= n, org[t + n] < zi(N), zb(eq(s.get(t).ref, s0.get(org[t + n]).ref))),
                                         z3.And(org[t + n] == -1, zb(f_lt(thr, logl(ex, s.get(t))))))),
             'every live point is a kept one or a new one strictly above the threshold')
    ex.prove(eq(g['inserts'], add(pre['ins0'], n)), 'exactly n points are added')
    ex.prove(c01.ordered(ex, s), 'the live set stays ordered')
    ex.prove(forall(s.n, lambda t: f_le(g['sh:logLmin'], logl(ex, s.get(t)))), 'no live point is below the threshold')
    ex.prove(z3.Not(zb(f_isnan(g['sh:logLmin']))), 'the threshold is a number')


def C():
    d = {}
    d.update(OLP_C)
    d.update(STATE_C)
    return d


def T(name, run, **k):
    return Target(name, run, contracts=dict(C(), **k.pop('contracts', {})), externals=k.pop('externals_', None) or externals(), pool=k.pop('pool', POOL), **k)


def targets(tier):
    return [T(NS + 'NestedSampler.consume_sample', post_c02, covers=(NS + 'NestedSampler.consume_sample', NS + 'NestedSampler.get_worst_n_live_points'))]


ASSUMES = ['worker contract (proved for the workers in C21/C25): a reply carries a point whose log-likelihood is not nan',
           'number of workers < number of live points',
           'container contract of OrderedLivePoints (proved in C01), integrator contract (proved in C06)']
