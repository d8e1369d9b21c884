"""C04: messages between the coordinator and its workers."""
from .c02 import *
from . import c02
from .kern import ofkind, nth


def cand_bal(L):
    g = L.ex.st.ghost
    return forall(L.ex.nthreads, lambda j: g['asks'][j] - g['ans'][j] == g['out'][j])


def cand_asked(L):
    g = L.ex.st.ghost
    n, q0 = L.ex.nthreads, pre(L)['q0']
    r = zi(sub(g['inserts'], pre(L)['ins0']))
    return forall(n, lambda j: g['ans'][j] >= z3.If(z3.If(j >= q0, j - q0, j - q0 + n) < r, 1, 0))


def zero_counts(ex):
    g = ex.st.ghost
    q = z3.Int(ex._n('q'))
    for a in ('asks', 'ans', 'stops', 'ckpts'):
        ex.st.facts.append(z3.ForAll([q], g[a][q] == 0))


def t_iteration(ex):
    ref, N = sampler(ex)
    zero_counts(ex)
    start(ex, ref, N)
    g, n = ex.st.ghost, ex.nthreads
    ex.prove(forall(n, lambda j: g['out'][j] == 0), 'no request is left unanswered after an iteration')
    ex.prove(forall(n, lambda j: g['asks'][j] == g['ans'][j]), 'every worker is answered as often as it is asked')
    ex.prove(forall(n, lambda j: g['ans'][j] >= 1), 'every worker is asked and answered')
    ex.prove(forall(n, lambda j: And(eq(g['stops'][j], 0), eq(g['ckpts'][j], 0))), 'no stop or checkpoint message in an iteration')
    ex.prove(And(le(0, ex.obj(ref).attrs['queue_counter']), lt(ex.obj(ref).attrs['queue_counter'], n)), 'the queue counter names a worker')


# ---------------------------------------------------------------- population
def rs(L):
    ex = L.ex
    e = [f.env for f in ex.frames]
    return ex, ex.obj(ex.target_self), ex.st.ghost


def cand_zero(L, i):
    ex, o, g = rs(L)
    return z3.Implies(zi(i) < zi(ex.Nlive), forall(ex.nthreads, lambda j: g['out'][j] == 0))


def cand_some(L):
    ex, o, g = rs(L)
    return forall(ex.nthreads, lambda j: g['out'][j] >= 0)


def cand_round(L, i):
    ex, o, g = rs(L)
    return z3.Implies(zi(i) < zi(ex.Nlive), And(forall(ex.nthreads, lambda j: g['out'][j] == z3.If(j < zi(L.it), 0, 1)),
                                                o.attrs['queue_counter'] == z3.If(zi(L.it) >= ex.nthreads, 0, zi(L.it))))


def cand_queue0(L, i):
    ex, o, g = rs(L)
    return z3.Implies(zi(i) < zi(ex.Nlive), eq(o.attrs['queue_counter'], 0))


def cand_same_out(L):
    ex, o, g = rs(L)
    return forall(ex.nthreads, lambda j: g['out'][j] == L.entry.ghost['out'][j])


def cand_sending(L):
    ex, o, g = rs(L)
    return forall(ex.nthreads, lambda j: g['out'][j] == z3.If(j < zi(L.it), 1, 0))


def cand_qrange(L):
    ex, o, g = rs(L)
    return And(le(0, o.attrs['queue_counter']), lt(o.attrs['queue_counter'], ex.nthreads))


def cand_params(L, i, r):
    ex = L.ex
    s = ex.obj(r).pay
    return And(eq(s.n, ex.Nlive), forall(i, lambda k: And(le(0, s.get(k).ref), lt(s.get(k).ref, ex.st.alloc), f_lt(NINF, logl(ex, s.get(k))),
                                                          f_lt(NINF, ex.lp_get(s.get(k), 'logP')))))


def cand_distinct(L, i, r):
    s = L.ex.obj(r).pay
    return forall2(i, lambda j, k: s.get(j).ref < s.get(k).ref)


def cand_len(L, i, r):
    ex = L.ex
    return And(le(0, i), le(i, ex.Nlive), eq(ex.obj(r).pay.n, ex.Nlive))


INTS = ofkind(lib.isint)
LISTS = ofkind(lambda v: isinstance(v, Ref))


def with_int(name, f, n=3):
    """one candidate per integer local: the number of points stored so far is one of them"""
    return [('%s (%d)' % (name, q), nth(INTS, q, f)) for q in range(n)]


def with_both(name, f, n=3, m=2):
    """... and per list"""
    def c(q, r):
        def h(L, i):
            xs = [x for x in LISTS(L) if isinstance(L.ex.obj(x).pay, Seq)]
            return f(L, i, xs[r]) if r < len(xs) else None
        return nth(INTS, q, h)
    return [('%s (%d, %d)' % (name, q, r), c(q, r)) for q in range(n) for r in range(m)]


RPOOL = with_int('none outstanding between rounds', cand_zero) + [('not negative', cand_some)] + with_int('round', cand_round) + with_int('between rounds', cand_queue0) + [
         ('outstanding unchanged', cand_same_out), ('sending', cand_sending), ('queue', cand_qrange)] + with_both('stored points', cand_params) + with_both('distinct', cand_distinct) + with_both('len', cand_len)


def t_reset(ex):
    ref, N = sampler(ex)
    ex.target_self, ex.Nlive = ref, N
    o, g = ex.obj(ref), ex.st.ghost
    q = z3.Int(ex._n('q'))
    ex.st.facts.append(z3.ForAll([q], g['out'][q] == 0))
    zero_counts(ex)
    o.attrs['queue_counter'] = 0      # as the constructor leaves it; a resumed run is not populated again
    noraise(ex, lambda: call_real(ex, NS + 'NestedSampler.reset', [ref]), 'reset')
    o, g = ex.obj(ref), ex.st.ghost
    s = ex.obj(o.attrs['params']).pay
    ex.prove(eq(s.n, N), 'population fills the live set')
    ex.prove(forall(N, lambda k: And(f_lt(NINF, logl(ex, s.get(k))), f_lt(NINF, ex.lp_get(s.get(k), 'logP')))), 'no initial point has zero likelihood or zero prior')
    ex.prove(c01.ordered(ex, s), 'the initial live set is ordered')
    ex.prove(ex.truth(o.attrs['initialised']), 'marked as populated')
    ex.prove(forall(ex.nthreads, lambda j: g['stops'][j] == 0), 'no worker is stopped')
    ex.prove(cand_qrange(type('L', (), dict(ex=ex))), 'the queue counter names a worker')
    ex.prove(forall(ex.nthreads, lambda j: g['out'][j] >= 0), 'no reply is read twice')


def targets(tier):
    q = NS + 'NestedSampler.'
    from . import nsloop
    return [T(q + 'consume_sample', t_iteration, pool=POOL + [('balance', cand_bal), ('asked', cand_asked)],
              covers=(q + 'consume_sample', q + 'get_worst_n_live_points')),
            T(q + 'reset', t_reset, pool=RPOOL)] + [
            nsloop.target('C04', q + 'nested_sampling_loop', nsloop.t_messages),
            nsloop.target('C04', q + 'nested_sampling_loop', nsloop.t_messages_prior, label=' (prior run)')]


ASSUMES = c02.ASSUMES
