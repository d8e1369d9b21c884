"""C06: the running evidence."""
from .ns import *
from pyvc import lib

S_ = NS + '_NSintegralState'


def elin(f):
    """exp(value), 0 for -inf"""
    f = flt(f)
    l = lin_of(f)
    return expn(f.r) if l is None else zr(l)


def state(ex, name='s'):
    """any state the integrator can be in: zero or positive evidence, a finite log-volume, the history recorded so far"""
    N = z3.Int('%s_nlive' % name)
    ex.assume(N >= 1)
    ref = ex.instantiate(cls(ex, S_), [N], {})
    o = ex.obj(ref)
    n = ex.fresh_int('%s_hist' % name, lo=1)
    Ls = ex.fresh_seq('%s_Ls' % name, n, KFlt(False))
    vs = ex.fresh_seq('%s_vols' % name, n, KFlt(True))
    o.attrs['logLs'], o.attrs['log_vols'] = ex.new_list(Ls), ex.new_list(vs)
    o.attrs['logZ'] = finite_or_zero(ex, '%s_logZ' % name)
    o.attrs['logw'] = ex.fresh_flt('%s_logw' % name, fin=True, npy=True)
    o.attrs['info'] = ex.fresh_flt('%s_info' % name, fin=True, npy=True)
    o.attrs['iteration'] = ex.fresh_int('%s_it' % name, lo=0)
    # the representation invariant: the last recorded volume is the running one
    ex.assume(f_same(vs.get(sub(n, 1)), o.attrs['logw']))
    return ref, N, Ls, vs


def contour(ex):
    return finite_or_zero(ex, 'contour', False)


def finite_or_zero(ex, name, npy=True):
    """log of a number >= 0"""
    if ex.branch(ex.fresh_bool(name + '_zero')):
        return NINF.with_(npy=npy)
    return ex.fresh_flt(name, fin=True, npy=npy)


def vals(ex, ref):
    o = ex.obj(ref)
    return dict(o.attrs)


def t_init(ex):
    N = z3.Int('nlive')
    ref = ex.instantiate(cls(ex, S_), [N], {})
    o = ex.obj(ref)
    Ls, vs = lib.to_seq(ex, o.attrs['logLs']), lib.to_seq(ex, o.attrs['log_vols'])
    ex.prove(And(f_same(flt(o.attrs['logZ']), NINF), f_same(flt(lib.as_num(o.attrs['logw'])), flt(0)), eq(o.attrs['iteration'], 0),
                 f_same(flt(lib.as_num(o.attrs['info'])), flt(0))), 'starts from zero evidence at volume 1')
    ex.prove(And(eq(Ls.n, 1), eq(vs.n, 1), f_same(flt(Ls.get(0)), NINF), f_same(flt(vs.get(0)), flt(0))),
             'the history starts with zero likelihood at volume 1')


def steps(mode):
    def t(ex):
        ref, N, Ls, vs = state(ex)
        L = contour(ex)
        m = ex.fresh_int('nreplace', lo=1)
        n = ex.fresh_int('nl', lo=1)
        kw = {}
        if mode == 'both':
            kw = {'nlive': n, 'nreplace': m}
        elif mode == 'nlive':
            kw, m = {'nlive': n}, 1
        elif mode == 'nreplace':
            kw, n = {'nreplace': m}, N
        else:
            m, n = 1, N
        a = vals(ex, ref)
        noraise(ex, lambda: call_real(ex, S_ + '.increment', [ref, L], kw), 'increment')
        check(ex, ref, a, Ls, vs, L, m, n)
    return t


def check(ex, ref, a, Ls, vs, L, m, n):
    b = vals(ex, ref)
    X0 = elin(a['logw'])
    t = f_neg(f_div_nozero(flt(m), flt(n)))
    ex.prove(f_same(b['logw'], f_add(a['logw'], t)), 'the prior volume is multiplied by exp(-m/N)')
    ex.prove(f_lt(b['logw'], a['logw']), 'the volume strictly decreases')
    Z0, Z1 = elin(a['logZ']), elin(b['logZ'])
    ex.prove(Z1 == Z0 + elin(L) * X0 * (1 - EXP(zr(t.r))), 'likelihood times the volume removed is added to the evidence')
    ex.prove(Z1 >= Z0, 'the evidence never decreases')
    ex.prove(Not(f_isnan(b['logZ'])), 'the evidence is a number')
    ex.prove(f_lt(b['logZ'], PINF), 'the evidence is finite')
    Ls1, vs1 = lib.to_seq(ex, b['logLs']), lib.to_seq(ex, b['log_vols'])
    for nm, s0, s1, x in (('likelihood', Ls, Ls1, L), ('volume', vs, vs1, b['logw'])):
        ex.prove(eq(s1.n, add(s0.n, 1)), 'one %s is recorded per contour' % nm)
        ex.prove(f_same(flt(s1.get(s0.n)), flt(x)), 'the recorded %s is the one of this contour' % nm)
        ex.prove(forall(s0.n, lambda k: f_same(flt(s1.get(k)), flt(s0.get(k)))), 'the %s history is kept' % nm)
    ex.prove(eq(b['iteration'], add(a['iteration'], 1)), 'every contour is counted')
    # information
    reg = And(f_isfinite(a['logZ']), f_isfinite(b['logZ']), f_isfinite(L))
    i1 = flt(lib.as_num(b['info']))
    dW = elin(L) * X0 * (1 - EXP(zr(t.r)))
    want = dW / Z1 * zr(L.r) + Z0 / Z1 * (zr(a['info'].r) + zr(a['logZ'].r)) - zr(b['logZ'].r)
    ex.prove(Implies(reg, And(f_isfinite(i1), zr(i1.r) == want)), 'the information follows its recurrence')
    ex.prove(Implies(Not(reg), f_same(i1, a['info'])), 'a contour without weight leaves the information alone')


def t_scale(ex):
    """two runs whose likelihoods differ by a constant factor"""
    c = ex.fresh_flt('shift', fin=True)
    r1, N1, Ls1, v1 = state(ex, 'a')
    r2, N2, Ls2, v2 = state(ex, 'b')
    o1, o2 = ex.obj(r1), ex.obj(r2)
    k = EXP(zr(c.r))
    ex.assume(And(eq(N1, N2), f_same(o1.attrs['logw'], o2.attrs['logw']), elin(o2.attrs['logZ']) == k * elin(o1.attrs['logZ'])))
    L = contour(ex)
    L2 = f_add(L, c)
    ex.assume(elin(L2) == k * elin(L))
    m = ex.fresh_int('nreplace', lo=1)
    n = ex.fresh_int('nl', lo=1)
    noraise(ex, lambda: call_real(ex, S_ + '.increment', [r1, L], {'nlive': n, 'nreplace': m}), 'increment')
    noraise(ex, lambda: call_real(ex, S_ + '.increment', [r2, L2], {'nlive': n, 'nreplace': m}), 'increment')
    o1, o2 = ex.obj(r1), ex.obj(r2)
    ex.prove(elin(o2.attrs['logZ']) == k * elin(o1.attrs['logZ']), 'scaling all likelihoods scales the evidence')
    ex.prove(f_same(o1.attrs['logw'], o2.attrs['logw']), 'scaling the likelihoods leaves the volumes alone')


def t_contour(ex):
    """what one iteration of the coordinator feeds in"""
    from . import c02
    ref, N = c02.iteration(ex)
    g, pre_ = ex.st.ghost, ex.pre
    n, s0, i0 = ex.nthreads, ex.pre['s'], ex.pre['incL'].n
    L, Ns, M = g['incL'], g['incN'], g['incM']
    ex.prove(And(eq(L.n, add(i0, 1)), eq(Ns.n, L.n), eq(M.n, L.n)), 'one contour per iteration')
    ex.prove(And(f_same(L.get(i0), logl(ex, s0.get(sub(n, 1)))), eq(Ns.get(i0), N), eq(M.get(i0), n)), 'the contour is the highest removed point, n points out of N')


def targets(tier):
    from . import c02, nsloop
    t = [Target(S_ + '.__init__', t_init, covers=(S_ + '.__init__', S_ + '.reset'))]
    for mode in ('both', 'nlive', 'nreplace', 'default'):
        t.append(Target(S_ + '.increment (%s)' % mode, steps(mode), covers=(S_ + '.increment', 'cpnest.nest2pos.logsubexp'), externals=externals()))
    t.append(Target(S_ + '.increment (scaled likelihood)', t_scale, covers=(S_ + '.increment',), externals=externals()))
    q = NS + 'NestedSampler.'
    t.append(c02.T(q + 'consume_sample', t_contour, covers=(q + 'consume_sample', q + 'get_worst_n_live_points')))
    t.append(nsloop.target('C06', q + 'nested_sampling_loop', nsloop.t_contours))
    return t


ASSUMES = ['loop target: consume_sample is used by its contract (proved here and in C02, C03, C04, C27)', 'likelihoods are neither nan nor +inf; nlive >= 1, nreplace >= 1', 'exp and log are the real functions: EXP(0)=1, monotone, EXP(x+y)=EXP(x)EXP(y)']
