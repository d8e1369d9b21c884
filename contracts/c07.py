"""C07: the final evidence and its helpers."""
from .sums import *
from .ns import *
from . import c06
from .c06 import elin, finite_or_zero, S_

Q = 'cpnest.nest2pos.'


def log_seq(ex, name, n):
    """logs of numbers >= 0"""
    s = ex.fresh_seq(name, n, KFlt(False))
    ex.assume(forall(n, lambda i: And(Not(f_isnan(s.get(i))), f_lt(s.get(i), PINF))))
    return s


def t_sub(ex):
    x, y = finite_or_zero(ex, 'x', False), finite_or_zero(ex, 'y', False)
    ex.assume(f_lt(NINF, x))
    try:
        r = call_real(ex, Q + 'logsubexp', [x, y])
    except E.PyRaise as e:
        ex.prove(e.exc.name == 'AssertionError', 'only a negative difference is refused')
        ex.prove(f_lt(x, y), 'a difference is refused only when it is negative')
        return
    ex.prove(f_le(y, x), 'a negative difference is refused')
    ex.prove(And(elin(r) == elin(x) - elin(y), Not(f_isnan(flt(r))), f_lt(flt(r), PINF)), 'logsubexp(x, y) = log(exp x - exp y)')


def t_sub_arr(ex):
    n = ex.fresh_int('n', lo=1)
    x, y = log_seq(ex, 'x', n), log_seq(ex, 'y', n)
    ex.assume(forall(n, lambda i: f_lt(NINF, x.get(i))))
    try:
        r = call_real(ex, Q + 'logsubexp', [npmodel.nparr(ex, x), npmodel.nparr(ex, y)])
    except E.PyRaise as e:
        ex.prove(e.exc.name == 'AssertionError', 'only a negative difference is refused')
        ex.prove(exists(n, lambda i: f_lt(x.get(i), y.get(i))), 'arrays are refused only with a negative difference')
        return
    ex.prove(forall(n, lambda i: f_le(y.get(i), x.get(i))), 'arrays with a negative difference are refused')
    s = npmodel.arr(ex, r)
    ex.prove(eq(s.n, n), 'one difference per pair')
    ex.prove(forall(n, lambda i: And(elin(s.get(i)) == elin(x.get(i)) - elin(y.get(i)), Not(f_isnan(s.get(i))))), 'elementwise log(exp x - exp y)')


def trap_term(L, V):
    return lambda i: (elin(L.get(i)) + elin(L.get(i + 1))) / 2 * (elin(V.get(i)) - elin(V.get(i + 1)))


def integral(ex, r, L, V, n):
    """r is the log of the trapezoidal sum over n points"""
    T = psum(ex, trap_term(L, V), 'trapsum')
    m = sub(n, 1)
    l = ex.st.ghost.get('_lse')
    if l is not None and is_z(l[2].n):
        S, term, s = l
        ex.prove(eq(s.n, m), 'one trapezium between successive contours')
        ex.prove(forall(m, lambda i: term(i) == trap_term(L, V)(i)), 'each trapezium is half the sum of the likelihoods times the volume difference')
        ex.assume(forall(m, lambda i: term(i) == trap_term(L, V)(i)))
        induct(ex, m, lambda i: S(i) == T(i), 'the sum runs over all trapezia')
    ex.prove(elin(r) == T(zi(m)), 'the log of the trapezoidal sum is returned')
    return T


def t_trap(ex):
    n = ex.fresh_int('n', lo=2)
    L, V = log_seq(ex, 'L', n), log_seq(ex, 'V', n)
    # volumes decrease, only the last may be zero
    ex.assume(forall(sub(n, 1), lambda i: And(f_lt(NINF, V.get(i)), f_le(V.get(i + 1), V.get(i)))))
    a, b = npmodel.nparr(ex, L), npmodel.nparr(ex, V)
    r = noraise(ex, lambda: call_real(ex, Q + 'log_integrate_log_trap', [a, b]), 'log_integrate_log_trap')
    integral(ex, r, L, V, n)
    for nm, ref, s in (('likelihoods', a, L), ('volumes', b, V)):
        t = npmodel.arr(ex, ref)
        ex.prove(And(eq(t.n, s.n), forall(n, lambda i: f_same(t.get(i), s.get(i)))), 'the %s are not changed' % nm)


def t_bounds(ex):
    """lemma: the trapezoidal sum lies between the rectangle sums"""
    n = ex.fresh_int('n', lo=2)
    L, V = log_seq(ex, 'L', n), log_seq(ex, 'V', n)
    ex.assume(forall(sub(n, 1), lambda i: f_le(V.get(i + 1), V.get(i))))
    d = lambda i: elin(V.get(i)) - elin(V.get(i + 1))
    lo = psum(ex, lambda i: z3.If(elin(L.get(i)) <= elin(L.get(i + 1)), elin(L.get(i)), elin(L.get(i + 1))) * d(i), 'lower')
    up = psum(ex, lambda i: z3.If(elin(L.get(i)) <= elin(L.get(i + 1)), elin(L.get(i + 1)), elin(L.get(i))) * d(i), 'upper')
    T = psum(ex, trap_term(L, V), 'trapsum')
    ex.prove(forall(sub(n, 1), lambda i: d(i) >= 0), 'volumes decrease')
    ex.assume(forall(sub(n, 1), lambda i: d(i) >= 0))
    induct(ex, sub(n, 1), lambda i: And(lo(i) <= T(i), T(i) <= up(i)), 'trapezoidal sum between the rectangle sums')


def t_fin(ex):
    ref, N, Ls, vs = c06.state(ex)
    o = ex.obj(ref)
    ex.assume(lt(1, Ls.n))
    ex.assume(forall(Ls.n, lambda i: And(Not(f_isnan(Ls.get(i))), f_lt(Ls.get(i), PINF))))
    ex.assume(forall(Ls.n, lambda i: f_isfinite(vs.get(i))))
    ex.assume(forall(sub(Ls.n, 1), lambda i: f_le(vs.get(i + 1), vs.get(i))))
    a = dict(o.attrs)
    l0 = ex.obj(a['logLs']).pay, ex.obj(a['log_vols']).pay
    r = noraise(ex, lambda: call_real(ex, S_ + '.finalise', [ref]), 'finalise')
    o = ex.obj(ref)
    integral(ex, flt(o.attrs['logZ']), Ls, vs, Ls.n)
    ex.prove(f_same(flt(r), flt(o.attrs['logZ'])), 'the final log-evidence is returned')
    for k, old, s in (('logLs', l0[0], Ls), ('log_vols', l0[1], vs)):
        t = lib.to_seq(ex, o.attrs[k])
        ex.prove(And(eq(t.n, s.n), forall(s.n, lambda i: f_same(t.get(i), s.get(i)))), 'the history is not changed: ' + k)


def targets(tier):
    return [Target(Q + 'logsubexp (scalars)', t_sub, covers=(Q + 'logsubexp',)), Target(Q + 'logsubexp (arrays)', t_sub_arr, covers=(Q + 'logsubexp',)),
            Target(Q + 'log_integrate_log_trap', t_trap, covers=(Q + 'log_integrate_log_trap', Q + 'logsubexp')),
            Target('lemma: trapezoidal sum between rectangle sums', t_bounds, covers=()),
            Target(S_ + '.finalise', t_fin, covers=(S_ + '.finalise', Q + 'log_integrate_log_trap'), externals=externals())]


ASSUMES = ['log-likelihoods and log-volumes are neither nan nor +inf; volumes are non-increasing and only the last may be zero',
           'exp and log are the real functions; induction over the sum is a meta-rule of the contract library (base and step are both discharged)']
