"""C08: posterior weights."""
from .sums import *
from .ns import *
from . import c06, c07
from .c06 import elin
from .c07 import log_seq, trap_term

Q = 'cpnest.nest2pos.'


def volumes(ex, M, N):
    """V_0 = 1, V_(i+1) = V_i (1 - 1/N) up to the final live points, then (1-1/N), (1-1/(N-1)), ..."""
    s = add(sub(M, N), 2)
    rN = z3.ToReal(zi(N))

    def step(i, v):
        return z3.If(i < zi(s), v * (1 + z3.RealVal(-1) / rN), v * (1 + z3.RealVal(-1) / z3.ToReal(zi(N) - (i - zi(s)))))
    return recur(ex, z3.RealVal(1), step, 'V'), s


def chain(ex):
    M, N = ex.fresh_int('M'), ex.fresh_int('Nlive', lo=2)
    ex.assume(le(N, M))
    L = log_seq(ex, 'logL', M)
    return M, N, L


def cand_end(j):
    """loop over the final live points: the volumes filled into the j-th local array"""
    def f(Lp):
        ex = Lp.ex
        V, s, M, N, L = ex.c08
        env = ex.frames[-1].env
        arrs = [v for k, v in sorted(env.items()) if isinstance(v, Ref) and ex.obj(v).cls == 'ndarray' and isinstance(ex.obj(v).pay, Seq)]
        if j >= len(arrs):
            return None
        a = ex.obj(arrs[j]).pay
        if isinstance(a.n, int):
            return None
        return And(eq(a.n, N), forall(add(Lp.it, 1), lambda t: And(f_isfinite(flt(a.get(t))), elin(a.get(t)) == V(zi(s) + t))))
    return f


def t_weights(ex):
    M, N, L = chain(ex)
    V, s = volumes(ex, M, N)
    ex.c08 = (V, s, M, N, L)
    induct(ex, add(M, 1), lambda i: And(V(i) > 0, V(i + 1) < V(i)), 'volumes are positive and decrease', pats=lambda k: V(k))
    d = npmodel.nparr(ex, L)
    r = noraise(ex, lambda: call_real(ex, Q + 'compute_weights', [d, N]), 'compute_weights')
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Unsupported('compute_weights result')
    ev, w = r
    g = ex.st.ghost
    if g.get('c08_int') is not None:
        ex.prove(f_same(flt(ev), g['c08_int']), 'the evidence is the trapezoidal integral over those contours')
    ws = npmodel.arr(ex, w)
    ex.prove(eq(ws.n, M), 'one weight per sample')
    Z = elin(ev)
    j = ex.fresh_int('j', lo=0)
    ex.assume(lt(j, M))
    want = elin(L.get(j)) * (V(j) - V(j + 1)) / Z
    dX = ex.st.ghost.get('c08_dX')
    if dX is not None:
        # in logarithms first
        w_, l_, d_, z_ = flt(ws.get(j)), flt(L.get(j)), flt(dX.get(j)), flt(ev)
        ok = zb(And(f_isfinite(l_), f_isfinite(d_)))
        ex.prove(Implies(Not(ok), And(Not(f_isnan(w_)), Not(f_isfinite(w_)), f_lt(w_, PINF))), 'no weight where there is no likelihood or no volume')
        q = ex.st.ghost.get('c08_contour_likes')
        if q is not None:
            c_ = flt(q.get(add(j, 1)))
            ex.prove(elin(c_) == elin(l_), 'the likelihood of the contour is that of the sample')
            ex.lemma('exp is one to one', lambda a, b: z3.Implies(EXP(a) == EXP(b), a == b), c_.zr(), l_.zr())
        ex.prove(Implies(ok, And(f_isfinite(w_), w_.zr() == l_.zr() + d_.zr() - z_.zr())), 'the log weight is log likelihood plus log volume minus log evidence')
        ex.assume(EXP(l_.zr() + d_.zr() - z_.zr()) == EXP(l_.zr()) * EXP(d_.zr()) / EXP(z_.zr()))
        ex.prove(elin(dX.get(j)) == V(j) - V(j + 1), 'the removed volume')
        ex.prove(Implies(ok, elin(w_) == EXP(l_.zr()) * EXP(d_.zr()) / EXP(z_.zr())), 'the weight is the exponential of that')
        ex.lemma('equals for equals', lambda w, l, d, e, z: z3.Implies(z3.And(w == l * d / z, d == e), w == l * e / z),
                 elin(w_), EXP(l_.zr()), EXP(d_.zr()), V(j) - V(j + 1), EXP(z_.zr()))
        ex.prove(Implies(ok, And(elin(l_) == EXP(l_.zr()), elin(d_) == EXP(d_.zr()), Z == EXP(z_.zr()))), 'the factors')
        ex.prove(Implies(Not(ok), elin(w_) == 0), 'no weight is zero')
        ex.prove(Implies(Not(ok), Or(elin(l_) == 0, elin(d_) == 0)), 'one factor is zero')
        ex.lemma('nothing', lambda w, l, d, z: z3.Implies(z3.And(w == 0, z > 0, z3.Or(l == 0, d == 0)), w == l * d / z), elin(w_), elin(l_), V(j) - V(j + 1), Z)
        ex.prove(Implies(ok, elin(ws.get(j)) == want), 'the weight where there is likelihood and volume')
        ex.prove(Implies(Not(ok), elin(ws.get(j)) == want), 'the weight where there is none')
    ex.prove(elin(ws.get(j)) == want, 'likelihood times removed volume over the evidence')
    t = npmodel.arr(ex, d)
    ex.prove(And(eq(t.n, M), forall(M, lambda i: f_same(t.get(i), L.get(i)))), 'the chain is not changed')


def on_cumsum(ex, C, E_, s):
    V = ex.c08[0]
    induct(ex, sub(s.n, 1), lambda i: E_(i) == V(i + 1), 'the volumes shrink by 1-1/N per sample', pats=lambda k: E_(k))


def trap_c(ex, f, v):
    """log_integrate_log_trap, by contract (proved in C07)"""
    Lf, Vf = npmodel.arr(ex, f), npmodel.arr(ex, v)
    V, s, M, N, L = ex.c08
    g = ex.st.ghost
    n = add(M, 2)
    F = lambda i: z3.If(i <= 0, z3.RealVal(0), z3.If(i <= zi(M), elin(L.get(i - 1)), elin(L.get(zi(M) - 1))))
    ex.prove(And(eq(Lf.n, n), eq(Vf.n, n)), 'one contour per sample, the prior boundary and the closing one')
    ex.prove(forall(n, lambda i: And(Not(f_isnan(flt(Lf.get(i)))), f_lt(flt(Lf.get(i)), PINF), elin(Lf.get(i)) == F(i))), 'the likelihoods of the contours are those of the samples')
    for lo, hi, nm in ((0, s, 'before the final live points'), (s, n, 'over the final live points')):
        ex.prove(forall(hi, lambda i: f_isfinite(flt(Vf.get(i))), lo=lo), 'no contour has zero volume ' + nm)
        ex.prove(forall(hi, lambda i: elin(Vf.get(i)) == V(i), lo=lo), 'the volumes of the contours ' + nm)
    # go on with arrays of which only what was proved is known
    for ref, nm, fact in ((v, 'contour_vols', lambda x, i: And(f_isfinite(flt(x)), elin(x) == V(i))),
                          (f, 'contour_likes', lambda x, i: And(Not(f_isnan(flt(x))), f_lt(flt(x), PINF), elin(x) == F(i)))):
        if isinstance(ref, Ref):
            q = ex.fresh_seq(nm, n, KFlt(False))
            ex.assume(forall(n, lambda i: fact(q.get(i), i)))
            ex.obj(ref).pay = q
            ex.st.ghost['c08_' + nm] = q
    z = ex.fresh_flt('logZ', fin=True, npy=True)
    ex.st.ghost['c08_int'] = z
    return z


def sub_c(ex, x, y):
    """logsubexp of arrays, by contract (proved in C07; exp is strictly increasing, so the comparison may be made on exponentials)"""
    V, s, M, N, L = ex.c08
    a, b = npmodel.arr(ex, x), npmodel.arr(ex, y)
    n = a.n
    ex.prove(eq(b.n, n), 'logsubexp: arrays of one length')
    ex.prove(forall(n, lambda i: And(f_isfinite(flt(a.get(i))), f_isfinite(flt(b.get(i))))), 'logsubexp: finite logarithms')
    ex.prove(forall(n, lambda i: And(elin(a.get(i)) == V(i), elin(b.get(i)) == V(i + 1))), 'logsubexp: successive volumes')
    ex.assume(forall(n, lambda i: And(elin(a.get(i)) == V(i), elin(b.get(i)) == V(i + 1))))
    ex.prove(forall(n, lambda i: elin(a.get(i)) >= elin(b.get(i))), 'logsubexp: no negative difference')
    r = ex.fresh_seq("logdX", n, KFlt(False))
    ex.assume(forall(n, lambda i: And(Not(f_isnan(r.get(i))), f_lt(r.get(i), PINF), elin(r.get(i)) == V(i) - V(i + 1))))
    ex.st.ghost['c08_dX'] = r
    return npmodel.nparr(ex, r)


def targets(tier):
    return [Target(Q + 'compute_weights', t_weights, covers=(Q + 'compute_weights',), pool=[('end volumes %d' % j, cand_end(j)) for j in range(8)],
                   contracts={Q + 'log_integrate_log_trap': trap_c, Q + 'logsubexp': sub_c}, externals=dict(externals(), on_cumsum=on_cumsum), opts={'nl': True})]


ASSUMES = ['chain of at least N >= 2 samples; log-likelihoods neither nan nor +inf, at least one above -inf (positive evidence)',
           'log_integrate_log_trap and logsubexp by contract (both proved in C07)']
