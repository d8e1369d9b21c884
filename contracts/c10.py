"""C10: fixed-size posterior draws."""
from .sums import *
from .ns import *
from . import c06
from .c06 import elin
from .c07 import log_seq
from .c09 import table, weights, rows, weights_c, Q
from pyvc.npmodel import RecTable, RecRow


def cand_cum(j):
    """loop over the rows: the j-th local array holds the logarithms of the partial sums"""
    def f(Lp):
        ex = Lp.ex
        W, n, w = ex.c10
        env = ex.frames[-1].env
        arrs = [v for k, v in sorted(env.items()) if isinstance(v, Ref) and ex.obj(v).cls == 'ndarray' and isinstance(ex.obj(v).pay, Seq)]
        if j >= len(arrs):
            return None
        a = ex.obj(arrs[j]).pay
        if isinstance(a.n, int):
            return None
        return And(eq(a.n, add(n, 1)), forall(add(Lp.it, 1), lambda t: And(Not(f_isnan(flt(a.get(t)))), f_lt(flt(a.get(t)), PINF), elin(a.get(t)) == W(t))))
    return f


def exp_split(ex, t):
    """exp(a - b) exp(b) = exp(a), for the differences in t"""
    todo, n = [t], 0
    while todo and n < 40:
        x = todo.pop()
        n += 1
        a = b = None
        if z3.is_sub(x) and x.num_args() == 2:
            a, b = x.children()
        elif z3.is_add(x) and x.num_args() == 2:
            a, m = x.children()
            if z3.is_app_of(m, z3.Z3_OP_UMINUS):
                b = m.arg(0)
            elif z3.is_mul(m) and m.num_args() == 2 and z3.is_rational_value(m.arg(0)) and m.arg(0).as_fraction() == -1:
                b = m.arg(1)
        if b is not None:
            ex.assume(z3.And(EXP(x) * EXP(b) == EXP(a), EXP(x) > 0, EXP(a) > 0, EXP(b) > 0))
        todo += x.children()


def digitize_c(ex, x, bins, right=False):
    """numpy.digitize, its precondition proved step by step"""
    W, n, w = ex.c10
    b = npmodel.arr(ex, bins)
    ex.prove(eq(b.n, add(n, 1)), 'one bin edge per row, and the closing one')
    k = ex.fresh_int('edge', lo=0)
    ex.assume(le(k, n))
    e, last = flt(b.get(k)), flt(b.get(n))
    exp_split(ex, z3.simplify(e.zr()))
    exp_split(ex, z3.simplify(last.zr()))
    exp_split(ex, e.zr())
    ex.prove(And(Not(f_isnan(e)), f_lt(e, PINF)), 'every edge is the logarithm of a number')
    ex.prove(elin(e) * W(n) == W(k), 'the edges are the normalised partial sums of the weights')
    fact = lambda v, i: And(Not(f_isnan(flt(v))), f_lt(flt(v), PINF), elin(v) * W(n) == W(i))
    q = ex.fresh_seq('edges', add(n, 1), KFlt(False))          # all that is used of the edges from here on
    ex.assume(forall(add(n, 1), lambda i: And(fact(q.get(i), i), f_same(q.get(i), b.get(i)))))
    i = ex.fresh_int('i', lo=0)
    ex.assume(lt(i, n))
    v0, v1 = q.get(i), q.get(add(i, 1))
    ex.lemma('order of quotients', lambda a, b, t, x, y: z3.Implies(z3.And(a * t == x, b * t == y, t > 0, x <= y), a <= b), elin(v0), elin(v1), W(n), W(i), W(i + 1))
    ex.lemma('exp increases', lambda a, b: z3.Implies(EXP(a) <= EXP(b), a <= b), v0.zr(), v1.zr())
    ex.prove(f_le(v0, v1), 'the edges do not decrease')
    ex.assume(forall(n, lambda i: f_le(q.get(i), q.get(add(i, 1)))))
    ex.c10_edges = q
    r = npmodel.np_digitize(ex, x, npmodel.nparr(ex, q), right)
    ex.lemma('a product is zero', lambda a, t: z3.Implies(z3.And(a * t == 0, t > 0), a == 0), elin(q.get(0)), W(n))
    ex.prove(f_same(q.get(0), NINF), 'the first edge is the logarithm of zero')
    ex.lemma('a quotient is one', lambda a, t: z3.Implies(z3.And(a * t == t, t > 0), a == 1), elin(q.get(n)), W(n))
    ex.lemma('log one', lambda a: z3.Implies(EXP(a) == 1, a == 0), q.get(n).zr())
    ex.prove(f_same(q.get(n), flt(0)), 'the last edge is the logarithm of one')
    xs, rs = npmodel.arr(ex, x), npmodel.arr(ex, r)
    i = ex.fresh_int('i', lo=0)
    ex.assume(lt(i, xs.n))
    ex.prove(f_lt(flt(xs.get(i)), flt(0)), 'the logarithms of the numbers are negative')
    ex.prove(And(le(1, rs.get(i)), le(rs.get(i), n)), 'every number falls between two edges')
    ex.assume(forall(xs.n, lambda i: And(le(1, rs.get(i)), le(rs.get(i), n))))
    return r


def t_draw(ex):
    n = ex.fresh_int('n', lo=1)
    T, d = table(ex, 'chain', n)
    w = weights(ex, n)
    N = ex.fresh_int('N', lo=0)
    W = psum(ex, lambda i: elin(w.get(i)), 'W')
    ex.c10 = (W, n, w)
    a = ex.fresh_int('positive', lo=0)
    ex.assume(And(lt(a, n), f_lt(NINF, w.get(a))))
    induct(ex, n, lambda i: And(W(i) >= 0, Implies(i > a, W(i) > 0)), 'the partial sums are not negative', pats=lambda k: W(k))
    ex.prove(W(n) > 0, 'the total is positive')
    induct(ex, sub(n, 1), lambda i: W(i) <= W(i + 1), 'the partial sums do not decrease', pats=lambda k: W(k + 1))
    wa = npmodel.nparr(ex, w)
    r = noraise(ex, lambda: call_real(ex, Q + 'draw_N_posterior', [d, wa, N]), 'draw_N_posterior')
    c, idx = rows(ex, r, T, 'draw_N_posterior')
    ex.prove(eq(c, N), 'exactly the requested number of rows')
    if ex.branch(eq(N, 0)):
        return
    i = ex.fresh_int('i', lo=0)
    ex.assume(lt(i, N))
    g = ex.st.ghost
    dr = g.get('_draws', ())
    if len(dr) != 1 or dr[0][0] != 'uniforms' or g.get('_families'):
        raise Unsupported('draws of draw_N_posterior')
    lo, hi = g['_ranges'][0]
    f, m = dr[0][1]
    ex.prove(And(f_same(lo, flt(0)), f_same(hi, flt(1)), eq(m, N)), 'one uniform number in [0, 1) for each row asked for')
    k = ex.fresh_int('k')
    ex.assume(eq(k, idx(i)))
    ex.prove(And(le(0, k), lt(k, n)), 'every result is a row of the chain')
    u = f(zi(i))
    q = getattr(ex, 'c10_edges', None)
    if q is not None:
        for t in (k, add(k, 1)):
            ex.lemma('log of the number', lambda a, u: z3.Implies(u > 0, (a <= LOG(u)) == (EXP(a) <= u)), q.get(t).zr(), u)
            ex.lemma('number in reference to the total', lambda e, t, w, u: z3.Implies(z3.And(e * t == w, t > 0), (e <= u) == (w <= u * t)), elin(q.get(t)), W(n), W(t), u)
    ex.prove(W(k) <= u * W(n), 'the uniform number is not below the interval of the row chosen')
    ex.prove(u * W(n) < W(k + 1), 'the uniform number is below the end of the interval of the row chosen')
    ex.prove(And(eq(npmodel.arr(ex, wa).n, n), forall(n, lambda q: f_same(npmodel.arr(ex, wa).get(q), w.get(q)))), 'the weights are not changed')


def draw_c(ex, data, log_wts, N, *a, **k):
    """draw_N_posterior, by contract (proved above): exactly N rows of the chain"""
    s, q = ex.obj(data).pay, npmodel.arr(ex, log_wts)
    ex.prove(le(0, N), 'a number of rows that is not negative')
    m = ex.fresh_fn('row', z3.IntSort())
    ex.assume_forall(lambda j: z3.Implies(z3.And(j >= 0, j < zi(N)), z3.And(m(j) >= 0, m(j) < zi(s.n))), pattern=lambda j: m(j))
    ex.c10_drawn.append((data, q, N, m))
    return ex.new('recarr', pay=Seq(N, lambda j: s.get(m(zi(j)))), meta={})


def t_many(K):
    def run(ex):
        ex.c09_runs, ex.c10_drawn = [], []
        ns, base, ds, lv = [], [], [], []
        T, off = RecTable('chain'), 0
        for r in range(K):
            n = ex.fresh_int('n%d' % r, lo=1)
            ns.append(n), base.append(off), lv.append(ex.fresh_int('Nlive%d' % r, lo=2))
            ds.append(ex.new('recarr', pay=Seq(n, lambda i, o=off: RecRow(T, add(o, i))), meta={}))
            off = add(off, n)
        P = ex.fresh_int('Npost', lo=0)
        res = noraise(ex, lambda: call_real(ex, Q + 'draw_N_posterior_many', [ex.new_list(Seq.of(ds)), ex.new_list(Seq.of(lv)), P]), 'draw_N_posterior_many')
        what = 'runs combined'
        ok = len(ex.c09_runs) == K and len(ex.c10_drawn) == K
        ex.prove(ok, what + ': each run is weighted and drawn from once')
        if not ok:
            raise E.PathEnd()
        out = ex.obj(res).pay
        ev = [x[0].zr() for x in ex.c09_runs]
        Z = [EXP(x) for x in ev]
        S = sum(Z[1:], Z[0])
        off = 0
        for r in range(K):
            e, w, s, nl = ex.c09_runs[r]
            i = ex.fresh_int('i', lo=0)
            ex.assume(lt(i, ns[r]))
            ex.prove(And(eq(s.n, ns[r]), f_same(s.get(i), T.field(ex, 'logL', add(base[r], i))), eq(nl, lv[r])), what + ': each run is weighted with its own likelihoods and number of live points')
            d, q, N, m = ex.c10_drawn[r]
            ex.prove(d.id == ds[r].id if isinstance(d, Ref) else False, what + ': each run is drawn from its own chain')
            ex.prove(And(eq(q.n, ns[r]), f_same(q.get(i), w.get(i))), what + ': each run is drawn from with its own weights')
            NR, P_ = z3.ToReal(zi(N)), z3.ToReal(zi(P))
            ex.prove(z3.And(2 * (NR * S - P_ * Z[r]) <= S, 2 * (P_ * Z[r] - NR * S) <= S), what + ': a run contributes its share of the total evidence, rounded')
            j = ex.fresh_int('j', lo=0)
            ex.assume(lt(j, N))
            x = out.get(add(off, j))
            if not (isinstance(x, RecRow) and x.table is T):
                raise Unsupported('rows of draw_N_posterior_many')
            ex.prove(eq(x.i, add(base[r], m(j))), what + ': the rows drawn from each run, run after run')
            off = add(off, N)
        ex.prove(eq(out.n, off), what + ': all rows are returned')
    return run


def targets(tier):
    return [Target(Q + 'draw_N_posterior', t_draw, covers=(Q + 'draw_N_posterior',), externals=dict(externals(), **{'numpy.digitize': lib.Fn(digitize_c)}), opts={'nl': True},
                   pool=[('partial sums %d' % j, cand_cum(j)) for j in range(4)])] + [
        Target(Q + 'draw_N_posterior_many[%d]' % K, t_many(K), covers=(Q + 'draw_N_posterior_many',), externals=externals(), opts={'nl': True},
               contracts={Q + 'compute_weights': weights_c, Q + 'draw_N_posterior': draw_c}) for K in (1, 2, 3)]


ASSUMES = ['at least one row; log weights neither nan nor +inf, at least one above -inf']
BOUNDED = ['draw_N_posterior_many: proved for one, two and three runs (the number of runs is bounded; chains, weights and the number of rows asked for are not)']
