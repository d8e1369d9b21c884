"""C09: posterior draws without repetition."""
from .sums import *
from .ns import *
from . import c06
from .c06 import elin
from .c07 import log_seq
from pyvc.npmodel import RecTable, RecRow
from pyvc.comp import subst

Q = 'cpnest.nest2pos.'


def table(ex, name, n):
    """a record array of n rows, each with its own identity"""
    T = RecTable(name)
    return T, ex.new('recarr', pay=Seq(n, lambda i: RecRow(T, i)), meta={})


def weights(ex, n, name='logw'):
    """logs of weights, not all zero"""
    w = log_seq(ex, name, n)
    a = ex.fresh_int('some', lo=0)
    ex.assume(And(lt(a, n), f_lt(NINF, w.get(a))))
    return w


def rows(ex, r, T, what):
    """the row numbers of a result made of rows of T"""
    s = ex.obj(r).pay if isinstance(r, Ref) else None
    if not isinstance(s, Seq):
        raise Unsupported('result of ' + what)

    def idx(j):
        x = s.get(j)
        if not (isinstance(x, RecRow) and x.table is T):
            raise Unsupported('rows of ' + what)
        return zi(x.i)
    return s.n, idx


def uniforms(ex, n, what, mark=(0, 0)):
    """the uniform numbers drawn, one for each of n rows: row -> number"""
    g = ex.st.ghost
    ds, fam = g.get('_draws', ())[mark[0]:], g.get('_families', ())[mark[1]:]
    if len(ds) == 1 and not fam and ds[0][0] == 'uniforms':
        lo, hi = g['_ranges'][mark[0]]
        ex.prove(And(f_same(lo, flt(0)), f_same(hi, flt(1))), what + ': the numbers are uniform in [0, 1)')
        f, m = ds[0][1]
        ex.prove(eq(m, n), what + ': one uniform number for each row')
        return lambda j: f(zi(j))
    if len(fam) == 1 and not ds:
        m, i, per = fam[0]
        ex.prove(eq(m, n), what + ': one uniform number for each row')
        ok = all(len(d) == 1 and d[0][0] == 'uniform' for _, d in per)
        ex.prove(ok, what + ': one uniform number for each row')
        if not ok:
            raise E.PathEnd()
        v = per[-1][1][0][1].zr()
        for p, d in reversed(per[:-1]):
            v = z3.If(zb(p), d[0][1].zr(), v)
        lo, hi = 0, 1
        j = ex.fresh_int('row', lo=0)
        ex.assume(lt(j, n))
        u = z3.substitute(v, (i, j))
        ex.prove(z3.And(u >= 0, u < 1), what + ': the numbers are in [0, 1)')
        return lambda j: z3.substitute(v, (i, zi(j)))
    ex.prove(not ds and not fam, what + ': one uniform number for each row')
    raise Unsupported('draws of ' + what)


def log_rule(ex, a, m, u):
    """for u in [0, 1) and finite m: a - m > log u (log 0 = -inf)  <=>  exp a > u exp m"""
    d = a.zr() - m.zr()
    ex.assume(EXP(d) * EXP(m.zr()) == EXP(a.zr()))
    ex.lemma('comparison of logarithms', lambda x, y, ex_, ey, ed, u, lu: z3.Implies(
        z3.And(ex_ > 0, ey > 0, ed > 0, ed * ey == ex_, z3.Implies(u > 0, (x - y > lu) == (ed > u))),
        z3.And(z3.Implies(u > 0, (x - y > lu) == (ex_ > u * ey)), z3.Implies(u == 0, ex_ > u * ey))),
        a.zr(), m.zr(), EXP(a.zr()), EXP(m.zr()), EXP(d), u, LOG(u))
    ex.lemma('exp above a number', lambda d, u: z3.Implies(u > 0, (d > LOG(u)) == (EXP(d) > u)), d, u)


def t_draw(ex):
    n = ex.fresh_int('n', lo=1)
    T, d = table(ex, 'chain', n)
    w = weights(ex, n)
    wa = npmodel.nparr(ex, w)
    r = noraise(ex, lambda: call_real(ex, Q + 'draw_posterior', [d, wa]), 'draw_posterior')
    c, idx = rows(ex, r, T, 'draw_posterior')
    U = uniforms(ex, n, 'draw_posterior')
    m = ex.fresh_int('best', lo=0)          # the largest weight: there is one
    ex.assume(And(lt(m, n), forall(n, lambda i: f_le(w.get(i), w.get(m)))))
    keep = lambda i: elin(w.get(i)) > U(i) * elin(w.get(m))
    g = ex.st.ghost
    if g.get('_argmax') is not None:
        x = zi(g['_argmax'])
        ex.prove(And(le(0, x), lt(x, n)), 'the maximum is a weight')
        ex.prove(f_same(w.get(x), w.get(m)), 'the maximum is the largest weight')
    some = w.get(m)
    ex.prove(f_isfinite(some), 'the largest weight is positive')
    i, j = ex.fresh_int('i', lo=0), ex.fresh_int('j', lo=0)
    ex.assume(And(lt(i, n), lt(j, c)))
    ex.prove(And(le(0, idx(j)), lt(idx(j), n)), 'every result is a row of the chain')
    r0 = ex.fresh_int('r')
    ex.assume(eq(r0, idx(j)))
    wit = lambda i: Or(*[z3.And(v(zi(i)) >= 0, v(zi(i)) < zi(c), idx(v(zi(i))) == i) for _, v, _ in g.get('_filters', ())])
    for q in (r0, i, m):
        log_rule(ex, w.get(q), some, U(q))
    ex.prove(keep(r0), 'a row is kept only if its weight relative to the largest exceeds its uniform number')
    ex.prove(Implies(keep(i), wit(i)), 'a row whose weight relative to the largest exceeds its uniform number is kept')
    ex.prove(keep(m), 'the largest weight exceeds its uniform number')
    ex.prove(wit(m), 'the row of largest weight is kept')
    k = ex.fresh_int('k', lo=0)
    ex.assume(And(lt(j, k), lt(k, c)))
    ex.prove(lt(idx(j), idx(k)), 'rows are in order and none is returned twice')
    ex.prove(And(eq(npmodel.arr(ex, wa).n, n), forall(n, lambda q: f_same(npmodel.arr(ex, wa).get(q), w.get(q)))), 'the weights are not changed')
    ex.prove(And(eq(ex.obj(d).pay.n, n), forall(n, lambda q: eq(ex.obj(d).pay.get(q).i, q))), 'the chain is not changed')


def targets(tier):
    return [Target(Q + 'draw_posterior', t_draw, covers=(Q + 'draw_posterior',), externals=externals(), opts={'nl': True})]


ASSUMES = ['at least one row; log weights neither nan nor +inf, at least one above -inf']


def weights_c(ex, data, Nlive):
    """compute_weights, by contract (C08): a finite log evidence and one log weight per row"""
    s = npmodel.arr(ex, data)
    k = len(ex.c09_runs)
    ev = ex.fresh_flt('ev%d' % k, fin=True, npy=True)
    w = weights(ex, s.n, 'lw%d' % k)
    ex.c09_runs.append((ev, w, s, Nlive))
    return (ev, npmodel.nparr(ex, w))


def draw_c(ex, data, log_wts, *a, **k):
    """draw_posterior, by contract (proved above): some of the rows, in order"""
    s = ex.obj(data).pay
    q = npmodel.arr(ex, log_wts)
    ex.prove(eq(q.n, s.n), 'as many weights as rows')
    ex.c09_drawn.append((data, q))
    n = ex.fresh_int('kept', lo=1)
    ex.assume(le(n, s.n))
    m = ex.fresh_fn('row', z3.IntSort())
    ex.assume_forall(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(m(j) >= 0, m(j) < zi(s.n))), pattern=lambda j: m(j))
    ex.assume_forall(lambda j, k: z3.Implies(z3.And(0 <= j, j < k, k < n), m(j) < m(k)), n=2, pattern=lambda j, k: (m(j), m(k)))
    r = ex.new('recarr', pay=Seq(n, lambda j: s.get(m(zi(j)))), meta={})
    ex.c09_posts.append((n, m, ex.obj(r).pay))
    return r


def t_many(K):
    def run(ex):
        ex.c09_runs, ex.c09_drawn, ex.c09_posts = [], [], []
        ns, base, ds, lv = [], [], [], []
        T, off = RecTable('chain'), 0           # the rows of all runs, each with its own identity
        for r in range(K):
            n = ex.fresh_int('n%d' % r, lo=1)
            ns.append(n), base.append(off), lv.append(ex.fresh_int('Nlive%d' % r, lo=2))
            ds.append(ex.new('recarr', pay=Seq(n, lambda i, o=off: RecRow(T, add(o, i))), meta={}))
            off = add(off, n)
        res = noraise(ex, lambda: call_real(ex, Q + 'draw_posterior_many', [ex.new_list(Seq.of(ds)), ex.new_list(Seq.of(lv))]), 'draw_posterior_many')
        g = ex.st.ghost
        what = 'runs combined'
        ex.prove(len(ex.c09_runs) == K and len(ex.c09_drawn) == K, what + ': each run is weighted and drawn from once')
        if not (len(ex.c09_runs) == K and len(ex.c09_drawn) == K):
            raise E.PathEnd()
        for r in range(K):
            ev, w, s, N = ex.c09_runs[r]
            i = ex.fresh_int('i', lo=0)
            ex.assume(lt(i, ns[r]))
            ex.prove(And(eq(s.n, ns[r]), f_same(s.get(i), T.field(ex, 'logL', add(base[r], i))), eq(N, lv[r])), what + ': each run is weighted with its own likelihoods and number of live points')
            d, q = ex.c09_drawn[r]
            ex.prove(d.id == ds[r].id if isinstance(d, Ref) else False, what + ': each run is drawn from its own chain')
            ex.prove(And(eq(q.n, ns[r]), f_same(q.get(i), w.get(i))), what + ': each run is drawn from with its own weights')
        dr, fl = g.get('_draws', ()), g.get('_filters', ())
        ok = len(dr) == K and all(k == 'uniforms' for k, _ in dr) and not g.get('_families') and len(fl) == K
        if not ok:
            raise Unsupported('draws of draw_posterior_many')
        out = ex.obj(res).pay
        Z = [EXP(x[0].zr()) for x in ex.c09_runs]
        ev = [x[0].zr() for x in ex.c09_runs]
        nr = [z3.ToReal(zi(n)) for n in ns]
        if K > 1:       # in reference to the largest evidence
            top = lib.v_min(ex, [x[0] for x in ex.c09_runs], True).zr()
            zt = EXP(top)
            sh = [Z[r] / nr[r] for r in range(K)]
            for r in range(K):
                ex.assume(EXP(ev[r] - top) * zt == Z[r])
                ex.lemma('share in reference to the largest evidence', lambda e, zt, z, n: z3.Implies(z3.And(e * zt == z, zt > 0, n > 0), e / n == (z / n) / zt),
                         EXP(ev[r] - top), zt, Z[r], nr[r])
                for b in range(K):
                    if b != r:
                        ex.lemma('order of shares', lambda x, y, zt: z3.Implies(zt > 0, (x / zt <= y / zt) == (x <= y)), sh[r], sh[b], zt)
                        ex.lemma('order of shares, multiplied out', lambda z, n, w, m: z3.Implies(z3.And(n > 0, m > 0), (z / n <= w / m) == (z * m <= w * n)), Z[r], nr[r], Z[b], nr[b])
                    ex.lemma('the common reference cancels', lambda x, y, zt: z3.Implies(z3.And(x > 0, y > 0, zt > 0), (x / zt) / (y / zt) == x / y), sh[r], sh[b], zt)
        off = 0
        for r in range(K):
            f, cnt = dr[r][1]
            lo, hi = g['_ranges'][r]
            n, m, post = ex.c09_posts[r]
            ex.prove(And(f_same(lo, flt(0)), f_same(hi, flt(1)), eq(cnt, n)), what + ': one number in [0, 1) for each row drawn from a run')
            sel, pos, c = fl[r]
            j = ex.fresh_int('j', lo=0)
            ex.assume(lt(j, c))
            x = out.get(add(off, j))
            if not (isinstance(x, RecRow) and x.table is T):
                raise Unsupported('rows of draw_posterior_many')
            ex.prove(eq(x.i, add(base[r], m(sel(j)))), what + ': the rows kept of each run, run after run')
            for b in range(K):
                best = z3.And(*[Z[s] * nr[b] <= Z[b] * nr[s] for s in range(K)])
                rule = lambda p: f(p) * (Z[b] * nr[r]) < Z[r] * nr[b]
                p = ex.fresh_int('p', lo=0)
                ex.assume(lt(p, n))
                if K > 1:
                    for q in (sel(j), p):
                        ex.lemma('rule multiplied out', lambda u, z, n, w, m: z3.Implies(z3.And(n > 0, m > 0, w > 0, z > 0), (u < (z / n) / (w / m)) == (u * (w * n) < z * m)),
                                 f(q), Z[r], nr[r], Z[b], nr[b])
                ex.prove(Implies(best, rule(sel(j))), what + ': a row stays only if the share of its run exceeds its uniform number')
                ex.prove(Implies(And(best, rule(p)), z3.And(pos(p) >= 0, pos(p) < c, sel(pos(p)) == p)), what + ': a row stays if the share of its run exceeds its uniform number')
                if b == r:
                    ex.prove(Implies(best, z3.And(pos(p) >= 0, pos(p) < c, sel(pos(p)) == p)), what + ': the run of largest share loses no row')
            off = add(off, c)
        ex.prove(eq(out.n, off), what + ': all kept rows are returned')
    return run


def targets(tier):
    return [Target(Q + 'draw_posterior', t_draw, covers=(Q + 'draw_posterior',), externals=externals(), opts={'nl': True})] + [
        Target(Q + 'draw_posterior_many[%d]' % K, t_many(K), covers=(Q + 'draw_posterior_many',), externals=externals(), opts={'nl': True},
               contracts={Q + 'compute_weights': weights_c, Q + 'draw_posterior': draw_c}) for K in (1, 2, 3)]
BOUNDED = ['draw_posterior_many: proved for one, two and three runs (the number of runs is bounded; chains, weights and numbers of live points are not)',
           'the lines of CPNest.get_posterior_samples around the draw are only covered by replay/h09']
