"""C29: resampled MCMC chains."""
from .sums import *
from .ns import *
from .c09 import rows, Q
from pyvc.npmodel import RecTable, RecRow, DTypeVal

SHAPES = [('x', 'logL', 'logPrior'), ('x', 'y', 'logL', 'logPrior'), ('logPrior', 'x', 'logL', 'y', 'z')]


def on_draw(ex, kind, v):
    """ghost: the numbers drawn, and the row whose turn it is when the next slot of the output is free"""
    g = ex.st.ghost
    if kind != 'uniform' or 'c29_n' not in g:
        return
    c = g['c29_n']
    g['c29_U'] = z3.Store(g['c29_U'], c, v.zr())
    for j, o in enumerate(outs(ex)):
        if j < 2:
            g['c29_S%d' % j] = z3.Store(g['c29_S%d' % j], zi(ex.obj(o).pay.n), c + 1)
            g['c29_P%d' % j] = z3.Store(g['c29_P%d' % j], c + 1, zi(ex.obj(o).pay.n))
    g['c29_n'] = c + 1


def outs(ex):
    """the local lists of rows"""
    env = ex.frames[-1].env
    out = []
    for k, v in sorted(env.items()):
        if isinstance(v, Ref) and ex.obj(v).cls == 'list' and isinstance(ex.obj(v).pay, Seq):
            s = ex.obj(v).pay
            if isinstance(s.n, int) and s.n == 0:
                continue
            x = s.get(0)
            if isinstance(x, RecRow):
                out.append(v)
    return out


def tables(ex):
    env = ex.frames[-1].env
    return [v for k, v in sorted(env.items()) if isinstance(v, Ref) and ex.obj(v).cls == 'recarr' and isinstance(ex.obj(v).pay, Seq)]


def keep(ex, c, i, u):
    """the gain of row i of c over its predecessor exceeds log u"""
    T = ex.c29
    post = lambda q: T.field(ex, 'logL', c.get(q).i).zr() + T.field(ex, 'logPrior', c.get(q).i).zr()
    return z3.Or(u == 0, post(i) - post(sub(i, 1)) > LOG(u))


def cand(which, j, t):
    def f(L):
        ex = L.ex
        g = ex.st.ghost
        if 'c29_n' not in g:
            return None
        os_, ts = outs(ex), tables(ex)
        if j >= len(os_) or t >= len(ts):
            return None
        o, c = ex.obj(os_[j]).pay, ex.obj(ts[t]).pay
        n, U, S, P = g['c29_n'], g['c29_U'], g['c29_S%d' % j], g['c29_P%d' % j]
        m = zi(o.n)
        row = lambda s, i: zi(s.get(i).i)
        if which == 'turn':
            return n == zi(L.it)
        if which == 'numbers':
            return forall(n, lambda i: z3.And(U[i] >= 0, U[i] < 1))
        if which == 'first':
            return And(m >= 1, eq(row(o, 0), row(c, 0)))
        if which == 'from':
            return forall(m, lambda i: z3.And(S[i] >= 1, S[i] <= n), lo=1)
        if which == 'rows':
            return forall(m, lambda i: row(o, i) == row(c, S[i]), lo=1)
        if which == 'only':
            return forall(m, lambda i: keep(ex, c, S[i], U[S[i] - 1]), lo=1)
        if which == 'order':
            return forall2(m, lambda a, b: S[a] < S[b], lo=1)
        if which == 'all':
            return forall(add(n, 1), lambda i: z3.Implies(keep(ex, c, i, U[i - 1]), z3.And(P[i] >= 1, P[i] < m, S[P[i]] == i)), lo=1)
    return f


POOL = [('%s %d %d' % (w, j, t), cand(w, j, t)) for w in ('turn', 'numbers', 'first', 'from', 'rows', 'only', 'order', 'all') for j in (0, 1) for t in (0, 1)]


def acl_c(ex, x, *a, **k):
    s = npmodel.arr(ex, x)
    v = ex.fresh_flt('acl%d' % len(ex.c29_acl), fin=True)
    ex.assume(v.zr() >= 1)
    ex.c29_acl.append((s, v))
    return v


def t_resample(names, burn):
    def run(ex):
        n = ex.fresh_int('n', lo=1)
        T = ex.c29 = RecTable('mcmc')
        ex.c29_acl = []
        d = ex.new('recarr', pay=Seq(n, lambda i: RecRow(T, i)), meta={'dtypeval': DTypeVal(names)})
        g = ex.st.ghost
        g['c29_n'] = z3.IntVal(0)
        g['c29_U'] = z3.Const('U', z3.ArraySort(z3.IntSort(), z3.RealSort()))
        for j in (0, 1):
            g['c29_S%d' % j] = z3.Const('S%d' % j, z3.ArraySort(z3.IntSort(), z3.IntSort()))
            g['c29_P%d' % j] = z3.Const('P%d' % j, z3.ArraySort(z3.IntSort(), z3.IntSort()))
        r = noraise(ex, lambda: call_real(ex, Q + 'resample_mcmc_chain', [d], {'burnin': burn}), 'resample_mcmc_chain')
        g = ex.st.ghost
        start = lib.binop(ex, __import__('ast').FloorDiv(), n, 2) if burn else 0
        left = sub(n, start)
        # the thinning length
        par = [x for x in names if x not in ('logL', 'logPrior')]
        ok = len(ex.c29_acl) == len(par)
        ex.prove(ok, 'one autocorrelation length for each parameter, none for the likelihood and prior columns')
        if not ok:
            raise E.PathEnd()
        i = ex.fresh_int('i', lo=0)
        ex.assume(lt(i, left))
        for p, (s, v) in zip(par, ex.c29_acl):
            ex.prove(And(eq(s.n, left), f_same(s.get(i), T.field(ex, p, add(start, i)))), 'the autocorrelation length is that of the parameter over the chain that is kept')
        c, idx = rows(ex, r, T, 'resample_mcmc_chain')
        k = g.get('_c29_step')
        pm = g.get('_perm')
        if k is None or pm is None:
            raise Unsupported('thinning of resample_mcmc_chain')
        k, m, atf = k
        mx = ex.c29_acl[0][1].zr()
        for _, v in ex.c29_acl[1:]:
            mx = z3.If(v.zr() > mx, v.zr(), mx)
        ex.prove(z3.And(2 * (z3.ToReal(zi(k)) - mx) <= 1, 2 * (mx - z3.ToReal(zi(k))) <= 1), 'the thinning length is the rounded largest autocorrelation length')
        p, q = pm
        RN = g.get('_perm_rows')
        if RN is None:
            raise Unsupported('shuffling of resample_mcmc_chain')
        ex.prove(le(1, c), 'at least one row')
        # the output is read off the ghost record of the loop
        good = []
        for j in (0, 1):
            S, P, U = g['c29_S%d' % j], g['c29_P%d' % j], g['c29_U']
            a = ex.fresh_int('a', lo=0)
            src = lambda a: z3.If(zi(a) == 0, z3.IntVal(0), S[zi(a)])
            good.append((S, P, U, src))
        S, P, U, src = good[0]
        ex.prove(g['c29_n'] == zi(m) - 1, 'a fresh number for each row after the first')
        a = ex.fresh_int('a', lo=0)
        ex.assume(lt(a, c))
        ex.prove(z3.And(src(a) >= 0, src(a) < zi(m)), 'each row returned has its place in the thinned chain')
        at = lambda j: zi(add(atf(p(zi(j))), start))
        ex.prove(idx(a) == RN(src(a)), 'each row returned is a row of the shuffled chain')
        ex.prove(idx(a) == at(src(a)), 'each row returned is a row of the thinned chain')
        ex.prove(And(le(start, at(src(a))), lt(at(src(a)), n)), 'rows come from the part of the chain that is kept')
        b = ex.fresh_int('b', lo=0)
        ex.assume(And(lt(a, b), lt(b, c)))
        ex.prove(src(a) < src(b), 'no place is used twice')
        ex.prove(p(src(a)) != p(src(b)), 'no row of the thinned chain is used twice')
        ex.lemma('multiples differ', lambda x, y, k: z3.Implies(z3.And(k >= 1, x != y), x * k != y * k), p(src(a)), p(src(b)), zi(k))
        ex.prove(idx(a) != idx(b), 'no row is returned twice')
        rule = lambda i: z3.Or(U[i - 1] == 0, post(i) - post(i - 1) > LOG(U[i - 1]))
        post = lambda j: T.field(ex, 'logL', RN(j)).zr() + T.field(ex, 'logPrior', RN(j)).zr()
        ex.prove(z3.And(U[zi(b) * 0 + src(b) - 1] >= 0, U[src(b) - 1] < 1), 'the numbers are in [0, 1)')
        sb = S[zi(b)]
        ex.prove(src(b) == sb, 'the place of a later row')
        ex.prove(z3.Implies(U[sb - 1] != 0, post(sb) - post(sb - 1) > LOG(U[sb - 1])),
                 'a later row is kept only by the rule')
        ex.prove(z3.And(RN(sb) == at(sb), RN(sb - 1) == at(sb - 1)), 'the shuffled chain holds the thinned rows')
        ex.prove(rule(src(b)), 'a later row is kept only if its gain over its predecessor exceeds the log of its number')
        i2 = ex.fresh_int('i', lo=1)
        ex.assume(lt(i2, m))
        ex.prove(Implies(rule(i2), z3.And(P[i2] >= 1, P[i2] < zi(c), S[P[i2]] == i2)), 'a later row is kept if its gain over its predecessor exceeds the log of its number')
    return run


def step_hook(ex, n, step, m, at):
    ex.st.ghost['_c29_step'] = (step, m, at)


def t_acl(ex):
    n = ex.fresh_int('n', lo=1)
    x = npmodel.nparr(ex, ex.fresh_seq('x', n, KFlt(False)))
    r = noraise(ex, lambda: call_real(ex, Q + 'acl', [x]), 'acl')
    r = flt(lib.as_num(r))
    ex.prove(And(f_isfinite(r), r.zr() >= 1), 'an autocorrelation length is finite and at least one')


def corr_c(ex, x):
    s = npmodel.arr(ex, x)
    return npmodel.nparr(ex, ex.fresh_seq('acf', s.n, KFlt(True)))


def above_one(name):
    def f(L):
        v = L.ex.frames[-1].env.get(name)
        return And(f_isfinite(flt(lib.as_num(v))), flt(lib.as_num(v)).zr() >= 1) if isinstance(v, (SFlt, int, float)) and not isinstance(v, bool) else None
    return f


def targets(tier):
    return [Target(Q + 'acl', t_acl, covers=(Q + 'acl',), contracts={Q + 'autocorrelation': corr_c}, externals=externals(),
                   pool=[('local %d at least one' % j, (lambda j: lambda L: above_one((sorted(k for k, v in L.ex.frames[-1].env.items() if isinstance(v, (SFlt, int))) + [''] * 9)[j])(L))(j)) for j in range(5)])] + [Target(Q + 'resample_mcmc_chain[%s%s]' % (' '.join(s), ', burn-in' if b else ''), t_resample(s, b), covers=(Q + 'resample_mcmc_chain',), pool=POOL,
                   contracts={Q + 'acl': acl_c}, externals=dict(externals(), on_draw=on_draw, on_step=step_hook)) for s in SHAPES for b in (False, True)]


ASSUMES = ['acl: a finite number not below 1 (proved: target acl), given that the autocorrelation function has finite values']
BOUNDED = ['resample_mcmc_chain: proved for the column layouts %s (the length and the contents of the chain are not bounded)' % (SHAPES,)]
