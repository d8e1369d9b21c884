"""HamiltonianMonteCarloSampler.yield_sample"""
from .kern import *

KL = 'HamiltonianMonteCarloSampler'


class Inner(Model):
    """a proposal of the cycle, when its step size or length is tuned"""
    def py_getattr(self, ex, name):
        if name in ('update_time_step', 'update_trajectory_length'):
            return Fn(lambda ex, v: None)
        raise Unsupported('proposal.' + name)

    def same(self, o):
        return isinstance(o, Inner)

    def subst(self, m):
        return self


class HProposal(Model):
    """a Hamiltonian proposal, by contract (proved for ConstrainedLeapFrog): a point carrying its own likelihood and prior;
    zero prior at the point makes the acceptance log-probability -inf or nan"""
    def py_getattr(self, ex, name):
        if name == 'get_sample':
            def go(ex, p, logLmin=None, **kw):
                k, gh = ex.k, ex.st.ghost
                k.private(p, 'the proposal is given a copy, not a point held elsewhere')
                k.P('C13', ex.lp_vals(p) == gh['cur'], 'the trajectory starts at the current point')
                ex.prove(logLmin is not None and f_same(flt(logLmin), k.th), 'the trajectory is given the current threshold')
                q = p if ex.choose(2) else ex.new_lp()
                v = z3.Const(ex._n('proposed'), A)
                ex.assume(z3.And(LK(v) >= -1, LK(v) <= 0, PK(v) >= -1, PK(v) <= 0))
                ex.lp_set(q, 'vals', v)
                ex.lp_set(q, 'logL', LL(v))
                ex.lp_set(q, 'logP', PP(v))
                j = ex.fresh_flt('logJ')
                ex.assume(z3.And(z3.Implies(PK(v) == -1, zb(Or(f_isnan(j), f_same(j, NINF)))), zb(Not(f_same(j, PINF)))))
                gh['new'], gh['lj'] = v, j
                gh['nprop'] = add(gh['nprop'], 1)
                gh['nu'] = 0
                gh['qref'] = q
                return q
            return Fn(go)
        if name == 'log_J':
            return ex.st.ghost['lj']
        if name == 'proposals':
            return ex.new_list(ex.fresh_seq('proposals', ex.fresh_int('nproposals', lo=0), KMod(lambda i: Inner(), lambda v: z3.IntVal(0))))
        raise Unsupported('proposal.' + name)

    def same(self, o):
        return isinstance(o, HProposal)


def passes(k, gh):
    return zb(And(f_lt(SFlt(LOG(gh['u'])), gh['lj']), f_lt(k.th, LL(gh['new']))))


class HMC(Kernel):
    def record(self, p):
        ex = self.ex
        gh = ex.st.ghost
        ex.prove(eq(gh['nrec'], 0), 'one point is recorded per request')
        gh['nrec'] = 1
        v = ex.lp_vals(p)
        self.P('C13', And(passes(self, gh), v == gh['new']), 'the recorded point is a proposal that was acceptable and above the threshold')
        self.P('C25', And(self.own(p), f_isfinite(ex.lp_get(p, 'logP')), f_lt(self.th, ex.lp_get(p, 'logL'))), 'the accepted point carries its own likelihood and prior, is in the prior and above the threshold')
        gh['recref'] = p
        gh['amax'] = LL(v)
        if self.prop == 'C25':
            self.put('good', p)


def on_draw(ex, kind, v):
    gh = ex.st.ghost
    ex.prove(kind == 'uniform', 'only uniform numbers are drawn')
    gh['u'] = v.zr()
    gh['nu'] = add(gh['nu'], 1)
    ex.prove(eq(gh['nu'], 1), 'one uniform number per proposal')


def run(prop):
    def go(ex):
        k = HMC(ex, prop, KL)
        k.setup(ex.fresh_int('poolsize', lo=1), proposal=HProposal())
        gh = ex.st.ghost
        p0 = k.pool0.get(sub(k.n, 1))
        gh['cur'] = ex.lp_vals(p0)
        gh['new'] = z3.Const('no proposal yet', A)
        gh['nprop'] = gh['nu'] = gh['nrec'] = 0
        gh['u'], gh['lj'] = z3.RealVal(1) / 2, NINF
        c, p = k.run()
        o = ex.obj(k.me)
        gh = ex.st.ghost
        pool = ex.obj(o.attrs['evolution_points']).pay
        a0, n = k.a0, k.n
        ex.prove(eq(gh['nrec'], 1), 'a point is recorded')
        k.P('C13 C25', eq(p.ref, gh['recref'].ref), 'the recorded point is returned')
        k.P('C13', eq(c, gh['nprop']), 'the number of proposals is returned')
        k.P('C13 C25', eq(pool.n, n), 'the pool keeps its size')
        k.P('C13 C25', eq(pool.get(sub(n, 1)).ref, p.ref), 'the point goes back into the pool')
        k.P('C13 C25', forall(sub(n, 1), lambda i: eq(pool.get(i).ref, k.pool0.get(i).ref)), 'the other pool points stay')
        k.P('C24', f_le(gh['amax'], gh['lmax']), 'the shared maximum is at least the likelihood of the accepted point')
        k.P('C25', And(k.own(p), f_isfinite(ex.lp_get(p, 'logP')), f_lt(k.th, ex.lp_get(p, 'logL'))), 'the returned point still carries its own likelihood and prior')
    return go


def cand_acc(L, v):
    """either still searching (and where we started), or the last proposal was accepted and kept"""
    ex = L.ex
    gh = g(L)
    k = ex.k
    lp = lps(L)
    out = [le(0, v), z3.Implies(zi(v) > 0, z3.And(passes(k, gh), gh['nprop'] >= 1)) if not isinstance(gh['nprop'], int) or gh['nprop'] else eq(v, 0)]
    return And(*out)


def cand_pt(L, p):
    ex = L.ex
    gh = g(L)
    k = ex.k
    v = ex.lp_vals(p)
    cur = z3.And(v == gh['cur'], zi(p.ref) == zi(k.pool0.get(sub(k.n, 1)).ref))
    new = z3.And(v == gh['new'], passes(k, gh), zb(k.own(p)), PK(v) == 0)
    return z3.Or(*[z3.If(zi(i) == 0, cur, new) for i in ints(L)][:1]) if ints(L) else cur


def by_int(q):
    def c(L, p):
        ex = L.ex
        gh = g(L)
        k = ex.k
        xs = ints(L)
        if q >= len(xs) or not lib.isint(xs[q]):
            return None
        v = ex.lp_vals(p)
        cur = z3.And(v == gh['cur'], zi(p.ref) == zi(k.pool0.get(sub(k.n, 1)).ref))
        new = z3.And(v == gh['new'], passes(k, gh), zb(k.own(p)), PK(v) == 0)
        return z3.If(zi(xs[q]) == 0, cur, new)
    return c


def covers_new(q):
    def c(L, x):
        xs = ints(L)
        if q >= len(xs) or not lib.isint(xs[q]):
            return None
        return And(Not(f_isnan(x)), Implies(Not(eq(xs[q], 0)), f_le(LL(g(L)['new']), x)))
    return c


def target(prop):
    pool = COMMON + every('proposals', ints, lambda L, v: eq(v, g(L)['nprop'])) + [('counts', lambda L: And(le(0, g(L)['nprop']), eq(g(L)['nrec'], 0)))]
    for q in range(3):
        pool += every('the chain is here unless int %d' % q, lps, by_int(q)) + every('covers the accepted if int %d' % q, flts, covers_new(q))
    return Target(S + KL + '.yield_sample', run(prop), pool=pool, externals={'on_draw': on_draw}, opts={'lpres': True}, budget=400)
