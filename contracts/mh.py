"""MetropolisHastingsSampler.yield_sample"""
from .kern import *

KL = 'MetropolisHastingsSampler'


class MHProposal(Model):
    """any proposal: may move and return the point it is given, or return a new one (C14)"""
    def py_getattr(self, ex, name):
        if name == 'get_sample':
            def go(ex, p, **kw):
                k, gh = ex.k, ex.st.ghost
                k.private(p, 'the proposal is given a copy, not a point held elsewhere')
                k.P('C11', And(ex.lp_vals(p) == gh['cur']), 'the move starts at the current point')
                q = p if ex.choose(2) else ex.new_lp()
                v = z3.Const(ex._n('proposed'), A)
                ex.lp_set(q, 'vals', v)
                ex.lp_set(q, 'logL', ex.fresh_flt('junkL'))
                ex.lp_set(q, 'logP', ex.fresh_flt('junkP'))
                gh['new'] = v
                gh['nprop'] = add(gh['nprop'], 1)
                gh['lj'] = ex.fresh_real('logJ')
                return q
            return Fn(go)
        if name == 'log_J':
            return SFlt(ex.st.ghost['lj'])
        raise Unsupported('proposal.' + name)

    def same(self, o):
        return isinstance(o, MHProposal)


class MH(Kernel):
    def record(self, p):
        """one step ends: the chain is at p"""
        ex = self.ex
        gh = ex.st.ghost
        ex.prove(eq(gh['nprop'], add(gh['steps'], 1)), 'one move is tried per step')
        ex.prove(Or(eq(gh['nu'], add(gh['steps'], 1)), eq(gh['nu'], gh['steps'])), 'at most one uniform number is drawn per step')
        new, cur = gh['new'], gh['cur']
        if not self.prop == 'C24':
            for v in (new, cur):
                ex.assume(z3.And(LK(v) >= -1, LK(v) <= 0, PK(v) >= -1, PK(v) <= 0))
        if ex.known(eq(gh['nu'], gh['steps'])):
            u = ex.fresh_real('unused')
            ex.assume(z3.And(u > 0, u < 1))
            gh['u'] = u
            gh['nu'] = add(gh['nu'], 1)
        ratio = f_add(f_sub(PP(new), PP(cur)), SFlt(gh['lj']))
        acc = zb(And(f_lt(SFlt(LOG(gh['u'])), ratio), f_lt(self.th, LL(new))))
        v, l, pr = ex.lp_vals(p), ex.lp_get(p, 'logL'), ex.lp_get(p, 'logP')
        self.P('C11', z3.Implies(acc, v == new), 'an acceptable move is made')
        self.P('C11', z3.Implies(z3.Not(acc), v == cur), 'an unacceptable move is not made: the chain stays')
        self.P('C25', z3.Implies(acc, zb(self.own(p))), 'an accepted point carries the likelihood and prior of its own coordinates')
        self.P('C25', z3.Implies(z3.Not(acc), z3.And(v == cur, zb(f_same(l, gh['curL'])), zb(f_same(pr, gh['curP'])))), 'a point the chain stays at keeps its likelihood and prior')
        self.P('C25', z3.Implies(acc, zb(And(f_isfinite(pr), f_lt(self.th, l)))), 'an accepted point has non-zero prior and likelihood above the threshold')
        # for the remaining run the specified behaviour is taken as given
        ex.assume(z3.Implies(acc, v == new))
        ex.assume(z3.Implies(z3.Not(acc), v == cur))
        if self.prop == 'C25':
            ex.assume(z3.Implies(acc, zb(self.own(p))))
        gh['amax'] = f_ite(acc, f_max(gh['amax'], LL(new)), gh['amax'])
        gh['acc'] = i_ite(acc, add(gh['acc'], 1), gh['acc'])
        gh['steps'] = add(gh['steps'], 1)
        if self.prop == 'C25':
            self.put('good', p, acc)
        self.publish(p)
        gh['cur'], gh['curL'], gh['curP'] = v, l, pr
        gh['curref'] = p


def f_max(a, b):
    return f_ite(zb(f_lt(a, b)), b, a)


def on_draw(ex, kind, v):
    gh = ex.st.ghost
    ex.prove(kind == 'uniform', 'only uniform numbers are drawn')
    gh['u'] = v.zr()
    gh['nu'] = add(gh['nu'], 1)


def stop(ex, k, steps, acc):
    return z3.Or(z3.And(zi(steps) >= zi(k.a0['Nmcmc']), zi(acc) > 0), zi(steps) >= zi(k.a0['maxmcmc']))


def run(prop):
    def go(ex):
        k = MH(ex, prop, KL)
        k.setup(ex.fresh_int('poolsize', lo=1), proposal=MHProposal())
        gh = ex.st.ghost
        p0 = k.pool0.get(0)
        gh['curref'] = p0
        gh['cur'], gh['curL'], gh['curP'] = ex.lp_vals(p0), ex.lp_get(p0, 'logL'), ex.lp_get(p0, 'logP')
        ex.assume(PK(gh['cur']) == 0)       # points in the pool have non-zero prior (C25)
        gh['new'] = z3.Const('no proposal yet', A)
        gh['nprop'] = gh['nu'] = 0
        gh['u'], gh['lj'] = z3.RealVal(1) / 2, z3.RealVal(0)
        c, p = k.run()
        o = ex.obj(k.me)
        pool = ex.obj(o.attrs['evolution_points']).pay
        steps, acc = gh['steps'], gh['acc']
        steps, acc = ex.st.ghost['steps'], ex.st.ghost['acc']
        gh = ex.st.ghost
        k.P('C11', eq(c, steps), 'the true step count is returned')
        k.P('C11', And(ex.lp_vals(p) == gh['cur'], eq(p.ref, gh['curref'].ref)), 'the final point is returned')
        k.P('C11', stop(ex, k, steps, acc), 'a request ends after the chain length with at least one acceptance, or at the maximum')
        k.P('C11', zi(steps) <= zi(k.a0['maxmcmc']), 'a request never exceeds the maximum chain length')
        k.P('C11', le(1, steps), 'at least one step is made')
        n = k.n
        k.P('C11', eq(pool.n, n), 'the pool keeps its size')
        k.P('C11', eq(pool.get(sub(n, 1)).ref, p.ref), 'the final point goes back into the pool')
        k.P('C11', forall(sub(n, 1), lambda i: eq(pool.get(i).ref, k.pool0.get(add(i, 1)).ref)), 'the other pool points stay')
        a0 = k.a0
        sa, ac = flt(lib.as_num(o.attrs['sub_acceptance'])), flt(lib.as_num(o.attrs['acceptance']))
        k.P('C11', And(f_isfinite(sa), sa.zr() * z3.ToReal(zi(steps)) == z3.ToReal(zi(acc))), 'the acceptance of this request is the true fraction')
        tot, cnt = zi(a0['mcmc_accepted']) + zi(acc), zi(a0['mcmc_counter']) + zi(steps)
        k.P('C11', And(eq(o.attrs['mcmc_accepted'], tot), eq(o.attrs['mcmc_counter'], cnt)), 'the totals count every step and acceptance')
        k.P('C11', And(f_isfinite(ac), ac.zr() * z3.ToReal(cnt) == z3.ToReal(tot)), 'the overall acceptance is the true fraction')
        k.P('C24', f_le(gh['amax'], gh['lmax']), 'the shared maximum is at least the likelihood of every accepted point')
        k.P('C25', k.all_good(), 'every recorded accepted point still carries its own likelihood and prior')
        k.P('C25', z3.Implies(zi(acc) > 0, z3.Select(gh['good'], zi(p.ref))), 'the returned point is the accepted one')
        k.P('C25', Implies(eq(acc, 0), eq(p.ref, p0.ref)), 'with no acceptance the starting point is returned')
    return go


def at_cur(L, p):
    ex = L.ex
    gh = ex.st.ghost
    r = [ex.lp_vals(p) == gh['cur'], eq(p.ref, gh['curref'].ref)]
    if ex.k.prop == 'C25':
        r += [zb(f_same(ex.lp_get(p, 'logL'), gh['curL'])), zb(f_same(ex.lp_get(p, 'logP'), gh['curP']))]
    return And(*r)


def inv_stop(L):
    ex = L.ex
    gh = ex.st.ghost
    return Or(eq(gh['steps'], 0), Not(stop(ex, ex.k, gh['steps'], gh['acc'])))


def target(prop):
    pool = COMMON + every('the chain is here', lps, at_cur) + every('steps', ints, lambda L, v: eq(v, g(L)['steps'])) + every('accepted', ints, lambda L, v: eq(v, g(L)['acc']))
    pool += every('prior of the current point', flts, lambda L, v: And(f_isfinite(v), v.zr() == PRr(g(L)['cur']), PK(g(L)['cur']) == 0))
    pool += [('not finished', inv_stop), ('counts', lambda L: And(eq(g(L)['nprop'], g(L)['steps']), eq(g(L)['nu'], g(L)['steps']), le(0, g(L)['acc']), le(g(L)['acc'], g(L)['steps']), le(0, g(L)['steps']))),
             ('the current point is held', lambda L: z3.Select(g(L)['pub'], zi(g(L)['curref'].ref))),
             ('current is good once accepted', lambda L: z3.If(zi(g(L)['acc']) > 0, z3.Select(g(L)['good'], zi(g(L)['curref'].ref)), zi(g(L)['curref'].ref) == zi(L.ex.k.pool0.get(0).ref)))]
    return Target(S + KL + '.yield_sample', run(prop), pool=pool, externals={'on_draw': on_draw}, opts={'lpres': True}, budget=400)
