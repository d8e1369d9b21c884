"""SliceSampler.yield_sample.

The specification follows what the kernel asks the outside world (draws, prior, likelihood, in_bounds) and what it hands over:
cur        coordinates of the current point (last taken from the pool, or last accepted)
level      the slice level of the present slice        l0        left end of the initial bracket
pl, pr     times the left / right end was found within the bounds and not below the level
nx, x      draws along the line in this slice, and the last one;  blo, bhi the bracket it was drawn from;  moved: accepted in this slice"""
from .kern import *

KL = 'SliceSampler'
ADDV, MULV = lib.ADDV, lib.MULV


class SKModel(KModel):
    def py_getattr(self, ex, name):
        inner = KModel.py_getattr(self, ex, name)
        if name == 'log_prior':
            def f(ex, p):
                r = inner.py_call(ex, [p], {})
                ex.k.prior_asked(p)
                return r
            return Fn(f)
        if name == 'log_likelihood':
            def f(ex, p):
                r = inner.py_call(ex, [p], {})
                ex.k.like_asked(p)
                return r
            return Fn(f)
        return inner

    def same(self, o):
        return isinstance(o, SKModel)

    def py_same(self, ex, o):
        return isinstance(o, SKModel)


class SProposal(Model):
    def py_getattr(self, ex, name):
        if name == 'get_direction':
            def go(ex, mu=1.0, **kw):
                gh = ex.st.ghost
                v = z3.Const(ex._n('direction'), A)
                gh['dir'] = v
                if ex.aslp:
                    q = ex.new_lp()
                    ex.lp_set(q, 'vals', v)
                    return q
                return npmodel.nparr(ex, Seq(ex.dim, lambda i: SFlt(z3.Select(v, zi(i)), 0, None, True)))
            return Fn(go)
        raise Unsupported('proposal.' + name)

    def same(self, o):
        return isinstance(o, SProposal)


def line(gh, t):
    return ADDV(MULV(gh['dir'], t), gh['cur'])


class Slice(Kernel):
    def prior_asked(self, p):
        ex, gh = self.ex, self.ex.st.ghost
        if not isinstance(gh['nx'], int) or gh['nx'] != 0:
            if not ex.known(eq(gh['nx'], 0)):
                if ex.known(le(1, gh['nx'])):
                    return
                raise Unsupported('prior evaluated in an unclear phase')
        v, s = ex.lp_vals(p), gh['s']
        q = line(gh, s)
        if not ex.known(v == q):
            return
        ok = z3.And(INB(v), zb(Not(f_lt(PP(v), gh['level']))))
        left, right = z3.And(s <= 0, s == gh['l0'] - z3.ToReal(zi(gh['pl']))), z3.And(s > 0, s == gh['l0'] + 1 + z3.ToReal(zi(gh['pr'])))
        gh['pl'] = i_ite(z3.And(left, ok), add(gh['pl'], 1), gh['pl'])
        gh['pr'] = i_ite(z3.And(right, ok), add(gh['pr'], 1), gh['pr'])

    def like_asked(self, p):
        ex, gh = self.ex, self.ex.st.ghost
        v = ex.lp_vals(p)
        self.P('C12', v == line(gh, gh['x']), 'a candidate is on the line through the current point, at the drawn place')
        self.P('C12', le(1, gh['nx']), 'a place is drawn first')
        self.P('C12', f_lt(gh['level'], PP(v)), 'a candidate is above the slice level')
        ex.assume(v == line(gh, gh['x']))
        ex.assume(zb(f_lt(gh['level'], PP(v))))
        acc = zb(f_lt(self.th, LL(v)))
        gh['amax'] = f_ite(acc, f_ite(zb(f_lt(gh['amax'], LL(v))), LL(v), gh['amax']), gh['amax'])
        gh['cur'] = z3.If(acc, v, gh['cur'])
        gh['curL'], gh['curP'] = f_ite(acc, LL(v), gh['curL']), f_ite(acc, PP(v), gh['curP'])
        gh['acc'] = i_ite(acc, add(gh['acc'], 1), gh['acc'])
        gh['moved'] = i_ite(acc, 1, gh['moved'])

    def drawn(self, kind, v):
        ex, gh = self.ex, self.ex.st.ghost
        if kind == 'exponential':
            gh['level'] = f_sub(gh['curP'], SFlt(v.zr()))
            self.P('C12', f_le(gh['level'], gh['curP']), 'the slice level is not above the prior of the current point')
            return
        ex.prove(kind == 'uniform', 'uniform and exponential numbers are drawn')
        lo, hi = gh['_range']
        if not is_z(lo.r) and not is_z(hi.r):
            ex.prove(And(f_same(lo, flt(0)), f_same(hi, flt(1))), 'unit draws')
            if gh['phase'] == 0:       # a new slice
                gh['l0'] = -v.zr()
                gh['pl'] = gh['pr'] = gh['nx'] = gh['moved'] = 0
                gh['steps'] = add(gh['steps'], 1)
                gh['phase'] = 1
            else:
                gh['phase'] = 0
            return
        m = self.a0['max_steps_out']
        l0, pl, pr = gh['l0'], z3.ToReal(zi(gh['pl'])), z3.ToReal(zi(gh['pr']))
        first = zb(eq(gh['nx'], 0))
        ex.prove(eq(gh['moved'], 0), 'a slice ends when a move is made')
        lo, hi = lo.zr(), hi.zr()
        self.P('C12', And(lo <= 0, hi >= 0), 'the bracket contains the current point')
        self.P('C12', z3.Implies(first, z3.And(lo >= l0 - pl, lo <= l0, hi >= l0 + 1, hi <= l0 + 1 + pr)), 'the bracket is only expanded while its end is within the prior bounds and not below the slice level')
        self.P('C12', z3.Implies(first, (l0 - lo) + (hi - l0 - 1) <= z3.ToReal(zi(m))), 'the bracket is expanded at most the allowed number of steps in total')
        self.P('C12', z3.Implies(z3.Not(first), z3.And(lo >= gh['blo'], hi <= gh['bhi'])), 'afterwards the bracket only shrinks')
        gh['blo'], gh['bhi'], gh['x'] = lo, hi, v.zr()
        gh['nx'] = add(gh['nx'], 1)

    def record(self, p):
        ex, gh = self.ex, self.ex.st.ghost
        self.at_end(p, 'recorded')
        self.publish(p)
        gh['nrec'] = add(gh['nrec'], 1)
        gh['recref'] = p
        if self.prop == 'C25':
            self.put('good', p, Not(eq(gh['acc'], 0)))

    def at_end(self, p, what):
        ex, gh = self.ex, self.ex.st.ghost
        v, l, pr = ex.lp_vals(p), ex.lp_get(p, 'logL'), ex.lp_get(p, 'logP')
        self.P('C12', v == gh['cur'], 'the %s point is where the accepted moves lead; nothing accepted, the point stays' % what)
        self.P('C25', Implies(Not(eq(gh['acc'], 0)), And(self.own(p), f_isfinite(pr), f_lt(self.th, l))), 'the %s point, when accepted, carries its own likelihood and prior, is in the prior and above the threshold' % what)
        self.P('C25', Implies(eq(gh['acc'], 0), And(v == gh['cur'], f_same(l, gh['curL']), f_same(pr, gh['curP']))), 'the %s point, when nothing was accepted, is the one taken from the pool' % what)


def on_draw(ex, kind, v):
    ex.k.drawn(kind, v)


def on_scale(ex, x, s):
    gh = ex.st.ghost
    ex.k.P('C12', x == gh['dir'], 'the chosen direction is followed')
    ex.assume(x == gh['dir'])
    gh['s'] = s


def on_pop(ex, ref, p):
    gh = ex.st.ghost
    gh['popped'] = p
    gh['cur'], gh['curL'], gh['curP'] = ex.lp_vals(p), ex.lp_get(p, 'logL'), ex.lp_get(p, 'logP')


def run(prop, aslp):
    def go(ex):
        ex.aslp = aslp
        k = Slice(ex, prop, KL)
        n = ex.fresh_int('poolsize', lo=1)
        mx = ex.fresh_int('max_steps_out', lo=1)
        k.setup(n, proposal=SProposal(), model=SKModel(), mu=SFlt(pos(ex, 'mu')), max_steps_out=mx, max_slices=ex.fresh_int('max_slices', lo=1), tuning_steps=ex.fresh_int('tuning', lo=0),
                L=ex.fresh_flt('L', fin=True), R=ex.fresh_flt('R', fin=True), Ne=ex.fresh_flt('Ne', fin=True), Nc=ex.fresh_flt('Nc', fin=True))
        gh = ex.st.ghost
        gh['cur'] = gh['dir'] = z3.Const('none yet', A)
        gh['curL'] = gh['curP'] = gh['level'] = NINF
        gh['popped'] = k.pool0.get(0)
        for x in ('l0', 's', 'x', 'blo', 'bhi'):
            gh[x] = z3.RealVal(0)
        for x in ('pl', 'pr', 'nx', 'moved', 'phase', 'nrec'):
            gh[x] = 0
        # the pool holds points of non-zero prior that carry their prior (C25)
        q = z3.Int(ex._n('q'))
        ex.assume(z3.ForAll([q], z3.Implies(q < zi(k.alloc0), z3.And(z3.Select(ex.st.lp['logPk'], q) == 0, z3.Select(ex.st.lp['logLk'], q) != 2)), patterns=[z3.Select(ex.st.lp['logPk'], q)]))
        c, p = k.run()
        o = ex.obj(k.me)
        gh = ex.st.ghost
        pool = ex.obj(o.attrs['evolution_points']).pay
        ex.prove(eq(gh['nrec'], 1), 'the point is recorded')
        k.P('C12 C25', eq(p.ref, gh['recref'].ref), 'the recorded point is returned')
        k.at_end(p, 'returned')
        k.P('C12', eq(pool.n, n), 'the pool keeps its size')
        k.P('C12 C25', eq(pool.get(sub(n, 1)).ref, p.ref), 'the point goes back into the pool')
        k.P('C12', f_lt(0, flt(o.attrs['mu'])), 'the length scale stays positive')
        k.P('C24', f_le(gh['amax'], gh['lmax']), 'the shared maximum is at least the likelihood of every accepted point')
    return go


def pos(ex, name):
    r = ex.fresh_real(name)
    ex.assume(r > 0)
    return r


def at(L, *names):
    o = L.ex.obj(L.ex.k.me)
    return [flt(lib.as_num(o.attrs[x])) for x in names]


def here(L, p):
    ex, gh = L.ex, g(L)
    return And(ex.lp_vals(p) == gh['cur'], f_same(ex.lp_get(p, 'logP'), gh['curP']), f_same(ex.lp_get(p, 'logL'), gh['curL']))


def taken(L, p):
    gh = g(L)
    return And(Implies(eq(gh['acc'], 0), eq(p.ref, gh['popped'].ref)), Implies(Not(eq(gh['acc'], 0)), And(L.ex.k.own(p), f_isfinite(L.ex.lp_get(p, 'logP')), f_lt(L.ex.k.th, L.ex.lp_get(p, 'logL')))))


def fin0(L, *names):
    return And(*[And(f_isfinite(x), x.zr() >= 0) for x in at(L, *names)])


def bracket(L):
    l, r = at(L, 'L', 'R')
    return And(f_isfinite(l), f_isfinite(r), l.zr() <= 0, r.zr() >= 0)


def start(L):
    gh = g(L)
    return And(gh['l0'] <= 0, gh['l0'] > -1)


def left(L):
    gh = g(L)
    l, r = at(L, 'L', 'R')
    return And(l.zr() == gh['l0'] - z3.ToReal(zi(gh['pl'])))


def right(L):
    gh = g(L)
    l, r = at(L, 'L', 'R')
    return And(r.zr() == gh['l0'] + 1 + z3.ToReal(zi(gh['pr'])))


def budget_left(L, v):
    """the steps still allowed plus those made"""
    gh = g(L)
    e = getattr(L, 'env0')
    w = [x for x in flts(L) if isinstance(x, SFlt)]
    m = z3.ToReal(zi(L.ex.k.a0['max_steps_out']))
    return And(f_isfinite(v), v.zr() >= 0, v.zr() == z3.ToReal(z3.ToInt(v.zr())))


def total(i, j):
    def c(L):
        xs = flts(L)
        if max(i, j) >= len(xs) or not all(isinstance(xs[q], SFlt) for q in (i, j)):
            return None
        gh = g(L)
        return xs[i].zr() + xs[j].zr() + z3.ToReal(zi(gh['pl'])) + z3.ToReal(zi(gh['pr'])) <= z3.ToReal(zi(L.ex.k.a0['max_steps_out']))
    return c


def shrunk(L):
    gh = g(L)
    l, r = at(L, 'L', 'R')
    return z3.If(zi(gh['nx']) == 0, z3.And(l.zr() == gh['l0'] - z3.ToReal(zi(gh['pl'])), r.zr() == gh['l0'] + 1 + z3.ToReal(zi(gh['pr']))), z3.And(l.zr() >= gh['blo'], r.zr() <= gh['bhi']))


def target(prop, aslp=False):
    def ghost_is(name, val):
        return (name, lambda L: eq(g(L)[name], val))
    pool = COMMON + every('the chain is here', lps, here) + every('taken from the pool or accepted', lps, taken) + every('direction', lps, lambda L, p: L.ex.lp_vals(p) == g(L)['dir'])
    pool += every('level', flts, lambda L, v: f_same(v, g(L)['level'])) + every('steps', flts, budget_left)
    pool += every('slices', ints, lambda L, v: eq(v, g(L)['steps'])) + every('accepted', ints, lambda L, v: eq(v, g(L)['acc']))
    pool += [ghost_is('phase', 0), ghost_is('moved', 0), ghost_is('nx', 0), ghost_is('pr', 0), ghost_is('nrec', 0), ('a slice was tried', lambda L: le(1, g(L)['steps'])), ('bracket', bracket), ('start', start), ('left', left), ('right', right), ('shrunk', shrunk),
             ('counts', lambda L: fin0(L, 'Ne', 'Nc')), ('nonneg', lambda L: And(*[le(0, g(L)[x]) for x in ('pl', 'pr', 'nx', 'acc', 'steps')])),
             ('prior of current', lambda L: And(eq(g(L)['curP'].k, 0), Not(f_isnan(g(L)['curL'])))), ('popped is held', lambda L: z3.Select(g(L)['pub'], zi(g(L)['popped'].ref))),
             ('held pool', heldpool), ('pool size', poolsize)]
    pool += [('total %d %d' % (i, j), total(i, j)) for j in range(5) for i in range(j)]
    pool += every('own level', flts, lambda L, v: eq(v.k, 0))
    return Target(S + KL + '.yield_sample', run(prop, aslp), pool=pool, externals={'on_draw': on_draw, 'on_scale': on_scale, 'on_pop': on_pop}, opts={'lpres': True, 'symvec': True, 'merge': True, 'warm': 2}, budget=600)


def poolsize(L):
    at = L.ex.obj(L.ex.k.me).attrs
    m, n = L.ex.obj(at['evolution_points']).pay.n, at['poolsize']
    return And(le(sub(n, 1), m), le(m, n))


def heldpool(L):
    o = L.ex.obj(L.ex.k.me)
    pool = L.ex.obj(o.attrs['evolution_points']).pay
    return forall(pool.n, lambda i: zi(pool.get(i).ref) < zi(L.ex.k.alloc0))
