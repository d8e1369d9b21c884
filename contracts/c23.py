"""C23: the adaptive chain length."""
from .ns import *
from .sums import psum, induct
from pyvc.npmodel import nparr

S = 'cpnest.sampler.Sampler'
Q = 'cpnest.nest2pos.'


def toz(x):
    return zi(x) if not is_z(x) else x


def base(ex, klass=S, **kw):
    at = dict(poolsize=ex.fresh_int('poolsize', lo=1), maxmcmc=ex.fresh_int('maxmcmc', lo=1), verbose=ex.fresh_int('verbose'),
              sub_acceptance=ex.fresh_flt('acc', fin=True), acceptance=ex.fresh_flt('gacc', fin=True), Nmcmc_exact=ex.fresh_flt('exact', fin=True),
              Nmcmc=ex.fresh_int('Nmcmc0', lo=1), model=UserModel(), logger=lib.Logger())
    at.update(kw)
    ex.assume(And(f_le(0, at['sub_acceptance']), f_le(at['sub_acceptance'], 1), f_le(0, at['Nmcmc_exact'])))
    return ex.new(cls(ex, klass), attrs=at)


def rest(ex, ref, a0, but):
    o = ex.obj(ref)
    for k, v in a0.items():
        if k in but:
            continue
        w = o.attrs.get(k)
        ex.prove(E_same(v, w), 'only the chain length changes, not %s' % k)


def E_same(v, w):
    from pyvc.loops import same
    return same(v, w)


def t_fly(ex):
    ref = base(ex)
    a0 = dict(ex.obj(ref).attrs)
    sf = ex.fresh_int('safety', lo=1)
    if ex.choose(2):
        tau = ex.fresh_flt('tau', fin=True)
        ex.assume(f_lt(0, tau))
        kw = {'safety': sf, 'tau': tau}
        t = tau.zr()
    elif ex.choose(2):
        kw = {'safety': sf}
        t = z3.ToReal(zi(a0['poolsize'])) / z3.ToReal(sf)
    else:
        sf = z3.IntVal(5)
        kw = {}
        t = z3.ToReal(zi(a0['poolsize'])) / 5
    r = noraise(ex, lambda: call_real(ex, S + '.estimate_nmcmc_on_the_fly', [ref], kw), 'estimate_nmcmc_on_the_fly')
    o = ex.obj(ref)
    mx = zi(a0['maxmcmc'])
    ex.prove(lib.isint(r), 'the chain length is an integer')
    ex.prove(eq(o.attrs['Nmcmc'], r), 'the returned chain length is the one used')
    r = zi(r)
    ex.prove(r >= sf, 'the chain length is at least the safety minimum')
    ex.prove(Or(r <= sf, r <= mx), 'the chain length is at most the larger of the minimum and the maximum')
    e, a = a0['Nmcmc_exact'].zr(), a0['sub_acceptance'].zr()
    x = z3.Real('expected')
    ex.assume(z3.If(a == 0, x == e + e / t, x == e - e / t + (z3.ToReal(sf) / t) * (2 / a - 1)))
    new = flt(o.attrs['Nmcmc_exact'])
    ex.prove(And(f_isfinite(new), new.zr() == z3.If(x <= z3.ToReal(mx), x, z3.ToReal(mx))), 'the estimate follows the moving average of 2/acceptance - 1, capped')
    ex.prove(Implies(a == 0, Or(new.zr() >= e, new.zr() == z3.ToReal(mx))), 'the estimate grows when nothing is accepted')
    n = new.zr()
    tr = z3.If(n >= 0, z3.ToInt(n), -z3.ToInt(-n))
    ex.prove(r == z3.If(tr >= sf, tr, sf), 'the chain length is the integer part of the estimate, or the minimum')
    rest(ex, ref, a0, ('Nmcmc', 'Nmcmc_exact'))


# ------------------------------------------------------------------ from the chain
class Mat(Model):
    """2-d array whose rows are coordinate vectors"""
    def __init__(self, s):
        self.s = s

    def py_getattr(self, ex, name):
        if name == 'shape':
            return (self.s.n, ex.dim)
        raise Unsupported('2-d array.' + name)

    def py_len(self, ex):
        return self.s.n

    def multi(self, ex, ix):
        if len(ix) == 2 and isinstance(ix[0], tuple) and ix[0] == ('slice', None, None, None):
            return Col(self, lib.norm_index(ex, ex.dim, ix[1]))
        raise Unsupported('2-d index')


class Col(Model):
    def __init__(self, m, i):
        self.m, self.i = m, i


def np_array(ex, x, *a, **k):
    s = lib.to_seq(ex, x)
    if isinstance(s.n, int) or not isinstance(s.get(z3.Int('probe')), lib.SVec):
        return npmodel.np_array(ex, x, *a, **k)
    return Mat(s)


def acl_contract(ex, x, *a, **k):
    if not isinstance(x, Col):
        raise Unsupported('acl of something else')
    w = ex.st.ghost['_chain']
    m = x.m.s
    if not ex.binders:
        chain_is(ex, m, w)
    ex.cols = m
    return SFlt(ex.aclf(zi(x.i)))


def chain_is(ex, m, w):
    k = z3.Int(ex._n('k'))
    ex.prove(eq(m.n, w.n), 'the chain used is the last 5*maxmcmc samples: length')
    ex.prove(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(w.n)), m.get(k).arr == ex.lp_vals(w.get(k)))), 'the chain used is the last 5*maxmcmc samples')


def t_chain(ex):
    n = ex.fresh_int('nsamples', lo=1)
    s = ex.fresh_seq('samples', n, KLP())
    ref = base(ex, samples=ex.new_list(s))
    a0 = dict(ex.obj(ref).attrs)
    mx = zi(a0['maxmcmc'])
    lo = z3.If(zi(n) > 5 * mx, zi(n) - 5 * mx, z3.IntVal(0))
    ex.st.ghost['_chain'] = Seq(zi(n) - lo, lambda i: s.get(lo + zi(i)), KLP())
    ex.aclf = ex.fresh_fn('acl', R)
    ex.cols = None
    ex.assume_forall(lambda i: ex.aclf(i) >= 1, pattern=lambda i: ex.aclf(i))
    sf = ex.fresh_int('safety', lo=0)
    kw = {'safety': sf}
    if ex.choose(2):
        kw, sf = {}, z3.IntVal(20)
    r = noraise(ex, lambda: call_real(ex, S + '.estimate_nmcmc', [ref], kw), 'estimate_nmcmc')
    o = ex.obj(ref)
    ex.prove(lib.isint(r), 'the chain length is an integer')
    ex.prove(eq(o.attrs['Nmcmc'], r), 'the returned chain length is the one used')
    ex.prove(ex.cols is not None, 'the autocorrelation lengths are used')
    chain_is(ex, ex.cols, ex.st.ghost['_chain'])
    r = zi(r)
    m = z3.If(sf >= 1, sf, z3.IntVal(1))
    ex.prove(r >= m, 'the chain length is never below its minimum')
    i = z3.Int('i?')
    ex.prove(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ex.dim), r >= z3.ToInt(ex.aclf(i)))), 'the chain length is at least every autocorrelation length (integer part)')
    ex.prove(Or(r == m, z3.Exists([i], z3.And(i >= 0, i < ex.dim, r == z3.ToInt(ex.aclf(i))))), 'the chain length is the integer part of the largest autocorrelation length, or the minimum')
    rest(ex, ref, a0, ('Nmcmc',))


def nums(L):
    env = L.ex.frames[-1].env
    return [v for k, v in sorted(env.items()) if k not in L.ex.args0 and (isinstance(v, SFlt) or lib.isint(v))]


def cand_total(L):
    """whatever they are called: some local is the running total"""
    cs = [v for v in nums(L) if isinstance(v, SFlt)] or nums(L)
    return Or(*[And(f_isfinite(flt(v)), flt(v).zr() == 1 + 2 * L.ex.P(zi(L.it))) for v in map(lib.as_num, cs)]) if cs else None


def cand_idx(L):
    cs = [v for v in nums(L) if lib.isint(v)]
    return Or(*[eq(v, L.it) for v in cs]) if cs else None


def cand_above(L):
    ex = L.ex
    return And(le(L.it, ex.acf.n), forall(L.it, lambda k: f_lt(ex.tol, ex.acf.get(k))))


def t_acl(ex):
    n = ex.fresh_int('n', lo=0)
    x = nparr(ex, ex.fresh_seq('x', n, KFlt(True)))
    ex.acf = ex.fresh_seq('acf', n, KFlt(True))
    ex.contracts[Q + 'autocorrelation'] = lambda ex, y: nparr(ex, ex.acf) if y == x else unsup()
    ex.tol = ex.fresh_flt('tolerance', fin=True)
    ex.assume(f_le(0, ex.tol))
    ex.P = psum(ex, lambda i: ex.acf.get(i).zr(), 'acfsum')
    ex.args0 = ('x', 'tolerance', 'acf')
    T = noraise(ex, lambda: call_real(ex, Q + 'acl', [x, ex.tol]), 'acl')
    t = flt(lib.as_num(T))
    k = z3.Int('stop')
    g = z3.And(k >= 0, k <= zi(n), zb(forall(k, lambda j: f_lt(ex.tol, ex.acf.get(j)))), z3.Or(k == zi(n), zb(Not(f_lt(ex.tol, ex.acf.get(k))))))
    # the autocorrelations before the first one not above the tolerance
    ex.assume(g)
    induct(ex, k, lambda i: ex.P(i) >= 0, 'a sum of values above the tolerance is not negative')
    ex.prove(And(f_isfinite(t), t.zr() == 1 + 2 * ex.P(k)), 'one plus twice the autocorrelations before the first one not above the tolerance')
    ex.prove(f_le(1, t), 'the autocorrelation length is never below 1')


def unsup():
    raise Unsupported('autocorrelation of something else')


def targets(tier):
    return [Target(S + '.estimate_nmcmc_on_the_fly', t_fly, opts={'nl': True}),
            Target(S + '.estimate_nmcmc', t_chain, contracts={Q + 'acl': acl_contract}, externals={'numpy.array': Fn(np_array)}),
            Target(Q + 'acl', t_acl, pool=[('total so far', cand_total), ('index', cand_idx), ('all above the tolerance so far', cand_above)])]


ASSUMES = ['0 <= acceptance <= 1; the previous estimate is finite and not negative; tau, poolsize, maxmcmc and the safety factor are positive; tolerance >= 0',
           'autocorrelations are finite']
BOUNDED = ['replay/h23.py compares the FFT autocorrelation (nest2pos.autocorrelation) with its definition and evaluates the contracts on the real code']
