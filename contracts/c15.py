"""C15: proposal cycles."""
from .ns import *
from .sums import psum, induct
from pyvc.npmodel import nparr

PR = 'cpnest.proposal.'
C = PR + 'ProposalCycle'
ENS = z3.Function('is_ensemble_proposal', I, z3.BoolSort())


class Prop(Model):
    """any proposal; its log_J after a draw is what it likes"""
    def __init__(self, i):
        self.i = i

    def same(self, o):
        return isinstance(o, Prop) and zi(self.i).eq(zi(o.i))

    def py_same(self, ex, o):
        return eq(self.i, o.i) if isinstance(o, Prop) else False

    def kind_of_elem(self):
        return KMod(Prop, lambda v: zi(v.i))

    def subst(self, a, b):
        from pyvc import comp
        return Prop(comp.subst(zi(self.i), a, b))

    def v_ite(self, c, o):
        return Prop(i_ite(c, self.i, o.i))

    def py_isinstance(self, ex, c):
        if c.qual.endswith('.EnsembleProposal'):
            return ENS(zi(self.i))
        if c.qual.endswith('.Proposal'):
            return True
        raise Unsupported('isinstance of a proposal')

    def py_getattr(self, ex, name):
        g = ex.st.ghost
        if name == 'log_J':
            return SFlt(z3.Select(g['lj'], zi(self.i)))
        if name in ('get_sample', 'get_direction'):
            def go(ex, *a, **k):
                g['lj'] = z3.Store(g['lj'], zi(self.i), ex.fresh_real('logJ'))
                r = Opaque('proposed')
                g['_calls'] = g['_calls'] + ((name, self.i, a, k, r),)
                return r
            return Fn(go)
        if name == 'set_ensemble':
            def se(ex, e):
                ex.prove(ENS(zi(self.i)), 'only ensemble proposals are given the ensemble')
                ex.prove(isinstance(e, Ref) and e == ex.ens, 'the ensemble passed on is the new one')
                g['got'] = z3.Store(g['got'], zi(self.i), z3.BoolVal(True))
            return Fn(se)
        raise Unsupported('proposal attribute ' + name)


def np_choice(ex, a, size=None, replace=True, p=None):
    s = lib.to_seq(ex, a)
    if p is None or size is None:
        raise Unsupported('choice')
    w = lib.to_seq(ex, p)
    ex.prove(eq(w.n, s.n), 'one probability per proposal')
    ex.prove(replace if isinstance(replace, bool) else False, 'the cycle is drawn with replacement')
    ix = ex.fresh_fn('place', I)
    ex.assume_forall(lambda i: z3.And(ix(i) >= 0, ix(i) < zi(s.n)), pattern=lambda i: ix(i))
    r = nparr(ex, Seq(size, lambda i: s.get(ix(i)) if s.items is None else Prop(ix(i))))
    ex.st.ghost['_choice'] = ex.st.ghost.get('_choice', ()) + ((s, w, size, ex.obj(r).pay),)
    return r


def start(ex):
    g = ex.st.ghost
    g['lj'] = z3.Const('lj', z3.ArraySort(I, R))
    g['got'] = z3.K(I, z3.BoolVal(False))
    g['_calls'] = ()


def given(ex, name='w'):
    n = ex.fresh_int('n' + name, lo=1)
    w = ex.fresh_seq(name, n, KFlt(True))
    ex.assume(forall(n, lambda i: f_le(0, w.get(i))))
    T = psum(ex, lambda i: w.get(i).zr(), 'total')
    return n, w, T


def link(ex, n, T):
    """the sum the code took is the sum of the weights"""
    h = ex.st.ghost.get('_sum')
    if h is not None and is_z(h[1].n):
        S = h[0]
        induct(ex, n, lambda i: S(i) == T(i), 'the code sums the weights')


def normal(ex, r, n, w, T):
    s = lib.to_seq(ex, r)
    ex.prove(eq(s.n, n), 'one weight per proposal')
    link(ex, n, T)
    ex.prove(forall(n, lambda i: And(f_isfinite(flt(lib.as_num(s.get(i)))), flt(lib.as_num(s.get(i))).zr() * T(zi(n)) == w.get(i).zr())),
             'each weight is the given one divided by the sum')
    U = psum(ex, lambda i: flt(lib.as_num(s.get(i))).zr(), 'normed')
    ex.assume(forall(n, lambda i: flt(lib.as_num(s.get(i))).zr() * T(zi(n)) == w.get(i).zr()))
    induct(ex, n, lambda i: U(i) * T(zi(n)) == T(i), 'sum of the normalised weights')
    ex.prove(U(zi(n)) == 1, 'the weights add to one')


def positive(ex, n, T):
    ex.assume(T(zi(n)) > 0)


def cand_norm(L):
    ex = L.ex
    r = ex.wref
    if r is None:
        return True
    s, w = ex.obj(r).pay, ex.w0
    S = ex.st.ghost.get('_sum')
    if S is None:
        return True
    t = S[0](zi(S[1].n))
    return And(eq(s.n, w.n), forall(w.n, lambda k: z3.If(zb(lt(k, L.it)), zb(And(f_isfinite(flt(s.get(k))), flt(s.get(k)).zr() * t == w.get(k).zr())), zb(f_same(flt(s.get(k)), w.get(k))))))


def t_norm(ex):
    start(ex)
    n, w, T = given(ex)
    positive(ex, n, T)
    ref = ex.new(cls(ex, C))
    ex.wref = wr = ex.new_list(w)
    ex.w0 = w
    ex.lazy_T = T
    r = noraise(ex, lambda: call_real(ex, C + '.normalise_weights', [ref, wr]), 'normalise_weights', ('ZeroDivisionError',))
    normal(ex, r, n, w, T)


def norm_contract(ex, self, weights):
    """normalise_weights, by its contract: the same list, divided by its sum"""
    o = weights
    w = lib.to_seq(ex, o)
    h = ex.ws
    T = psum(ex, lambda i: flt(lib.as_num(w.get(i))).zr(), 'total')
    k = ex.fresh_seq('normw', w.n, KFlt(True))
    ex.assume(T(zi(w.n)) > 0)
    ex.assume(forall(w.n, lambda i: k.get(i).zr() * T(zi(w.n)) == flt(lib.as_num(w.get(i))).zr()))
    if isinstance(o, Ref):
        ex.obj(o).pay = k
    h.append((w, k))
    return o


def same_list(a, b):
    return And(eq(a.n, b.n), forall(a.n, lambda i: zi(a.get(i).i) == zi(b.get(i).i)))


def props(ex):
    m = ex.fresh_int('nprop', lo=1)
    return ex.fresh_seq('proposals', m, KMod(Prop, lambda v: zi(v.i)))


def cycle_ok(ex, ref, ps, ws, length=None):
    o = ex.obj(ref)
    c = ex.st.ghost['_choice'][-1]
    ex.prove(same_list(c[0], ps), 'the cycle is drawn from the proposals')
    ex.prove(forall(ps.n, lambda i: f_same(flt(c[1].get(i)), flt(ws.get(i)))), 'with the normalised weights as probabilities')
    cy = lib.to_seq(ex, o.attrs['cycle'])
    ex.prove(same_list(cy, c[3]), 'the drawn cycle is the one used')
    ex.prove(eq(o.attrs['N'], cy.n), 'the number of places is the length of the cycle')
    if length is not None:
        ex.prove(eq(cy.n, length), 'the cycle has the requested length')
    ex.prove(same_list(lib.to_seq(ex, o.attrs['proposals']), ps), 'the proposals are kept')
    w = lib.to_seq(ex, ex.getattr(ref, 'weights'))
    ex.prove(And(eq(w.n, ws.n), forall(w.n, lambda i: f_same(flt(w.get(i)), flt(ws.get(i))))), 'the weights are the normalised ones')


def t_init(ex):
    start(ex)
    ex.ws = []
    ps = props(ex)
    n, w, T = given(ex)
    L = ex.fresh_int('length', lo=1)
    ref = ex.new(cls(ex, C))
    try:
        call_real(ex, C + '.__init__', [ref, ex.new_list(ps), ex.new_list(w)], {'cyclelength': L})
    except E.PyRaise as e:
        ex.prove(e.exc.name == 'AssertionError', 'only a list of the wrong length is refused')
        ex.prove(Not(eq(n, ps.n)), 'weights are refused only when their number is wrong')
        return
    ex.prove(eq(n, ps.n), 'a list of weights of the wrong length is refused')
    ex.prove(len(ex.ws) == 1, 'the weights are normalised once')
    ex.prove(And(eq(ex.ws[0][0].n, n), forall(n, lambda i: f_same(flt(ex.ws[0][0].get(i)), w.get(i)))), 'the given weights are the ones normalised')
    cycle_ok(ex, ref, ps, ex.ws[0][1], L)


def state(ex):
    start(ex)
    ex.ws = []
    ps = props(ex)
    w = ex.fresh_seq('w', ps.n, KFlt(True))
    N = ex.fresh_int('N', lo=1)
    cy = ex.fresh_seq('cycle', N, KMod(Prop, lambda v: zi(v.i)))
    at = dict(proposals=ex.new_list(ps), _weights=ex.new_list(w), cyclelength=N, cycle=nparr(ex, cy), N=N, idx=ex.fresh_int('idx', 0, N), ensemble=None, log_J=ex.fresh_flt('oldJ'))
    return ps, w, N, cy, at


def t_add(ex):
    ps, w, N, cy, at = state(ex)
    ref = ex.new(cls(ex, C), attrs=at)
    p, x = Prop(ex.fresh_int('added')), ex.fresh_flt('weight', fin=True)
    ex.assume(f_le(0, x))
    noraise(ex, lambda: call_real(ex, C + '.add_proposal', [ref, p, x]), 'add_proposal')
    ps1, w1 = lib.seq_append(ps, p), lib.seq_append(w, x)
    ex.prove(len(ex.ws) == 1, 'the weights are normalised again')
    ex.prove(And(eq(ex.ws[0][0].n, w1.n), forall(w1.n, lambda i: f_same(flt(ex.ws[0][0].get(i)), flt(w1.get(i))))), 'the old weights and the new one are normalised')
    cycle_ok(ex, ref, ps1, ex.ws[0][1], N)


def draw(name, klass):
    def run(ex):
        ps, w, N, cy, at = state(ex)
        i0 = at['idx']
        ref = ex.new(cls(ex, klass), attrs=at)
        if name == 'get_sample':
            old, th = ex.fresh_lp('old'), ex.fresh_flt('logLmin')
            args, kw = [ref, old], {'logLmin': th}
        else:
            args, kw = [ref], {'mu': ex.fresh_flt('mu', fin=True)}
        r = noraise(ex, lambda: call_real(ex, klass + '.' + name, args, kw), name)
        g, o = ex.st.ghost, ex.obj(ref)
        calls = g['_calls']
        ex.prove(len(calls) == 1 and calls[0][0] == name, 'a draw delegates to exactly one proposal')
        nm, i, a, k, res = calls[0]
        j = z3.If(zi(i0) + 1 == zi(N), z3.IntVal(0), zi(i0) + 1)
        ex.prove(eq(o.attrs['idx'], j), 'a draw advances by one and wraps around')
        ex.prove(zi(i) == zi(cy.get(j).i), 'the proposal at that place is used')
        ex.prove(r is res, 'its point is returned unchanged')
        ex.prove(f_same(flt(o.attrs['log_J']), SFlt(z3.Select(g['lj'], zi(i)))), "the cycle exposes that proposal's log-Jacobian")
        if name == 'get_sample':
            ex.prove(len(a) == 1 and isinstance(a[0], LP) and a[0].ref.eq(old.ref) and set(k) == {'logLmin'} and f_same(k['logLmin'], th), 'the arguments are passed on')
        else:
            m = a[0] if a else k.get('mu')
            ex.prove(m is not None and f_same(m, kw['mu']), 'the length is passed on')
        ex.prove(And(eq(o.attrs['N'], N), same_list(lib.to_seq(ex, o.attrs['cycle']), cy)), 'the cycle stays')
    return run


def cand_got(L):
    ex = L.ex
    ps = ex.ps
    got = ex.st.ghost['got']
    return forall(L.it, lambda k: Implies(ENS(zi(ps.get(k).i)), z3.Select(got, zi(ps.get(k).i))))


def t_set(ex):
    ps, w, N, cy, at = state(ex)
    ex.ps = ps
    ref = ex.new(cls(ex, C), attrs=at)
    ex.ens = ex.new_list(ex.fresh_seq('ens', ex.fresh_int('nens', lo=0), KLP()))
    noraise(ex, lambda: call_real(ex, C + '.set_ensemble', [ref, ex.ens]), 'set_ensemble')
    got = ex.st.ghost['got']
    ex.prove(forall(ps.n, lambda k: Implies(ENS(zi(ps.get(k).i)), z3.Select(got, zi(ps.get(k).i)))), 'a new ensemble reaches every ensemble proposal')
    ex.prove(ex.obj(ref).attrs['ensemble'] == ex.ens, 'the cycle keeps the ensemble')


def t_std(klass):
    def run(ex):
        start(ex)
        ref = noraise(ex, lambda: ex.instantiate(cls(ex, PR + klass), [], {'model': UserModel()} if 'Ham' in klass else {}), klass)
        w = lib.to_seq(ex, ex.getattr(ref, 'weights'))
        ps = lib.to_seq(ex, ex.obj(ref).attrs['proposals'])
        ex.prove(isinstance(w.n, int) and w.n == ps.n, 'one weight per proposal')
        t = flt(0)
        for i in range(w.n):
            t = f_add(t, flt(lib.as_num(w.get(i))))
        ex.prove(f_eq(t, 1), 'the weights add to one')
        c = ex.st.ghost['_choice'][-1]
        ex.prove(And(*[f_same(flt(lib.as_num(c[1].get(i))), flt(lib.as_num(w.get(i)))) for i in range(w.n)]), 'with the normalised weights as probabilities')
        ex.prove(eq(ex.obj(ref).attrs['N'], 100), 'the default cycle has 100 places')
    return run


def targets(tier):
    e = {'numpy.random.choice': Fn(np_choice)}
    nc = {C + '.normalise_weights': norm_contract}
    X = PR + 'EnsembleSliceProposalCycle'
    ts = [Target(C + '.normalise_weights', t_norm, pool=[('weights so far are divided', cand_norm)], opts={'nl': True}),
          Target(C + '.__init__', t_init, contracts=nc, externals=e, covers=(C + '.__init__', C + '.set_cycle', C + '.weights')),
          Target(C + '.add_proposal', t_add, contracts=nc, externals=e, covers=(C + '.add_proposal', C + '.set_cycle')),
          Target(C + '.get_sample', draw('get_sample', C), externals=e), Target(X + '.get_direction', draw('get_direction', X), externals=e),
          Target(C + '.set_ensemble', t_set, pool=[('ensemble proposals so far have it', cand_got)], externals=e)]
    ts += [Target('construction of ' + k, t_std(k), externals=e, covers=(PR + k + '.__init__',)) for k in ('DefaultProposalCycle', 'EnsembleSliceProposalCycle')]
    return ts


ASSUMES = ['weights are finite, not negative, with a positive sum', 'numpy.random.choice(a, size, p=p) returns size elements of a (its probabilities are numpy\'s)',
           'a proposal may do anything in get_sample except change the cycle']
BOUNDED = ['replay/h15.py evaluates the same contracts on the real code']
