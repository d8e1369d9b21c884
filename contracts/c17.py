"""C17: prior support and the unit-cube mapping."""
from .ns import *

M = 'cpnest.model.Model.'
V = z3.ArraySort(I, R)


def model(ex, strict=True, nonflat=False):
    """a Model with any bounds"""
    b = ex.fresh_seq('bounds', ex.dim, KTuple([KFlt(not nonflat), KFlt(not nonflat)]))
    if strict:
        ex.assume(forall(ex.dim, lambda i: f_lt(b.get(i)[0], b.get(i)[1])))
    ref = ex.new(cls(ex, M[:-1]), attrs={'names': lib.NamesVal(), 'bounds': ex.new_list(b)})
    return ref, b


def val(ex, p, i):
    return SFlt(z3.Select(ex.lp_vals(p), zi(i)))


def inside(ex, b, p):
    return forall(ex.dim, lambda i: And(f_lt(b.get(i)[0], val(ex, p, i)), f_lt(val(ex, p, i), b.get(i)[1])))


def untouched(ex, p, v, b, ref):
    s = ex.obj(ex.obj(ref).attrs['bounds']).pay
    ex.prove(And(eq(s.n, b.n), forall(b.n, lambda i: And(f_same(s.get(i)[0], b.get(i)[0]), f_same(s.get(i)[1], b.get(i)[1])))), 'the bounds are not changed')
    if p is not None:
        ex.prove(ex.lp_vals(p) == v, 'the point is not changed')


def t_in(ex):
    ref, b = model(ex, False, True)
    p = ex.fresh_lp('p')
    v = ex.lp_vals(p)
    r = noraise(ex, lambda: call_real(ex, M + 'in_bounds', [ref, p]), 'in_bounds')
    t = ex.branch(lib.truth(ex, r))
    g = inside(ex, b, p)
    ex.prove(g if t else Not(g), 'in bounds exactly when every coordinate lies strictly between its bounds')
    untouched(ex, p, v, b, ref)


def in_contract(b):
    def c(ex, self, p):
        t = ex.fresh_bool('inb')
        ex.assume(iff(t, inside(ex, b, p)))
        return t
    return c


def t_prior(ex):
    ref, b = model(ex, False, True)
    ex.contracts[M + 'in_bounds'] = in_contract(b)
    p = ex.fresh_lp('p')
    v = ex.lp_vals(p)
    r = flt(lib.as_num(noraise(ex, lambda: call_real(ex, M + 'log_prior', [ref, p]), 'log_prior')))
    g = zb(inside(ex, b, p))
    ex.prove(z3.If(g, zb(f_same(r, flt(0))), zb(f_same(r, NINF))), 'log-prior is 0 in bounds and -inf elsewhere')
    untouched(ex, p, v, b, ref)


UK, UR = z3.Function('userprior_k', V, I), z3.Function('userprior', V, R)


def user_prior(ex, self, p):
    """any user log-prior: a function of the coordinates"""
    v = ex.lp_vals(p)
    ex.assume(z3.And(UK(v) >= -1, UK(v) <= 1))
    return SFlt(UR(v), UK(v))


def t_pot(ex):
    ref, b = model(ex, False, True)
    ex.contracts[M + 'log_prior'] = user_prior
    p = ex.fresh_lp('p')
    v = ex.lp_vals(p)
    r = noraise(ex, lambda: call_real(ex, M + 'potential', [ref, p]), 'potential')
    ex.prove(f_same(flt(lib.as_num(r)), f_neg(user_prior(ex, ref, p))), 'the potential is minus the log-prior')
    untouched(ex, p, v, b, ref)


def box(ex, b, p):
    return forall(ex.dim, lambda i: And(f_le(b.get(i)[0], val(ex, p, i)), f_le(val(ex, p, i), b.get(i)[1])))


def cand_new(L):
    ex = L.ex
    if isinstance(L.it, int) and L.it == 0:
        return True
    env = {k: getattr(v, 'v', v) if isinstance(v, E.MaybeUnbound) else v for k, v in ex.frames[-1].env.items()}
    p = [v for v in env.values() if isinstance(v, LP)]
    ls = [v for v in env.values() if isinstance(v, SFlt)]
    if len(p) != 1 or len(ls) != 1:
        return True
    return Implies(And(lt(0, L.it), Not(f_same(ls[0], NINF))), And(box(ex, ex.b17, p[0]), f_same(ls[0], user_prior(ex, None, p[0]))))


def t_new(ex):
    ref, b = model(ex)
    ex.b17 = b
    ex.contracts[M + 'log_prior'] = user_prior
    p = noraise(ex, lambda: call_real(ex, M + 'new_point', [ref]), 'new_point')
    ex.prove(isinstance(p, LP), 'a live point is returned')
    ex.prove(box(ex, b, p), 'a new point has its coordinates within the bounds')
    ex.prove(Not(f_same(user_prior(ex, None, p), NINF)), 'a new point has non-zero prior')
    untouched(ex, None, None, b, ref)


def t_from(ex):
    ref, b = model(ex)
    u = ex.fresh_seq('u', ex.dim, KFlt(True))
    p = noraise(ex, lambda: call_real(ex, M + 'from_normalised', [ref, npmodel.nparr(ex, u)]), 'from_normalised')
    ex.prove(isinstance(p, LP), 'a live point is returned')
    ex.prove(forall(ex.dim, lambda i: f_eq(val(ex, p, i), f_add(b.get(i)[0], f_mul(u.get(i), f_sub(b.get(i)[1], b.get(i)[0]))))),
             'the unit cube is mapped linearly onto the bounds')
    untouched(ex, None, None, b, ref)


def t_to(ex):
    ref, b = model(ex)
    p = ex.fresh_lp('p')
    v = ex.lp_vals(p)
    r = noraise(ex, lambda: call_real(ex, M + 'to_normalised', [ref, p]), 'to_normalised')
    s = lib.to_seq(ex, r)
    ex.prove(eq(s.n, ex.dim), 'one normalised value per coordinate')
    ex.prove(forall(ex.dim, lambda i: f_eq(f_mul(s.get(i), f_sub(b.get(i)[1], b.get(i)[0])), f_sub(val(ex, p, i), b.get(i)[0]))),
             'the reverse mapping inverts the linear map')
    untouched(ex, p, v, b, ref)


def t_round(ex):
    ref, b = model(ex)
    u = ex.fresh_seq('u', ex.dim, KFlt(True))
    p = noraise(ex, lambda: call_real(ex, M + 'from_normalised', [ref, npmodel.nparr(ex, u)]), 'from_normalised')
    s = lib.to_seq(ex, noraise(ex, lambda: call_real(ex, M + 'to_normalised', [ref, p]), 'to_normalised'))
    ex.prove(forall(ex.dim, lambda i: f_eq(s.get(i), u.get(i))), 'there and back is the identity on the cube')
    q = noraise(ex, lambda: call_real(ex, M + 'from_normalised', [ref, npmodel.nparr(ex, s)]), 'from_normalised')
    ex.prove(forall(ex.dim, lambda i: f_eq(val(ex, q, i), val(ex, p, i))), 'back and there is the identity on the box')


def targets(tier):
    nl = {'nl': True}
    return [Target(M + 'in_bounds', t_in), Target(M + 'log_prior', t_prior), Target(M + 'potential', t_pot),
            Target(M + 'new_point', t_new, pool=[('point within bounds with its prior', cand_new)], opts=nl),
            Target(M + 'from_normalised', t_from, opts=nl), Target(M + 'to_normalised', t_to, opts=nl),
            Target('round trip of the unit-cube mapping', t_round, covers=(M + 'from_normalised', M + 'to_normalised'), opts=nl)]


ASSUMES = ['bounds are finite with lower < upper where points are drawn or mapped; a user log-prior is a function of the coordinates, never nan',
           'numpy.random.uniform(a, b) returns a number in [a, b]', 'new_point: partial correctness (a model with no point of non-zero prior loops)']
BOUNDED = ['replay/h17.py evaluates the same contracts on the real code']
