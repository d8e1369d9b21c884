"""The leapfrog chain behind the Hamiltonian proposals: ConstrainedLeapFrog (and the parts it inherits).

Specification functions
TRI(l,u,y)   y folded into [l,u] by reflecting at the ends (y itself when inside; unchanged by one reflection at the end that was crossed)
EVEN(l,u,y)  an even number of reflections does it
XQ, XP       position and momentum after the position step        HP, MP   momentum after a half / full momentum step
GRAD         the user's force         NRM   the unit normal to the contour, by contract of unit_normal"""
from .kern import *
from pyvc.npmodel import nparr

PR = 'cpnest.proposal.'
CLF = PR + 'ConstrainedLeapFrog.'
BB = z3.BoolSort()
TRI = z3.Function('TRI', R, R, R, R)
EVEN = z3.Function('EVEN', R, R, R, BB)
GRAD = z3.Function('GRAD', A, A)
DOT = z3.Function('DOT', A, A, R)


def fold_axioms(ex, l, u, y):
    """the definition of TRI and EVEN, at y"""
    up, dn = 2 * u - y, 2 * l - y
    ex.assume(z3.Implies(z3.And(l <= y, y <= u), z3.And(TRI(l, u, y) == y, EVEN(l, u, y))))
    ex.assume(z3.Implies(y > u, z3.And(TRI(l, u, y) == TRI(l, u, up), EVEN(l, u, y) == z3.Not(EVEN(l, u, up)))))
    ex.assume(z3.Implies(y < l, z3.And(TRI(l, u, y) == TRI(l, u, dn), EVEN(l, u, y) == z3.Not(EVEN(l, u, dn)))))


def asarr(ex, s):
    """the coordinate array of a vector"""
    if isinstance(s, Ref):
        s = ex.obj(s).pay
    j = z3.Int('asarr?')
    t = z3.simplify(flt(s.get(j)).zr())
    if z3.is_select(t) and t.arg(1).eq(j) and not mentions(t.arg(0), j):
        return t.arg(0)
    return lib.vfun(ex, 'arr', lambda i: flt(s.get(i)).zr())


def mentions(t, j):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.eq(j):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


def vec(ex, a):
    return nparr(ex, Seq(ex.dim, lambda i: SFlt(z3.Select(a, zi(i)), 0, None, True), KFlt(True, True)))


# ------------------------------------------------------------------ position step
class Pos:
    pass


def t_position(ex):
    k = ex.k = Pos()
    k.q = ex.fresh_lp('q')
    k.V0 = ex.lp_vals(k.q)
    k.vals0 = ex.st.lp['vals']
    k.P0 = z3.Const('p0', A)
    k.p = vec(ex, k.P0)
    lo, hi, im = z3.Const('lower', A), z3.Const('upper', A), z3.Const('inverse_mass', A)
    k.lo, k.hi = (lambda i: z3.Select(lo, zi(i))), (lambda i: z3.Select(hi, zi(i)))
    j = z3.Int('bnd?')
    ex.assume(z3.ForAll([j], z3.Select(lo, j) < z3.Select(hi, j)))
    bounds = ex.new_list(Seq(ex.dim, lambda i: (SFlt(k.lo(i), 0, None, True), SFlt(k.hi(i), 0, None, True)), KTuple([KFlt(True), KFlt(True)])))
    dt = ex.fresh_flt('dt', fin=True)
    RAWA = z3.Const('raw', A)
    ex.assume(z3.ForAll([j], z3.Select(RAWA, j) == z3.Select(k.V0, j) + dt.zr() * z3.Select(k.P0, j) * z3.Select(im, j), patterns=[z3.Select(RAWA, j)]))
    k.raw = lambda i: z3.Select(RAWA, zi(i))
    me = ex.new(cls(ex, PR + 'ConstrainedLeapFrog'), attrs=dict(prior_bounds=bounds, dt=dt, inverse_mass=vec(ex, im), d=ex.dim))
    r = noraise(ex, lambda: call_real(ex, CLF + 'evolve_trajectory_one_step_position', [me, k.p, k.q]), 'position step')
    ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Ref) and isinstance(r[1], LP)
    ex.prove(ok, 'momentum and position are returned')
    if not ok:
        return
    s, v = ex.obj(r[0]).pay, ex.lp_vals(r[1])
    ex.prove(eq(s.n, ex.dim), 'the momentum keeps its length')
    i = z3.Int(ex._n('i'))
    ex.assume(z3.And(i >= 0, i < ex.dim))
    l, u, y = k.lo(i), k.hi(i), z3.Select(v, i)
    ex.prove(z3.And(l <= y, y <= u), 'every coordinate is within its prior bounds')
    ex.prove(y == TRI(l, u, k.raw(i)), 'the coordinate is moved by dt times velocity and reflected into the bounds')
    ex.prove(flt(s.get(i)).zr() == z3.If(EVEN(l, u, k.raw(i)), z3.Select(k.P0, i), -z3.Select(k.P0, i)), 'the momentum changes sign once per reflection of its coordinate')
    x = z3.Int(ex._n('x'))
    ex.prove(z3.ForAll([x], z3.Implies(x != zi(k.q.ref), z3.Select(ex.st.lp['vals'], x) == z3.Select(k.vals0, x))) if not z3.is_int_value(zi(r[1].ref) - zi(k.q.ref)) else True, 'no other point is changed')
    ex.prove(eq(r[1].ref, k.q.ref), 'the point moved is the one given')


def V(L, i):
    return z3.Select(L.ex.lp_vals(L.ex.k.q), zi(i))


def Pm(L, i):
    return flt(L.ex.obj(L.ex.k.p).pay.get(i)).zr()


def done(L, n):
    k = L.ex.k
    return forall(n, lambda i: z3.And(V(L, i) >= k.lo(i), V(L, i) <= k.hi(i), V(L, i) == TRI(k.lo(i), k.hi(i), k.raw(i)),
                                      Pm(L, i) == z3.If(EVEN(k.lo(i), k.hi(i), k.raw(i)), z3.Select(k.P0, i), -z3.Select(k.P0, i))))


def rest(L, lo):
    k = L.ex.k
    return forall(L.ex.dim, lambda i: z3.And(V(L, i) == z3.Select(k.V0, i), Pm(L, i) == z3.Select(k.P0, i)), lo)


def moving(L, j, y=None):
    k = L.ex.k
    l, u = k.lo(j), k.hi(j)
    y = V(L, j) if y is None else flt(y).zr()
    for t in (y, 2 * u - y, 2 * l - y, k.raw(j)):
        fold_axioms(L.ex, l, u, t)
    return z3.And(TRI(l, u, y) == TRI(l, u, k.raw(j)), Pm(L, j) == z3.If(EVEN(l, u, y) == EVEN(l, u, k.raw(j)), z3.Select(k.P0, zi(j)), -z3.Select(k.P0, zi(j))))


def others(L):
    k = L.ex.k
    x = z3.Int(L.ex._n('x'))
    return z3.ForAll([x], z3.Implies(x != zi(k.q.ref), z3.Select(L.ex.st.lp['vals'], x) == z3.Select(k.vals0, x)), patterns=[z3.Select(L.ex.st.lp['vals'], x)])


def env_ints(L):
    return [v for n, v in sorted(L.env0.items()) if lib.isint(v)]


def nthint(q, f):
    def c(L):
        xs = env_ints(L)
        return f(L, xs[q]) if q < len(xs) else None
    return c


POS = [('done', lambda L: done(L, L.it)), ('rest', lambda L: rest(L, L.it)), ('others', others), ('momentum length', lambda L: eq(L.ex.obj(L.ex.k.p).pay.n, L.ex.dim))]
for q in range(3):
    POS += [('done to %d' % q, nthint(q, done)), ('rest from %d' % q, nthint(q, lambda L, j: rest(L, add(j, 1)))), ('moving %d' % q, nthint(q, moving))]


def position():
    return Target(CLF + 'evolve_trajectory_one_step_position', t_position, pool=POS, min_obl=5)



# ------------------------------------------------------------------ momentum step
class Force(Model):
    """what the user's force returns"""
    def __init__(self, a):
        self.a = a

    def py_getattr(self, ex, name):
        if name == 'view':
            return Fn(lambda ex, t=None: vec(ex, self.a))
        raise Unsupported('force.' + name)

    def same(self, o):
        return isinstance(o, Force) and o.a.eq(self.a)


NRM = z3.Function('NRM', A, A)


def np_dot(ex, a, b, **k):
    x, y = asarr(ex, a), asarr(ex, b)
    return SFlt(DOT(x, y), 0, None, True).with_(npy=True)


def potential(ex, q):
    v = ex.lp_vals(q)
    ex.assume(z3.And(PK(v) >= -1, PK(v) <= 0))
    return f_neg(PP(v))


def likelihood(ex, q):
    v = ex.lp_vals(q)
    ex.assume(z3.And(LK(v) >= -1, LK(v) <= 0))
    return LL(v)


def leap(ex, **at):
    base = dict(V=Fn(potential), log_likelihood=Fn(likelihood), dV=Fn(lambda ex, q: Force(GRAD(ex.lp_vals(q)))), dt=ex.fresh_flt('dt', fin=True), L=ex.fresh_int('L', lo=1), DEBUG=0, d=ex.dim)
    base.update(at)
    return ex.new(cls(ex, PR + 'ConstrainedLeapFrog'), attrs=base)


def c_normal(ex, me, q):
    return vec(ex, NRM(ex.lp_vals(q)))


def t_momentum(ex):
    q = ex.fresh_lp('q')
    v = ex.lp_vals(q)
    lp0 = dict(ex.st.lp)
    P0 = z3.Const('p0', A)
    p = vec(ex, P0)
    me = leap(ex)
    dt = ex.obj(me).attrs['dt'].zr()
    th = ex.fresh_flt('logLmin', nonan=True)
    half = ex.choose(2) == 1
    args, kw = [me, p, q, th], {}
    if half:
        kw['half'] = True
    elif ex.choose(2):
        kw['half'] = False
    r = noraise(ex, lambda: call_real(ex, CLF + 'evolve_trajectory_one_step_momentum', args, kw), 'momentum step')
    ok = isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Ref) and isinstance(r[1], LP)
    ex.prove(ok, 'momentum, position and the reflection flag are returned')
    if not ok:
        return
    s = ex.obj(r[0]).pay
    ex.prove(eq(s.n, ex.dim), 'the momentum keeps its length')
    ex.prove(And(eq(r[1].ref, q.ref), ex.lp_vals(q) == v), 'the position stays')
    i = z3.Int(ex._n('i'))
    ex.assume(z3.And(i >= 0, i < ex.dim))
    pi, gi = z3.Select(P0, i), z3.Select(GRAD(v), i)
    new = flt(s.get(i)).zr()
    ex.prove(f_isfinite(flt(s.get(i))), 'the momentum is finite')
    if half:
        ex.prove(new == pi - dt * gi / 2, 'a half step: half of dt times the force')
        ex.prove(lib.py_eq(ex, r[2], 0), 'a half step is not a reflection')
        return
    inside = zb(f_lt(th, LL(v)))
    n = NRM(v)
    ex.prove(z3.Implies(inside, new == pi - dt * gi), 'above the threshold: a full step, dt times the force')
    ex.prove(z3.Implies(z3.Not(inside), new == pi - 2 * DOT(P0, n) * z3.Select(n, i)), 'otherwise: reflected about the unit normal')
    ex.prove(iff(eq(r[2], 1), z3.Not(inside)), 'the flag tells a reflection')
    ex.prove(And(f_same(ex.lp_get(q, 'logL'), LL(v)), f_same(ex.lp_get(q, 'logP'), PP(v))), 'the point carries the likelihood and prior of its coordinates')
    # exact: the norm is preserved (DOT is bilinear, |n| = 1)
    c = DOT(P0, n)
    ex.lemma('the reflection preserves the norm', lambda pp, pn, nn: z3.Implies(nn == 1, pp - 2 * (2 * pn) * pn + (2 * pn) * (2 * pn) * nn == pp), DOT(P0, P0), c, DOT(n, n))


# ------------------------------------------------------------------ unit normal
SPL, SPLK = z3.Function('spline', I, R, R), z3.Function('spline_kind', I, R, I)
NORM = z3.Function('NORM', A, R)


class Spline(Model):
    def __init__(self, i):
        self.i = i

    def py_call(self, ex, args, kw):
        x = flt(lib.as_num(args[0]))
        k = SPLK(zi(self.i), x.zr())
        ex.assume(z3.Or(k == 0, k == 2))
        return SFlt(SPL(zi(self.i), x.zr()), k).with_(npy=True)

    def same(self, o):
        return isinstance(o, Spline) and o.i is self.i


def t_normal(ex):
    q = ex.fresh_lp('q')
    v = ex.lp_vals(q)
    me = leap(ex, normal=ex.new_list(Seq(ex.dim, lambda i: Spline(i))))
    r = noraise(ex, lambda: call_real(ex, PR + 'HamiltonianProposal.unit_normal', [me, q]), 'unit_normal')
    s = ex.obj(r).pay
    ex.prove(eq(s.n, ex.dim), 'one component per parameter')
    i = z3.Int(ex._n('i'))
    ex.assume(z3.And(i >= 0, i < ex.dim))
    x = z3.Select(v, i)
    w = z3.If(SPLK(i, x) == 2, z3.RealVal(-1), SPL(i, x))
    na = ex.st.ghost.get('_normed')
    ex.prove(na is not None, 'the vector is normalised')
    if na is None:
        return
    ex.prove(z3.Select(na, i) == w, 'the derivative splines at the coordinates, -1 where undefined')
    ex.prove(z3.Implies(NORM(na) > 0, flt(s.get(i)).zr() == w / NORM(na)), 'divided by its norm')


def np_norm(ex, a, *x, **k):
    if x or k:
        raise Unsupported('norm with options')
    arr = asarr(ex, a)
    ex.st.ghost['_normed'] = arr
    ex.assume(NORM(arr) >= 0)
    return SFlt(NORM(arr), 0, None, True).with_(npy=True)


# ------------------------------------------------------------------ trajectory
XQ, XP = z3.Function('XQ', A, A, A), z3.Function('XP', A, A, A)
HP, MP = z3.Function('HP', A, A, A), z3.Function('MP', A, A, R, A)
NEG = z3.Function('NEG', A, A)


class Mom(Model):
    """a momentum array: a reference into the ghost heap `mom`"""
    def __init__(self, ref):
        self.ref = ref

    def val(self, ex):
        return z3.Select(ex.st.ghost['mom'], zi(self.ref))

    def py_getattr(self, ex, name):
        if name == 'copy':
            return Fn(lambda ex: new_mom(ex, self.val(ex)))
        raise Unsupported('momentum.' + name)

    def py_unop(self, ex, t):
        if t == 'USub':
            return new_mom(ex, NEG(self.val(ex)))
        raise Unsupported('momentum operator')

    def py_binop(self, ex, t, b):
        if t == 'Mult' and lib.isnum(b) and ex.known(f_same(flt(b), flt(-1))):
            return new_mom(ex, NEG(self.val(ex)))
        raise Unsupported('momentum operator')

    py_rbinop = py_binop

    def same(self, o):
        return isinstance(o, Mom) and (self.ref is o.ref or is_z(self.ref) and is_z(o.ref) and self.ref.eq(o.ref))

    def py_same(self, ex, o):
        return isinstance(o, Mom) and eq(self.ref, o.ref)

    def subst(self, i, j):
        from pyvc import comp
        return Mom(comp.subst(self.ref, i, j) if is_z(self.ref) else self.ref)

    def v_ite(self, c, b):
        if isinstance(b, Mom):
            return Mom(i_ite(c, self.ref, b.ref))
        raise Unsupported('merge of momenta')

    def kind_of_elem(self):
        return KMod(lambda t: Mom(t), lambda v: v.ref)

    def havoc(self, ex, w, name):
        return Mom(ex.fresh_int(name)) if isinstance(w, Mom) else None


def new_mom(ex, a):
    gh = ex.st.ghost
    r = gh['nmom']
    gh['nmom'] = add(r, 1)
    gh['mom'] = z3.Store(gh['mom'], zi(r), a)
    return Mom(r)


def moms(ex):
    gh = ex.st.ghost
    gh['nmom'] = ex.fresh_int('nmom', lo=1)
    gh['mom'] = z3.Const('mom0', z3.ArraySort(I, A))


def c_position(ex, me, p, q):
    gh = ex.st.ghost
    m, v = p.val(ex), ex.lp_vals(q)
    gh['mom'] = z3.Store(gh['mom'], zi(p.ref), XP(m, v))
    ex.lp_set(q, 'vals', XQ(m, v))
    return (p, q)


def c_momentum(ex, me, p, q, th, half=False):
    gh = ex.st.ghost
    m, v = p.val(ex), ex.lp_vals(q)
    ex.prove(f_same(flt(th), ex.k.th), 'the momentum step is given the threshold')
    if half is True:
        gh['mom'] = z3.Store(gh['mom'], zi(p.ref), HP(m, v))
        return (p, q, 0)
    if half is not False:
        raise Unsupported('half')
    ex.assume(z3.And(LK(v) >= -1, LK(v) <= 0, PK(v) >= -1, PK(v) <= 0))
    ex.lp_set(q, 'logP', PP(v))
    ex.lp_set(q, 'logL', LL(v))
    gh['mom'] = z3.Store(gh['mom'], zi(p.ref), MP(m, v, ex.k.thr))
    return (p, q, ex.fresh_int('reflected', 0, 2))


def step(ex, mv):
    m, v = mv
    q1 = XQ(m, v)
    return MP(XP(m, v), q1, ex.k.thr), q1


def content(ex, pair, lpv=None, mom=None):
    q, p = pair
    return (z3.Select(ex.st.ghost['mom'] if mom is None else mom, zi(p.ref)), z3.Select(ex.st.lp['vals'] if lpv is None else lpv, zi(q.ref)))


def same2(a, b):
    return z3.And(a[0] == b[0], a[1] == b[1])


def owns(ex, q):
    v = ex.lp_vals(q)
    return And(f_same(ex.lp_get(q, 'logL'), LL(v)), f_same(ex.lp_get(q, 'logP'), PP(v)))


class Traj:
    pass


def c_sample_traj(ex, me, traj):
    """checked where the trajectory is handed over: the whole trajectory"""
    k = ex.k
    k.handed = True
    s = ex.obj(traj).pay
    L = k.L
    ex.prove(eq(s.n, add(1, mul(2, L))), 'a trajectory has the configured number of steps forward and as many backward')
    ex.prove(And(eq(s.get(0)[0].ref, k.q0.ref), ex.lp_vals(k.q0) == k.V0, s.get(0)[1].val(ex) == k.P0), 'it begins at the starting point, which is not changed')
    at = lambda i: content(ex, s.get(i))
    h = (HP(k.P0, k.V0), k.V0)
    b = (HP(NEG(k.P0), k.V0), k.V0)
    ex.prove(same2(at(1), step(ex, h)), 'first forward step: half a momentum step from the start, then a position and a momentum step')
    i = z3.Int(ex._n('i'))
    ex.prove(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < zi(L)), same2(at(add(i, 1)), step(ex, at(i))))), 'every forward point is one step from the one before')
    ex.prove(same2(at(add(L, 1)), step(ex, b)), 'first backward step: from the start with the momentum reversed')
    ex.prove(z3.ForAll([i], z3.Implies(z3.And(i >= zi(L) + 1, i < 2 * zi(L)), same2(at(add(i, 1)), step(ex, at(i))))), 'every backward point is one step from the one before')
    ex.prove(forall(s.n, lambda i: owns(ex, s.get(i)[0]), 1), 'every point reached carries the likelihood and prior of its coordinates')
    ex.prove(forall(s.n, lambda i: And(le(k.alloc0, s.get(i)[0].ref), lt(s.get(i)[0].ref, ex.st.alloc)), 1), 'every point reached is a new object')
    ex.k.res = s.get(ex.fresh_int('chosen', 1, sub(s.n, 1)))
    return ex.k.res


def t_trajectory(ex):
    k = ex.k = Traj()
    moms(ex)
    k.q0 = ex.fresh_lp('q0')
    k.alloc0 = ex.st.alloc
    k.V0 = ex.lp_vals(k.q0)
    k.p0 = Mom(0)
    k.P0 = k.p0.val(ex)
    k.L = ex.fresh_int('L', lo=1)
    k.th = ex.fresh_flt('logLmin', nonan=True)
    k.thr = k.th.zr()
    k.handed = False
    me = leap(ex, L=k.L)
    r = noraise(ex, lambda: call_real(ex, CLF + 'evolve_trajectory', [me, k.p0, k.q0, k.th]), 'evolve_trajectory')
    ex.prove(k.handed and isinstance(r, tuple) and r is k.res, 'the point chosen from the trajectory is returned')


def tr(L):
    """the trajectory list: the only list of pairs"""
    for v in L.env0.values():
        if isinstance(v, Ref):
            o, e = L.ex.st.heap.get(v.id), L.entry.heap.get(v.id)
            if o is not None and o.cls == 'list' and isinstance(o.pay, Seq) and isinstance(o.pay.get(0), tuple) and isinstance(o.pay.get(0)[0], LP):
                return o.pay, e.pay
    raise Unsupported('no list')


def pairs(L):
    """pairs of a point and a momentum held in locals"""
    env = L.ex.frames[-1].env
    qs = [n for n, v in sorted(L.env0.items()) if isinstance(v, LP)]
    ps = [n for n, v in sorted(L.env0.items()) if isinstance(v, Mom)]
    return [((L.env0[a], L.env0[b]), (env[a], env[b])) for a in qs for b in ps]


def nthpair(j, f):
    def c(L):
        x = pairs(L)
        return f(L, x[j]) if j < len(x) else None
    return c


def begun(L, pr):
    (q0, p0), _ = pr
    return content(L.ex, (q0, p0), L.entry.lp['vals'], L.entry.ghost['mom'])


def if2(c, a, b):
    return (z3.If(zb(c), a[0], b[0]), z3.If(zb(c), a[1], b[1]))


def t_chain(L, pr):
    s, e = tr(L)
    st = begun(L, pr)
    return forall(s.n, lambda i: same2(content(L.ex, s.get(i)), step(L.ex, if2(eq(i, e.n), st, content(L.ex, s.get(sub(i, 1)))))), e.n)


def t_here(L, pr):
    s, e = tr(L)
    now = content(L.ex, pr[1])
    return z3.And(zi(s.n) >= zi(e.n), same2(now, if2(eq(s.n, e.n), begun(L, pr), content(L.ex, s.get(sub(s.n, 1))))))


def t_apart(L, pr):
    s, e = tr(L)
    q, p = pr[1]
    return forall(s.n, lambda i: And(Not(eq(s.get(i)[0].ref, q.ref)), Not(eq(s.get(i)[1].ref, p.ref))))


def t_frame(L, pr):
    q, p = pr[0]
    x = z3.Int(L.ex._n('x'))
    a, b = L.entry.lp['vals'], L.ex.st.lp['vals']
    m, n = L.entry.ghost['mom'], L.ex.st.ghost['mom']
    return z3.And(z3.ForAll([x], z3.Implies(z3.And(x < zi(L.entry.alloc), x != zi(q.ref)), z3.Select(a, x) == z3.Select(b, x)), patterns=[z3.Select(b, x)]),
                  z3.ForAll([x], z3.Implies(z3.And(x < zi(L.entry.ghost['nmom']), x != zi(p.ref)), z3.Select(m, x) == z3.Select(n, x)), patterns=[z3.Select(n, x)]))


def t_frame2(L, pr):
    q, p = pr[0]
    x = z3.Int(L.ex._n('x'))
    out = []
    for f in ('logLr', 'logLk', 'logPr', 'logPk'):
        a, b = L.entry.lp[f], L.ex.st.lp[f]
        out.append(z3.ForAll([x], z3.Implies(z3.And(x < zi(L.entry.alloc), x != zi(q.ref)), z3.Select(a, x) == z3.Select(b, x)), patterns=[z3.Select(b, x)]))
    return z3.And(*out)


def t_same(L, pr):
    return And(eq(pr[0][0].ref, pr[1][0].ref), eq(pr[0][1].ref, pr[1][1].ref))


def t_fresh(L, pr):
    q, p = pr[1]
    k = L.ex.k
    return And(le(k.alloc0, q.ref), lt(q.ref, L.ex.st.alloc), le(1, p.ref), lt(p.ref, L.ex.st.ghost['nmom']))


def t_new(L):
    s, e = tr(L)
    k = L.ex.k
    return forall(s.n, lambda i: And(le(k.alloc0, s.get(i)[0].ref), lt(s.get(i)[0].ref, L.ex.st.alloc)), 1)


def t_moms(L):
    s, e = tr(L)
    return forall(s.n, lambda i: And(le(0, s.get(i)[1].ref), lt(s.get(i)[1].ref, L.ex.st.ghost['nmom'])))


def t_own(L):
    s, e = tr(L)
    return forall(s.n, lambda i: owns(L.ex, s.get(i)[0]), 1)


def t_ownhere(L, pr):
    s, e = tr(L)
    return z3.Implies(zi(s.n) > zi(e.n), zb(owns(L.ex, pr[1][0])))


TR = [('new', t_new), ('momenta', t_moms), ('own', t_own), ('mom grows', lambda L: le(L.entry.ghost['nmom'], L.ex.st.ghost['nmom']))]
for q in range(4):
    TR += [(n + ' %d' % q, nthpair(q, f)) for n, f in (('chain', t_chain), ('here', t_here), ('apart', t_apart), ('frame', t_frame), ('frame2', t_frame2), ('same', t_same), ('fresh', t_fresh), ('own here', t_ownhere))]


# ------------------------------------------------------------------ choice of a point, acceptance probability
KE = z3.Function('kinetic', A, R)


def ham(ex, m, v):
    """the Hamiltonian at momentum m and coordinates v"""
    return f_add(SFlt(KE(m)), f_neg(PP(v)))


def kinetic(ex, p):
    return SFlt(KE(p.val(ex)), 0, None, True).with_(npy=True)


def logsumexp(ex, a, *x, **k):
    return ex.fresh_flt('norm').with_(npy=True)


def c_choice(ex, pop, size=None, replace=True, p=None):
    if size is not None:
        raise Unsupported('choice of several')
    s = lib.to_seq(ex, pop)
    if p is not None:
        ex.prove(eq(ex.obj(p).pay.n, s.n), 'one probability for each candidate point')
    i = ex.fresh_int('drawn', 0, s.n)
    ex.assume(le(1, s.n))
    ex.k.i = s.get(i)
    ex.k.nchoice = getattr(ex.k, 'nchoice', 0) + 1
    return ex.k.i


def t_sample(ex):
    k = ex.k = Traj()
    moms(ex)
    n = ex.fresh_int('n', lo=3)
    qs, ps = ex.fresh_seq('q', n, KLP()), ex.fresh_fn('p', I)
    s = Seq(n, lambda i: (qs.get(i), Mom(ps(zi(i)))), KTuple([KLP(), KMod(lambda t: Mom(t), lambda v: v.ref)]))
    j = z3.Int('pk?')
    v = lambda q: z3.Select(ex.st.lp['vals'], q.ref)
    ex.assume(z3.ForAll([j], z3.And(PK(v(qs.get(j))) >= -1, PK(v(qs.get(j))) <= 0)))
    before = dict(ex.st.lp), ex.st.ghost['mom']
    me = leap(ex, T=Fn(kinetic))
    r = noraise(ex, lambda: call_real(ex, CLF + 'sample_trajectory', [me, ex.new_list(s)]), 'sample_trajectory')
    ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], LP) and isinstance(r[1], Mom)
    ex.prove(ok, 'a point and its momentum are returned')
    if not ok:
        return
    i = getattr(k, 'i', None)
    ex.prove(i is not None and k.nchoice == 1, 'one point is drawn')
    ex.prove(exists(sub(n, 1), lambda j: And(eq(r[0].ref, qs.get(j).ref), eq(r[1].ref, ps(zi(j)))), 1) if i is None else
             And(le(1, i), lt(i, sub(n, 1)), eq(r[0].ref, qs.get(i).ref), eq(r[1].ref, ps(zi(i)))), 'the point is one of the interior points of the trajectory, with its own momentum')
    ex.prove(all(before[0][f] is ex.st.lp[f] or before[0][f].eq(ex.st.lp[f]) for f in ('vals', 'logLr', 'logPr')), 'no point is changed')


def t_get(klass):
    def t(ex):
        k = ex.k = Traj()
        moms(ex)
        q0 = ex.fresh_lp('q0')
        V0 = ex.lp_vals(q0)
        th = ex.fresh_flt('logLmin', nonan=True)
        ex.assume(PK(V0) == 0)      # the chain is at a point of non-zero prior (C25)
        drawn = []

        class Dist(Model):
            def py_getattr(self, ex, name):
                if name == 'rvs':
                    def rvs(ex, *a):
                        m = new_mom(ex, z3.Const(ex._n('momentum'), A))
                        k.P0 = m.val(ex)
                        k.p0 = m
                        k.n = getattr(k, 'n', 0) + 1
                        return m
                    return Fn(rvs)
                raise Unsupported('momenta_distribution.' + name)

        def c_evolve(ex, me, p, q, lm):
            ex.prove(And(eq(q.ref, q0.ref), ex.lp_vals(q) == V0), 'the trajectory starts at the given point')
            ex.prove(p.val(ex) == k.P0, 'with the drawn momentum')
            ex.prove(f_same(flt(lm), th), 'and the given threshold')
            k.q1 = ex.new_lp()
            k.V1 = z3.Const(ex._n('end'), A)
            ex.assume(z3.And(LK(k.V1) >= -1, LK(k.V1) <= 0, PK(k.V1) >= -1, PK(k.V1) <= 0))
            ex.lp_set(k.q1, 'vals', k.V1)
            ex.lp_set(k.q1, 'logL', LL(k.V1))
            ex.lp_set(k.q1, 'logP', PP(k.V1))
            m = new_mom(ex, z3.Const(ex._n('end_momentum'), A))
            k.P1 = m.val(ex)
            k.nev = getattr(k, 'nev', 0) + 1
            return (k.q1, m)
        ex.contracts[CLF + 'evolve_trajectory'] = c_evolve
        me = leap(ex, T=Fn(kinetic), momenta_distribution=Dist())
        kw = {} if ex.choose(2) else None
        r = noraise(ex, lambda: call_real(ex, CLF + 'get_sample', [me, q0, th] if kw is None else [me, q0], {} if kw is None else {'logLmin': th}), 'get_sample')
        ok = isinstance(r, LP) and getattr(k, 'nev', 0) == 1 and k.n == 1
        ex.prove(ok, 'one momentum is drawn, one trajectory made and a point returned')
        if not ok:
            return
        ex.prove(eq(r.ref, k.q1.ref), 'the point chosen from the trajectory is proposed')
        ex.prove(And(ex.lp_vals(r) == k.V1, owns(ex, r)), 'unchanged: it carries its own likelihood and prior')
        d = f_sub(ham(ex, k.P0, V0), ham(ex, k.P1, k.V1))
        j = flt(lib.as_num(ex.getattr(me, 'log_J')))
        ex.prove(f_same(j, f_ite(zb(f_lt(d, flt(0))), d, flt(0))), 'the acceptance log-probability is min(0, H before - H after)')
        ex.prove(z3.Implies(PK(k.V1) == -1, zb(f_same(j, NINF))), 'a point of zero prior has acceptance probability zero')
        ex.prove(And(ex.lp_vals(q0) == V0), 'the starting point is not changed')
    return t


def targets():
    return [position(),
            Target(CLF + 'evolve_trajectory_one_step_momentum', t_momentum, contracts={PR + 'HamiltonianProposal.unit_normal': c_normal}, externals={'numpy.dot': Fn(np_dot)},
                   covers=(CLF + 'evolve_trajectory_one_step_momentum', CLF + 'check_constraint', PR + 'HamiltonianProposal.gradient'), min_obl=8),
            Target(PR + 'HamiltonianProposal.unit_normal', t_normal, externals={'numpy.linalg.norm': Fn(np_norm)}, min_obl=3),
            Target(CLF + 'evolve_trajectory', t_trajectory, pool=TR, opts={'lpres': True}, min_obl=8,
                   contracts={CLF + 'evolve_trajectory_one_step_position': c_position, CLF + 'evolve_trajectory_one_step_momentum': c_momentum, CLF + 'sample_trajectory': c_sample_traj}),
            Target(CLF + 'sample_trajectory', t_sample, externals={'scipy.special.logsumexp': Fn(logsumexp), 'cpnest.proposal:logsumexp': Fn(logsumexp), 'numpy.random.choice': Fn(c_choice)},
                   covers=(CLF + 'sample_trajectory', PR + 'HamiltonianProposal.hamiltonian'), min_obl=4),
            Target(CLF + 'get_sample', t_get('ConstrainedLeapFrog'), covers=(CLF + 'get_sample', PR + 'LeapFrog.get_sample', PR + 'HamiltonianProposal.hamiltonian'),
                   externals={'numpy.atleast_1d': Fn(lambda ex, x: x)}, min_obl=6)]
