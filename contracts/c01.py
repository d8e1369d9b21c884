"""C01: OrderedLivePoints / KeyOrderedList."""
from pyvc.spec import *
from pyvc.values import *
from pyvc import lib, npmodel

OLP = 'cpnest.NestedSampling.OrderedLivePoints'


def logl(ex, p):
    return ex.lp_get(p, 'logL')


def ordered(ex, s):
    """the class invariant, first half: non-decreasing, no nan"""
    return And(forall(s.n, lambda k: Not(f_isnan(logl(ex, s.get(k))))),
               forall2(s.n, lambda j, k: f_le(logl(ex, s.get(j)), logl(ex, s.get(k)))))


def mirrors(ex, ref):
    """attributes of the container that hold one number per point"""
    out = []
    for a, v in sorted(ex.obj(ref).attrs.items()):
        if isinstance(v, Ref) and isinstance(ex.obj(v).pay, Seq):
            out.append(a)
    return out


def rep(ex, ref):
    """the class invariant, second half: every mirror list holds the key of the point at the same place"""
    o = ex.obj(ref)
    s = o.pay
    out = []
    for a in mirrors(ex, ref):
        m = ex.obj(o.attrs[a]).pay
        out.append(eq(m.n, s.n))
        out.append(forall(s.n, lambda k: key_eq(ex, m.get(k), s.get(k))))
    return And(*out)


def key_eq(ex, v, p):
    if isinstance(v, LP):
        return eq(v.ref, p.ref)
    if isinstance(v, SFlt):
        return f_same(v, logl(ex, p))
    raise Unsupported('unknown representation of the ordered container')


def make(ex, n=None, name='pts'):
    """an arbitrary valid container: the constructor's result, generalised to the class invariant"""
    n = ex.fresh_int('n', lo=0) if n is None else n
    pts = ex.fresh_seq(name, n, KLP())
    src = ex.new_list(pts)
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), Not(f_isnan(logl(ex, pts.get(i))))))
    ref = ex.instantiate(cls(ex, OLP), [src], {})
    return ref, pts


def valid_state(ex):
    """arbitrary state satisfying the class invariant (the shape comes from the constructor)"""
    ref, _ = make(ex)
    o = ex.obj(ref)
    n = ex.fresh_int('n', lo=0)
    s = ex.fresh_seq('live', n, KLP())
    o.pay = s
    for a in mirrors(ex, ref):
        m = ex.obj(o.attrs[a])
        pr = m.pay.get(z3.Int(ex._n('pr')))
        m.pay = ex.fresh_seq('mirror', ex.fresh_int('m', lo=0), KLP() if isinstance(pr, LP) else KFlt())
    ex.assume(ordered(ex, s))
    ex.assume(rep(ex, ref))
    return ref, s


def t_init(ex):
    ref, pts = noraise(ex, lambda: make(ex), 'constructor')
    s = ex.obj(ref).pay
    ex.prove(eq(s.n, pts.n), 'constructor keeps the number of points')
    ex.prove(ordered(ex, s), 'constructor result is ordered')
    ex.prove(rep(ex, ref), 'constructor establishes the key list')
    # complete: a bijection between input and content
    p = (s.meta or {}).get('perm')
    if p is None:
        raise Unsupported('constructor: no permutation witness')
    perm, inv, src = p
    n = pts.n
    ex.prove(forall(n, lambda k: And(le(0, perm(k)), lt(perm(k), n), eq(s.get(k).ref, pts.get(perm(k)).ref))),
             'constructor: every element is an input point')
    ex.prove(forall(n, lambda k: And(le(0, inv(k)), lt(inv(k), n), eq(perm(inv(k)), k), eq(s.get(inv(k)).ref, pts.get(k).ref))),
             'constructor: every input point is an element')


def t_insert(ex):
    ref, s = valid_state(ex)
    p = ex.fresh_lp('new')
    ex.assume(Not(f_isnan(logl(ex, p))))
    idx = noraise(ex, lambda: call_real(ex, OLP + '.insert_live_point', [ref, p]), 'insert_live_point')
    t = ex.obj(ref).pay
    n = s.n
    if not lib.isint(idx):
        ex.prove(False, 'insert_live_point returns an index')
        return
    ex.prove(eq(t.n, add(n, 1)), 'insert adds exactly one point')
    ex.prove(And(le(0, idx), le(idx, n)), 'insert returns a valid index')
    ex.prove(eq(t.get(idx).ref, p.ref), 'the returned index is where the new point sits')
    ex.prove(forall(n, lambda k: z3.Implies(zb(lt(k, idx)), zb(eq(t.get(k).ref, s.get(k).ref)))), 'insert keeps the points before')
    ex.prove(forall(n, lambda k: z3.Implies(zb(le(idx, k)), zb(eq(t.get(add(k, 1)).ref, s.get(k).ref)))), 'insert keeps the points after')
    ex.prove(forall(n, lambda k: iff(lt(k, idx), f_le(logl(ex, s.get(k)), logl(ex, p)))), 'the index counts the points not above the new one')
    ex.prove(ordered(ex, t), 'insert keeps the order')
    ex.prove(rep(ex, ref), 'insert keeps the key list')


def t_remove(ex):
    ref, s = valid_state(ex)
    m = ex.fresh_int('m', lo=0)
    ex.assume(le(m, s.n))
    noraise(ex, lambda: call_real(ex, OLP + '.remove_n_worst_points', [ref, m]), 'remove_n_worst_points')
    t = ex.obj(ref).pay
    ex.prove(eq(t.n, sub(s.n, m)), 'remove takes exactly n points')
    ex.prove(forall(t.n, lambda k: eq(t.get(k).ref, s.get(add(k, m)).ref)), 'remove keeps every other point in order')
    ex.prove(forall(m, lambda j: forall(t.n, lambda k: f_le(logl(ex, s.get(j)), logl(ex, t.get(k))))), 'the removed points are the lowest')
    ex.prove(ordered(ex, t), 'remove keeps the order')
    ex.prove(rep(ex, ref), 'remove keeps the key list')


def targets(tier):
    q = 'cpnest.NestedSampling.'
    return [Target(OLP + '.__init__', t_init, covers=(OLP + '.__init__', q + 'KeyOrderedList.__init__')),
            Target(OLP + '.insert_live_point', t_insert, covers=(OLP + '.insert_live_point', q + 'KeyOrderedList.add', q + 'KeyOrderedList.search')),
            Target(OLP + '.remove_n_worst_points', t_remove)]
