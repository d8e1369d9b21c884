"""C16: the LivePoint bodies of parameter.pyx (converted to Python syntax by Cython's own parser on every run)."""
from .ns import *
from pyvc.npmodel import nparr

P = 'cpnest.parameter.LivePoint'
FIXED = {'logL': -1, 'logPrior': -2}


class Name(Model):
    """a parameter name; equal names have equal numbers"""
    def __init__(self, i):
        self.i = i

    def py_eq(self, ex, o):
        if isinstance(o, Name):
            return eq(self.i, o.i)
        if isinstance(o, str):
            return eq(self.i, FIXED.get(o, -3))
        return False

    py_same = py_eq

    def same(self, o):
        return isinstance(o, Name) and zi(self.i).eq(zi(o.i))

    def kind_of_elem(self):
        return KMod(Name, lambda v: zi(nid(v)))

    def subst(self, a, b):
        from pyvc import comp
        return Name(comp.subst(zi(self.i), a, b))

    def v_ite(self, c, o):
        return Name(i_ite(c, self.i, nid(o)))


def nid(v):
    if isinstance(v, Name):
        return v.i
    if v in FIXED:
        return z3.IntVal(FIXED[v])
    raise Unsupported('name %r' % (v,))


def merge_names(c, a, b):
    ok = lambda x: isinstance(x, Name) or isinstance(x, str) and x in FIXED
    return Name(i_ite(c, nid(a), nid(b))) if ok(a) and ok(b) else None


MERGE.append(merge_names)


def names(ex):
    """distinct names, other than logL and logPrior"""
    nm = ex.fresh_fn('name', I)
    inv = ex.fresh_fn('place', I)
    ex.place, ex.nm = inv, nm
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < ex.dim), z3.And(nm(i) >= 0, inv(nm(i)) == i)), pattern=lambda i: nm(i))
    return ex.new_list(Seq(ex.dim, lambda i: Name(nm(zi(i))), KMod(Name, lambda v: zi(nid(v)))))


def blank(ex, *a, **k):
    """a cdef class instance: typed attributes start at their C defaults, then __cinit__ runs"""
    o = ex.new(cls(ex, P), attrs=dict(logL=flt(0), logP=flt(0), dimension=0, values=None, names=None, bounds=None))
    m, kind, _ = ex.find_method(cls(ex, P), '__cinit__')
    ex.call(m, [o] + list(a), k)
    return o


def point(ex, nm, name):
    v = ex.fresh_seq(name, ex.dim, KFlt(True))
    return ex.new(cls(ex, P), attrs=dict(logL=ex.fresh_flt(name + '.logL'), logP=ex.fresh_flt(name + '.logP'), dimension=ex.dim, names=nm,
                                         values=ex.new('ndarray', pay=v, meta={'dtype': 'f', 'stdarray': True}), bounds=None))


class St:
    def __init__(self, ex, ref):
        o = ex.obj(ref)
        self.ref, self.at = ref, dict(o.attrs)
        self.vref = o.attrs['values']
        self.v = ex.obj(self.vref).pay
        self.nref = o.attrs['names']
        self.n = lib.to_seq(ex, self.nref)


def val(v):
    v = flt(lib.as_num(v))
    return v.zr()


def isfin(v):
    return f_isfinite(flt(lib.as_num(v)))


def has(ex, ref, f, label):
    """the coordinates of ref are f(k)"""
    s = St(ex, ref)
    ex.prove(And(eq(s.v.n, ex.dim), eq(s.at['dimension'], ex.dim)), label + ': one value per parameter')
    ex.prove(forall(ex.dim, lambda k: And(isfin(s.v.get(k)), val(s.v.get(k)) == f(k))), label)
    return s


def kept(ex, s0, label, coords=True):
    s = St(ex, s0.ref)
    if coords:
        ex.prove(And(eq(s.v.n, s0.v.n), forall(ex.dim, lambda k: val(s.v.get(k)) == val(s0.v.get(k)))), label + ': coordinates')
    ex.prove(And(f_same(flt(s.at['logL']), flt(s0.at['logL'])), f_same(flt(s.at['logP']), flt(s0.at['logP']))), label + ': likelihood and prior')
    ex.prove(eq(s.at['dimension'], s0.at['dimension']), label + ': dimension')
    namesame(ex, s.n, s0.n, label)


def namesame(ex, a, b, label):
    ex.prove(And(eq(a.n, b.n), forall(ex.dim, lambda k: eq(nid(a.get(k)), nid(b.get(k))))), label + ': names')


OPS = {'__add__': (2, lambda a, b: a + b), '__sub__': (2, lambda a, b: a - b), '__mul__': (1, lambda a, s: a * s), '__truediv__': (1, lambda a, s: a / s)}


def setup(ex, op, n):
    nm = names(ex)
    A = point(ex, nm, 'a')
    a0 = St(ex, A)
    ex.A = A
    if n == 2:
        same = ex.choose(2)
        B = A if same else point(ex, nm, 'b')
        b0 = St(ex, B)
        ex.f = lambda k: op(val(a0.v.get(k)), val(b0.v.get(k)))
        return nm, A, a0, B, b0
    s = ex.fresh_flt('s', fin=True)
    ex.f = lambda k: op(val(a0.v.get(k)), s.zr())
    return nm, A, a0, s, None


def is_point(ex, r):
    return isinstance(r, Ref) and getattr(ex.obj(r).cls, 'qual', None) == P


def new_point(ex):
    env = ex.frames[-1].env
    rs = [v for k, v in sorted(env.items()) if isinstance(v, Ref) and v not in ex.olds and is_point(ex, v)]
    return rs[0] if len(rs) == 1 else None


def cand_new(L):
    """the new point has the first `it` coordinates"""
    ex = L.ex
    r = new_point(ex)
    if r is None:
        return None
    v = ex.obj(ex.obj(r).attrs['values']).pay
    return And(eq(v.n, ex.dim), forall(L.it, lambda k: And(isfin(v.get(k)), val(v.get(k)) == ex.f(k))),
               forall(ex.dim, lambda k: isfin(v.get(k))))


def cand_in(L):
    ex = L.ex
    if not ex.inplace:
        return None
    v = ex.obj(ex.obj(ex.A).attrs['values']).pay
    g = ex.a0.v
    return And(eq(v.n, ex.dim), forall(ex.dim, lambda k: And(isfin(v.get(k)), val(v.get(k)) == z3.If(zb(lt(k, L.it)), ex.f(k), val(g.get(k))))))


def zero(ex, n, s):
    return f_eq(s, 0)


def t_bin(name):
    n, op = OPS[name]

    def run(ex):
        nm, A, a0, b, b0 = setup(ex, op, n)
        ex.inplace = False
        ex.olds = [A] + ([b] if n == 2 else [])
        if name == '__truediv__':
            ex.assume(Not(zero(ex, n, b)))
        r = noraise(ex, lambda: call_real(ex, P + '.' + name, [A, b]), name)
        ex.prove(is_point(ex, r) and r not in ex.olds, 'a new point is made')
        s = has(ex, r, ex.f, 'every coordinate of the result')
        ex.prove(s.vref not in (a0.vref, b0.vref if b0 else None), 'the result does not share its coordinates with an operand')
        namesame(ex, s.n, a0.n, 'the result')
        ex.prove(And(f_same(flt(s.at['logL']), NINF), f_same(flt(s.at['logP']), NINF)), 'the result has not been evaluated: its likelihood and prior are -inf')
        kept(ex, a0, 'the left operand is unchanged')
        if b0:
            kept(ex, b0, 'the right operand is unchanged')
    return run


def t_iop(name):
    n, op = OPS['__' + name[3:]]

    def run(ex):
        nm, A, a0, b, b0 = setup(ex, op, n)
        ex.inplace, ex.a0 = True, a0
        ex.olds = [A] + ([b] if n == 2 else [])
        if name == '__itruediv__':
            ex.assume(Not(zero(ex, n, b)))
        r = noraise(ex, lambda: call_real(ex, P + '.' + name, [A, b]), name)
        ex.prove(r == A, 'the target itself is returned')
        has(ex, A, ex.f, 'every coordinate of the target')
        kept(ex, a0, 'the target', coords=False)
        if b0 and b != A:
            kept(ex, b0, 'the right operand is unchanged')
    return run


def t_dim(name):
    def run(ex):
        nm = names(ex)
        A = point(ex, nm, 'a')
        m = ex.fresh_int('otherdim', lo=0)
        B = ex.new(cls(ex, P), attrs=dict(logL=flt(0), logP=flt(0), dimension=m, names=ex.new_list(ex.fresh_seq('onames', m, KMod(Name, lambda v: zi(nid(v))))), bounds=None,
                                          values=ex.new('ndarray', pay=ex.fresh_seq('ov', m, KFlt(True)), meta={'dtype': 'f', 'stdarray': True})))
        a0 = St(ex, A)
        ex.assume(Not(eq(m, ex.dim)))
        ex.inplace, ex.olds, ex.A = False, [A, B], A
        try:
            call_real(ex, P + '.' + name, [A, B])
        except E.PyRaise as e:
            ex.prove(e.exc.name == 'AssertionError', 'points of different dimension are refused')
            kept(ex, a0, 'a refused operation')
            return
        ex.prove(False, 'points of different dimension are refused')
    return run


def cand_notyet(L):
    """no name seen so far is the wanted one, and nothing is written yet"""
    ex = L.ex
    nm, v, s0 = ex.nm, ex.obj(ex.obj(ex.A).attrs['values']).pay, ex.a0
    return And(forall(L.it, lambda k: nm(k) != ex.want), eq(v.n, s0.v.n), forall(ex.dim, lambda k: val(v.get(k)) == val(s0.v.get(k))))


def t_item(write):
    def run(ex):
        nm = names(ex)
        A = ex.A = point(ex, nm, 'a')
        a0 = ex.a0 = St(ex, A)
        ex.want = ex.fresh_int('wanted', lo=0)
        known = ex.choose(2)
        if known:
            j = ex.fresh_int('at', 0, ex.dim)
            ex.assume(ex.want == ex.nm(j))
        else:
            k = z3.Int(ex._n('k'))
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ex.dim), ex.nm(k) != ex.want), patterns=[ex.nm(k)]))
        x = ex.fresh_flt('x', fin=True)
        try:
            r = call_real(ex, P + ('.__setitem__' if write else '.__getitem__'), [A, Name(ex.want)] + ([x] if write else []))
        except E.PyRaise as e:
            ex.prove(e.exc.name == 'KeyError', 'only an unknown name is refused')
            ex.prove(not known, 'a known name is accepted')
            kept(ex, a0, 'a refused access')
            return
        ex.prove(bool(known), 'unknown names are refused')
        if not known:
            return
        if write:
            has(ex, A, lambda k: z3.If(zi(k) == j, x.zr(), val(a0.v.get(k))), 'exactly the named coordinate is written')
            kept(ex, a0, 'writing', coords=False)
        else:
            ex.prove(f_same(flt(lib.as_num(r)), flt(a0.v.get(j))), 'the named coordinate is read')
            kept(ex, a0, 'reading')
    return run


def item_contract(ex, self, name):
    """LivePoint.__getitem__, by its contract"""
    s = St(ex, self)
    j = ex.place(zi(nid(name)))
    ok = And(le(0, j), lt(j, ex.dim), eq(ex.nm(j), nid(name)))
    if not ex.branch(ok):
        lib.raise_('KeyError')
    return s.v.get(j)


def t_init(ex):
    nm = names(ex)
    ns = lib.to_seq(ex, nm)
    kind = ex.choose(3)
    l, p = ex.fresh_flt('logL'), ex.fresh_flt('logP')
    dv = ex.fresh_seq('d', ex.dim, KFlt(True))
    d = ex.new('ndarray', pay=dv, meta={'dtype': 'f', 'stdarray': True})
    if kind == 0:
        r = noraise(ex, lambda: blank(ex, nm), 'LivePoint(names)')
        f, l, p = (lambda k: z3.RealVal(0)), flt(NINF), flt(NINF)
    elif kind == 1:
        r = noraise(ex, lambda: blank(ex, nm, d), 'LivePoint(names, d)')
        f, l, p = (lambda k: val(dv.get(k))), flt(NINF), flt(NINF)
    else:
        r = noraise(ex, lambda: blank(ex, nm, d=d, logL=l, logP=p), 'LivePoint(names, d, logL, logP)')
        f = lambda k: val(dv.get(k))
    s = has(ex, r, f, 'the coordinates are the given ones, or 0')
    ex.prove(And(f_same(flt(s.at['logL']), l), f_same(flt(s.at['logP']), p)), 'the likelihood and prior are the given ones, or -inf')
    namesame(ex, s.n, ns, 'the point')
    ex.prove(s.vref != d, 'the coordinates are the point\'s own')
    ex.prove(forall(ex.dim, lambda k: val(ex.obj(d).pay.get(k)) == val(dv.get(k))), 'the given array is unchanged')


def t_copy(ex):
    nm = names(ex)
    A = point(ex, nm, 'a')
    a0 = St(ex, A)
    r = noraise(ex, lambda: call_real(ex, P + '.copy', [A]), 'copy')
    ex.prove(is_point(ex, r) and r != A, 'a new point is made')
    carried(ex, r, a0, 'the copy')
    kept(ex, a0, 'the original')


def carried(ex, r, a0, label):
    s = has(ex, r, lambda k: val(a0.v.get(k)), label + ' has every coordinate')
    ex.prove(And(f_same(flt(s.at['logL']), flt(a0.at['logL'])), f_same(flt(s.at['logP']), flt(a0.at['logP']))), label + ' has the likelihood and prior')
    ex.prove(s.vref != a0.vref, label + ' has its own coordinates')
    namesame(ex, s.n, a0.n, label)


def t_pickle(ex):
    """pickle: call reduce[0](*reduce[1]), then __setstate__(reduce[2])"""
    nm = names(ex)
    A = point(ex, nm, 'a')
    a0 = St(ex, A)
    red = noraise(ex, lambda: call_real(ex, P + '.__reduce__', [A]), '__reduce__')
    ex.prove(isinstance(red, tuple) and len(red) == 3 and isinstance(red[1], tuple), '__reduce__ gives a constructor, its arguments and a state')
    r = noraise(ex, lambda: ex.call(red[0], list(red[1]), {}), 'the constructor')
    ex.prove(is_point(ex, r) and r != A, 'a new point is made')
    noraise(ex, lambda: call_real(ex, P + '.__setstate__', [r, red[2]]), '__setstate__')
    carried(ex, r, a0, 'the pickled point')
    kept(ex, a0, 'the original')


class Rec(Model):
    """one record with named columns"""
    def __init__(self, nms):
        self.nms = nms

    def _in(self, ex, k):
        j = z3.Int(ex._n('j'))
        return z3.Exists([j], z3.And(j >= 0, j < zi(self.nms.n), zi(nid(self.nms.get(j))) == zi(nid(k))))

    def py_setitem(self, ex, k, v):
        g = ex.st.ghost
        ex.prove(self._in(ex, k), 'the record has the column')
        v = flt(lib.as_num(v))
        g['rk'] = z3.Store(g['rk'], zi(nid(k)), zi(v.k))
        g['rr'] = z3.Store(g['rr'], zi(nid(k)), v.zr())

    def get(self, ex, k):
        g = ex.st.ghost
        return SFlt(z3.Select(g['rr'], zi(nid(k))), z3.Select(g['rk'], zi(nid(k))))


def np_zeros(ex, n, dtype=None):
    if not (isinstance(n, int) and n == 1) or not isinstance(dtype, Ref):
        raise Unsupported('zeros')
    d = ex.obj(dtype).pay
    f = lib.to_seq(ex, d['formats'])
    ns = lib.to_seq(ex, d['names'])
    ex.prove(eq(f.n, ns.n), 'one format per column')
    ex.prove(forall(f.n, lambda k: f.get(k) == 'f8' if isinstance(f.get(k), str) else False), 'columns are doubles')
    g = ex.st.ghost
    g['rk'] = z3.K(I, z3.IntVal(0))
    g['rr'] = z3.K(I, z3.RealVal(0))
    return Rec(ns)


def cand_cols(L):
    ex = L.ex
    g, a0 = ex.st.ghost, ex.a0
    if 'rk' not in g:
        return None
    return forall(L.it, lambda k: And(z3.Select(g['rk'], ex.nm(k)) == 0, z3.Select(g['rr'], ex.nm(k)) == val(a0.v.get(k))))


def t_asnp(ex):
    nm = names(ex)
    ex.st.ghost['rk'] = z3.K(I, z3.IntVal(0))
    ex.st.ghost['rr'] = z3.K(I, z3.RealVal(0))
    A = ex.A = point(ex, nm, 'a')
    a0 = ex.a0 = St(ex, A)
    r = noraise(ex, lambda: call_real(ex, P + '.asnparray', [A]), 'asnparray')
    ex.prove(isinstance(r, Rec), 'a record is returned')
    ns = r.nms
    ex.prove(And(eq(ns.n, ex.dim + 2), forall(ex.dim, lambda k: eq(nid(ns.get(k)), ex.nm(k))), eq(nid(ns.get(ex.dim)), -1), eq(nid(ns.get(ex.dim + 1)), -2)),
             'the columns are the parameters, logL and logPrior')
    ex.prove(forall(ex.dim, lambda k: f_same(r.get(ex, Name(ex.nm(k))), flt(a0.v.get(k)))), 'the record has every coordinate')
    ex.prove(f_same(r.get(ex, 'logL'), flt(a0.at['logL'])), 'the record has the likelihood')
    ex.prove(f_same(r.get(ex, 'logPrior'), flt(a0.at['logP'])), 'the record has the prior')
    kept(ex, a0, 'the point')


def t_len(ex):
    nm = names(ex)
    A = point(ex, nm, 'a')
    ex.prove(eq(noraise(ex, lambda: call_real(ex, P + '.__len__', [A]), 'len'), ex.dim), 'the length is the number of parameters')
    ks = lib.to_seq(ex, noraise(ex, lambda: call_real(ex, P + '.keys', [A]), 'keys'))
    namesame(ex, ks, lib.to_seq(ex, nm), 'keys')


def targets(tier):
    o = {'raw_lp': True, 'nl': True}
    c = {P: blank}
    pool = [('coordinates done', cand_new), ('coordinates done in place', cand_in)]
    ts = [Target(P + '.__cinit__', t_init, contracts=c, opts=o)]
    ts += [Target(P + '.' + n, t_bin(n), contracts=c, pool=pool, opts=o) for n in OPS]
    ts += [Target(P + '.' + n, t_iop(n), contracts=c, pool=pool, opts=o) for n in ('__iadd__', '__isub__', '__imul__', '__itruediv__')]
    ts += [Target('refusal by ' + n, t_dim(n), contracts=c, opts=o, covers=(P + '.' + n,)) for n in ('__add__', '__sub__', '__iadd__', '__isub__')]
    ts += [Target(P + '.__getitem__', t_item(False), contracts=c, pool=[('not found yet', cand_notyet)], opts=o),
           Target(P + '.__setitem__', t_item(True), contracts=c, pool=[('not found yet', cand_notyet)], opts=o),
           Target(P + '.copy', t_copy, contracts=c, opts=o, covers=(P + '.copy', P + '.__getstate__', P + '.__setstate__')),
           Target('pickle round trip', t_pickle, contracts=c, opts=o, covers=(P + '.__reduce__', 'cpnest.parameter.rebuild_livepoint', P + '.__getstate__', P + '.__setstate__')),
           Target(P + '.asnparray', t_asnp, contracts={**c, P + '.__getitem__': item_contract}, pool=[('columns filled', cand_cols)], opts=o,
                  externals={'numpy.zeros': Fn(np_zeros)}),
           Target(P + '.__len__', t_len, contracts=c, opts=o, covers=(P + '.__len__', P + '.keys'))]
    return ts


ASSUMES = ['coordinates are finite; floating-point arithmetic is exact (the extension is compiled with -ffast-math)', 'parameter names are distinct, and none is logL or logPrior',
           'C integer indices do not overflow; C typing of the Cython text is dropped by the conversion', 'pickle calls the constructor and __setstate__ on copies of what __reduce__ returned']
BOUNDED = ['replay/h16.py runs the same contracts on the compiled extension built from the current source']
