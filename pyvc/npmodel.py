"""Contracts assumed of numpy, math, random and the other library modules cpnest uses."""
import ast
import z3
from .values import *
from .engine import PyRaise, PyExc, Bound, FuncVal, ClassInfo, ModuleVal, BuiltinType, GenObj
from . import comp
from .comp import Frozen
from . import lib
from .lib import isint, isbool, isnum, as_num, raise_, to_seq, SVec

FMETA = {'dtype': 'f'}


def nparr(ex, seq, dtype=None):
    return ex.new('ndarray', pay=seq, meta={'dtype': dtype} if dtype else {})


def npf(v):
    """a scalar taken from / produced by numpy"""
    if isinstance(v, SFlt):
        return v if v.npy else v.with_(npy=True)
    return v


def arr(ex, v):
    """sequence of an array-like, else None"""
    if isinstance(v, Ref) and ex.obj(v).cls in ('ndarray', 'list', 'deque') and isinstance(ex.obj(v).pay, Seq):
        return ex.obj(v).pay
    if isinstance(v, Frozen):
        return v.seq
    if isinstance(v, SVec):
        return v.seq(ex)
    if isinstance(v, Seq):
        return v
    if isinstance(v, tuple):
        return Seq.of(list(v))
    return None


def isarr(ex, v):
    return lib.is_arr(ex, v)


def nmap(ex, v, f):
    """elementwise"""
    s = arr(ex, v)
    if s is None:
        raise Unsupported('elementwise operation on %r' % (v,))
    return nparr(ex, Seq(s.n, lambda i: f(s.get(i)), None, [f(x) for x in s.items] if s.items is not None else None) if s.items is None
                 else Seq.of([f(x) for x in s.items]))


def same_len(ex, n, m):
    e = eq(n, m)
    if e is True:
        return
    if not ex.branch(e):
        raise_('ValueError', 'operands could not be broadcast together')


def nmap2(ex, a, b, f):
    sa, sb = arr(ex, a), arr(ex, b)
    if sa is None and sb is None:
        return f(a, b)
    if sb is None:
        return nmap(ex, a, lambda x: f(x, b))
    if sa is None:
        return nmap(ex, b, lambda x: f(a, x))
    if isinstance(sb.n, int) and sb.n == 1 and not (isinstance(sa.n, int) and sa.n == 1):
        x = sb.get(0)
        return nmap(ex, sa, lambda y: f(y, x))
    same_len(ex, sa.n, sb.n)
    if sa.items is not None and sb.items is not None:
        return nparr(ex, Seq.of([f(x, y) for x, y in zip(sa.items, sb.items)]))
    return nparr(ex, Seq(sa.n, lambda i: f(sa.get(i), sb.get(i))))


def nd_num(ex, t):
    def f(x, y):
        x, y = as_num(x), as_num(y)
        if isint(x) and isint(y) and t in ('Add', 'Sub', 'Mult'):
            return lib.num_binop(ex, t, x, y)
        fx, fy = npf(flt(x)), npf(flt(y))
        if t == 'Add':
            return f_add(fx, fy)
        if t == 'Sub':
            return f_sub(fx, fy)
        if t == 'Mult':
            return f_mul(fx, fy)
        if t == 'Div':
            return lib.np_div(fx, fy)
        if t == 'Pow':
            if not is_z(fy.r) and fy.fin and fy.r.denominator == 1 and 0 <= fy.r <= 4:
                r = flt(1)
                for _ in range(int(fy.r)):
                    r = f_mul(r, fx)
                return npf(r)
        if t == 'FloorDiv':
            return lib.f_floor(lib.np_div(fx, fy))
        if t in ('BitAnd', 'BitOr'):
            raise Unsupported('array bit operation')
        raise Unsupported('array operator ' + t)
    return f


def binop(ex, t, a, b):
    for v in (a, b):
        if isinstance(v, Ref) and (ex.obj(v).meta or {}).get('stdarray'):
            raise Unsupported('operator on array.array')
    if t in ('BitAnd', 'BitOr'):
        return nmap2(ex, a, b, lambda x, y: (And if t == 'BitAnd' else Or)(zb(x), zb(y)))
    if isinstance(a, Ref) and ex.obj(a).cls == 'nd2' or isinstance(b, Ref) and ex.obj(b).cls == 'nd2':
        return Opaque('nd2')
    # list + array etc.
    return nmap2(ex, a, b, nd_num(ex, t))


def vec_binop(ex, t, a, b):
    """vectors of the dimension: z3 arrays"""
    if isinstance(a, SVec) and isinstance(b, SVec):
        x, y = a.arr, b.arr
        g = {'Add': lambda i: x[i] + y[i], 'Sub': lambda i: x[i] - y[i], 'Mult': lambda i: x[i] * y[i], 'Div': lambda i: x[i] / y[i]}
    elif isinstance(a, SVec) and isnum(b):
        s = flt(as_num(b))
        if not s.fin:
            ex.prove(f_isfinite(s), 'vector stays finite')
        x, r = a.arr, s.zr()
        g = {'Add': lambda i: x[i] + r, 'Sub': lambda i: x[i] - r, 'Mult': lambda i: x[i] * r, 'Div': lambda i: x[i] / r}
    elif isinstance(b, SVec) and isnum(a):
        s = flt(as_num(a))
        if not s.fin:
            ex.prove(f_isfinite(s), 'vector stays finite')
        x, r = b.arr, s.zr()
        g = {'Add': lambda i: r + x[i], 'Sub': lambda i: r - x[i], 'Mult': lambda i: r * x[i], 'Div': lambda i: r / x[i]}
    else:
        o = b if isinstance(a, SVec) else a
        s = arr(ex, o)
        if s is None:
            if isinstance(o, Model) and hasattr(o, 'py_rbinop'):
                return o.py_rbinop(ex, t, a)
            raise Unsupported('vector operand %r' % (o,))
        same_len(ex, s.n, ex.dim)
        v = SVec(lib.vfun(ex, 'vec', lambda i: flt(s.get(i)).zr()))
        return vec_binop(ex, t, a, v) if isinstance(a, SVec) else vec_binop(ex, t, v, b)
    if t == 'Pow' and isinstance(b, int) and b == 2:
        return SVec(lib.vfun(ex, 'vec', lambda i: a.arr[i] * a.arr[i]))
    if t not in g:
        raise Unsupported('vector operator ' + t)
    return SVec(lib.vfun(ex, 'vec', g[t]))


def ncompare(ex, op, a, b):
    t = type(op).__name__

    def f(x, y):
        x, y = as_num(x), as_num(y)
        return lib.compare(ex, op, x, y)
    if t in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
        return nmap2(ex, a, b, f)
    raise Unsupported('array comparison ' + t)


# ------------------------------------------------------------------ record arrays
class RecRow(Model):
    """row i of a base record table"""
    def __init__(self, table, i):
        self.table, self.i = table, i

    def v_ite(self, c, b):
        if isinstance(b, RecRow) and b.table is self.table:
            return RecRow(self.table, i_ite(c, self.i, b.i))
        raise Unsupported('merge of rows')

    def subst(self, i, j):
        return RecRow(self.table, comp.subst(self.i, i, j) if is_z(self.i) else self.i)

    def kind_of_elem(self):
        return KMod(lambda t: RecRow(self.table, t), lambda v: v.i)

    def same(self, o):
        from .loops import same
        return isinstance(o, RecRow) and o.table is self.table and same(zi(self.i), zi(o.i))

    def py_getitem(self, ex, k):
        return self.table.field(ex, k, self.i)

    def py_eq(self, ex, o):
        if isinstance(o, RecRow) and o.table is self.table:
            return eq(self.i, o.i)
        raise Unsupported('row equality')

    def __repr__(self):
        return 'Row(%s,%s)' % (self.table, self.i)


class RecTable:
    """an input record array: columns are uninterpreted functions of the row number"""
    def __init__(self, name, finite=()):
        self.name = name
        self.cols = {}
        self.finite = finite

    def field(self, ex, k, i):
        key = k if isinstance(k, str) else None
        if key is None:
            raise Unsupported('record field %r' % (k,))
        f = self.cols.get(key)
        if f is None:
            f = self.cols[key] = z3.Function('%s.%s' % (self.name, key), z3.IntSort(), z3.RealSort())
        return SFlt(f(zi(i)), 0, None, True)


def rec_item(ex, o, ob, i):
    s = ob.pay
    if isinstance(i, (str, SName)):
        p = s.get(z3.Int(ex._n('pr'))) if not isinstance(s.n, int) else None
        return nparr(ex, Seq(s.n, lambda j: s.get(j).py_getitem(ex, i)) if s.items is None else Seq.of([x.py_getitem(ex, i) for x in s.items]))
    if isinstance(i, (Ref, Seq)):
        return lib.fancy(ex, o, ob, i)
    return lib.seq_get(ex, s, i, 'ndarray')


def rec_setitem(ex, o, ob, i, v):
    if isint(i):
        j = lib.norm_index(ex, ob.pay.n, i)
        ob.pay = lib.seq_set(ob.pay, j, v)
        return
    raise Unsupported('record assignment')


class DTypeVal(Model):
    def __init__(self, names):
        self.names = names

    def py_getattr(self, ex, name):
        if name == 'names':
            return self.names
        raise Unsupported('dtype.' + name)


def nd_attr(ex, ref, o, name):
    s = o.pay
    if o.cls == 'nd2':
        return o.pay.py_getattr(ex, name)
    if name == 'shape':
        return (s.n,)
    if name == 'size':
        return s.n
    if name == 'ndim':
        return 1
    if name in ('T', 'real'):
        return ref
    if name == 'dtype':
        return (o.meta or {}).get('dtypeval') or Opaque('dtype')
    if name in ('copy', 'astype', 'squeeze', 'flatten', 'ravel', '__array__', 'view'):
        return Fn(lambda ex, *a, **k: ex.new(o.cls, pay=ex.obj(ref).pay, meta={k2: v for k2, v in (o.meta or {}).items() if k2 not in ('view', 'viewed')}))
    if name == 'tolist':
        return Fn(lambda ex: ex.new_list(ex.obj(ref).pay))
    if name == 'sum':
        return Fn(lambda ex, *a, **k: npf(lib.seq_sum(ex, ex.obj(ref).pay, flt(0))))
    if name in ('max', 'min'):
        return Fn(lambda ex, *a, **k: lib.seq_max(ex, ex.obj(ref).pay, name == 'max', True))
    if name == 'mean':
        return Fn(lambda ex, *a, **k: np_mean(ex, ref))
    if name in ('all', 'any'):
        return Fn(lambda ex: lib.all_(ex, ref, name == 'all'))
    raise Unsupported('array attribute ' + name)


def vec_attr(ex, v, name):
    if name == 'shape':
        return (ex.dim,)
    if name in ('size',):
        return ex.dim
    if name == 'ndim':
        return 1
    if name == 'copy':
        return Fn(lambda ex: SVec(v.arr))
    if name in ('T', 'real'):
        return v
    if name in ('tolist',):
        return Fn(lambda ex: ex.new_list(v.seq(ex)))
    raise Unsupported('vector attribute ' + name)


# ------------------------------------------------------------------ numpy functions
def un(f):
    """numpy ufunc of one argument"""
    def g(ex, x, *a, **k):
        if isinstance(x, Opaque):
            return Opaque('ufunc')
        if isinstance(x, Ref) and ex.obj(x).cls == 'nd2':
            return Opaque('nd2')
        if arr(ex, x) is not None:
            return nmap(ex, x, lambda y: f(ex, flt(as_num(y))))
        if isnum(x):
            return ex.settle(f(ex, flt(as_num(x))))
        if x is None:
            raise_('TypeError')
        raise Unsupported('ufunc of %r' % (x,))
    return Fn(g, 'ufunc')


def f_log1p(ex, a):
    a = flt(a)
    if a.fin and not is_z(a.r) and a.r == 0:
        return SFlt(Fraction(0), 0, Fraction(1), True)
    u = f_add(SFlt(Fraction(1)), a.with_(lin=None))
    return f_log_np(u)


def laddexp(ex, a, b):
    a, b = flt(a), flt(b)
    la, lb = lin_of(a), lin_of(b)
    # lin is only meaningful where neither is +inf or nan
    la = expn(a.r) if la is None else la
    lb = expn(b.r) if lb is None else lb
    if not is_z(a.k) and a.k == -1:
        return b.with_(npy=True, lin=lb)
    if not is_z(b.k) and b.k == -1:
        return a.with_(npy=True, lin=la)
    tot = radd(la, lb)
    if a.fin and b.fin:
        return SFlt(LOG(zr(tot)), 0, tot, True)
    ka, kb = zi(a.k), zi(b.k)
    k = z3.If(z3.Or(ka == 2, kb == 2), 2, z3.If(z3.Or(ka == 1, kb == 1), 1, z3.If(z3.And(ka == -1, kb == -1), -1, 0)))
    return SFlt(LOG(zr(tot)), z3.simplify(k), tot, True)


class LAE(Model):
    """numpy.logaddexp"""
    def py_call(self, ex, args, kwargs):
        a, b = args
        if arr(ex, a) is None and arr(ex, b) is None:
            return ex.settle(laddexp(ex, as_num(a), as_num(b)))
        return nmap2(ex, a, b, lambda x, y: laddexp(ex, as_num(x), as_num(y)))

    def py_getattr(self, ex, name):
        if name == 'reduce':
            return Fn(lae_reduce, 'logaddexp.reduce')
        raise Unsupported('logaddexp.' + name)


def unfold(ex, T, lo, hi, step):
    """T(i) = step(i, T(i-1)) for lo <= i < hi, unfolded once per term T(i) (no matching loop)"""
    U = ex.fresh_fn(str(T(0).decl().name()).split('!')[0] + '_prev', T(0).sort())
    ex.assume_forall(lambda i: U(i) == T(i), pattern=lambda i: T(i))
    rng = (lambda i: i >= lo) if hi is None else (lambda i: z3.And(i >= lo, i < hi))
    ex.assume_forall(lambda i: z3.Implies(rng(i), T(i) == step(i, U(i - 1))), pattern=lambda i: T(i))


def lae_reduce(ex, a, *x, **k):
    s = arr(ex, a)
    return lse(ex, s)


def lse(ex, s):
    """log of the sum of exp: in the linear domain a sum"""
    if isinstance(s.n, int):
        r = NINF
        for i in range(s.n):
            r = laddexp(ex, r, s.get(i))
        return r
    S = ex.fresh_fn('lsum', z3.RealSort())
    ex.assume(S(0) == 0)

    def term(i):
        f = flt(s.get(i))
        l = lin_of(f)
        return zr(expn(f.r) if l is None else l)
    unfold(ex, S, 1, zi(s.n) + 1, lambda i, prev: prev + term(i - 1))
    # class: -inf iff every term is -inf (no term is +inf or nan: obligation of the caller)
    j = z3.Int(ex._n('q'))
    fj = flt(s.get(j))
    ok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), z3.And(zi(fj.k) <= 0)))
    k = ex.fresh_int('lsek')
    ex.st.facts.append(z3.Implies(ok, z3.And(z3.Or(k == 0, k == -1), z3.Implies(k == 0, S(zi(s.n)) > 0), z3.Implies(k == -1, S(zi(s.n)) == 0))))
    ex.assume(z3.And(k >= -1, k <= 2))
    tot = S(zi(s.n))
    ex.st.ghost['_lse'] = (S, term, s)
    return SFlt(LOG(tot), k, tot, True)


def np_exp(ex, a):
    return npf(f_exp(a))


def np_isfinite(ex, a):
    return f_isfinite(a)


def np_floor(ex, a):
    return npf(lib.f_floor(a))


def np_round(ex, x, nd=0):
    if arr(ex, x) is not None:
        return nmap(ex, x, lambda y: npf(flt(lib.b_round(ex, y))))
    return npf(flt(lib.b_round(ex, x)))


SQRT = z3.Function('SQRT', z3.RealSort(), z3.RealSort())


def fsqrt(ex, a):
    a = flt(a)
    z = z3.simplify(a.zr())
    r = SQRT(z)
    ex.assume(z3.Implies(z >= 0, z3.And(r >= 0, r * r == z)))
    ex.assume(z3.Implies(z > 0, r > 0))
    return SFlt(r, z3.If(z >= 0, 0, 2) if a.fin else z3.If(zi(a.k) == 0, z3.If(z >= 0, 0, 2), z3.If(zi(a.k) == 1, 1, 2)), None, True)


def m_sqrt(ex, a):
    a = flt(as_num(a))
    if not ex.branch(Not(f_lt(a, 0))):
        raise_('ValueError')
    r = fsqrt(ex, a)
    if a.fin:
        return SFlt(r.r)
    return r.with_(npy=False)


def m_log(ex, x, *base):
    a = flt(as_num(x))
    if not a.fin:
        if ex.branch(f_isnan(a)):
            return NAN
    if not ex.branch(f_lt(0, a)):
        raise_('ValueError', 'math domain error')
    if a.fin:
        return SFlt(LOG(a.zr()), 0, a.r if is_z(a.r) else a.r) if is_z(a.r) or a.r != 1 else SFlt(Fraction(0), 0, Fraction(1))
    return SFlt(LOG(a.zr()), z3.If(zi(a.k) == 1, 1, 0), a.zr())


def m_exp(ex, x):
    a = flt(as_num(x))
    return f_exp(a).with_(npy=False)     # OverflowError for large arguments: not modelled (machine range)


def np_array(ex, x, dtype=None, copy=None, **kw):
    if isinstance(x, SVec):
        return SVec(x.arr)
    if isinstance(x, Opaque):
        return Opaque('array')
    s = arr(ex, x)
    if s is None:
        if isinstance(x, Ref) and ex.obj(x).cls in ('nd2', 'recarr'):
            return ex.new(ex.obj(x).cls, pay=ex.obj(x).pay, meta=ex.obj(x).meta)
        if isnum(x):
            return nparr(ex, Seq.of([x]))
        s = to_seq(ex, x)
    pr = s.get(0) if isinstance(s.n, int) and s.n else (s.get(z3.Int(ex._n('pr'))) if not isinstance(s.n, int) else None)
    if isinstance(pr, RecRow):
        return ex.new('recarr', pay=s, meta={})
    if isinstance(pr, (Frozen, SVec)) or (isinstance(pr, Ref) and ex.obj(pr).cls in ('ndarray', 'list')):
        return Opaque('array2')
    d = None
    if isinstance(dtype, BuiltinType) and dtype.name == 'float' or (isinstance(dtype, str) and dtype.startswith('f')):
        d = 'f'
        return nparr(ex, Seq(s.n, lambda i: npf(flt(as_num(s.get(i))))) if s.items is None else Seq.of([npf(flt(as_num(x))) for x in s.items]), 'f')
    return nparr(ex, s, d)


def np_concat(ex, xs, axis=0, **kw):
    sq = to_seq(ex, xs)
    if not isinstance(sq.n, int):
        raise Unsupported('concatenation of symbolically many arrays')
    r = None
    rec = False
    for i in range(sq.n):
        x = sq.get(i)
        if isinstance(x, Ref) and ex.obj(x).cls == 'recarr':
            rec = True
            s = ex.obj(x).pay
        else:
            s = arr(ex, x)
        if s is None:
            raise Unsupported('concatenate')
        r = s if r is None else lib.seq_concat(r, s)
    if r is None:
        raise_('ValueError', 'need at least one array to concatenate')
    if not rec:
        r = named(ex, r)
    return ex.new('recarr' if rec else 'ndarray', pay=r, meta={})


def named(ex, s):
    """a log-domain sequence defined by cases: its elements get names"""
    if isinstance(s.n, int):
        return s
    pr = s.get(z3.Int(ex._n('pr')))
    if not isinstance(pr, SFlt) or pr.lin is None or not is_z(pr.lin):
        return s
    K = ex.fresh_fn('nmk', z3.IntSort()) if is_z(pr.k) else None
    R, L = ex.fresh_fn('nmr', z3.RealSort()), ex.fresh_fn('nml', z3.RealSort())

    def df(i):
        f = s.get(i)
        c = [R(i) == zr(f.r), L(i) == zr(lin_of(f))]
        if K is not None:
            c.append(K(i) == zi(f.k))
        return z3.Implies(z3.And(i >= 0, i < zi(s.n)), z3.And(*c))
    ex.assume_forall(df, pattern=lambda i: [R(i), L(i)] + ([K(i)] if K is not None else []))
    return Seq(s.n, lambda i: SFlt(R(zi(i)), K(zi(i)) if K is not None else pr.k, L(zi(i)), pr.npy))


def np_full(v):
    def f(ex, n, dtype=None, **kw):
        if isinstance(n, tuple):
            if len(n) != 1:
                return Opaque('zeros2')
            n = n[0]
        if isinstance(n, SFlt):
            raise_('TypeError', "'float' object cannot be interpreted as an integer")
        if isinstance(n, int):
            return nparr(ex, Seq.of([flt(v).with_(npy=True)] * n), 'f')
        if ex.branch(lt(n, 0)):
            raise_('ValueError', 'negative dimensions')
        return nparr(ex, Seq(n, lambda i: flt(v).with_(npy=True)), 'f')
    return Fn(f)


def np_arange(ex, *a, **k):
    sq = lib.b_range(ex, *[lib.to_int(ex, x) if isinstance(x, SFlt) else x for x in a])
    return nparr(ex, to_seq(ex, sq))


def np_cumsum(ex, x, *a, **k):
    s = arr(ex, x)
    if isinstance(s.n, int):
        out, t = [], None
        for i in range(s.n):
            t = s.get(i) if t is None else lib.binop(ex, ast.Add(), t, s.get(i))
            out.append(t)
        return nparr(ex, Seq.of(out))
    pr = flt(s.get(z3.Int(ex._n('pr'))))
    if not pr.fin:
        raise Unsupported('cumsum of non-finite values')
    C = ex.fresh_fn('csum', z3.RealSort())
    n = zi(s.n)
    ex.assume(z3.Implies(n > 0, C(0) == zr(flt(s.get(0)).r)))
    unfold(ex, C, 1, n, lambda i, prev: prev + zr(flt(s.get(i)).r))
    # lin domain
    E_ = ex.fresh_fn('cprod', z3.RealSort())
    g = lambda i: zr(lin_of(flt(s.get(i))))
    ex.assume_forall(lambda i: E_(i) == EXP(C(i)), pattern=lambda i: E_(i))
    ex.assume(z3.Implies(n > 0, E_(0) == g(z3.IntVal(0))))
    unfold(ex, E_, 1, n, lambda i, prev: prev * g(i))
    ex.st.ghost['_csum'] = (C, E_, s)
    h = ex.externals.get('on_cumsum')
    if h is not None:
        h(ex, C, E_, s)
    return nparr(ex, Seq(s.n, lambda i: SFlt(C(zi(i)), 0, E_(zi(i)), True)))


def np_digitize(ex, x, bins, right=False):
    """bins increasing: bins[i-1] <= x < bins[i]; len(bins) if x >= the last"""
    b = arr(ex, bins)
    if right is not False:
        raise Unsupported('digitize right')
    ex.notes.add('numpy.digitize: bins are monotonically increasing (checked as an obligation)')
    j = z3.Int(ex._n('q'))
    ex.prove(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < zi(b.n)), zb(f_le(flt(b.get(j)), flt(b.get(j + 1)))))), 'digitize: bins are monotone')
    K = ex.fresh_fn('bin', z3.IntSort())
    xs = arr(ex, x)

    def spec(i):
        v = flt(xs.get(i))
        q = z3.Int(ex._n('q2'))
        return z3.And(K(i) >= 0, K(i) <= zi(b.n),
                      z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(b.n)), zb(Iff(lt(q, K(i)), f_le(flt(b.get(q)), v))))))
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < zi(xs.n)), spec(i)), pattern=lambda i: K(i))
    return nparr(ex, Seq(xs.n, lambda i: K(zi(i)), KInt()))


def np_maxf(mx):
    def f(ex, x, *a, **k):
        if a or k:
            return Opaque('max axis')
        if isnum(x):
            return x
        if isinstance(x, Opaque):
            return Opaque('max')
        return lib.seq_max(ex, arr(ex, x), mx, True)
    return Fn(f)


def np_mean(ex, x, *a, **k):
    if isinstance(x, Opaque) or a or k:
        return Opaque('mean')
    s = arr(ex, x)
    t = lib.seq_sum(ex, s, flt(0))
    return lib.np_div(flt(t), flt(s.n) if not is_z(s.n) else SFlt(z3.ToReal(s.n)))


def np_all(mode):
    def f(ex, x, *a, **k):
        if isbool(x):
            return x
        if isinstance(x, Opaque):
            return ex.fresh_bool('all')
        return lib.all_(ex, x, mode)
    return Fn(f)


def np_where(ex, c, *ab):
    if len(ab) == 2:
        return nmap2(ex, c, ab[0], lambda x, y: v_ite(x, y, ab[1])) if arr(ex, ab[1]) is None else Opaque('where')
    return Opaque('where')


def fabs(ex, a):
    return lib.f_abs(flt(a))


def opaque(name):
    return Fn(lambda ex, *a, **k: Opaque(name), name)


# ------------------------------------------------------------------ random numbers
def u01(ex, name='u'):
    """a uniform draw in [0, 1)"""
    u = ex.fresh_real(name)
    ex.assume(z3.And(u >= 0, u < 1))
    draw(ex, 'uniform', SFlt(u), (flt(0), flt(1)))
    return SFlt(u)


def draw(ex, kind, v, rng=None):
    ex.st.ghost['_draws'] = ex.st.ghost.get('_draws', ()) + ((kind, v),)
    ex.st.ghost['_ranges'] = ex.st.ghost.get('_ranges', ()) + (rng,)
    h = ex.externals.get('on_draw')
    if h is not None:
        h(ex, kind, v)


def random_random(ex):
    """random.random(); the value 0 is assumed not to occur (probability 2**-53)"""
    u = u01(ex)
    ex.assume(u.r > 0)
    ex.notes.add('random.random() does not return exactly 0')
    return u


def np_uniform(ex, low=0, high=1, size=None, **k):
    lo, hi = flt(as_num(low)), flt(as_num(high))
    if size is not None:
        n = size[0] if isinstance(size, tuple) else size
        f = ex.fresh_fn('us', z3.RealSort())
        ex.assume_forall(lambda i: z3.And(f(i) >= lo.zr(), f(i) < hi.zr()), pattern=lambda i: f(i))
        draw(ex, 'uniforms', (f, n), (lo, hi))
        return nparr(ex, Seq(n, lambda i: SFlt(f(zi(i)), 0, None, True)))
    u = ex.fresh_real('u')
    if not is_z(lo.r) and not is_z(hi.r) and lo.r < hi.r:
        ex.assume(z3.And(u >= lo.zr(), u < hi.zr()))
    else:       # numpy draws low + (high - low) * [0, 1), whichever is larger
        ex.assume(z3.And(z3.Or(u >= lo.zr(), u >= hi.zr()), z3.Or(u <= lo.zr(), u <= hi.zr())))
    v = SFlt(u, 0, None, True)
    ex.st.ghost['_range'] = (lo, hi)
    draw(ex, 'uniform', v, (lo, hi))
    return v


def py_uniform(ex, a, b):
    lo, hi = flt(as_num(a)), flt(as_num(b))
    u = ex.fresh_real('u')
    ex.assume(z3.And(z3.If(lo.zr() <= hi.zr(), lo.zr(), hi.zr()) <= u, u <= z3.If(lo.zr() <= hi.zr(), hi.zr(), lo.zr())))
    v = SFlt(u)
    draw(ex, 'pyuniform', v, (lo, hi))
    return v


def gauss(ex, mu=0, sigma=1):
    g = ex.fresh_real('g')
    v = f_add(flt(as_num(mu)), f_mul(flt(as_num(sigma)), SFlt(g)))
    ex.st.ghost['_gauss'] = ex.st.ghost.get('_gauss', ()) + ((mu, sigma, v),)
    draw(ex, 'gauss', SFlt(g))
    return v


def randrange(ex, a, b=None):
    lo, hi = (0, a) if b is None else (a, b)
    if not ex.branch(lt(lo, hi)):
        raise_('ValueError', 'empty range')
    r = ex.fresh_int('rr')
    ex.assume(And(le(lo, r), lt(r, hi)))
    draw(ex, 'randrange', r)
    return r


def randint(ex, low, high=None, size=None, **k):
    if size is not None:
        return Opaque('randints')
    return randrange(ex, low, high)


def sample(ex, pop, k):
    """k distinct positions"""
    s = to_seq(ex, pop)
    if not isinstance(k, int):
        raise Unsupported('sample of symbolic size')
    if not ex.branch(le(k, s.n)):
        raise_('ValueError', 'Sample larger than population')
    idx = [ex.fresh_int('smp', 0, s.n) for _ in range(k)]
    if k > 1:
        ex.assume(z3.Distinct(*idx))
    draw(ex, 'sample', tuple(idx))
    return ex.new_list(Seq.of([lib._thaw(ex, s.get(i)) for i in idx]))


def choice(ex, pop, *a, **k):
    s = to_seq(ex, pop)
    if a or k:
        raise Unsupported('choice with options')
    if not ex.branch(lt(0, s.n)):
        raise_('IndexError')
    i = ex.fresh_int('ch', 0, s.n)
    draw(ex, 'choice', i)
    return s.get(i)


def permutation(ex, n):
    p, q = ex.fresh_fn('prm', z3.IntSort()), ex.fresh_fn('iprm', z3.IntSort())
    m = zi(n) if isint(n) else zi(to_seq(ex, n).n)
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(p(i) >= 0, p(i) < m, q(p(i)) == i)), pattern=lambda i: p(i))
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(q(i) >= 0, q(i) < m, p(q(i)) == i)), pattern=lambda i: q(i))
    ex.st.ghost['_perm'] = (p, q)
    if isint(n):
        return nparr(ex, Seq(n, lambda i: p(zi(i)), KInt(), meta={'perm': (p, q)}))
    s = to_seq(ex, n)
    return nparr(ex, Seq(s.n, lambda i: s.get(p(zi(i))), s.kind, meta={'perm': (p, q, s)}))


def shuffle(ex, x):
    o = ex.obj(x)
    # writes through a view: the base array is permuted too, the caller must not use it afterwards (checked: base unreachable)
    s = o.pay
    r = permutation(ex, s.n)
    p, q = ex.obj(r).pay.meta['perm']
    x = s.get(z3.Int(ex._n('pr'))) if not isinstance(s.n, int) else None
    if isinstance(x, RecRow):       # the row numbers, opaque
        R = ex.fresh_fn('rowno', z3.IntSort())
        ex.assume_forall(lambda i: R(i) == zi(s.get(p(i)).i), pattern=lambda i: R(i))
        ex.st.ghost['_perm_rows'] = R
        o.pay = Seq(s.n, lambda i: RecRow(x.table, R(zi(i))), s.kind, meta={'perm': (p, q, s)})
        return
    o.pay = Seq(s.n, lambda i: s.get(p(zi(i))), s.kind, meta={'perm': (p, q, s)})


class AttrGetter(Model):
    def __init__(self, name):
        self.name = name

    def py_call(self, ex, args, kwargs):
        return ex.getattr(args[0], self.name)

    def same(self, o):
        return isinstance(o, AttrGetter) and o.name == self.name


def bisect_right(ex, a, x, *lohi):
    """the insertion point after equal elements, in a sorted list"""
    if lohi:
        raise Unsupported('bisect bounds')
    s = to_seq(ex, a)
    w = ex.fresh_int('bis', 0)
    n = zi(s.n)
    ex.assume(w <= n)
    if isinstance(s.n, int):
        probe = s.get(0) if s.n else None
    else:
        probe = s.get(z3.Int(ex._n('pr')))
    vle = lambda i: lib.compare(ex, ast.LtE(), s.get(i), x)
    ex.prove(sorted_goal(ex, s), 'bisect is applied to a sorted list')
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), zb(Iff(lt(i, w), vle(i)))))
    return w


def bisect_left(ex, a, x, *lohi):
    if lohi:
        raise Unsupported('bisect bounds')
    s = to_seq(ex, a)
    w = ex.fresh_int('bis', 0)
    n = zi(s.n)
    ex.assume(w <= n)
    vlt = lambda i: lib.compare(ex, ast.Lt(), s.get(i), x)
    ex.prove(sorted_goal(ex, s), 'bisect is applied to a sorted list')
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), zb(Iff(lt(i, w), vlt(i)))))
    return w


def sorted_goal(ex, s):
    if isinstance(s.n, int):
        return And(*[lib.compare(ex, ast.LtE(), s.get(i), s.get(i + 1)) for i in range(s.n - 1)])
    i, j = z3.Ints('%s %s' % (ex._n('q'), ex._n('q')))
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(s.n)), zb(lib.compare(ex, ast.LtE(), s.get(i), s.get(j)))))


def f_reduce(ex, f, it, *init):
    s = to_seq(ex, it)
    if isinstance(f, LAE) and not init:
        if not isinstance(s.n, int):
            if not ex.branch(lt(0, s.n)):
                raise_('TypeError', 'reduce of empty')
            return lse(ex, s)
    if isinstance(s.n, int):
        xs = [s.get(i) for i in range(s.n)]
        if init:
            acc = init[0]
        elif xs:
            acc, xs = xs[0], xs[1:]
        else:
            raise_('TypeError', 'reduce of empty')
        for x in xs:
            acc = ex.call(f, [acc, x])
        return acc
    raise Unsupported('reduce over a symbolic sequence')


class DotFn(Model):
    pass


NP = {}


def _np():
    if NP:
        return NP
    T = lambda n: BuiltinType('numpy.' + n, lambda ex, v=0: npf(lib.to_float(ex, v)))
    NP.update({
        'inf': PINF, 'nan': NAN, 'e': SFlt(z3.Real('np_e')), 'pi': SFlt(z3.Real('np_pi')), 'newaxis': None,
        'float64': T('float64'), 'float32': T('float32'), 'int64': BuiltinType('numpy.int64', lambda ex, v=0: lib.to_int(ex, v)),
        'ndarray': BuiltinType('ndarray'), 'integer': BuiltinType('integer'), 'floating': BuiltinType('floating'),
        'exp': un(np_exp), 'log': un(lambda ex, a: f_log_np(a)), 'log1p': un(f_log1p), 'isfinite': un(np_isfinite),
        'expm1': un(lambda ex, a: f_sub(np_exp(ex, a).with_(lin=None), flt(1))),
        'isnan': un(lambda ex, a: f_isnan(a)), 'isinf': un(lambda ex, a: Or(eq(flt(a).k, 1), eq(flt(a).k, -1))),
        'isneginf': un(lambda ex, a: eq(flt(a).k, -1)),
        'floor': un(np_floor), 'sqrt': un(fsqrt), 'abs': un(fabs), 'fabs': un(fabs), 'absolute': un(fabs),
        'round': Fn(np_round), 'rint': Fn(np_round), 'around': Fn(np_round),
        'logaddexp': LAE(), 'array': Fn(np_array), 'asarray': Fn(np_array), 'concatenate': Fn(np_concat), 'hstack': Fn(np_concat),
        'zeros': np_full(0), 'ones': np_full(1), 'empty': np_full(0), 'arange': Fn(np_arange), 'cumsum': Fn(np_cumsum),
        'digitize': Fn(np_digitize), 'max': np_maxf(True), 'min': np_maxf(False), 'amax': np_maxf(True), 'amin': np_maxf(False),
        'mean': Fn(np_mean), 'all': np_all(True), 'any': np_all(False), 'where': Fn(np_where),
        'maximum': Fn(lambda ex, a, b: nmap2(ex, a, b, lambda x, y: npf(flt(lib.v_min(ex, [x, y], True))))),
        'minimum': Fn(lambda ex, a, b: nmap2(ex, a, b, lambda x, y: npf(flt(lib.v_min(ex, [x, y], False))))),
        'sum': Fn(lambda ex, x, *a, **k: npf(lib.seq_sum(ex, arr(ex, x), flt(0)))),
        'squeeze': Fn(lambda ex, x, *a, **k: x), 'atleast_1d': Fn(lambda ex, x: x if arr(ex, x) is not None else nparr(ex, Seq.of([x]))),
        'argmax': Fn(lambda ex, x: (lib.seq_max(ex, arr(ex, x), True), ex.st.ghost.get('_argmax'))[1]),
        'add': Fn(lambda ex, a, b: lib.binop(ex, ast.Add(), a, b)), 'subtract': Fn(lambda ex, a, b: lib.binop(ex, ast.Sub(), a, b)),
        'random': ModuleVal('numpy.random'), 'fft': ModuleVal('numpy.fft'), 'linalg': ModuleVal('numpy.linalg'),
        'logical_and': Fn(lambda ex, a, b: And(lib.truth(ex, a), lib.truth(ex, b)) if isbool(a) else Opaque('land')),
        'isscalar': Fn(lambda ex, v: isnum(v)),
        'errstate': opaque('errstate'),
        'savetxt': Fn(lambda ex, *a, **k: None),
    })
    return NP


MATH = {'log': Fn(m_log), 'exp': Fn(m_exp), 'sqrt': Fn(m_sqrt), 'fabs': Fn(lambda ex, a: lib.f_abs(flt(as_num(a)))),
        'isnan': Fn(lambda ex, a: f_isnan(flt(as_num(a)))), 'isinf': Fn(lambda ex, a: Or(eq(flt(a).k, 1), eq(flt(a).k, -1))),
        'isfinite': Fn(lambda ex, a: f_isfinite(flt(as_num(a)))), 'inf': PINF, 'nan': NAN, 'pi': SFlt(z3.Real('np_pi')),
        'log1p': Fn(lambda ex, a: f_log1p(ex, flt(as_num(a))).with_(npy=False)),
        'floor': Fn(lambda ex, a: lib.to_int(ex, lib.f_floor(flt(as_num(a)))))}
RANDOM = {'random': Fn(random_random), 'uniform': Fn(py_uniform), 'gauss': Fn(gauss), 'randrange': Fn(randrange), 'sample': Fn(sample),
          'choice': Fn(choice), 'randint': Fn(lambda ex, a, b: randrange(ex, a, add(b, 1))), 'seed': Fn(lambda ex, *a, **k: None),
          'shuffle': Fn(shuffle), 'normalvariate': Fn(gauss)}
NPRANDOM = {'uniform': Fn(np_uniform), 'seed': Fn(lambda ex, *a, **k: None), 'permutation': Fn(permutation), 'randint': Fn(randint),
            'shuffle': Fn(shuffle), 'random': Fn(lambda ex, size=None: np_uniform(ex, size=size)),
            'rand': Fn(lambda ex, size=None: np_uniform(ex, size=size)), 'normal': Fn(lambda ex, loc=0, scale=1, size=None: npf(gauss(ex, loc, scale)) if size is None else Opaque('normal')),
            'choice': Fn(lambda ex, a, *r, **k: Opaque('npchoice')),
            'exponential': Fn(lambda ex, scale=1, size=None: exponential(ex, scale))}


def exponential(ex, scale):
    e = ex.fresh_real('expdraw')
    ex.assume(e >= 0)
    v = f_mul(flt(as_num(scale)), SFlt(e, 0, None, True))
    draw(ex, 'exponential', SFlt(e))
    return v.with_(npy=True)


def std_array(ex, t, it=None):
    if t != 'd':
        raise Unsupported('array typecode')
    s = to_seq(ex, it) if it is not None else Seq.of([])
    if s.items is not None:
        s = Seq.of([flt(as_num(v)).with_(npy=False) for v in s.items])
    else:
        g = s.get
        s = Seq(s.n, lambda i: flt(as_num(g(i))).with_(npy=False))
    return ex.new('ndarray', pay=s, meta={'dtype': 'f', 'stdarray': True})


OTHER = {
    'operator.attrgetter': Fn(lambda ex, n: AttrGetter(n)),
    'bisect.bisect': Fn(bisect_right), 'bisect.bisect_right': Fn(bisect_right), 'bisect.bisect_left': Fn(bisect_left),
    'functools.reduce': Fn(f_reduce),
    'collections.deque': BuiltinType('deque', lib.b_deque),
    'logging.getLogger': Fn(lambda ex, *a: lib.Logger()),
    'copy.copy': Fn(lambda ex, v: lib.lp_copy(ex, v) if isinstance(v, LP) else unsup('copy.copy')),
    'copy.deepcopy': Fn(lambda ex, v: lib.lp_copy(ex, v) if isinstance(v, LP) else unsup('copy.deepcopy')),
    'array.array': Fn(lambda ex, t, it=None: std_array(ex, t, it)),
    'time.time': Fn(lambda ex: ex.fresh_flt('time', fin=True)),
    'time.sleep': Fn(lambda ex, t: None),
    'os.linesep': '\n',
    'sys.stdout': Opaque('stdout'), 'sys.stderr': Opaque('stderr'),
    'abc.ABCMeta': 'type', 'abc.abstractmethod': Fn(lambda ex, f: f), 'abc.abstractproperty': Fn(lambda ex, f: f),
    'itertools.permutations': opaque('permutations'),
}


def unsup(w):
    raise Unsupported(w)


def module_attr(ex, mod, name):
    full = mod + '.' + name
    if mod in ('numpy',):
        d = _np()
        if name in d:
            return d[name]
    elif mod == 'math' and name in MATH:
        return MATH[name]
    elif mod == 'random' and name in RANDOM:
        return RANDOM[name]
    elif mod == 'numpy.random' and name in NPRANDOM:
        return NPRANDOM[name]
    elif full in OTHER:
        return OTHER[full]
    h = ex.externals.get('module:' + mod)
    if h is not None:
        r = h(ex, name)
        if r is not None:
            return r
    if mod.split('.')[0] in ('numpy', 'math', 'random'):
        raise Unsupported(full)
    # an unknown library name: only its use as a value is opaque
    return UnknownLib(full)


class UnknownLib(Model):
    def __init__(self, name):
        self.name = name

    def py_getattr(self, ex, n):
        full = self.name + '.' + n
        ov = ex.externals.get(full)
        if ov is not None:
            return ov
        return UnknownLib(full)

    def py_call(self, ex, args, kwargs):
        raise Unsupported('call of ' + self.name)

    def same(self, o):
        return isinstance(o, UnknownLib) and o.name == self.name
