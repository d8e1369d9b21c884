"""Python built-ins, containers, strings, and the library functions cpnest uses."""
import ast
import z3
from .values import *
from .engine import (PyRaise, PyExc, Bound, FuncVal, ClassInfo, ModuleVal, BuiltinType, GenObj, StarSeq, DictView, Frame,
                     BUILTIN_EXC, exc_sub)
from . import comp
from .comp import Frozen

isint = lambda v: (isinstance(v, int) and not isinstance(v, bool)) or (is_z(v) and z3.is_int(v))
isbool = lambda v: isinstance(v, bool) or (is_z(v) and z3.is_bool(v))
isnum = lambda v: isint(v) or isbool(v) or isinstance(v, (SFlt, Fraction)) or (is_z(v) and z3.is_real(v))


def raise_(name, *a):
    raise PyRaise(PyExc(name, a))


# ------------------------------------------------------------------ truth and operators
def is_cont(ex, v, *cls):
    return isinstance(v, Ref) and ex.obj(v).cls in cls


def pay(ex, v):
    return ex.obj(v).pay


def truth(ex, v):
    if isbool(v):
        return v
    if v is None:
        return False
    if isint(v):
        return Not(eq(v, 0))
    if isinstance(v, SFlt):
        return Not(f_eq(v, 0))
    if isinstance(v, str):
        return bool(v)
    if isinstance(v, SStr):
        return any(isinstance(p, str) and p for p in v.parts) or Opaque_truth(ex, v)
    if isinstance(v, tuple):
        return bool(v)
    if isinstance(v, Ref):
        o = ex.obj(v)
        if o.cls == 'ndarray':
            raise Unsupported('truth of an array')
        if isinstance(o.pay, Seq):
            return Not(eq(o.pay.n, 0))
        if isinstance(o.pay, dict):
            return bool(o.pay)
        return True
    if isinstance(v, LP):
        return True     # dimension >= 1
    if isinstance(v, Opaque):
        return ex.fresh_bool('opaque')
    if isinstance(v, (FuncVal, Bound, ClassInfo, ModuleVal)):
        return True
    if isinstance(v, Seq):
        return Not(eq(v.n, 0))
    if isinstance(v, Model):
        return v.py_truth(ex)
    raise Unsupported('truth of %r' % (v,))


def Opaque_truth(ex, v):
    return ex.fresh_bool('opaque')


def as_num(v):
    if isbool(v):
        return zi(v) if is_z(v) else int(v)
    if is_z(v) and z3.is_real(v):
        return SFlt(v)
    if isinstance(v, Fraction):
        return SFlt(v)
    return v


def binop(ex, op, a, b):
    t = type(op).__name__
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('binop')
    # live points
    if isinstance(a, LP):
        return lp_binop(ex, t, a, b)
    if isinstance(a, (SVec,)) or isinstance(b, (SVec,)):
        return vec_binop(ex, t, a, b)
    if is_arr(ex, a) or is_arr(ex, b):
        return nd_binop(ex, t, a, b)
    if isnum(a) and isnum(b):
        return num_binop(ex, t, as_num(a), as_num(b))
    if t == 'Add' and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return mkstr(parts(a) + parts(b))
    if t == 'Mod' and isinstance(a, (str, SStr)):
        return pct_format(ex, a, b)
    if t == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if t == 'Add' and is_cont(ex, a, 'list') and is_cont(ex, b, 'list'):
        return ex.new_list(seq_concat(pay(ex, a), pay(ex, b)))
    if t == 'Mult' and is_cont(ex, a, 'list') and isint(b):
        return ex.new_list(seq_repeat(ex, pay(ex, a), b))
    if t == 'Mult' and isinstance(a, str) and isinstance(b, int):
        return a * b
    if isinstance(a, Ref) and isinstance(ex.obj(a).cls, ClassInfo):
        nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(t)
        m, _, _ = ex.find_method(ex.obj(a).cls, nm) if nm else (None, None, None)
        if m is not None:
            return ex.call(m, [a, b])
    if isinstance(a, Model) and hasattr(a, 'py_binop'):
        return a.py_binop(ex, t, b)
    if isinstance(b, Model) and hasattr(b, 'py_rbinop'):
        return b.py_rbinop(ex, t, a)
    if a is None or b is None:
        raise_('TypeError', 'operand None')
    raise Unsupported('%s of %s and %s' % (t, type(a).__name__, type(b).__name__))


def num_binop(ex, t, a, b):
    ints = isint(a) and isint(b)
    if t == 'Add':
        return add(a, b) if ints else f_add(a, b)
    if t == 'Sub':
        return sub(a, b) if ints else f_sub(a, b)
    if t == 'Mult':
        return mul(a, b) if ints else f_mul(a, b)
    if t == 'Div':
        fa, fb = flt(a), flt(b)
        npy = fa.npy or fb.npy
        if npy:
            return np_div(fa, fb)
        if ex.branch(f_eq(fb, 0)):
            raise_('ZeroDivisionError')
        return f_div_nozero(fa, fb)
    if t in ('FloorDiv', 'Mod'):
        if not ints:
            if t == 'FloorDiv':
                fa, fb = flt(a), flt(b)
                if ex.branch(f_eq(fb, 0)):
                    raise_('ZeroDivisionError')
                q = f_div_nozero(fa, fb)
                return f_floor(q)
            raise Unsupported('float mod')
        if not is_z(a) and not is_z(b):
            if b == 0:
                raise_('ZeroDivisionError')
            return a // b if t == 'FloorDiv' else a % b
        if ex.branch(eq(b, 0)):
            raise_('ZeroDivisionError')
        if ex.branch(lt(b, 0)):
            raise Unsupported('division by a negative integer')
        # z3 div/mod agree with Python for a positive divisor
        if t == 'FloorDiv':
            return zi(a) / zi(b)
        r = zi(a) % zi(b)
        za, zb_ = zi(a), zi(b)
        ex.assume(z3.And(r >= 0, r < zb_))
        ex.assume(z3.Implies(z3.And(za >= 0, za < zb_), r == za))
        ex.assume(z3.Implies(z3.And(za >= zb_, za < 2 * zb_), r == za - zb_))
        return r
    if t == 'Pow':
        if isint(b) and not is_z(b) and 0 <= b <= 4 :
            r = 1 if isint(a) else flt(1)
            for _ in range(b):
                r = num_binop(ex, 'Mult', r, a)
            return r
        r = ex.fresh_flt('pow', fin=True)
        fa = flt(a)
        ex.assume(z3.Implies(fa.zr() > 0, r.r > 0))
        ex.assume(z3.Implies(fa.zr() >= 1, r.r >= 1)) if not is_z(flt(b).r) and flt(b).r > 0 else None
        return r
    raise Unsupported('operator ' + t)


def np_div(a, b):
    """numpy scalar division: x/0 is inf or nan"""
    if a.fin and b.fin and not is_z(b.r) and b.r != 0:
        return f_div_nozero(a, b).with_(npy=True)
    if a.fin and b.fin:
        z = zr(b.r)
        k = z3.If(z != 0, z3.IntVal(0), z3.If(zr(a.r) > 0, z3.IntVal(1), z3.If(zr(a.r) < 0, z3.IntVal(-1), z3.IntVal(2))))
        return SFlt(zr(a.r) / z, k, None, True)
    d = f_div_nozero(a, b)
    zero = z3.And(zi(b.k) == 0, zr(b.r) == 0)
    sa = z3.If(zi(a.k) == 0, z3.If(zr(a.r) > 0, 1, z3.If(zr(a.r) < 0, -1, 0)), zi(a.k))
    k = z3.If(zero, z3.If(z3.Or(zi(a.k) == 2, sa == 0), 2, sa), zi(d.k))
    return SFlt(d.r, k, None, True)


def f_floor(a):
    a = flt(a)
    if not is_z(a.r):
        import math
        return SFlt(Fraction(math.floor(a.r)), a.k, None, a.npy)
    return SFlt(z3.ToReal(z3.ToInt(zr(a.r))), a.k, None, a.npy)


def unop(ex, op, v):
    t = type(op).__name__
    if isinstance(v, Opaque):
        return v
    if isinstance(v, Model) and hasattr(v, 'py_unop'):
        return v.py_unop(ex, t)
    if is_arr(ex, v):
        if t == 'USub':
            return nd_map(ex, v, lambda x: unop(ex, op, x))
        if t == 'Invert':
            return nd_map(ex, v, lambda x: Not(x))
        return v
    v = as_num(v)
    if t == 'USub':
        if isint(v):
            return -v
        if isinstance(v, SFlt):
            return f_neg(v)
        if isinstance(v, SVec):
            return vec_binop(ex, 'Mult', v, flt(-1))
    if t == 'UAdd':
        return v
    if t == 'Invert' and isbool(v):
        return Not(v)
    raise Unsupported('unary %s' % t)


def augop(ex, op, cur, v):
    t = type(op).__name__
    if isinstance(cur, LP):
        return lp_iop(ex, t, cur, v)
    if isinstance(cur, Ref):
        o = ex.obj(cur)
        if o.cls == 'ndarray':
            check_view(ex, o)
            r = nd_binop(ex, t, cur, v)
            o.pay = pay(ex, r)
            return cur
        if o.cls == 'list' and t == 'Add':
            o.pay = seq_concat(o.pay, to_seq(ex, v))
            return cur
        if isinstance(o.cls, ClassInfo):
            nm = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__'}.get(t)
            m, _, _ = ex.find_method(o.cls, nm) if nm else (None, None, None)
            if m is not None:
                return ex.call(m, [cur, v])
    if isinstance(cur, SVec):
        return vec_binop(ex, t, cur, v)
    return binop(ex, op, cur, v)


def compare(ex, op, a, b):
    t = type(op).__name__
    if t == 'Is':
        return is_same(ex, a, b)
    if t == 'IsNot':
        return Not(is_same(ex, a, b))
    if t == 'In':
        return contains(ex, b, a)
    if t == 'NotIn':
        return Not(contains(ex, b, a))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return ex.fresh_bool('opaque')
    if is_arr(ex, a) or is_arr(ex, b):
        return nd_compare(ex, op, a, b)
    if t in ('Eq', 'NotEq'):
        r = py_eq(ex, a, b)
        return r if t == 'Eq' else Not(r)
    if isnum(a) and isnum(b):
        a, b = as_num(a), as_num(b)
        if isint(a) and isint(b):
            return {'Lt': lambda: lt(a, b), 'LtE': lambda: le(a, b), 'Gt': lambda: lt(b, a), 'GtE': lambda: le(b, a)}[t]()
        return {'Lt': lambda: f_lt(a, b), 'LtE': lambda: f_le(a, b), 'Gt': lambda: f_lt(b, a), 'GtE': lambda: f_le(b, a)}[t]()
    if a is None or b is None:
        raise_('TypeError', 'comparison with None')
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        raise Unsupported('tuple ordering')
    raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


def is_same(ex, a, b):
    if a is None or b is None:
        if isinstance(a, Model) and hasattr(a, 'py_is_none'):
            return a.py_is_none(ex)
        if isinstance(b, Model) and hasattr(b, 'py_is_none'):
            return b.py_is_none(ex)
        if isinstance(a, LP) or isinstance(b, LP):
            p = a if isinstance(a, LP) else b
            if is_z(p.ref) and not ex.valid(p.ref >= 0):
                return eq(p.ref, -1)
            return False
        return a is None and b is None
    if isinstance(a, bool) and isinstance(b, bool):
        return a is b
    if isbool(a) and isbool(b):
        return Iff(a, b)
    if isinstance(a, LP) and isinstance(b, LP):
        return eq(a.ref, b.ref)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, ClassInfo) or isinstance(b, ClassInfo) or isinstance(a, BuiltinType) or isinstance(b, BuiltinType):
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return False if not (isbool(a) and isbool(b)) else a is b
    if type(a) is not type(b) and not (isnum(a) and isnum(b)):
        return False
    if isinstance(a, Model) and isinstance(b, Model):
        return a.py_same(ex, b)
    if isint(a) and isint(b):
        return eq(a, b)
    raise Unsupported('is')


def py_eq(ex, a, b):
    if isnum(a) and isnum(b):
        a, b = as_num(a), as_num(b)
        if isint(a) and isint(b):
            return eq(a, b)
        return f_eq(a, b)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return str_eq(ex, a, b)
    if isinstance(a, Model) and hasattr(a, 'py_eq'):
        return a.py_eq(ex, b)
    if isinstance(b, Model) and hasattr(b, 'py_eq'):
        return b.py_eq(ex, a)
    if isinstance(a, SName) and isinstance(b, SName):
        return eq(a.i, b.i)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[py_eq(ex, x, y) for x, y in zip(a, b)])
    if isinstance(a, LP) and isinstance(b, LP):
        return eq(a.ref, b.ref)
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = ex.obj(a), ex.obj(b)
        if a == b:
            return True
        if isinstance(oa.pay, Seq) and isinstance(ob.pay, Seq) and isinstance(oa.pay.n, int) and isinstance(ob.pay.n, int):
            if oa.pay.n != ob.pay.n:
                return False
            return And(*[py_eq(ex, oa.pay.get(i), ob.pay.get(i)) for i in range(oa.pay.n)])
        if isinstance(oa.cls, ClassInfo) and isinstance(ob.cls, ClassInfo):
            return False
        raise Unsupported('equality of containers')
    if a is None or b is None:
        return a is None and b is None
    if type(a) is not type(b):
        return False
    if isinstance(a, (ClassInfo, BuiltinType, FuncVal)):
        return a is b
    if isinstance(a, Opaque):
        return ex.fresh_bool('opaque')
    raise Unsupported('== of %s and %s' % (type(a).__name__, type(b).__name__))


def contains(ex, c, x):
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, Ref) and isinstance(ex.obj(c).pay, dict):
        if isinstance(x, (str, int, tuple)):
            return x in ex.obj(c).pay
        raise Unsupported('in dict')
    if isinstance(c, Model) and hasattr(c, 'py_contains'):
        return c.py_contains(ex, x)
    if isinstance(c, Opaque) or isinstance(x, Opaque):
        return ex.fresh_bool('opaque')
    if isinstance(c, (SStr,)) or isinstance(x, SStr):
        return ex.fresh_bool('instr')
    sq = to_seq(ex, c)
    if isinstance(sq.n, int):
        return Or(*[py_eq(ex, sq.get(i), x) for i in range(sq.n)])
    # membership in a symbolic sequence
    b = ex.fresh_bool('in')
    w = ex.fresh_int('wit')
    ex.assume(z3.Implies(b, z3.And(w >= 0, w < zi(sq.n), zb(py_eq(ex, sq.get(w), x)))))
    j = z3.Int(ex._n('q'))
    ex.st.facts.append(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(sq.n)), zb(Not(py_eq(ex, sq.get(j), x)))))))
    return b


# ------------------------------------------------------------------ sequences
class RangeVal(Model):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def seq(self, ex):
        lo, hi, st = self.lo, self.hi, self.step
        if st == 1:
            n = sub(hi, lo)
            n = max(0, n) if isinstance(n, int) else i_ite(z3.simplify(n) > 0 if is_z(n) else n > 0, n, 0)
            if is_z(n):
                n = known_nonneg(ex, sub(hi, lo), n)
            return Seq(n, lambda i: add(lo, i), meta={'range': (lo, hi)})
        if st == -1:
            n = sub(lo, hi)
            n = max(0, n) if isinstance(n, int) else i_ite(n > 0, n, 0)
            if is_z(n):
                n = known_nonneg(ex, sub(lo, hi), n)
            return Seq(n, lambda i: sub(lo, i))
        if all(isinstance(x, int) for x in (lo, hi, st)):
            return Seq.of(list(range(lo, hi, st)))
        if isinstance(st, int) and st > 1:
            d = zi(sub(hi, lo))
            n = z3.If(d > 0, (d + (st - 1)) / st, z3.IntVal(0))
            return Seq(n, lambda i: add(lo, mul(i, st)))
        raise Unsupported('range step')

    def py_iter(self, ex):
        return self.seq(ex)

    def py_len(self, ex):
        return self.seq(ex).n

    def py_getitem(self, ex, i):
        return seq_get(ex, self.seq(ex), i)


def known_nonneg(ex, d, n):
    """drop the max(0, .) when the difference is known to be non-negative"""
    if not is_z(d):
        return n
    if not ex.feasible(zi(d) < 0):
        return d
    return n


def to_seq(ex, v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, tuple):
        return Seq.of(list(v))
    if isinstance(v, Ref):
        o = ex.obj(v)
        if isinstance(o.pay, Seq):
            return o.pay
        if isinstance(o.pay, dict):
            return Seq.of(list(o.pay.keys()))
    if isinstance(v, Model):
        r = v.py_iter(ex)
        return r if isinstance(r, Seq) else to_seq(ex, r)
    if isinstance(v, GenObj):
        raise Unsupported('iteration over a generator')
    if isinstance(v, SVec):
        return v.seq(ex)
    if isinstance(v, str):
        return Seq.of(list(v))
    if v is None or isnum(v):
        raise_('TypeError', 'not iterable')
    raise Unsupported('iteration over %r' % (type(v).__name__,))


def norm_index(ex, n, i, wrap=True):
    """index in [0, n) or IndexError"""
    i = lit(i)
    if isint(i) and not is_z(i) and isinstance(n, int):
        j = i + n if i < 0 and wrap else i
        if not 0 <= j < n:
            raise_('IndexError')
        return j
    if isinstance(i, int) and i < 0 and wrap:
        j = add(n, i)
        if not ex.branch(And(le(0, j))):
            raise_('IndexError')
        return j
    if isinstance(i, int):
        if not ex.branch(lt(i, n)):
            raise_('IndexError')
        return i
    if ex.branch(And(le(0, i), lt(i, n))):
        return i
    if wrap and ex.branch(And(lt(i, 0), le(0, add(i, n)))):
        return add(i, n)
    raise_('IndexError')


def seq_get(ex, s, i, cls='list'):
    if isinstance(i, SFlt):
        raise_('IndexError' if cls == 'ndarray' else 'TypeError', 'index is not an integer')
    if isbool(i):
        i = as_num(i)
    if isint(i):
        v = s.get(norm_index(ex, s.n, i))
        if isinstance(v, Frozen):
            return v.thaw(ex)
        return v
    raise Unsupported('index %r' % (type(i).__name__,))


def slice_bounds(ex, n, lo, hi):
    def norm(x, default):
        if x is None:
            return default
        x = lit(x)
        if isinstance(x, SFlt):
            raise_('TypeError', 'slice indices must be integers')
        if isbool(x):
            x = as_num(x)
        if not isint(x):
            raise Unsupported('slice index')
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x += n
            return max(0, min(n, x))
        if isinstance(x, int):
            if x < 0:
                j = add(n, x)
                return j if ex.branch(le(0, j)) else 0
            return x if ex.branch(le(x, n)) else n
        if ex.branch(And(le(0, x), le(x, n))):
            return x
        if ex.branch(lt(n, x)):
            return n
        j = add(n, x)
        return j if ex.branch(le(0, j)) else 0
    a, b = norm(lo, 0), norm(hi, n)
    if isinstance(a, int) and isinstance(b, int):
        return a, max(a, b)
    if a == 0 and not is_z(a):
        return a, b
    if not is_z(b) and not is_z(a):
        return a, max(a, b)
    if ex.branch(le(a, b)):
        return a, b
    return a, a


def sub_seq(s, lo, hi):
    if s.items is not None and isinstance(lo, int) and isinstance(hi, int):
        return Seq.of(s.items[lo:hi], s.kind)
    if not is_z(lo) and lo == 0 and hi is s.n:
        return s
    return Seq(sub(hi, lo), lambda i: s.get(add(i, lo)), s.kind)


def check_view(ex, o):
    if o.meta and (o.meta.get('view') or o.meta.get('viewed')):
        raise Unsupported('write to an array that has views')


def get_slice(ex, v, lo, hi, step):
    if isinstance(v, Opaque):
        return Opaque('slice')
    if isinstance(v, str) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
        return v[slice(lo, hi, step)]
    if isinstance(v, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
        return v[slice(lo, hi, step)]
    if isinstance(v, Model) and hasattr(v, 'py_slice'):
        return v.py_slice(ex, lo, hi, step)
    s = to_seq(ex, v)
    cls = ex.obj(v).cls if isinstance(v, Ref) else 'list'
    meta = ex.obj(v).meta if isinstance(v, Ref) else None
    if isinstance(cls, ClassInfo):
        cls = 'list'
    if cls == 'deque':
        raise_('TypeError', 'deque slice')
    if step is not None and not (isinstance(step, int) and step == 1):
        if isinstance(step, SFlt):
            raise_('TypeError', 'slice step')
        if isinstance(step, int) and step == -1 and lo is None and hi is None:
            r = Seq(s.n, lambda i: s.get(sub(sub(s.n, 1), i)), s.kind)
        elif lo is None and hi is None:
            if isinstance(step, int) and isinstance(s.n, int):
                r = Seq.of([s.get(i) for i in range(s.n)][::step])
            else:
                if not ex.branch(lt(0, step)):
                    if ex.branch(eq(step, 0)):
                        raise_('ValueError', 'slice step cannot be zero')
                    raise Unsupported('negative slice step')
                m = ex.fresh_int('slen', lo=0)
                zs, zn = zi(step), zi(s.n)
                ex.assume(z3.And(m * zs >= zn, z3.Implies(m > 0, (m - 1) * zs < zn), z3.Implies(zn > 0, m > 0)))
                at = ex.fresh_fn('at', z3.IntSort())          # the product, opaque: at(i) = i * step
                ex.assume_forall(lambda i: at(i) == i * zs, pattern=lambda i: at(i))
                ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < m), z3.And(at(i) >= 0, at(i) < zn)), pattern=lambda i: at(i))
                r = Seq(m, lambda i: s.get(at(zi(i))), s.kind, meta={'step': step})
                if ex.externals.get('on_step') is not None:
                    ex.externals['on_step'](ex, s.n, step, m, at)
        else:
            raise Unsupported('slice step')
    else:
        a, b = slice_bounds(ex, s.n, lo, hi)
        r = sub_seq(s, a, b)
    if cls == 'ndarray' or cls == 'recarr':
        o = ex.obj(v)
        o.meta = dict(o.meta or {})
        o.meta['viewed'] = True
        m2 = dict(o.meta)
        m2['view'] = True
        return ex.new(cls, pay=r, meta=m2)
    return ex.new(cls, pay=r, meta=meta)


def set_slice(ex, v, lo, hi, step, val):
    raise Unsupported('slice assignment')


def del_slice(ex, v, lo, hi, step):
    if step is not None:
        raise Unsupported('del with step')
    o = ex.obj(v) if isinstance(v, Ref) else None
    if o is None or not isinstance(o.pay, Seq) or o.cls in ('ndarray', 'recarr', 'deque'):
        raise Unsupported('del slice')
    a, b = slice_bounds(ex, o.pay.n, lo, hi)
    o.pay = seq_concat(sub_seq(o.pay, 0, a), sub_seq(o.pay, b, o.pay.n))


def delitem(ex, v, i):
    if isinstance(v, Model) and hasattr(v, 'py_delitem'):
        return v.py_delitem(ex, i)
    o = ex.obj(v)
    if isinstance(o.pay, dict):
        if i not in o.pay:
            raise_('KeyError', i)
        o.pay = {k: x for k, x in o.pay.items() if k != i}
        return
    if isinstance(o.pay, Seq) and o.cls not in ('ndarray', 'recarr'):
        j = norm_index(ex, o.pay.n, i)
        o.pay = seq_concat(sub_seq(o.pay, 0, j), sub_seq(o.pay, add(j, 1), o.pay.n))
        return
    raise Unsupported('del item')


def seq_concat(a, b):
    if a.items is not None and b.items is not None:
        return Seq.of(a.items + b.items, a.kind if a.items else b.kind)
    if isinstance(a.n, int) and a.n == 0:
        return b
    if isinstance(b.n, int) and b.n == 0:
        return a
    if b.items is not None and len(b.items) == 1:
        return seq_append(a, b.items[0])
    n1 = a.n
    k = a.kind or b.kind

    def get(i):
        c = lt(i, n1)
        if isinstance(c, bool):
            return a.get(i) if c else b.get(sub(i, n1))
        return v_ite(c, a.get(i), b.get(sub(i, n1)))
    return Seq(add(a.n, b.n), get, k)


def seq_append(a, v):
    if a.items is not None:
        return Seq.of(a.items + [v], a.kind)
    n1 = a.n
    return Seq(add(n1, 1), lambda i: v_ite(eq(i, n1), v, a.get(i)), a.kind)


def seq_insert(a, i, v):
    if a.items is not None and isinstance(i, int):
        return Seq.of(a.items[:i] + [v] + a.items[i:], a.kind)
    if isinstance(a.n, int) and a.n == 0:
        return Seq.of([v])
    return Seq(add(a.n, 1), lambda j: v_ite(lt(j, i), a.get(j), v_ite(eq(j, i), v, a.get(sub(j, 1)))), a.kind)


def seq_set(s, i, v):
    if s.items is not None and isinstance(i, int):
        it = list(s.items)
        it[i] = v
        return Seq.of(it, s.kind)
    k = s.kind
    if isinstance(k, KInt) and type(k) is KInt and isinstance(v, SFlt):
        k = None
    if isinstance(k, KFlt) and k.finite and not (isinstance(v, SFlt) and v.fin):
        k = None
    return Seq(s.n, lambda j: v_ite(eq(j, i), v, s.get(j)), k)


def seq_repeat(ex, s, m):
    if isinstance(m, int) and isinstance(s.n, int) and s.items is not None:
        return Seq.of(s.items * max(0, m))
    if isinstance(s.n, int) and s.n == 1:
        x = s.get(0)
        n = m if not ex.feasible(zi(m) < 0) else i_ite(zi(m) > 0, m, 0)
        return Seq(n, lambda i: x, s.kind)
    raise Unsupported('sequence repetition')


def concat(ex, parts):
    r = Seq.of([])
    for p in parts:
        r = seq_concat(r, p)
    return r


def unpack(ex, v, k):
    s = to_seq(ex, v)
    if isinstance(s.n, int):
        if s.n != k:
            raise_('ValueError', 'unpack')
        return [_thaw(ex, s.get(i)) for i in range(k)]
    if not ex.branch(eq(s.n, k)):
        raise_('ValueError', 'unpack')
    return [_thaw(ex, s.get(i)) for i in range(k)]


def _thaw(ex, v):
    return v.thaw(ex) if isinstance(v, Frozen) else v


# ------------------------------------------------------------------ items
def getitem(ex, o, i):
    if isinstance(o, Opaque):
        return Opaque('item')
    if isinstance(o, LP):
        return lp_item(ex, o, i)
    if isinstance(o, (tuple, str)):
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise_('IndexError')
        if isinstance(o, tuple):
            return seq_get(ex, Seq.of(list(o)), i)
        raise Unsupported('string index')
    if isinstance(o, Ref):
        ob = ex.obj(o)
        if isinstance(ob.cls, ClassInfo) and not isinstance(ob.pay, Seq):
            m, _, _ = ex.find_method(ob.cls, '__getitem__')
            if m is None:
                raise_('TypeError', 'not subscriptable')
            return ex.call(m, [o, i])
        if isinstance(ob.pay, dict):
            if isinstance(i, (str, int, tuple)):
                if i not in ob.pay:
                    raise_('KeyError', i)
                return ob.pay[i]
            raise Unsupported('symbolic dict key')
        if ob.cls == 'recarr':
            return rec_item(ex, o, ob, i)
        if ob.cls == 'nd2':
            return ob.pay.py_getitem(ex, i)
        if isinstance(ob.pay, Seq):
            if ob.cls == 'ndarray' and (isinstance(i, Ref) or isinstance(i, Seq)):
                return fancy(ex, o, ob, i)
            return seq_get(ex, ob.pay, i, ob.cls)
    if isinstance(o, SVec):
        return seq_get(ex, o.seq(ex), i, 'ndarray')
    if isinstance(o, Seq):
        return seq_get(ex, o, i)
    if isinstance(o, Model):
        return o.py_getitem(ex, i)
    if o is None:
        raise_('TypeError', 'None is not subscriptable')
    raise Unsupported('subscript of %r' % (type(o).__name__,))


def fancy(ex, o, ob, i):
    """array[index array or mask]"""
    ix = to_seq(ex, i)
    s = ob.pay
    if isinstance(ix.n, int) and ix.n == 0:
        return ex.new(ob.cls, pay=Seq.of([]), meta=dict(ob.meta or {}, view=False, viewed=False))
    probe = ix.get(0) if isinstance(ix.n, int) else ix.get(z3.Int(ex._n('pr')))
    meta = {k: v for k, v in (ob.meta or {}).items() if k not in ('view', 'viewed')}
    if isbool(probe):
        if not ex.branch(eq(ix.n, s.n)):
            raise_('IndexError', 'boolean index did not match')
        if isinstance(ix.n, int):
            out = [s.get(j) for j in range(ix.n) if ex.branch(ix.get(j))]
            return ex.new(ob.cls, pay=Seq.of(out), meta=meta)
        return ex.new(ob.cls, pay=comp.filtered(ex, ix.n, lambda j: zb(ix.get(j)), s.get), meta=meta)
    if isint(probe):
        n = s.n
        if isinstance(ix.n, int):
            return ex.new(ob.cls, pay=Seq.of([s.get(norm_index(ex, n, ix.get(j))) for j in range(ix.n)]), meta=meta)
        m = comp.map_seq(ex, ix, lambda x: norm_index(ex, n, x))
        return ex.new(ob.cls, pay=Seq(ix.n, lambda j: s.get(m.get(j)), s.kind, meta={'index': m}), meta=meta)
    raise_('IndexError', 'arrays used as indices must be of integer type')


def setitem(ex, o, i, v):
    if isinstance(o, LP):
        return lp_setitem(ex, o, i, v)
    if isinstance(o, Ref):
        ob = ex.obj(o)
        if isinstance(ob.cls, ClassInfo) and not isinstance(ob.pay, Seq):
            m, _, _ = ex.find_method(ob.cls, '__setitem__')
            if m is None:
                raise_('TypeError', 'no item assignment')
            return ex.call(m, [o, i, v])
        if isinstance(ob.pay, dict):
            if not isinstance(i, (str, int, tuple)):
                raise Unsupported('symbolic dict key')
            ob.pay = dict(ob.pay)
            ob.pay[i] = v
            return
        if ob.cls == 'nd2':
            ob.pay = ob.pay.with_item(ex, i, v)
            return
        if isinstance(ob.pay, Seq):
            if ob.cls in ('ndarray', 'recarr'):
                check_view(ex, ob)
                if ob.cls == 'ndarray':
                    v = nd_elem(ex, ob, v)
                else:
                    return rec_setitem(ex, o, ob, i, v)
            if isinstance(i, (Ref, Seq)):
                return fancy_set(ex, ob, i, v)
            if isinstance(i, SFlt):
                raise_('IndexError')
            if ex.binders:
                raise Unsupported('item assignment under a binder')
            j = norm_index(ex, ob.pay.n, i)
            ob.pay = seq_set(ob.pay, j, v)
            return
    if isinstance(o, Model):
        return o.py_setitem(ex, i, v)
    if isinstance(o, Opaque):
        return
    raise Unsupported('item assignment on %r' % (type(o).__name__,))


def fancy_set(ex, ob, i, v):
    ix = to_seq(ex, i)
    probe = ix.get(0) if isinstance(ix.n, int) and ix.n else ix.get(z3.Int(ex._n('pr')))
    if isbool(probe) and isnum(v):
        if not ex.branch(eq(ix.n, ob.pay.n)):
            raise_('IndexError')
        s = ob.pay
        ob.pay = Seq(s.n, lambda j: v_ite(ix.get(j), v, s.get(j)))
        return
    raise Unsupported('fancy assignment')


def get_multi(ex, o, ix):
    if isinstance(o, Ref) and ex.obj(o).cls == 'nd2':
        return ex.obj(o).pay.multi(ex, ix)
    if isinstance(o, Model) and hasattr(o, 'multi'):
        return o.multi(ex, ix)
    if isinstance(o, Opaque):
        return Opaque('multi')
    raise Unsupported('multi-dimensional index')


# ------------------------------------------------------------------ strings
def parts(s):
    return list(s.parts) if isinstance(s, SStr) else [s]


def mkstr(ps):
    s = SStr(ps)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def fmt_parts(ex, v, spec):
    if isinstance(v, str):
        if spec in ('', 's'):
            return [v]
        if spec and spec[-1] not in 's0123456789<>^' :
            raise_('ValueError', 'format')
    if isinstance(v, SStr) and spec in ('', 's'):
        return parts(v)
    if isinstance(v, bool) or v is None:
        if spec == '':
            return [str(v)]
    if isinstance(v, int) and not isinstance(v, bool) and spec in ('', 'd'):
        return [str(v)]
    if isinstance(v, SName):
        return [('name', v.i, spec)]
    if isint(v) or isbool(v):
        return [('int', zi(v), spec)]
    if isinstance(v, SFlt):
        if spec.endswith('d'):
            raise_('ValueError', 'format d of a float')
        return [('flt', v, spec)]
    if isinstance(v, LP) or isinstance(v, Opaque) or isinstance(v, (Ref, tuple, Model, ClassInfo, PyExc, FuncVal)):
        if spec in ('', 's') :
            return [('obj', v, spec)]
        if isinstance(v, Opaque):
            return [('obj', v, spec)]
        raise_('TypeError', 'format')
    raise Unsupported('format of %r' % (type(v).__name__,))


def str_format(ex, s, args, kwargs):
    import string
    if not isinstance(s, str):
        raise Unsupported('format of symbolic string')
    out = []
    auto = 0
    for litt, field, spec, conv in string.Formatter().parse(s):
        out.append(litt)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            if int(field) >= len(args):
                raise_('IndexError', 'format')
            v = args[int(field)]
        elif field.isidentifier():
            if field not in kwargs:
                raise_('KeyError', field)
            v = kwargs[field]
        else:
            raise Unsupported('format field ' + field)
        if conv in ('s', 'r'):
            v = to_str(ex, v) if conv == 's' else SStr([('repr', v, '')])
        out += fmt_parts(ex, v, spec or '')
    return mkstr(out)


def pct_format(ex, s, v):
    if not isinstance(s, str):
        raise Unsupported('% of symbolic string')
    args = list(v) if isinstance(v, tuple) else [v]
    out = []
    i = 0
    import re
    pos = 0
    for m in re.finditer(r'%([-+ 0#]*\d*(?:\.\d+)?)([sdifgeExr%])', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(2) == '%':
            out.append('%')
            continue
        if i >= len(args):
            raise_('TypeError', 'format')
        a = args[i]
        i += 1
        t = m.group(2)
        if t in 'di' and m.group(1) == '':
            if isinstance(a, SFlt):
                a = to_int(ex, a)
            out += fmt_parts(ex, a, 'd' if isint(a) else '')
        elif t == 's':
            out += parts(to_str(ex, a))
        else:
            out += fmt_parts(ex, a, m.group(1) + t)
    out.append(s[pos:])
    return mkstr(out)


def to_str(ex, v):
    if isinstance(v, (str, SStr)):
        return v
    return mkstr(fmt_parts(ex, v, ''))


def str_eq(ex, a, b):
    pa, pb = parts(a), parts(b)
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], str) and isinstance(pb[0], str):
        return pa[0] == pb[0]
    if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
        if all(x == y for x, y in zip(pa, pb) if isinstance(x, str)):
            conds = []
            for x, y in zip(pa, pb):
                if isinstance(x, str):
                    continue
                if x[0] != y[0] or x[2:] != y[2:]:
                    return ex.fresh_bool('streq')
                if x[0] in ('int', 'name', 'sym'):
                    conds.append(eq(x[1], y[1]))
                elif x[0] == 'flt' and same_flt(x[1], y[1]):
                    continue
                else:
                    return ex.fresh_bool('streq')
            # one integer/name field per literal context: injective when the literals separate the fields
            return And(*conds)
    # literal against a string with symbolic parts: compare by literal prefix/suffix
    sa = a if isinstance(a, str) else None
    sb = b if isinstance(b, str) else None
    if (sa is None) != (sb is None):
        lits, o = (sa, pb) if sa is not None else (sb, pa)
        if isinstance(o[0], str) and not lits.startswith(o[0]):
            return False
        if isinstance(o[-1], str) and not lits.endswith(o[-1]):
            return False
    if sa is None and sb is None:
        # different literal prefix or suffix
        if isinstance(pa[0], str) and isinstance(pb[0], str):
            m = min(len(pa[0]), len(pb[0]))
            if pa[0][:m] != pb[0][:m]:
                return False
        if isinstance(pa[-1], str) and isinstance(pb[-1], str):
            m = min(len(pa[-1]), len(pb[-1]))
            if pa[-1][len(pa[-1]) - m:] != pb[-1][len(pb[-1]) - m:]:
                return False
    return ex.fresh_bool('streq')


def same_flt(a, b):
    return a is b or (isinstance(a, SFlt) and isinstance(b, SFlt) and lit(f_same(a, b)) is True)


def str_attr(ex, s, name):
    def f(fn):
        return Fn(fn, 'str.' + name)
    if name == 'format':
        return f(lambda ex, *a, **k: str_format(ex, s, a, k))
    if name == 'join':
        return f(lambda ex, it: str_join(ex, s, it))
    if name in ('rstrip', 'strip', 'lstrip', 'lower', 'upper', 'replace', 'split', 'startswith', 'endswith'):
        def g(ex, *a):
            if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a):
                r = getattr(s, name)(*a)
                return ex.new_list(Seq.of(r)) if isinstance(r, list) else r
            if name == 'rstrip' and not a:
                ps = parts(s)
                if isinstance(ps[-1], str):
                    t = ps[-1].rstrip()
                    if t:
                        return mkstr(ps[:-1] + [t])
                    if ps[-2][0] in ('int', 'flt', 'name', 'sym', 'join', 'hdr', 'line'):
                        return mkstr(ps[:-1])
                elif ps[-1][0] in ('int', 'flt', 'name', 'sym', 'join', 'hdr', 'line'):
                    return s
            if name in ('startswith', 'endswith'):
                return ex.fresh_bool('str')
            raise Unsupported('str.' + name)
        return f(g)
    raise Unsupported('str.' + name)


def str_join(ex, sep, it):
    sq = to_seq(ex, it)
    if isinstance(sq.n, int):
        out = []
        for i in range(sq.n):
            if i:
                out.append(sep)
            v = sq.get(i)
            if isinstance(v, SName):
                out += fmt_parts(ex, v, '')
            elif isinstance(v, (str, SStr)):
                out += parts(v)
            else:
                raise_('TypeError', 'join')
        return mkstr(out)
    return SStr([('join', JoinVal(sep, sq), '')])


class JoinVal:
    def __init__(self, sep, seq):
        self.sep, self.seq = sep, seq


# ------------------------------------------------------------------ numbers
def to_int(ex, v):
    if isint(v):
        return v
    if isbool(v):
        return as_num(v)
    if isinstance(v, SFlt):
        if not ex.branch(f_isfinite(v)):
            raise_('OverflowError')
        if not is_z(v.r):
            return int(v.r)
        if z3.is_to_real(v.r):
            return v.r.arg(0)
        r = zr(v.r)
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise_('ValueError')
    if isinstance(v, Opaque):
        return ex.fresh_int('int')
    if is_arr(ex, v):
        s = to_seq(ex, v)
        if isinstance(s.n, int) and s.n == 1:
            return to_int(ex, s.get(0))
    if v is None:
        raise_('TypeError')
    raise Unsupported('int(%r)' % (type(v).__name__,))


def to_float(ex, v):
    if isnum(v):
        f = flt(as_num(v))
        return f.with_(npy=False)
    if isinstance(v, str):
        try:
            return flt(float(v))
        except ValueError:
            raise_('ValueError')
    if isinstance(v, Opaque):
        return ex.fresh_flt('float')
    if isinstance(v, BuiltinType):
        raise_('TypeError')
    if v is None:
        raise_('TypeError')
    raise Unsupported('float(%r)' % (type(v).__name__,))


def v_min(ex, xs, mx=False):
    r = xs[0]
    for x in xs[1:]:
        if isint(r) and isint(x):
            c = lt(r, x) if mx else lt(x, r)
            r = i_ite(c, x, r) if not isinstance(c, bool) else (x if c else r)
        elif isnum(r) and isnum(x):
            fr, fx = flt(as_num(r)), flt(as_num(x))
            c = f_lt(fr, fx) if mx else f_lt(fx, fr)
            if isint(r) != isint(x):
                r = f_ite(zb(c), fx, fr)
            else:
                r = f_ite(zb(c) if not isinstance(c, bool) else c, fx, fr)
        else:
            raise Unsupported('min/max of %r' % (type(x).__name__,))
    return r


def seq_max(ex, s, mx=True, npy=False):
    """max(iterable) / np.max: attained and extreme (no nan assumed: obligation)"""
    if isinstance(s.n, int):
        if s.n == 0:
            raise_('ValueError', 'empty')
        return v_min(ex, [s.get(i) for i in range(s.n)], mx)
    if ex.branch(eq(s.n, 0)):
        raise_('ValueError', 'empty')
    w = ex.fresh_int('argmax')
    ex.assume(z3.And(w >= 0, w < zi(s.n)))
    v = s.get(w)
    j = z3.Int(ex._n('q'))
    x = s.get(j)
    if isint(v):
        body = le(x, v) if mx else le(v, x)
    else:
        fx, fv = flt(x), flt(v)
        body = Or(f_le(fx, fv) if mx else f_le(fv, fx), f_isnan(fx))
        if not fx.fin:
            # an element that is not nan exists => result not nan (python keeps the first; excluded by the no-nan assumption)
            ex.notes.add('max/min of a sequence: no nan among the elements')
            ex.st.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), zb(Not(f_isnan(fx))))))
    ex.st.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), zb(body))))
    if isinstance(v, SFlt) and npy:
        v = v.with_(npy=True)
    ex.st.ghost['_argmax'] = w
    return v


SUMF = {}


def seq_sum(ex, s, start=0):
    if isinstance(s.n, int):
        r = start
        for i in range(s.n):
            r = binop(ex, ast.Add(), r, s.get(i))
        return r
    # opaque total; S(0) = start, S(k+1) = S(k) + x_k
    probe = s.get(z3.Int(ex._n('pr')))
    if isint(probe) or isbool(probe):
        S = ex.fresh_fn('sum', z3.IntSort())
        ex.assume(eq(S(0), start))
        g = lambda i: as_num(s.get(i))
        ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < zi(s.n)), S(i + 1) == S(i) + zi(g(i))), pattern=lambda i: S(i + 1))
        ex.st.ghost['_sum'] = (S, s)
        return S(s.n)
    if isinstance(probe, SFlt):
        S = ex.fresh_fn('sum', z3.RealSort())
        ex.assume(S(0) == zr(flt(start).r))
        ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < zi(s.n)), S(i + 1) == S(i) + zr(s.get(i).r)), pattern=lambda i: S(i + 1))
        ex.st.ghost['_sum'] = (S, s)
        if probe.fin:
            return SFlt(S(s.n), 0, None, probe.npy)
        k = ex.fresh_int('sumk')
        j = z3.Int(ex._n('q'))
        ex.st.facts.append(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(s.n)), zi(s.get(j).k) == 0)), k == 0))
        return SFlt(S(s.n), k, None, probe.npy)
    raise Unsupported('sum of %r' % (type(probe).__name__,))


def all_(ex, it, mode=True):
    s = to_seq(ex, it)
    g = lambda i: truth(ex, s.get(i))
    if isinstance(s.n, int):
        return (And if mode else Or)(*[g(i) for i in range(s.n)])
    b = ex.fresh_bool('all' if mode else 'any')
    j = z3.Int(ex._n('q'))
    w = ex.fresh_int('wit')
    rng = z3.And(j >= 0, j < zi(s.n))
    inr = z3.And(w >= 0, w < zi(s.n))
    if mode:
        ex.st.facts.append(z3.Implies(b, z3.ForAll([j], z3.Implies(rng, zb(g(j))))))
        ex.assume(z3.Implies(z3.Not(b), z3.And(inr, zb(Not(g(w))))))
    else:
        ex.st.facts.append(z3.Implies(z3.Not(b), z3.ForAll([j], z3.Implies(rng, zb(Not(g(j)))))))
        ex.assume(z3.Implies(b, z3.And(inr, zb(g(w)))))
    return b


# ------------------------------------------------------------------ builtins
def b_len(ex, v):
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, LP):
        return ex.dim
    if isinstance(v, Ref):
        o = ex.obj(v)
        if isinstance(o.pay, Seq):
            return o.pay.n
        if isinstance(o.pay, dict):
            return len(o.pay)
        if o.cls == 'nd2':
            return o.pay.shape[0]
        if isinstance(o.cls, ClassInfo):
            m, _, _ = ex.find_method(o.cls, '__len__')
            if m is not None:
                return ex.call(m, [v])
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, SVec):
        return ex.dim
    if isinstance(v, Model):
        return v.py_len(ex)
    if v is None or isnum(v):
        raise_('TypeError', 'no len')
    if isinstance(v, Opaque):
        return ex.fresh_int('len', lo=0)
    raise Unsupported('len of %r' % (type(v).__name__,))


def b_range(ex, *a):
    for x in a:
        if isinstance(x, SFlt):
            raise_('TypeError', 'range of float')
    a = [as_num(x) for x in a]
    if len(a) == 1:
        return RangeVal(0, a[0], 1)
    if len(a) == 2:
        return RangeVal(a[0], a[1], 1)
    return RangeVal(a[0], a[1], a[2])


def b_enumerate(ex, it, start=0):
    s = to_seq(ex, it)
    if s.items is not None and isinstance(start, int):
        return Seq.of([(start + i, x) for i, x in enumerate(s.items)])
    return Seq(s.n, lambda i: (add(i, start), s.get(i)))


def b_zip(ex, *its):
    if len(its) == 1 and isinstance(its[0], StarSeq):
        # zip(*seq of k-tuples)
        s = its[0].seq
        probe = s.get(z3.Int(ex._n('pr')))
        if not isinstance(probe, tuple):
            raise Unsupported('zip(*symbolic)')
        return Seq.of([Frozen('list', Seq(s.n, lambda i, k=k: s.get(i)[k])) for k in range(len(probe))])
    ss = [to_seq(ex, x) for x in its]
    if all(s.items is not None for s in ss):
        return Seq.of(list(zip(*[s.items for s in ss])))
    n = ss[0].n
    for s in ss[1:]:
        if is_z(n) and is_z(s.n) and n.eq(s.n):
            continue
        if not is_z(n) and not is_z(s.n):
            n = min(n, s.n)
        elif ex.branch(eq(n, s.n)):
            continue
        elif ex.branch(lt(s.n, n)):
            n = s.n
    return Seq(n, lambda i: tuple(s.get(i) for s in ss))


def b_reversed(ex, it):
    s = to_seq(ex, it)
    if s.items is not None:
        return Seq.of(list(reversed(s.items)))
    return Seq(s.n, lambda i: s.get(sub(sub(s.n, 1), i)), s.kind)


def b_sorted(ex, it, key=None, reverse=False):
    s = to_seq(ex, it)
    if not isinstance(reverse, bool):
        raise Unsupported('sorted reverse')
    return ex.new_list(sort_seq(ex, s, key, reverse))


def sort_seq(ex, s, key, reverse=False):
    """stable sort: permutation, ordered, ties in the original order"""
    kf = (lambda v: ex.call(key, [v])) if key is not None else (lambda v: v)
    if isinstance(s.n, int) and s.n <= 1:
        return s
    n = s.n
    perm = ex.fresh_fn('perm', z3.IntSort())
    inv = ex.fresh_fn('iperm', z3.IntSort())
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(perm(i) >= 0, perm(i) < zi(n), inv(perm(i)) == i)),
                     pattern=lambda i: perm(i))
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(inv(i) >= 0, inv(i) < zi(n), perm(inv(i)) == i)),
                     pattern=lambda i: inv(i))
    keys = comp.map_seq(ex, s, kf)
    K = lambda i: keys.get(perm(i))

    def leq(a, b):
        if isint(a) and isint(b):
            return le(b, a) if reverse else le(a, b)
        return f_le(flt(b), flt(a)) if reverse else f_le(flt(a), flt(b))

    def samek(a, b):
        return eq(a, b) if isint(a) and isint(b) else f_eq(a, b)
    ex.assume_forall(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < zi(n)),
                     z3.And(zb(leq(K(i), K(j))), z3.Implies(zb(samek(K(i), K(j))), perm(i) < perm(j)))), n=2,
                     pattern=lambda i, j: (perm(i), perm(j)))
    ex.notes.add('sorted: keys are not nan')
    return Seq(n, lambda i: s.get(perm(i)), s.kind, meta={'perm': (perm, inv, s)})


def b_isinstance(ex, v, c):
    if isinstance(c, tuple):
        return Or(*[b_isinstance(ex, v, x) for x in c])
    if isinstance(c, ClassInfo):
        if isinstance(v, LP):
            return c.qual == 'cpnest.parameter.LivePoint'
        if isinstance(v, Ref):
            k = ex.obj(v).cls
            return isinstance(k, ClassInfo) and k.is_sub(c)
        if isinstance(v, PyExc):
            return isinstance(v.cls, ClassInfo) and v.cls.is_sub(c)
        if isinstance(v, Model) and hasattr(v, 'py_isinstance'):
            return v.py_isinstance(ex, c)
        return False
    if isinstance(c, BuiltinType):
        t = c.name
        if t == 'float':
            return isinstance(v, SFlt)
        if t == 'int':
            return isint(v) or isbool(v)
        if t == 'bool':
            return isbool(v)
        if t == 'str':
            return isinstance(v, (str, SStr))
        if t == 'tuple':
            return isinstance(v, tuple)
        if t == 'list':
            return isinstance(v, Ref) and (ex.obj(v).cls == 'list' or (isinstance(ex.obj(v).cls, ClassInfo) and ex.obj(v).cls.is_sub('list')))
        if t == 'dict':
            return is_cont(ex, v, 'dict')
        if t == 'ndarray':
            return is_cont(ex, v, 'ndarray') or isinstance(v, SVec)
    raise Unsupported('isinstance')


def b_type(ex, v):
    if isinstance(v, LP):
        return ex.class_info('cpnest.parameter', 'LivePoint')
    if isinstance(v, Ref):
        k = ex.obj(v).cls
        if isinstance(k, ClassInfo):
            return k
        return BUILTINS.get(k) or NDARRAY_T
    if isinstance(v, SFlt):
        return BUILTINS['float']
    if isinstance(v, bool):
        return BUILTINS['bool']
    if isint(v):
        return BUILTINS['int']
    if isinstance(v, (str, SStr)):
        return BUILTINS['str']
    if isinstance(v, tuple):
        return BUILTINS['tuple']
    if v is None:
        return BuiltinType('NoneType')
    if isinstance(v, Model) and hasattr(v, 'py_type'):
        return v.py_type(ex)
    raise Unsupported('type()')


def b_list(ex, it=None):
    if it is None:
        return ex.new_list(Seq.of([]))
    return ex.new_list(to_seq(ex, it))


def b_tuple(ex, it=None):
    if it is None:
        return ()
    s = to_seq(ex, it)
    if isinstance(s.n, int):
        return tuple(s.get(i) for i in range(s.n))
    return Frozen('list', s)


def b_dict(ex, *a, **k):
    d = {}
    if a:
        o = ex.obj(a[0])
        if isinstance(o.pay, dict):
            d.update(o.pay)
        else:
            raise Unsupported('dict()')
    d.update(k)
    return ex.new('dict', pay=d)


def b_filter(ex, f, it):
    s = to_seq(ex, it)
    if f is None:
        return comp.filter_seq(ex, s, lambda v: v)
    return comp.filter_seq(ex, s, lambda v: ex.call(f, [v]))


def b_map(ex, f, *its):
    if len(its) == 1:
        return comp.map_seq(ex, to_seq(ex, its[0]), lambda v: ex.call(f, [v]))
    return comp.map_seq(ex, b_zip(ex, *its), lambda v: ex.call(f, list(v)))


def b_max(ex, *a, **k):
    return minmax(ex, a, k, True)


def b_min(ex, *a, **k):
    return minmax(ex, a, k, False)


def minmax(ex, a, k, mx):
    if k:
        raise Unsupported('min/max key')
    if len(a) == 1:
        if isinstance(a[0], Opaque):
            return Opaque('minmax')
        return seq_max(ex, to_seq(ex, a[0]), mx)
    return v_min(ex, list(a), mx)


def b_abs(ex, v):
    v = as_num(v)
    if isint(v):
        return abs(v) if not is_z(v) else z3.If(v >= 0, v, -v)
    if isinstance(v, SFlt):
        return f_abs(v)
    if is_arr(ex, v):
        return nd_map(ex, v, lambda x: b_abs(ex, x))
    raise Unsupported('abs')


def f_abs(v):
    v = flt(v)
    if not is_z(v.r) and v.fin:
        return SFlt(abs(v.r), 0, None, v.npy)
    r = zr(v.r)
    k = v.k if not is_z(v.k) else z3.If(v.k == -1, z3.IntVal(1), v.k)
    if not is_z(k) and k == -1:
        k = 1
    return SFlt(z3.If(r >= 0, r, -r), k, None, v.npy)


def b_round(ex, v, nd=None):
    if isint(v):
        return v
    if nd is not None:
        raise Unsupported('round digits')
    v = flt(v)
    if not ex.branch(f_isfinite(v)):
        raise_('ValueError' if False else 'OverflowError')
    r = ex.fresh_int('round')
    x = v.zr()
    d = z3.ToReal(r) - x
    # round half to even
    ex.assume(z3.And(2 * d <= 1, 2 * d >= -1, z3.Implies(z3.Or(2 * d == 1, 2 * d == -1), r % 2 == 0)))
    return r


def b_getattr(ex, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported('getattr')
    try:
        return ex.getattr(o, name)
    except PyRaise as e:
        if d and e.exc.cls == 'AttributeError':
            return d[0]
        raise


def b_hasattr(ex, o, name):
    try:
        ex.getattr(o, name)
        return True
    except PyRaise as e:
        if e.exc.cls == 'AttributeError':
            return False
        raise


def b_next(ex, g, *d):
    return ex.next_(g)


def b_sum(ex, it, start=0):
    if isinstance(it, Opaque):
        return Opaque('sum')
    return seq_sum(ex, to_seq(ex, it), start)


def bt(name, f):
    return BuiltinType(name, f)


def b_bool(ex, v=False):
    return truth(ex, v)


BUILTINS = {
    'len': Fn(b_len, 'len'), 'range': Fn(b_range, 'range'), 'enumerate': Fn(b_enumerate), 'zip': Fn(b_zip),
    'reversed': Fn(b_reversed), 'sorted': Fn(b_sorted), 'sum': Fn(b_sum), 'min': Fn(b_min), 'max': Fn(b_max),
    'all': Fn(lambda ex, it: all_(ex, it, True)), 'any': Fn(lambda ex, it: all_(ex, it, False)), 'abs': Fn(b_abs),
    'isinstance': Fn(b_isinstance), 'type': Fn(b_type), 'filter': Fn(b_filter), 'map': Fn(b_map), 'round': Fn(b_round),
    'getattr': Fn(b_getattr), 'hasattr': Fn(b_hasattr), 'setattr': Fn(lambda ex, o, n, v: ex.setattr(o, n, v)),
    'next': Fn(b_next), 'print': Fn(lambda ex, *a, **k: None), 'iter': Fn(lambda ex, v: v),
    'repr': Fn(lambda ex, v: SStr([('repr', v, '')])), 'vars': Fn(lambda ex, o: DictView(o)),
    'int': bt('int', lambda ex, v=0: to_int(ex, v)), 'float': bt('float', lambda ex, v=0: to_float(ex, v)),
    'str': bt('str', lambda ex, v='': to_str(ex, v)), 'bool': bt('bool', b_bool), 'list': bt('list', b_list),
    'tuple': bt('tuple', b_tuple), 'dict': bt('dict', b_dict), 'object': bt('object', lambda ex: ex.new('object')),
    'True': True, 'False': False, 'NotImplemented': Opaque('NotImplemented'),
    'callable': Fn(lambda ex, v: isinstance(v, (FuncVal, Bound, Fn, ClassInfo))),
}
NDARRAY_T = BuiltinType('ndarray')


# ------------------------------------------------------------------ heap container attributes
def dict_method(ex, d, name):
    if name == 'items':
        return Fn(lambda ex: Seq.of([(k, v) for k, v in d.items()]))
    if name == 'keys':
        return Fn(lambda ex: Seq.of(list(d.keys())))
    if name == 'values':
        return Fn(lambda ex: Seq.of(list(d.values())))
    if name == 'get':
        return Fn(lambda ex, k, dv=None: d.get(k, dv))
    raise Unsupported('dict.' + name)


def obj_attr(ex, ref, o, name):
    c = o.cls
    if c == 'dict':
        if name in ('items', 'keys', 'values', 'get'):
            return dict_method(ex, o.pay, name)
        if name == 'copy':
            return Fn(lambda ex: ex.new('dict', pay=dict(ex.obj(ref).pay)))
        if name == 'pop':
            def pop(ex, k, *d):
                ob = ex.obj(ref)
                if k in ob.pay:
                    v = ob.pay[k]
                    ob.pay = {a: b for a, b in ob.pay.items() if a != k}
                    return v
                if d:
                    return d[0]
                raise_('KeyError', k)
            return Fn(pop)
        if name == 'update':
            def upd(ex, d=None, **kw):
                ob = ex.obj(ref)
                ob.pay = dict(ob.pay)
                if d is not None:
                    ob.pay.update(ex.obj(d).pay if isinstance(d, Ref) else ex.obj(d.ref).attrs)
                ob.pay.update(kw)
            return Fn(upd)
        if name == 'setdefault':
            raise Unsupported('dict.setdefault')
    if c in ('list', 'deque'):
        m = LISTM.get(name) if c == 'list' else DEQUEM.get(name)
        if m is not None:
            return Bound(Fn(m, name), ref)
        if c == 'deque' and name == 'maxlen':
            return (o.meta or {}).get('maxlen')
        if c == 'deque' and name == 'copy':
            return Fn(lambda ex: ex.new('deque', pay=ex.obj(ref).pay, meta=o.meta))
    if c == 'ndarray' or c == 'recarr' or c == 'nd2':
        from . import npmodel
        return npmodel.nd_attr(ex, ref, o, name)
    if c == 'file':
        return o.attrs['model'].py_getattr(ex, name)
    raise PyRaise(PyExc('AttributeError', (name, c)))


def external_method(ex, base, name):
    if base == 'list':
        m = LISTM.get(name)
        return Fn(m, name) if m is not None else None
    h = ex.externals.get('ext:%s.%s' % (base, name))
    return h


def l_append(ex, ref, v):
    mutate(ex)
    o = ex.obj(ref)
    mx = (o.meta or {}).get('maxlen')
    if o.cls == 'deque' and mx is not None:
        s = seq_append(o.pay, v)
        if ex.branch(lt(mx, s.n)):
            s = sub_seq(s, 1, s.n)
        o.pay = s
    else:
        o.pay = seq_append(o.pay, v)
    h = (o.meta or {}).get('on_append')
    if h is not None:
        h(ex, ref, v)


def mutate(ex):
    if ex.binders:
        raise Unsupported('container mutation under a binder')


def l_insert(ex, ref, i, v):
    mutate(ex)
    o = ex.obj(ref)
    n = o.pay.n
    if isinstance(i, SFlt):
        raise_('TypeError')
    # python clamps
    if ex.branch(And(le(0, i), le(i, n))):
        j = i
    elif ex.branch(lt(n, i)):
        j = n
    else:
        j = add(n, i)
        if ex.branch(lt(j, 0)):
            j = 0
    o.pay = seq_insert(o.pay, j, v)


def l_extend(ex, ref, it):
    mutate(ex)
    o = ex.obj(ref)
    s = to_seq(ex, it)
    mx = (o.meta or {}).get('maxlen')
    r = seq_concat(o.pay, s)
    if o.cls == 'deque' and mx is not None:
        if ex.branch(lt(mx, r.n)):
            r = sub_seq(r, sub(r.n, mx), r.n)
    o.pay = r


def l_pop(ex, ref, i=None):
    mutate(ex)
    o = ex.obj(ref)
    n = o.pay.n
    if ex.branch(eq(n, 0)):
        raise_('IndexError', 'pop from empty')
    j = sub(n, 1) if i is None else norm_index(ex, n, i)
    v = o.pay.get(j)
    if i is None:
        o.pay = sub_seq(o.pay, 0, j)
    elif not is_z(j) and j == 0:
        o.pay = sub_seq(o.pay, 1, n)
    else:
        o.pay = seq_concat(sub_seq(o.pay, 0, j), sub_seq(o.pay, add(j, 1), n))
    h = ex.externals.get('on_pop')
    if h is not None:
        h(ex, ref, v)
    return _thaw(ex, v)


def l_popleft(ex, ref):
    return l_pop(ex, ref, 0)


def l_sort(ex, ref, key=None, reverse=False):
    mutate(ex)
    o = ex.obj(ref)
    o.pay = sort_seq(ex, o.pay, key, reverse)


def l_reverse(ex, ref):
    mutate(ex)
    o = ex.obj(ref)
    o.pay = b_reversed(ex, o.pay)


def l_clear(ex, ref):
    mutate(ex)
    ex.obj(ref).pay = Seq.of([])


def l_init(ex, ref, it=None):
    ex.obj(ref).pay = to_seq(ex, it) if it is not None else Seq.of([])


def l_appendleft(ex, ref, v):
    mutate(ex)
    o = ex.obj(ref)
    mx = (o.meta or {}).get('maxlen')
    s = seq_insert(o.pay, 0, v)
    if mx is not None and ex.branch(lt(mx, s.n)):
        s = sub_seq(s, 0, sub(s.n, 1))
    o.pay = s


def l_rotate(ex, ref, k=1):
    mutate(ex)
    o = ex.obj(ref)
    s = o.pay
    n = s.n
    if ex.branch(eq(n, 0)):
        return
    if isint(k) and not is_z(k) and k in (1, -1):
        if k == 1:
            o.pay = Seq(n, lambda i: v_ite(eq(i, 0), s.get(sub(n, 1)), s.get(sub(i, 1))), s.kind)
        else:
            o.pay = Seq(n, lambda i: v_ite(eq(i, sub(n, 1)), s.get(0), s.get(add(i, 1))), s.kind)
        return
    o.pay = Seq(n, lambda i: s.get((zi(i) - zi(k)) % zi(n)), s.kind)


def l_remove(ex, ref, v):
    raise Unsupported('list.remove')


def l_copy(ex, ref):
    return ex.new('list', pay=ex.obj(ref).pay)


def l_index(ex, ref, x):
    """list.index: the first position of x, or ValueError"""
    s = ex.obj(ref).pay
    if isinstance(s.n, int):
        for i in range(s.n):
            if ex.truth(py_eq(ex, s.get(i), x)):
                return i
        raise_('ValueError')
    w = ex.fresh_int('index')
    if ex.branch(z3.Bool(ex._n('found'))):
        ex.assume(z3.And(w >= 0, w < zi(s.n), zb(py_eq(ex, s.get(w), x))))
        ex.assume_forall(lambda j: z3.Implies(z3.And(j >= 0, j < w), zb(Not(py_eq(ex, s.get(j), x)))))
        return w
    ex.assume_forall(lambda j: z3.Implies(z3.And(j >= 0, j < zi(s.n)), zb(Not(py_eq(ex, s.get(j), x)))))
    raise_('ValueError')


LISTM = {'append': l_append, 'insert': l_insert, 'extend': l_extend, 'pop': l_pop, 'sort': l_sort, 'reverse': l_reverse,
         'clear': l_clear, '__init__': l_init, 'copy': l_copy, 'remove': l_remove, 'index': l_index,
         '__len__': lambda ex, r: ex.obj(r).pay.n, '__getitem__': lambda ex, r, i: getitem(ex, r, i)}
DEQUEM = {'append': l_append, 'extend': l_extend, 'pop': l_pop, 'popleft': l_popleft, 'appendleft': l_appendleft,
          'rotate': l_rotate, 'clear': l_clear, 'reverse': l_reverse}


def b_deque(ex, it=None, maxlen=None):
    s = to_seq(ex, it) if it is not None else Seq.of([])
    if maxlen is not None and it is not None and ex.branch(lt(maxlen, s.n)):
        s = sub_seq(s, sub(s.n, maxlen), s.n)
    return ex.new('deque', pay=s, meta={'maxlen': maxlen})


def value_attr(ex, v, name):
    if isinstance(v, SFlt):
        if name in ('real',):
            return v
        if name == 'value':
            raise_('AttributeError')
        if name == 'astype':
            return Fn(lambda ex, t: v)
        if name in ('item',):
            return Fn(lambda ex: v.with_(npy=False))
    if isinstance(v, SVec):
        from . import npmodel
        return npmodel.vec_attr(ex, v, name)
    if isinstance(v, PyExc):
        if name == 'args':
            return v.args
    if isinstance(v, tuple) and name == 'index':
        raise Unsupported('tuple.index')
    if isinstance(v, Seq):
        return Bound(Fn(LISTM[name]), ex.new_list(v)) if name in LISTM else raise_('AttributeError', name)
    if isint(v) or isbool(v) or isinstance(v, (FuncVal, Bound, SFlt)):
        if name == '__name__' and isinstance(v, FuncVal):
            return v.node.name
        raise PyRaise(PyExc('AttributeError', (name,)))
    raise Unsupported('attribute %s of %r' % (name, type(v).__name__))


# ------------------------------------------------------------------ with
def enter(ex, cm):
    if isinstance(cm, Model):
        return cm.py_enter(ex)
    if isinstance(cm, Ref) and isinstance(ex.obj(cm).cls, ClassInfo):
        return ex.call(ex.getattr(cm, '__enter__'), [])
    raise Unsupported('with %r' % (cm,))


def exit_(ex, cm, exc):
    if isinstance(cm, Model):
        return cm.py_exit(ex, exc)
    r = ex.call(ex.getattr(cm, '__exit__'), [None, None, None] if exc is None else [exc.cls, exc, None])
    return ex.branch(truth(ex, r)) if exc is not None and r is not None else False


# ------------------------------------------------------------------ live points (contracts proved by C16)
def lp_vec(ex, p):
    return SVec(ex.lp_vals(p))


class SVec:
    """the coordinate array of a live point, or a numpy vector of that length: z3 Array(Int, Real)"""
    __slots__ = ('arr', 'owner')

    def __init__(self, arr, owner=None):
        self.arr = arr
        self.owner = owner

    def seq(self, ex):
        return Seq(ex.dim, lambda i: SFlt(z3.Select(self.arr, zi(i)), 0, None, True), KFlt(True))

    def v_ite(self, c, b):
        return SVec(z3.If(c, self.arr, b.arr))

    def subst(self, i, j):
        return SVec(comp.subst(self.arr, i, j), comp.subst(self.owner, i, j))


LP_OPS = ('__add__', '__sub__', '__mul__', '__truediv__', '__iadd__', '__isub__', '__imul__', '__itruediv__', '__getitem__', '__setitem__', 'copy', 'keys', '__len__')


def lp_attr(ex, p, name):
    if name in ('logL', 'logP'):
        return ex.lp_get(p, name)
    if name == 'values':
        return SVec(ex.lp_vals(p), p)
    if name == 'dimension':
        return ex.dim
    if name == 'names':
        return NamesVal()
    if name == 'keys':
        return Fn(lambda ex: NamesVal())
    if name == 'copy':
        return Fn(lambda ex: lp_copy(ex, p), 'LivePoint.copy')
    if name == 'asnparray':
        return Fn(lambda ex: RowArr(p, dict(ex.st.lp)), 'LivePoint.asnparray')
    if name in ('__add__', '__sub__', '__mul__', '__truediv__'):
        t = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div'}[name]
        return Fn(lambda ex, o: lp_binop(ex, t, p, o))
    if name in ('__iadd__', '__isub__', '__imul__', '__itruediv__'):
        t = {'__iadd__': 'Add', '__isub__': 'Sub', '__imul__': 'Mult', '__itruediv__': 'Div'}[name]
        return Fn(lambda ex, o: lp_iop(ex, t, p, o))
    if name == '__getitem__':
        return Fn(lambda ex, n: lp_item(ex, p, n))
    if name == '__setitem__':
        return Fn(lambda ex, n, x: lp_setitem(ex, p, n, x))
    if name == '__len__':
        return Fn(lambda ex: ex.dim)
    raise PyRaise(PyExc('AttributeError', (name,)))


class RowArr(Model):
    """LivePoint.asnparray(): one record with every coordinate, logL and logPrior of the point at this moment"""
    def __init__(self, p, lp):
        self.p, self.lp = p, lp

    def subst(self, i, j):
        return RowArr(comp.subst(self.p, i, j), self.lp)


def lp_setattr(ex, p, name, v):
    if name in ('logL', 'logP'):
        if isinstance(v, Opaque):
            v = ex.fresh_flt(name)
        if v is None:
            raise_('TypeError', 'must be real number, not NoneType')
        if not isnum(v):
            raise Unsupported('live point %s = %r' % (name, type(v).__name__))
        ex.lp_set(p, name, flt(as_num(v)))
        return
    raise Unsupported('live point attribute %s written' % name)


def lp_copy(ex, p):
    if ex.binders:
        raise Unsupported('copy under a binder')
    q = ex.new_lp()
    ex.lp_set(q, 'vals', ex.lp_vals(p))
    ex.lp_set(q, 'logL', ex.lp_get(p, 'logL'))
    ex.lp_set(q, 'logP', ex.lp_get(p, 'logP'))
    ex.lp_set(q, 'prov', ex.lp_get(p, 'prov'))
    return q


def name_index(ex, name):
    if isinstance(name, SName):
        if not ex.branch(And(le(0, name.i), lt(name.i, ex.dim))):
            raise_('KeyError')
        return name.i
    raise Unsupported('parameter name %r' % (name,))


def lp_item(ex, p, name):
    return SFlt(z3.Select(ex.lp_vals(p), zi(name_index(ex, name))))


def lp_setitem(ex, p, name, v):
    if not isnum(v):
        raise Unsupported('coordinate value')
    v = flt(as_num(v))
    i = name_index(ex, name)
    if not v.fin:
        ex.prove(f_isfinite(v), 'coordinates stay finite')
    ex.lp_set(p, 'vals', z3.Store(ex.lp_vals(p), zi(i), v.zr()))
    ex.lp_set(p, 'prov', z3.IntVal(-1))


def vlam(ex, f):
    """Array(Int, Real) defined pointwise"""
    i = z3.Int('i!vec')
    return z3.Lambda([i], f(i))


def _elem(f, i):
    return z3.Select(f, i)


def lp_binop(ex, t, a, b):
    if ex.binders:
        raise Unsupported('live point arithmetic under a binder')
    if t in ('Add', 'Sub'):
        if not isinstance(b, LP):
            raise_('TypeError', 'live point operand')
        x, y = ex.lp_vals(a), ex.lp_vals(b)
        if ex.opts.get('symvec') and t == 'Add':
            v = ADDV(x, y)
            ex.assume(v == ADDV(y, x))
            elementwise(ex, v, lambda i: x[i] + y[i])
        else:
            v = vfun(ex, 'vec', lambda i: x[i] + y[i] if t == 'Add' else x[i] - y[i])
    elif t in ('Mult', 'Div'):
        if not isnum(b):
            raise_('TypeError', 'must be real number')
        s = flt(as_num(b))
        x = ex.lp_vals(a)
        if t == 'Div':
            if ex.branch(f_eq(s, 0)):
                raise_('ZeroDivisionError')
        if not s.fin:
            ex.prove(f_isfinite(s), 'coordinates stay finite')
        if ex.opts.get('symvec') and t == 'Mult':
            v = MULV(x, s.zr())
            h = ex.externals.get('on_scale')
            if h is not None:
                h(ex, x, s.zr())
        else:
            v = vfun(ex, 'vec', lambda i: s.zr() * x[i] if t == 'Mult' else x[i] / s.zr())
    else:
        raise_('TypeError', 'unsupported operand')
    q = ex.new_lp()
    ex.lp_set(q, 'vals', v)
    ex.lp_set(q, 'logL', NINF)
    ex.lp_set(q, 'logP', NINF)
    ex.lp_set(q, 'prov', z3.IntVal(-1))
    return q


_A = z3.ArraySort(z3.IntSort(), z3.RealSort())
ADDV = z3.Function('ADDV', _A, _A, _A)      # with opts symvec: sums and multiples of coordinate vectors kept as terms
MULV = z3.Function('MULV', _A, z3.RealSort(), _A)


def elementwise(ex, v, f):
    i = z3.Int(ex._n('q'))
    ex.st.facts.append(z3.ForAll([i], z3.Select(v, i) == f(i), patterns=[z3.Select(v, i)]))


def vfun(ex, name, f):
    """fresh array with  a[i] == f(i)  for every i"""
    a = z3.Const(ex._n(name), z3.ArraySort(z3.IntSort(), z3.RealSort()))
    i = z3.Int(ex._n('q'))
    ex.st.facts.append(z3.ForAll([i], z3.Select(a, i) == f(i), patterns=[z3.Select(a, i)]))
    return a


def lp_iop(ex, t, a, b):
    x = ex.lp_vals(a)
    if t in ('Add', 'Sub'):
        if not isinstance(b, LP):
            raise_('TypeError')
        y = ex.lp_vals(b)
        v = vfun(ex, 'vec', lambda i: x[i] + y[i] if t == 'Add' else x[i] - y[i])
    elif t in ('Mult', 'Div'):
        if not isnum(b):
            raise_('TypeError')
        s = flt(as_num(b))
        if t == 'Div' and ex.branch(f_eq(s, 0)):
            raise_('ZeroDivisionError')
        v = vfun(ex, 'vec', lambda i: s.zr() * x[i] if t == 'Mult' else x[i] / s.zr())
    else:
        raise_('TypeError')
    ex.lp_set(a, 'vals', v)
    ex.lp_set(a, 'prov', z3.IntVal(-1))
    return a


def lp_construct(ex, names, d=None, logL=NINF, logP=NINF):
    """contract of LivePoint(names, d, logL, logP)"""
    q = ex.new_lp()
    if d is None:
        v = vfun(ex, 'vec', lambda i: z3.RealVal(0))
    elif isinstance(d, SVec):
        v = d.arr
    else:
        s = to_seq(ex, d)
        if isinstance(s.n, int) or not s.n is ex.dim:
            if not ex.branch(eq(s.n, ex.dim)):
                raise Unsupported('live point with a coordinate array of another length')
        for_fin(ex, s)
        v = vfun(ex, 'vec', lambda i: flt(s.get(i)).zr())
    ex.lp_set(q, 'vals', v)
    ex.lp_set(q, 'logL', flt(logL))
    ex.lp_set(q, 'logP', flt(logP))
    ex.lp_set(q, 'prov', z3.IntVal(-1))
    return q


def for_fin(ex, s):
    p = s.get(z3.Int(ex._n('pr'))) if not isinstance(s.n, int) else (s.get(0) if s.n else flt(0))
    if isinstance(p, SFlt) and not p.fin:
        ex.notes.add('coordinates of a live point are finite')


class NamesVal(Model):
    """the list of parameter names: distinct, length = dimension"""
    kind_of_elem = None

    def py_iter(self, ex):
        return Seq(ex.dim, lambda i: SName(i))

    def py_len(self, ex):
        return ex.dim

    def py_getitem(self, ex, i):
        return SName(norm_index(ex, ex.dim, i))

    def py_contains(self, ex, x):
        if isinstance(x, SName):
            return And(le(0, x.i), lt(x.i, ex.dim))
        return ex.fresh_bool('in')

    def py_same(self, ex, o):
        return isinstance(o, NamesVal)

    def same(self, o):
        return isinstance(o, NamesVal)

    def py_binop(self, ex, t, b):
        if t == 'Add':
            s = to_seq(ex, b)
            return ex.new_list(seq_concat(self.py_iter(ex), s))
        raise Unsupported('names operator')

    def py_truth(self, ex):
        return True


# ------------------------------------------------------------------ arrays: see npmodel
def is_arr(ex, v):
    return isinstance(v, SVec) or (isinstance(v, Frozen) and v.cls == 'ndarray') or \
        (isinstance(v, Ref) and ex.obj(v).cls in ('ndarray', 'nd2'))


def nd_binop(ex, t, a, b):
    from . import npmodel
    return npmodel.binop(ex, t, a, b)


def vec_binop(ex, t, a, b):
    from . import npmodel
    return npmodel.vec_binop(ex, t, a, b)


def nd_compare(ex, op, a, b):
    from . import npmodel
    return npmodel.ncompare(ex, op, a, b)


def nd_map(ex, v, f):
    from . import npmodel
    return npmodel.nmap(ex, v, f)


def nd_elem(ex, ob, v):
    if isinstance(v, Ref) or isinstance(v, SVec):
        raise Unsupported('array element assignment of an array')
    return flt(as_num(v)).with_(npy=True) if (ob.meta or {}).get('dtype') == 'f' and isnum(v) else v


def rec_item(ex, o, ob, i):
    from . import npmodel
    return npmodel.rec_item(ex, o, ob, i)


def rec_setitem(ex, o, ob, i, v):
    from . import npmodel
    return npmodel.rec_setitem(ex, o, ob, i, v)


def module_attr(ex, mod, name):
    full = mod + '.' + name
    ov = ex.externals.get(full)
    if ov is not None:
        return ov
    if mod.split('.')[0] == 'cpnest':
        sub = mod.split('.')[1] if '.' in mod else None
        if sub is None:
            from . import frontend
            if name in frontend.PKG:
                return ModuleVal('cpnest.' + name)
            return ex.import_('cpnest', name, 'cpnest.__init__')
        return ex.global_(mod, name)
    from . import npmodel
    return npmodel.module_attr(ex, mod, name)


LOGM = {'warning', 'warn', 'info', 'critical', 'error', 'debug', 'exception', 'log'}


def ignored(ex, f, call):
    """logging and flushing calls have no effect on the properties; their arguments are not evaluated"""
    return isinstance(f, LogCall)


class LogCall(Model):
    def py_call(self, ex, args, kwargs):
        return None


class Logger(Model):
    def __init__(self, name='logger'):
        self.name = name

    def py_getattr(self, ex, name):
        if name in LOGM:
            return LogCall()
        if name in ('setLevel', 'addHandler', 'removeHandler'):
            return Fn(lambda ex, *a: None)
        raise Unsupported('logger.' + name)

    def same(self, o):
        return isinstance(o, Logger)

    def py_same(self, ex, o):
        return isinstance(o, Logger)
