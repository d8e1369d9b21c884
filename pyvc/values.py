"""Symbolic values.

ints  : python int or z3 Int term          bools : python bool or z3 Bool term
floats: SFlt (class code k, value r)       k: 0 finite, 1 +inf, -1 -inf, 2 nan; r is a mathematical real
The optional `lin` of an SFlt is a Real term equal to exp(value) (0 for -inf): log-domain code is reasoned about in
the linear domain, where its identities are polynomial.
"""
from fractions import Fraction
import math
import z3


class Unsupported(Exception):
    """The code uses something outside the verifier's subset: undecided, never a verdict."""


def is_z(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_z(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def zr(x):
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, (int, bool)):
        return z3.RealVal(int(x))
    if is_z(x):
        if z3.is_int(x):
            return z3.ToReal(x)
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True or (is_z(x) and z3.is_true(x)):
            continue
        if x is False or (is_z(x) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False or (is_z(x) and z3.is_false(x)):
            continue
        if x is True or (is_z(x) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def lit(x):
    """z3 literal -> python, else unchanged"""
    if is_z(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x


def i_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if not is_z(a) and not is_z(b) and a == b:
        return a
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    return z3.If(c, zi(a), zi(b))


def r_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    a, b = zr(a), zr(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def eq(a, b):
    """equality of int/real/bool terms with python folding"""
    if not is_z(a) and not is_z(b):
        return a == b
    if is_z(a) and is_z(b) and a.eq(b):
        return True
    if is_z(a) and z3.is_bool(a) or is_z(b) and z3.is_bool(b):
        return zb(a) == zb(b)
    if (is_z(a) and z3.is_real(a)) or (is_z(b) and z3.is_real(b)) or isinstance(a, Fraction) or isinstance(b, Fraction):
        return zr(a) == zr(b)
    return zi(a) == zi(b)


def lt(a, b):
    if not is_z(a) and not is_z(b):
        return a < b
    if (is_z(a) and z3.is_real(a)) or (is_z(b) and z3.is_real(b)) or isinstance(a, Fraction) or isinstance(b, Fraction):
        return zr(a) < zr(b)
    return zi(a) < zi(b)


def le(a, b):
    if not is_z(a) and not is_z(b):
        return a <= b
    if is_z(a) and is_z(b) and a.eq(b):
        return True
    if (is_z(a) and z3.is_real(a)) or (is_z(b) and z3.is_real(b)) or isinstance(a, Fraction) or isinstance(b, Fraction):
        return zr(a) <= zr(b)
    return zi(a) <= zi(b)


def add(a, b):
    if not is_z(a) and not is_z(b):
        return a + b
    if not is_z(a) and a == 0:
        return b
    if not is_z(b) and b == 0:
        return a
    return zi(a) + zi(b)


def sub(a, b):
    if not is_z(a) and not is_z(b):
        return a - b
    if not is_z(b) and b == 0:
        return a
    return zi(a) - zi(b)


def mul(a, b):
    if not is_z(a) and not is_z(b):
        return a * b
    return zi(a) * zi(b)


# ---------------------------------------------------------------- floats
EXP = z3.Function('EXP', z3.RealSort(), z3.RealSort())
LOG = z3.Function('LOG', z3.RealSort(), z3.RealSort())
FLOOR = z3.Function('FLOOR', z3.RealSort(), z3.IntSort())


class SFlt:
    __slots__ = ('k', 'r', 'lin', 'npy')

    def __init__(self, r, k=0, lin=None, npy=False):
        self.k = lit(k)
        self.r = r if isinstance(r, Fraction) else lit(r)
        if isinstance(self.r, int):
            self.r = Fraction(self.r)
        self.lin = lin
        self.npy = npy

    @property
    def fin(self):
        return not is_z(self.k) and self.k == 0

    def __repr__(self):
        return 'SFlt(%s,%s)' % (self.k, self.r)

    def zr(self):
        return zr(self.r)

    def with_(self, **kw):
        f = SFlt(self.r, self.k, self.lin, self.npy)
        for a, b in kw.items():
            setattr(f, a, b)
        return f


PINF = SFlt(Fraction(0), 1)
NINF = SFlt(Fraction(0), -1, lin=Fraction(0))
NAN = SFlt(Fraction(0), 2)


def flt(x):
    """coerce a number to SFlt"""
    if isinstance(x, SFlt):
        return x
    if isinstance(x, bool):
        return SFlt(Fraction(int(x)))
    if isinstance(x, int):
        return SFlt(Fraction(x))
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return SFlt(Fraction(repr(x)))
    if isinstance(x, Fraction):
        return SFlt(x)
    if is_z(x):
        if z3.is_int(x):
            return SFlt(z3.ToReal(x))
        if z3.is_real(x):
            return SFlt(x)
        if z3.is_bool(x):
            return SFlt(zr(x))
    raise Unsupported('not a number: %r' % (x,))


def f_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    a, b = flt(a), flt(b)
    lin = None
    if a.lin is not None or b.lin is not None:
        la, lb = lin_of(a), lin_of(b)
        if la is not None and lb is not None:
            lin = r_ite(c, la, lb)
    return SFlt(r_ite(c, a.r, b.r), i_ite(c, a.k, b.k), lin, a.npy or b.npy)


def kadd(a, b):
    """class of a sum"""
    if a.fin and b.fin:
        return 0
    ka, kb = a.k, b.k
    if not is_z(ka) and not is_z(kb):
        if ka == 2 or kb == 2 or ka * kb == -1:
            return 2
        return ka or kb
    if a.fin:
        return kb
    if b.fin:
        return ka
    ka, kb = zi(ka), zi(kb)
    return z3.If(z3.Or(ka == 2, kb == 2, z3.And(ka == 1, kb == -1), z3.And(ka == -1, kb == 1)), z3.IntVal(2),
                 z3.If(ka != 0, ka, kb))


def radd(a, b):
    if not is_z(a) and not is_z(b):
        return a + b
    if not is_z(a) and a == 0:
        return b
    if not is_z(b) and b == 0:
        return a
    return zr(a) + zr(b)


def rmul(a, b):
    if not is_z(a) and not is_z(b):
        return a * b
    if not is_z(a):
        if a == 0:
            return Fraction(0)
        if a == 1:
            return b
    if not is_z(b):
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
    return zr(a) * zr(b)


def rneg(a):
    return -a if not is_z(a) else -zr(a)


def rdiv(a, b):
    if not is_z(a) and not is_z(b):
        return Fraction(a) / Fraction(b)
    if not is_z(b) and b == 1:
        return a
    return zr(a) / zr(b)


def f_neg(a):
    a = flt(a)
    if not is_z(a.k):
        k = a.k if a.k == 2 else -a.k
    else:
        k = z3.If(a.k == 2, z3.IntVal(2), -a.k)
    lin = rdiv(Fraction(1), a.lin) if (a.lin is not None and a.fin) else None
    return SFlt(rneg(a.r), k, lin, a.npy)


def f_add(a, b, lins=True):
    a, b = flt(a), flt(b)
    lin = None
    if a.lin is not None or b.lin is not None:
        la, lb = lin_of(a), lin_of(b)
        if la is not None and lb is not None:
            lin = rmul(la, lb)
    return SFlt(radd(a.r, b.r), kadd(a, b), lin, a.npy or b.npy)


def f_sub(a, b):
    a, b = flt(a), flt(b)
    nb = f_neg(b.with_(lin=None))
    lin = None
    if a.lin is not None or b.lin is not None:
        la, lb = lin_of(a), lin_of(b)
        if la is not None and lb is not None and b.fin:
            lin = rdiv(la, lb)
    return SFlt(radd(a.r, nb.r), kadd(a, nb), lin, a.npy or b.npy)


def f_mul(a, b):
    a, b = flt(a), flt(b)
    for x, y in ((a, b), (b, a)):
        if x.fin and not is_z(x.r) and x.r == 1:
            return y.with_(npy=a.npy or b.npy)
        if x.fin and not is_z(x.r) and x.r == -1:
            return f_neg(y).with_(npy=a.npy or b.npy)
    if a.fin and b.fin:
        return SFlt(rmul(a.r, b.r), 0, None, a.npy or b.npy)
    ka, kb = zi(a.k), zi(b.k)
    ra, rb = zr(a.r), zr(b.r)
    sa = z3.If(ka == 0, z3.If(ra > 0, 1, z3.If(ra < 0, -1, 0)), ka)
    sb = z3.If(kb == 0, z3.If(rb > 0, 1, z3.If(rb < 0, -1, 0)), kb)
    k = z3.If(z3.And(ka == 0, kb == 0), 0,
              z3.If(z3.Or(ka == 2, kb == 2, sa == 0, sb == 0), 2, sa * sb))
    return SFlt(ra * rb, k, None, a.npy or b.npy)


def f_div_nozero(a, b):
    """a/b; the caller deals with b == 0"""
    a, b = flt(a), flt(b)
    if a.fin and b.fin:
        return SFlt(rdiv(a.r, b.r), 0, None, a.npy or b.npy)
    ka, kb = zi(a.k), zi(b.k)
    ra, rb = zr(a.r), zr(b.r)
    sb = z3.If(kb == 0, z3.If(rb > 0, 1, -1), kb)
    k = z3.If(z3.Or(ka == 2, kb == 2), 2,
              z3.If(z3.And(ka != 0, kb != 0), 2,
                    z3.If(ka != 0, ka * sb, 0)))
    r = z3.If(kb == 0, ra / rb, z3.RealVal(0))
    return SFlt(r, k, None, a.npy or b.npy)


def f_lt(a, b):
    a, b = flt(a), flt(b)
    if a.fin and b.fin:
        return lt(a.r, b.r)
    if not is_z(a.k) and not is_z(b.k):
        if a.k == 2 or b.k == 2:
            return False
        if a.k == 0 and b.k == 0:
            return lt(a.r, b.r)
        return a.k < b.k
    ka, kb = zi(a.k), zi(b.k)
    if not is_z(a.k):
        if a.k == 2:
            return False
        if a.k == -1:
            return z3.Or(kb == 0, kb == 1)
        if a.k == 1:
            return False
        return z3.Or(kb == 1, z3.And(kb == 0, zr(a.r) < zr(b.r)))
    if not is_z(b.k):
        if b.k == 2 or b.k == -1:
            return False
        if b.k == 1:
            return z3.Or(ka == 0, ka == -1)
        return z3.Or(ka == -1, z3.And(ka == 0, zr(a.r) < zr(b.r)))
    return z3.And(ka != 2, kb != 2,
                  z3.Or(z3.And(ka == 0, kb == 0, zr(a.r) < zr(b.r)), z3.And(z3.Not(z3.And(ka == 0, kb == 0)), ka < kb)))


def f_eq(a, b):
    """IEEE equality"""
    a, b = flt(a), flt(b)
    if a.fin and b.fin:
        return eq(a.r, b.r)
    if not is_z(a.k) and not is_z(b.k):
        if a.k == 2 or b.k == 2 or a.k != b.k:
            return False
        return True if a.k else eq(a.r, b.r)
    ka, kb = zi(a.k), zi(b.k)
    if not is_z(b.k):
        if b.k == 2:
            return False
        if b.k in (1, -1):
            return ka == b.k
    if not is_z(a.k):
        if a.k == 2:
            return False
        if a.k in (1, -1):
            return kb == a.k
    return z3.And(ka == kb, ka != 2, z3.Or(ka != 0, zr(a.r) == zr(b.r)))


def f_le(a, b):
    a, b = flt(a), flt(b)
    if a.fin and b.fin:
        return le(a.r, b.r)
    return Or(f_lt(a, b), f_eq(a, b))


def f_same(a, b):
    """identity of values (nan same as nan)"""
    a, b = flt(a), flt(b)
    if a.fin and b.fin:
        return eq(a.r, b.r)
    if not is_z(a.k) and not is_z(b.k):
        if a.k != b.k:
            return False
        return True if a.k else eq(a.r, b.r)
    ka, kb = zi(a.k), zi(b.k)
    if is_z(a.k) and is_z(b.k) and a.k.eq(b.k) and zr(a.r).eq(zr(b.r)):
        return True
    return z3.And(ka == kb, z3.Or(ka != 0, zr(a.r) == zr(b.r)))


def f_isnan(a):
    a = flt(a)
    return eq(a.k, 2)


def f_isfinite(a):
    a = flt(a)
    return eq(a.k, 0)


def expn(t):
    """exp of a term, sums written as products"""
    t = zr(t)
    num, den = [], []

    def go(x, inv):
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_ADD:
            for c in x.children():
                go(c, inv)
        elif k == z3.Z3_OP_SUB:
            c = x.children()
            go(c[0], inv)
            for y in c[1:]:
                go(y, not inv)
        elif k == z3.Z3_OP_UMINUS:
            go(x.arg(0), not inv)
        elif k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and x.arg(0).as_fraction() == -1 and \
                not (z3.is_app(x.arg(1)) and x.arg(1).decl().kind() == z3.Z3_OP_TO_REAL):
            go(x.arg(1), not inv)
        else:
            (den if inv else num).append(x)
    go(t, False)
    if len(num) == 1 and not den:
        return EXP(num[0])
    if not num and len(den) == 1:
        return 1 / EXP(den[0])
    n = d = None
    for x in num:
        n = EXP(x) if n is None else n * EXP(x)
    for x in den:
        d = EXP(x) if d is None else d * EXP(x)
    if n is None:
        n = z3.RealVal(1)
    return n if d is None else n / d


def lin_of(a):
    """exp(a) as a Real; for an SFlt that may be +inf or nan there is no lin (None)"""
    a = flt(a)
    if a.lin is not None:
        return a.lin
    if not is_z(a.k):
        if a.k == 0:
            if not is_z(a.r) and a.r == 0:
                return Fraction(1)
            return expn(a.r)
        if a.k == -1:
            return Fraction(0)
        return None
    return z3.If(zi(a.k) == -1, z3.RealVal(0), expn(a.r))


def f_exp(a):
    a = flt(a)
    l = lin_of(a)
    if not is_z(a.k):
        if a.k == 1:
            return PINF.with_(npy=True)
        if a.k == 2:
            return NAN
        return SFlt(l, 0, None, a.npy)
    if l is None:
        l = expn(a.r)
    return SFlt(l, z3.If(a.k == 1, 1, z3.If(a.k == 2, 2, 0)), None, a.npy)


def f_log_np(a):
    """numpy log: log 0 = -inf, log negative = nan"""
    a = flt(a)
    r = a.r
    if not is_z(r) and a.fin:
        if r == 1:
            return SFlt(Fraction(0), 0, Fraction(1), True)
        if r == 0:
            return NINF.with_(npy=True)
        if r < 0:
            return NAN
        return SFlt(LOG(zr(r)), 0, r, True)
    z = zr(r)
    if a.fin:
        k = z3.If(z > 0, 0, z3.If(z == 0, -1, 2))
    else:
        ka = zi(a.k)
        k = z3.If(ka == 0, z3.If(z > 0, 0, z3.If(z == 0, -1, 2)), z3.If(ka == 1, 1, 2))
    return SFlt(LOG(z), k, z, True)


# ---------------------------------------------------------------- other values
class Ref:
    """reference to a heap object of the executor"""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%s)' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class LP:
    """a LivePoint: symbolic reference into the live-point field maps"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = zi(ref)

    def __repr__(self):
        return 'LP(%s)' % self.ref


class SName:
    """the i-th parameter name"""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'SName(%s)' % self.i


class Opaque:
    __slots__ = ('tag',)

    def __init__(self, tag='?'):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class Poison:
    """value unknown after a loop; using it is unsupported"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class SStr:
    """string with symbolic parts: str | ('f', value, spec) | ('sym', name)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


class Model:
    """base of library / environment models"""
    def py_getattr(self, ex, name):
        raise Unsupported('%s.%s' % (type(self).__name__, name))

    def py_setattr(self, ex, name, v):
        raise Unsupported('%s.%s = ' % (type(self).__name__, name))

    def py_getitem(self, ex, i):
        raise Unsupported('%s[...]' % type(self).__name__)

    def py_setitem(self, ex, i, v):
        raise Unsupported('%s[...] = ' % type(self).__name__)

    def py_call(self, ex, args, kwargs):
        raise Unsupported('call of %s' % type(self).__name__)

    def py_len(self, ex):
        raise Unsupported('len(%s)' % type(self).__name__)

    def py_iter(self, ex):
        raise Unsupported('iteration over %s' % type(self).__name__)

    def py_same(self, ex, other):
        return self is other

    def py_truth(self, ex):
        return True


class Fn(Model):
    """callable implemented by the verifier"""
    def __init__(self, f, name='fn'):
        self.f = f
        self.name = name

    def py_call(self, ex, args, kwargs):
        return self.f(ex, *args, **kwargs)

    def __repr__(self):
        return 'Fn(%s)' % self.name


# ---------------------------------------------------------------- kinds and sequences
class KInt:
    def array(self, ex, name):
        f = ex.fresh_fn(name, z3.IntSort())
        return lambda i: f(i)

    def fresh(self, ex, name):
        return ex.fresh_int(name)

    def eq(self, ex, a, b):
        return eq(a, b)

    def __repr__(self):
        return type(self).__name__


class KBool(KInt):
    def array(self, ex, name):
        f = ex.fresh_fn(name, z3.BoolSort())
        return lambda i: f(i)

    def fresh(self, ex, name):
        return ex.fresh_bool(name)


class KFlt(KInt):
    def __init__(self, fin=False, npy=False):
        self.finite = fin
        self.npy = npy

    def array(self, ex, name):
        f = ex.fresh_fn(name, z3.RealSort())
        if self.finite:
            return lambda i: SFlt(f(i), 0, None, self.npy)
        k = ex.fresh_fn(name + '_k', z3.IntSort())
        ex.assume_forall(lambda i: And(k(i) >= -1, k(i) <= 2), pattern=lambda i: k(i))
        return lambda i: SFlt(f(i), k(i), None, self.npy)

    def fresh(self, ex, name):
        v = ex.fresh_flt(name, fin=self.finite)
        v.npy = self.npy
        return v

    def eq(self, ex, a, b):
        return f_same(a, b)


class KLP(KInt):
    def array(self, ex, name):
        f = ex.fresh_fn(name, z3.IntSort())
        al = ex.st.alloc
        ex.assume_forall(lambda i: And(f(i) >= 0, f(i) < zi(al)), pattern=lambda i: f(i))
        return lambda i: LP(f(i))

    def fresh(self, ex, name):
        return ex.fresh_lp(name)

    def eq(self, ex, a, b):
        return eq(a.ref, b.ref)


class KTuple(KInt):
    def __init__(self, ks):
        self.ks = ks

    def array(self, ex, name):
        gs = [k.array(ex, '%s_%d' % (name, j)) for j, k in enumerate(self.ks)]
        return lambda i: tuple(g(i) for g in gs)

    def fresh(self, ex, name):
        return tuple(k.fresh(ex, '%s_%d' % (name, j)) for j, k in enumerate(self.ks))

    def eq(self, ex, a, b):
        return And(*[k.eq(ex, x, y) for k, x, y in zip(self.ks, a, b)])


class KMod(KInt):
    """elements are model values mk(term)"""
    def __init__(self, mk, unmk, bound=None):
        self.mk, self.unmk, self.bound = mk, unmk, bound

    def array(self, ex, name):
        f = ex.fresh_fn(name, z3.IntSort())
        if self.bound is not None:
            b = self.bound(ex)
            ex.assume_forall(lambda i: And(f(i) >= 0, f(i) < zi(b)), pattern=lambda i: f(i))
        return lambda i: self.mk(f(i))

    def fresh(self, ex, name):
        t = ex.fresh_int(name)
        if self.bound is not None:
            ex.assume(And(t >= 0, t < zi(self.bound(ex))))
        return self.mk(t)

    def eq(self, ex, a, b):
        return eq(self.unmk(a), self.unmk(b))


class Seq:
    """immutable sequence of symbolic length; get(i) for 0 <= i < n"""
    __slots__ = ('n', 'get', 'kind', 'items', 'meta')

    def __init__(self, n, get, kind=None, items=None, meta=None):
        self.n = lit(n)
        self.get = get
        self.kind = kind
        self.items = items
        self.meta = meta

    @staticmethod
    def of(items, kind=None):
        items = list(items)
        s = Seq(len(items), None, kind, items)

        def get(i):
            i = lit(i)
            if isinstance(i, int):
                return items[i]
            if not items:
                raise Unsupported('index into empty sequence')
            return ite_chain(i, items)
        s.get = get
        return s


def ite_chain(i, items):
    v = items[-1]
    for j in range(len(items) - 2, -1, -1):
        v = v_ite(i == j, items[j], v)
    return v


MERGE = []      # contract modules may merge further kinds of values


def v_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, SFlt) or isinstance(b, SFlt):
        return f_ite(c, flt(a), flt(b))
    if isinstance(a, LP) and isinstance(b, LP):
        return LP(i_ite(c, a.ref, b.ref))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(v_ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return f_ite(c, flt(a), flt(b))
    isb = lambda x: isinstance(x, bool) or (is_z(x) and z3.is_bool(x))
    if isb(a) and isb(b):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return z3.If(c, zb(a), zb(b))
    num = lambda x: isinstance(x, int) or (is_z(x) and z3.is_int(x))
    if num(a) and num(b):
        return i_ite(c, a, b)
    if isinstance(a, SName) and isinstance(b, SName):
        return SName(i_ite(c, a.i, b.i))
    if hasattr(a, 'v_ite'):
        return a.v_ite(c, b)
    if a is None and b is None:
        return None
    if a is None and isinstance(b, LP):      # LP(-1) stands for None
        return LP(i_ite(c, -1, b.ref))
    if b is None and isinstance(a, LP):
        return LP(i_ite(c, a.ref, -1))
    if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
        return a
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('ite')
    if isinstance(a, str) and a == b:
        return a
    for h in MERGE:
        r = h(c, a, b)
        if r is not None:
            return r
    raise Unsupported('merge of %r and %r' % (type(a).__name__, type(b).__name__))
