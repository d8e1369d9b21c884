"""Sums over sequences, by their recursion; equalities of sums by induction."""
from pyvc.spec import *
from pyvc.values import *
from pyvc import lib, npmodel
from .c06 import elin


def psum(ex, term, name='sum'):
    """T(0) = 0, T(i+1) = T(i) + term(i)"""
    return recur(ex, z3.RealVal(0), lambda i, v: v + term(i), name)


def recur(ex, first, step, name='rec'):
    """T(0) = first, T(i+1) = step(i, T(i))"""
    T = ex.fresh_fn(name, z3.RealSort())
    ex.assume(T(0) == first)
    npmodel.unfold(ex, T, 1, None, lambda i, prev: step(i - 1, prev))
    return T


def induct(ex, n, P, label, lo=0, pats=None):
    """prove P(lo..n) by induction and use it"""
    ex.prove(Implies(le(lo, n), P(lo if is_z(lo) else z3.IntVal(lo))), label + ': base')
    i = z3.Int(ex._n('ind'))
    ex.prove(z3.Implies(z3.And(zi(lo) <= i, i < zi(n), zb(P(i))), zb(P(i + 1))), label + ': step')
    ex.assume_forall(lambda k: z3.Implies(z3.And(zi(lo) <= k, k <= zi(n)), zb(P(k))), pattern=pats)
