"""C12: the slice sampler samples the constrained prior slice."""
from . import slicek, kern
from .ns import *

K = slicek.S + slicek.KL + '.'


def brackets(ex):
    at = {x: ex.fresh_flt(x, fin=True) for x in ('L', 'R', 'Ne', 'Nc', 'mu')}
    ex.assume(And(at['Ne'].zr() >= 0, at['Nc'].zr() >= 0, at['mu'].zr() > 0))
    at['max_steps_out'], at['keep'] = ex.fresh_int('max_steps_out', lo=1), ex.fresh_flt('other', fin=True)
    return at, ex.new(cls(ex, slicek.S + slicek.KL), attrs=dict(at))


def only(ex, me, at, changed):
    o = ex.obj(me).attrs
    ex.prove(set(o) == set(at), 'no attribute is added or removed')
    for x in at:
        if x not in changed:
            ex.prove(eq(o[x], at[x]) if not isinstance(at[x], SFlt) else f_same(flt(o[x]), at[x]), 'nothing else changes')
    return {x: flt(lib.as_num(o[x])) for x in changed}


def run_reset(ex):
    at, me = brackets(ex)
    noraise(ex, lambda: call_real(ex, K + 'reset_boundaries', [me]), 'reset_boundaries')
    n = only(ex, me, at, ('L', 'R', 'Ne', 'Nc'))
    ex.prove(And(f_isfinite(n['L']), n['L'].zr() <= 0, n['L'].zr() > -1), 'the new bracket starts at most one unit to the left of the current point')
    ex.prove(And(f_isfinite(n['R']), n['R'].zr() == n['L'].zr() + 1), 'the new bracket is one unit wide, so it contains the current point')
    ex.prove(And(f_same(n['Ne'], flt(0)), f_same(n['Nc'], flt(0))), 'the counts start at zero')


def run_left(ex):
    at, me = brackets(ex)
    noraise(ex, lambda: call_real(ex, K + 'increase_left_boundary', [me]), 'increase_left_boundary')
    n = only(ex, me, at, ('L', 'Ne'))
    ex.prove(And(n['L'].zr() == at['L'].zr() - 1, f_isfinite(n['L'])), 'the left end moves one unit outwards')
    ex.prove(And(n['Ne'].zr() == at['Ne'].zr() + 1, f_isfinite(n['Ne'])), 'one expansion is counted')


def run_right(ex):
    at, me = brackets(ex)
    noraise(ex, lambda: call_real(ex, K + 'increase_right_boundary', [me]), 'increase_right_boundary')
    n = only(ex, me, at, ('R', 'Ne'))
    ex.prove(And(n['R'].zr() == at['R'].zr() + 1, f_isfinite(n['R'])), 'the right end moves one unit outwards')
    ex.prove(And(n['Ne'].zr() == at['Ne'].zr() + 1, f_isfinite(n['Ne'])), 'one expansion is counted')


def run_scale(ex):
    at, me = brackets(ex)
    noraise(ex, lambda: call_real(ex, K + 'adapt_length_scale', [me]), 'adapt_length_scale')
    n = only(ex, me, at, ('mu',))
    ne = z3.If(at['Ne'].zr() >= 1, at['Ne'].zr(), 1)
    nc = z3.If(at['Nc'].zr() >= 1, at['Nc'].zr(), 1)
    ex.prove(And(f_isfinite(n['mu']), n['mu'].zr() * (ne + nc) == 2 * ne * at['mu'].zr()), 'the length scale grows by twice the fraction of expansions (no count below one)')
    ex.prove(n['mu'].zr() > 0, 'the length scale stays positive')


def targets(tier):
    small = [Target(K + n, f) for n, f in (('reset_boundaries', run_reset), ('increase_left_boundary', run_left), ('increase_right_boundary', run_right), ('adapt_length_scale', run_scale))]
    return [slicek.target('C12', False), slicek.target('C12', True)] + small


ASSUMES = kern.ASSUMES + ['the direction is any vector (array or live point) of the right length; the line through the current point is uninterpreted vector arithmetic, equal only to itself',
                          'uniform(a, b) is in [a, b); the pool holds points of finite log-prior (C25)']
