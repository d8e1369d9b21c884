"""Discharging obligations: z3 (two configurations), then cvc5.  Resource limits, not wall clock, so runs repeat."""
import os
import subprocess
import tempfile
import time
import z3
from .values import EXP, LOG, zb, And, lit

STATS = {'z3': 0, 'z3b': 0, 'cvc5': 0}
SCALE = 1
BASE = []      # axioms added to every query of this process


_seen = {}


def _walk(f):
    """the EXP / LOG applications in f (memoised; the formula is kept so that its id stays its own)"""
    key = f.get_id()
    r = _seen.get(key)
    if r is not None:
        return r[0]
    out = {}
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            n = x.num_args()
            if n == 1:
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in ('EXP', 'LOG'):
                    out.setdefault(d.name(), []).append((i, x))
            if n:
                st.extend(x.children())
    if len(_seen) > 100000:
        _seen.clear()
    _seen[key] = (out, f)
    return out


def _terms(fs):
    out = {}
    for f in fs:
        for k, l in _walk(f).items():
            d = out.setdefault(k, {})
            for i, x in l:
                d.setdefault(i, x)
    return out


def _has_var(x):
    st = [x]
    while st:
        y = st.pop()
        if z3.is_var(y):
            return True
        st.extend(y.children())
    return False


X = z3.Real('x!ax')
Y = z3.Real('y!ax')


def exp_axioms(fs):
    t = _terms(fs)
    if not t:
        return []
    out = [z3.ForAll([X], EXP(X) > 0, patterns=[EXP(X)]),
           z3.ForAll([X], z3.Implies(X > 0, EXP(LOG(X)) == X), patterns=[LOG(X)]),
           EXP(z3.RealVal(0)) == 1, LOG(z3.RealVal(1)) == 0]
    es = [x for x in t.get('EXP', {}).values() if not _has_var(x)]
    ls = [x for x in t.get('LOG', {}).values() if not _has_var(x)]
    for e in es[:40]:
        a = e.arg(0)
        out += [LOG(e) == a, z3.Implies(a < 0, e < 1), z3.Implies(a > 0, e > 1), z3.Implies(a == 0, e == 1), e > 0]
        if a.decl().kind() == z3.Z3_OP_ADD and a.num_args() == 2:
            out.append(e == EXP(a.arg(0)) * EXP(a.arg(1)))
    for l in ls[:40]:
        b = l.arg(0)
        out += [z3.Implies(b > 0, EXP(l) == b), z3.Implies(b > 1, l > 0), z3.Implies(z3.And(b > 0, b < 1), l < 0)]
    alle = es[:12] + [EXP(l) for l in ls[:6]]
    for i in range(len(alle)):
        for j in range(i):
            a, b = alle[i].arg(0), alle[j].arg(0)
            out.append(z3.And(z3.Implies(a < b, alle[i] < alle[j]), z3.Implies(b < a, alle[j] < alle[i])))
    return out


def _solver(pc, facts, goal, axioms, rlimit, timeout, **opts):
    s = z3.Solver()
    s.set('rlimit', int(rlimit * SCALE))
    s.set('timeout', int(timeout * 1000))
    for k, v in opts.items():
        s.set(k, v)
    ng = z3.Not(zb(goal))
    fs = list(pc) + list(facts) + [ng]
    c, sv = s.ctx.ref(), s.solver
    for l in (fs, axioms, BASE, exp_axioms(fs + list(axioms))):
        for f in l:
            if isinstance(f, z3.BoolRef):
                z3.Z3_solver_assert(c, sv, f.ast)
            else:
                s.add(f)
    return s


def split(goal):
    goal = zb(goal)
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += split(c)
        return out
    return [goal]


_exp = {}
_sk = [0]


def expand(x):
    """select over store, written out (z3 does this lazily and e-matching may never see the inner select)"""
    key = x.get_id()
    r = _exp.get(key)
    if r is not None and r[1].eq(x):
        return r[0]
    if z3.is_quantifier(x):
        if not x.is_forall():
            return x
        n = x.num_vars()
        _sk[0] += 1
        cs = [z3.Const('%s~%d' % (x.var_name(i), _sk[0]), x.var_sort(i)) for i in range(n)]
        b = x.body()
        nb = expand(z3.substitute_vars(b, *reversed(cs)))
        pats = [x.pattern(i) for i in range(x.num_patterns())]
        r0 = x if pats else z3.ForAll(cs, nb)
    elif z3.is_app(x) and x.num_args():
        ch = [expand(c) for c in x.children()]
        if z3.is_select(x):
            a, i = ch[0], ch[1]
            r0 = sel(a, i)
        elif any(not c.eq(d) for c, d in zip(ch, x.children())):
            r0 = x.decl()(*ch)
        else:
            r0 = x
    else:
        r0 = x
    if len(_exp) > 200000:
        _exp.clear()
    _exp[key] = (r0, x)
    return r0


def sel(a, i):
    if z3.is_store(a):
        j, v = a.arg(1), a.arg(2)
        if i.eq(j):
            return v
        return z3.If(i == j, v, sel(a.arg(0), i))
    return z3.Select(a, i)


def skolem(g):
    """forall goal -> its body at fresh constants"""
    while z3.is_quantifier(g) and g.is_forall():
        _sk[0] += 1
        cs = [z3.Const('%s~%d' % (g.var_name(i), _sk[0]), g.var_sort(i)) for i in range(g.num_vars())]
        g = z3.substitute_vars(g.body(), *reversed(cs))
    return g


def prep(g):
    return expand(skolem(zb(g)))


E_MATCH = {'smt.mbqi': False, 'auto_config': False, 'smt.arith.nl.nra': False}      # no model-based instantiation, no nlsat (it ignores limits)
NO_SOLVE = dict(E_MATCH, **{'smt.solve_eqs': False})      # preprocessing by solve-eqs can hide instances from e-matching
LINEAR = dict(E_MATCH, **{'smt.arith.nl': False})      # products of unknowns opaque
LINEAR2 = dict(LINEAR, **{'smt.solve_eqs': False})
WITH_NRA = {'smt.mbqi': False, 'auto_config': False}


NL = [False]       # this target's candidate invariants involve products


def quick(pc, facts, goal, axioms=()):
    """Houdini: provable within a small budget?"""
    tries = ((LINEAR, 2000000), (E_MATCH, 4000000), (NO_SOLVE, 500000), (WITH_NRA, 1000000)) if NL[0] else ((E_MATCH, 4000000), (NO_SOLVE, 500000))
    for g in split(goal):
        g = prep(g)
        if not any(_solver(pc, facts, g, axioms, rl, 6, **o).check() == z3.unsat for o, rl in tries):
            return False
    return True


def contradiction(pc, facts, axioms=()):
    return any(_solver(pc, facts, z3.BoolVal(False), axioms, rl, 5, **o).check() == z3.unsat for o, rl in ((LINEAR, 2000000), (E_MATCH, 4000000)))


def prove(pc, facts, goal, axioms=(), tier='quick'):
    """-> ('proved' | 'refuted' | 'unknown', back end, info)"""
    info = ''
    backs = set()
    for g in split(goal):
        g = skolem(zb(g))
        st, back, info = prove1(pc, facts, g, axioms, tier)
        if st != 'proved':
            return st, back, info
        backs.add(back)
    return 'proved', '+'.join(sorted(backs)) or 'z3', ''


_sy = {}


def symbols(f):
    """the uninterpreted symbols of f other than EXP and LOG (memoised)"""
    key = f.get_id()
    r = _sy.get(key)
    if r is not None:
        return r[0]
    out, seen, st = set(), set(), [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() not in ('EXP', 'LOG'):
                out.add(d.name())
            st.extend(x.children())
    if len(_sy) > 100000:
        _sy.clear()
    _sy[key] = (out, f)
    return out


def relevant(fs, goal, depth):
    """the facts whose symbols all occur in the goal (depth 0), or that share one with it, or with those, ...: fewer hypotheses, so still sound"""
    fs = [zb(f) for f in fs]
    want = set(symbols(zb(goal)))
    if depth == 0:
        return [f for f in fs if symbols(f) <= want]
    for _ in range(depth):
        keep = [f for f in fs if not symbols(f) or symbols(f) & want]
        more = set(want)
        for f in keep:
            sf = symbols(f)
            if len(sf) <= 12:
                more |= sf
        want = more
    return keep


def prove1(pc, facts, goal, axioms, tier):
    t0 = time.time()
    for o, tl in ((LINEAR, 6), (E_MATCH, 8)):
        s = _solver(pc, facts, goal, axioms, 15000000, tl, **o)
        STATS['z3'] += 1
        if s.check() == z3.unsat:
            return 'proved', 'z3', ''
    last = -1
    for depth in (0, 1, 2):
        few = relevant(list(pc) + list(facts) + list(axioms), goal, depth)
        if len(few) == last:
            break
        last = len(few)
        for o, tl in ((LINEAR, 5), (E_MATCH, 5), (WITH_NRA, 8)):
            s = _solver(few, (), goal, (), 10000000, tl, **o)
            STATS['z3'] += 1
            if s.check() == z3.unsat:
                return 'proved', 'z3', ''
    if tier == 'fast':
        return 'unknown', 'z3', 'tried briefly'
    for o, tl in ((LINEAR2, 6), (NO_SOLVE, 8), (WITH_NRA, 8), (LINEAR, 25), (E_MATCH, 25), (WITH_NRA, 25)):
        s = _solver(pc, facts, goal, axioms, 15000000, tl, **o)
        r = s.check()
        STATS['z3'] += 1
        if r == z3.unsat:
            return 'proved', 'z3', ''
    s2 = _solver(pc, facts, goal, axioms, 15000000, 30)
    r2 = s2.check()
    STATS['z3b'] += 1
    if r2 == z3.unsat:
        return 'proved', 'z3', ''
    if r2 == z3.sat:
        return 'refuted', 'z3', 'goal: %s\nmodel: %s' % (goal, s2.model())
    r3 = cvc5(s2, 20 if tier == 'quick' else 60)
    STATS['cvc5'] += 1
    if r3 == 'unsat':
        return 'proved', 'cvc5', ''
    return 'unknown', 'z3/cvc5', 'goal: %s\nz3: %s / %s, cvc5: %s (%.1f s)' % (goal, s.reason_unknown() if r == z3.unknown else r,
                                                                      s2.reason_unknown(), r3, time.time() - t0)


def cvc5(solver, tl):
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (tl * 1000), p], capture_output=True, text=True, timeout=tl + 20)
        out = (r.stdout.strip().split('\n') or [''])[0]
        return out or 'none'
    except Exception as e:
        return 'error %s' % type(e).__name__
    finally:
        os.unlink(p)
