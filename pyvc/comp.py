"""Comprehensions over sequences of symbolic length."""
import ast
import z3
from .values import *
from . import engine as E
from .loops import diff, same


class Frozen(Model):
    """immutable array or list inside a symbolic sequence"""
    def __init__(self, cls, seq, meta=None):
        self.cls, self.seq, self.meta = cls, seq, meta

    def py_len(self, ex):
        return self.seq.n

    def py_iter(self, ex):
        return self.seq

    def py_getitem(self, ex, i):
        return ex.lib.seq_get(ex, self.seq, i, self.cls)

    def py_getattr(self, ex, name):
        r = ex.new(self.cls, pay=self.seq, meta=self.meta)
        return ex.getattr(r, name)

    def thaw(self, ex):
        return ex.new(self.cls, pay=self.seq, meta=self.meta)


def freeze(ex, v, base):
    if isinstance(v, Ref):
        o = ex.obj(v)
        if v.id < base:
            return v
        if isinstance(o.pay, Seq):
            return Frozen(o.cls, o.pay, o.meta)
        raise Unsupported('object created in a comprehension element')
    if isinstance(v, tuple):
        return tuple(freeze(ex, x, base) for x in v)
    return v


def subst(v, i, j):
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (i, zi(j)))
    if isinstance(v, SFlt):
        return SFlt(subst(v.r, i, j), subst(v.k, i, j), subst(v.lin, i, j) if v.lin is not None else None, v.npy)
    if isinstance(v, LP):
        return LP(subst(v.ref, i, j))
    if isinstance(v, tuple):
        return tuple(subst(x, i, j) for x in v)
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq.of([subst(x, i, j) for x in v.items], v.kind)
        return Seq(subst(v.n, i, j), lambda k: subst(v.get(k), i, j), v.kind)
    if isinstance(v, Frozen):
        return Frozen(v.cls, subst(v.seq, i, j), v.meta)
    if isinstance(v, SName):
        return SName(subst(v.i, i, j))
    if isinstance(v, SStr):
        return SStr([p if isinstance(p, str) else (p[0], subst(p[1], i, j)) + tuple(p[2:]) for p in v.parts])
    if hasattr(v, 'subst'):
        return v.subst(i, j)
    return v


def comprehension(ex, gens, elt):
    fr = ex.frames[-1]
    if len(gens) != 1:
        # nested generators: only when the outer ones are concrete
        sq = ex.lib.to_seq(ex, ex.eval(gens[0].iter))
        if not isinstance(sq.n, int):
            raise Unsupported('nested comprehension over symbolic sequence')
        parts = []
        child = E.Frame({}, fr.module, fr.fn, fr)
        ex.frames.append(child)
        try:
            for k in range(sq.n):
                ex.assign(gens[0].target, sq.get(k))
                if all(ex.truth(ex.eval(c)) for c in gens[0].ifs):
                    parts.append(comprehension(ex, gens[1:], elt))
        finally:
            ex.frames.pop()
        return ex.lib.concat(ex, parts)
    g = gens[0]
    sq = ex.lib.to_seq(ex, ex.eval(g.iter))
    return comp_seq(ex, sq, lambda v: (ex.assign(g.target, v)),
                    [lambda c=c: ex.truth(ex.eval(c)) for c in g.ifs], lambda: ex.eval(elt))


def map_seq(ex, sq, fn):
    """Seq of fn(x), fn a python callable on symbolic values (may branch, raise)"""
    holder = {}

    def bind(v):
        holder['v'] = v
    return comp_seq(ex, sq, bind, [], lambda: fn(holder['v']))


def filter_seq(ex, sq, pred):
    holder = {}

    def bind(v):
        holder['v'] = v
    return comp_seq(ex, sq, bind, [lambda: ex.truth(pred(holder['v']))], lambda: holder['v'])


def comp_seq(ex, sq, bind, ifs, elt):
    fr = ex.frames[-1]
    child = E.Frame({}, fr.module, fr.fn, fr)
    if isinstance(sq.n, int) and sq.n <= ex.opts.get('unroll', 8) and (sq.items is not None or True):
        out = []
        ex.frames.append(child)
        try:
            for k in range(sq.n):
                bind(sq.get(k))
                if all(c() for c in ifs):
                    out.append(elt())
        finally:
            ex.frames.pop()
        return Seq.of(out)
    n = sq.n
    i = z3.Int(ex._n('b'))
    base = ex.st.next
    start = ex.st.copy()
    npc, nf = len(ex.st.pc), len(ex.st.facts)
    ex.frames.append(child)
    ex.binders.append(i)
    oldbase, oldctx = getattr(ex, 'ctxbase', 0), ex.loopctx
    ex.loopctx = oldctx + (('comp', tuple(ex.prefix[oldbase:ex.pos]), None),)
    ex.ctxbase = 0
    try:
        def one():
            ex._add(z3.And(i >= 0, i < zi(n)))
            bind(sq.get(i))
            for c in ifs:
                if not c():
                    return None
            v = elt()
            return ('v', freeze(ex, v, base))
        outs = ex.nested(one, mute=False)
    finally:
        ex.binders.pop()
        ex.frames.pop()
        ex.ctxbase, ex.loopctx = oldbase, oldctx
    rng = z3.And(i >= 0, i < zi(n))
    norm, keep, rais = [], [], []
    newfacts = []
    for kind, pay, st, env in outs:
        d = {l: v for l, v in diff(start, {}, st, {}).items() if l[0] not in ('newloc', 'loc')}
        if d:
            raise Unsupported('side effect in a comprehension: %s' % sorted(map(str, d))[:3])
        p = And(*st.pc[npc:])
        for f in st.facts[nf:]:
            newfacts.append((p, f))
        if kind == 'normal':
            norm.append(p)
            if pay is not None:
                keep.append((p, pay[1]))
        elif kind == 'raise':
            rais.append((p, pay))
        else:
            raise Unsupported('control flow in a comprehension')
    d0 = start.ghost.get('_draws', ())
    per = [(And(*st.pc[npc:]), st.ghost.get('_draws', ())[len(d0):]) for kind, pay, st, env in outs if kind == 'normal']
    if any(d for _, d in per):
        ex.st.ghost['_families'] = ex.st.ghost.get('_families', ()) + ((n, i, tuple(per)),)
    for p, f in newfacts:
        ex.st.facts.append(z3.ForAll([i], z3.Implies(rng, f)) if _mentions(f, i) else f)
    for p, exc in rais:
        if ex.branch(z3.Bool(ex._n('raises'))):
            w = ex.fresh_int('wit')
            ex.assume(subst(zb(p), i, w))
            raise E.PyRaise(exc)
    cover = Or(*norm)
    if cover is not True:
        cov = z3.simplify(zb(cover))
        ex.st.facts.append(z3.ForAll([i], z3.Implies(rng, cov)))
    if not keep:
        if not norm:
            # no normal path: the sequence must be empty
            ex.assume(eq(n, 0))
        return Seq.of([])
    v = keep[-1][1]
    for p, w in reversed(keep[:-1]):
        v = vmerge(p, w, v)
    if not ifs:
        return Seq(n, lambda j: subst(v, i, j), meta={'map': True})
    K = Or(*[p for p, _ in keep])
    return filtered(ex, n, lambda j: subst(zb(K), i, j), lambda j: subst(v, i, j))


def vmerge(c, a, b):
    if isinstance(a, Frozen) and isinstance(b, Frozen):
        x, y = a.seq, b.seq
        return Frozen(a.cls, Seq(i_ite(c, x.n, y.n), lambda k: v_ite(c, x.get(k), y.get(k))), a.meta)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    return v_ite(c, a, b)


def filtered(ex, n, K, get):
    """the subsequence of indices satisfying K, in order"""
    c = ex.fresh_int('cnt', lo=0)
    ex.assume(c <= zi(n))
    m = ex.fresh_fn('sel', z3.IntSort())
    inv = ex.fresh_fn('pos', z3.IntSort())
    ex.assume_forall(lambda j: z3.Implies(z3.And(j >= 0, j < c), z3.And(m(j) >= 0, m(j) < zi(n), zb(K(m(j))), inv(m(j)) == j)),
                     pattern=lambda j: m(j))
    ex.assume_forall(lambda j, k: z3.Implies(z3.And(0 <= j, j < k, k < c), m(j) < m(k)), n=2, pattern=lambda j, k: (m(j), m(k)))
    ex.assume_forall(lambda j: z3.Implies(z3.And(j >= 0, j < zi(n), zb(K(j))), z3.And(inv(j) >= 0, inv(j) < c, m(inv(j)) == j)),
                     pattern=lambda j: inv(j))
    ex.st.ghost['_filters'] = ex.st.ghost.get('_filters', ()) + ((m, inv, c),)
    return Seq(c, lambda j: get(m(j)), meta={'filter': (m, inv, K, n)})


def _mentions(f, i):
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(i):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False
