"""Loop cut with Houdini-inferred invariants."""
import ast
import time
import z3
from .values import *
from . import engine as E


class Loop:
    """what a candidate sees: entry state, iteration count"""
    def __init__(self, ex, node, entry, env0, it, n):
        self.ex, self.node, self.entry, self.env0, self.it, self.n = ex, node, entry, env0, it, n
        self.mod = {}

    def news(self, test):
        """(name, value or None when not bound yet) of the locals first assigned in the loop"""
        env = self.ex.frames[-1].env
        return [(l[1], env.get(l[1])) for l, w in sorted(self.mod.items(), key=lambda x: str(x[0])) if l[0] == 'newloc' and test(w)]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return is_z(a) and is_z(b) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, SFlt):
        return same(a.k, b.k) and same(a.r, b.r)
    if isinstance(a, LP):
        return a.ref.eq(b.ref)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (Seq, dict)):
        if isinstance(a, Seq):
            if a.items is not None and b.items is not None:
                return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
            return False
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, Poison):
        return True
    if isinstance(a, SName):
        return same(a.i, b.i)
    if isinstance(a, SStr):
        return len(a.parts) == len(b.parts) and all(same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, (int, str, bool, Fraction, float, Ref)):
        return a == b
    if isinstance(a, E.Bound):
        return same(a.self_, b.self_) and a.fn.qual == b.fn.qual if isinstance(a.fn, E.FuncVal) and isinstance(b.fn, E.FuncVal) else a is b
    if isinstance(a, E.FuncVal):
        return a.node is b.node and a.closure is b.closure
    if isinstance(a, Opaque):
        return True
    if isinstance(a, Model):
        return getattr(a, 'same', lambda o: a is o)(b)
    if isinstance(a, E.ModuleVal):
        return a.name == b.name
    return a is b


def diff(head, henv, st, env):
    """locations written: loc -> value after"""
    out = {}
    for k, v in env.items():
        if k in henv:
            if not same(henv[k], v):
                out[('loc', k)] = v
        else:
            out[('newloc', k)] = v
    for i, o in head.heap.items():
        p = st.heap[i]
        for k, v in p.attrs.items():
            if k not in o.attrs:
                out[('newattr', i, k)] = v
            elif not same(o.attrs[k], v):
                out[('attr', i, k)] = (v, st)
        for k in o.attrs:
            if k not in p.attrs:
                out[('delattr', i, k)] = None
        if not same(o.pay, p.pay):
            out[('pay', i)] = p.pay
    for k, v in st.lp.items():
        if not same(head.lp.get(k), v):
            out[('lp', k)] = v
    for k, v in st.ghost.items():
        if k.startswith('_'):
            continue
        if k not in head.ghost:
            out[('newghost', k)] = v
        elif not same(head.ghost[k], v):
            out[('ghost', k)] = v
    if not same(head.alloc, st.alloc):
        out[('alloc',)] = st.alloc
    return out


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z(v) and z3.is_int(v))


def isbool(v):
    return isinstance(v, bool) or (is_z(v) and z3.is_bool(v))


def kind_of(ex, s):
    if s.kind is not None:
        return s.kind
    if s.items is not None:
        ks = [kind_val(ex, x) for x in s.items]
        if not ks:
            return None
        k = ks[0]
        for x in ks[1:]:
            k = kmerge(k, x)
        return k
    j = z3.Int(ex._n('kind'))
    return kind_val(ex, s.get(j))


def kind_val(ex, v):
    if isbool(v):
        return KBool()
    if isint(v):
        return KInt()
    if isinstance(v, SFlt):
        return KFlt(fin=v.fin, npy=v.npy)
    if isinstance(v, LP):
        return KLP()
    if isinstance(v, tuple):
        return KTuple([kind_val(ex, x) for x in v])
    if v is None:       # LP(-1) stands for None
        return KLP()
    k = getattr(v, 'kind_of_elem', None)
    if k is not None:
        return k()
    raise Unsupported('element kind of %r' % (type(v).__name__,))


def kmerge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if type(a) is not type(b):
        if {type(a), type(b)} == {KInt, KFlt}:
            return KFlt(fin=getattr(a, 'finite', True) and getattr(b, 'finite', True))
        raise Unsupported('element kinds differ')
    if isinstance(a, KFlt):
        return KFlt(a.finite and b.finite, a.npy or b.npy)
    if isinstance(a, KTuple):
        return KTuple([kmerge(x, y) for x, y in zip(a.ks, b.ks)])
    return a


def havoc_value(ex, v, w, name):
    if isinstance(v, Poison) or isinstance(w, Poison):
        return Poison('loop')
    if isint(v) and isint(w):
        return ex.fresh_int(name)
    if isbool(v) and isbool(w):
        return ex.fresh_bool(name)
    num = lambda x: isint(x) or isbool(x) or isinstance(x, (SFlt, Fraction))
    if num(v) and num(w):
        f = ex.fresh_flt(name)
        f.npy = getattr(v, 'npy', False) or getattr(w, 'npy', False)
        return f
    if isinstance(v, LP) and isinstance(w, LP):
        return LP(z3.Const(ex._n(name), z3.IntSort()))
    if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
        return tuple(havoc_value(ex, a, b, name) for a, b in zip(v, w))
    if isinstance(v, Seq) and isinstance(w, Seq):
        try:
            k = kmerge(kind_of(ex, v), kind_of(ex, w))
        except Unsupported as e:
            return Poison(str(e))
        if k is None:
            return v
        if isinstance(k, KFlt) and k.finite:
            k = KFlt(False, k.npy) if not (v.kind is not None and getattr(v.kind, 'finite', False)) else k
        n = ex.fresh_int(name + '_n', lo=0)
        s = Seq(n, havoc_array(ex, k, name), k)
        return s
    if is_z(v) and is_z(w) and v.sort() == w.sort():
        return z3.Const(ex._n(name), v.sort())
    if isinstance(v, Ref) and isinstance(w, Ref) and v == w:
        return v
    if isinstance(v, SName) and isinstance(w, SName):
        return SName(ex.fresh_int(name))
    hv = getattr(v, 'havoc', None)
    if hv is not None:
        r = hv(ex, w, name)
        if r is not None:
            return r
    if isinstance(v, Opaque) or isinstance(w, Opaque):
        return Opaque('loop')
    if same(v, w):
        return v
    return Poison('%s / %s' % (type(v).__name__, type(w).__name__))


def havoc_array(ex, k, name):
    if isinstance(k, KLP):      # no range assumption: it is a candidate
        f = ex.fresh_fn(name, z3.IntSort())
        return lambda i: LP(f(i))
    if isinstance(k, KFlt) and not k.finite:
        f = ex.fresh_fn(name, z3.RealSort())
        kk = ex.fresh_fn(name + '_k', z3.IntSort())
        return lambda i: SFlt(f(i), kk(i), None, k.npy)
    if isinstance(k, KTuple):
        gs = [havoc_array(ex, x, name) for x in k.ks]
        return lambda i: tuple(g(i) for g in gs)
    return k.array(ex, name)


def apply_havoc(ex, mod, entry, env0, it=None):
    """ex.st is a copy of entry; put fresh values in the modified locations"""
    fr = ex.frames[-1]
    order = sorted(mod, key=lambda l: (l[0] != 'alloc', tuple(map(str, l))))
    for loc in order:
        w = mod[loc]
        if loc[0] == 'alloc':
            ex.st.alloc = z3.Int(ex._n('alloc'))
        elif loc[0] == 'loc':
            v = env0[loc[1]]
            fr.env[loc[1]] = havoc_ref(ex, v, w, loc[1], mod)
        elif loc[0] == 'newloc':
            fr.env[loc[1]] = Poison('first assigned in a loop')
            if it is not None and isinstance(w, (LP, SFlt, SName)) or isint(w) or isbool(w):
                fr.env[loc[1]] = E.MaybeUnbound(havoc_value(ex, w, w, loc[1]), it)
        elif loc[0] == 'attr':
            o = ex.st.heap[loc[1]]
            o.attrs[loc[2]] = havoc_ref(ex, o.attrs[loc[2]], w, loc[2], mod)
        elif loc[0] == 'newattr':
            ex.st.heap[loc[1]].attrs[loc[2]] = Poison('attribute first assigned in a loop')
        elif loc[0] == 'delattr':
            raise Unsupported('attribute deleted in a loop')
        elif loc[0] == 'pay':
            o = ex.st.heap[loc[1]]
            if isinstance(o.pay, dict):
                raise Unsupported('dict modified in a loop')
            o.pay = havoc_value(ex, o.pay, w, 'pay%d' % loc[1])
            if isinstance(o.pay, Poison):
                raise Unsupported('container modified in a loop: ' + o.pay.why)
        elif loc[0] == 'lp':
            ex.st.lp[loc[1]] = z3.Const(ex._n('lp_' + loc[1]), ex.st.lp[loc[1]].sort())
        elif loc[0] == 'ghost':
            ex.st.ghost[loc[1]] = havoc_value(ex, ex.st.ghost[loc[1]], w, loc[1])
        elif loc[0] == 'newghost':
            pass


class RefSample:
    def __init__(self, ref, pay, cls):
        self.ref, self.pay, self.cls = ref, pay, cls


def havoc_ref(ex, v, w, name, mod):
    if isinstance(w, RefSample):
        if isinstance(v, Ref):
            o = ex.st.heap.get(v.id)
            if o is not None and o.cls == w.cls and isinstance(o.pay, Seq) and isinstance(w.pay, Seq):
                p = havoc_value(ex, o.pay, w.pay, name)
                if isinstance(p, Poison):
                    return p
                return ex.new(o.cls, pay=p, meta=o.meta)
        return Poison('object replaced in a loop')
    return havoc_value(ex, v, w, name)


def sample(v, st):
    if isinstance(v, Ref):
        o = st.heap[v.id]
        return RefSample(v, o.pay, o.cls)
    return v


def autos(ex, mod, L0):
    """automatic candidates: list of (name, fn(L) -> formula)"""
    out = []

    def num(name, get):
        def g(L, st_env):
            return get(*st_env)
        cur = lambda: get(ex.st, ex.frames[-1].env)
        v0 = get(L0.entry, L0.env0)
        if isint(v0):
            out.append((name + '==v0+it', lambda L: eq(cur(), add(get(L.entry, L.env0), L.it))))
            out.append((name + '==v0-it', lambda L: eq(cur(), sub(get(L.entry, L.env0), L.it))))
            out.append((name + '>=v0', lambda L: le(get(L.entry, L.env0), cur())))
            out.append((name + '<=v0', lambda L: le(cur(), get(L.entry, L.env0))))
            out.append((name + '>=0', lambda L: le(0, cur())))
            if L0.n is not None:
                out.append((name + '<=n', lambda L: le(cur(), L.n)))
        elif isinstance(v0, SFlt):
            out.append((name + ' finite', lambda L: f_isfinite(cur())))
            out.append((name + ' not nan', lambda L: Not(f_isnan(cur()))))
            out.append((name + ' kind', lambda L: And(le(-1, cur().k), le(cur().k, 2))))
            out.append((name + '>=v0', lambda L: f_le(get(L.entry, L.env0), cur())))
            out.append((name + '<=v0', lambda L: f_le(cur(), get(L.entry, L.env0))))
            out.append((name + '>=0', lambda L: f_le(0, cur())))
            out.append((name + '==v0+it', lambda L: f_same(cur(), f_add(get(L.entry, L.env0), flt(L.it)))))
            out.append((name + '==v0-it', lambda L: f_same(cur(), f_sub(get(L.entry, L.env0), flt(L.it)))))
        elif isinstance(v0, LP):
            out.append((name + ' allocated', lambda L: And(le(0, cur().ref), lt(cur().ref, ex.st.alloc))))
        elif isbool(v0):
            out.append((name + '==v0', lambda L: Iff(zb(cur()), zb(get(L.entry, L.env0)))))

    def fresh_local(name, w):
        def val():
            v = ex.frames[-1].env.get(name)
            return v.v if isinstance(v, E.MaybeUnbound) else v

        def guarded(f):
            def g(L):
                if isint(L.it) and not is_z(L.it) and L.it == 0:
                    return True
                return Implies(lt(0, L.it), f(val()))
            return g
        if isinstance(w, LP):
            out.append((name + ' allocated', guarded(lambda v: And(le(0, v.ref), lt(v.ref, ex.st.alloc)))))
        elif isinstance(w, SFlt):
            out.append((name + ' finite', guarded(lambda v: f_isfinite(v))))
            out.append((name + ' not nan', guarded(lambda v: Not(f_isnan(v)))))
            out.append((name + ' kind', guarded(lambda v: And(le(-1, v.k), le(v.k, 2)))))
        elif isint(w):
            out.append((name + '>=0', guarded(lambda v: le(0, v))))

    def seqs(name, get):
        cur = lambda: get(ex.st)
        s0 = get(L0.entry)
        if not isinstance(s0, Seq):
            return
        out.append((name + ' len==n0', lambda L: eq(cur().n, get(L.entry).n)))
        out.append((name + ' len>=n0', lambda L: le(get(L.entry).n, cur().n)))
        out.append((name + ' len==n0+it', lambda L: eq(cur().n, add(get(L.entry).n, L.it))))

        def prefix(L):
            a, b = get(L.entry), cur()
            try:
                k = kmerge(kind_of(ex, a), kind_of(ex, b))
            except Unsupported:
                return None
            if k is None:
                return True
            j = z3.Int(ex._n('p'))
            body = k.eq(ex, a.get(j), b.get(j))
            return fall(j, z3.And(j >= 0, j < zi(a.n)), body)
        out.append((name + ' prefix', prefix))
        try:
            k = kind_of(ex, s0)
        except Unsupported:
            k = None
        if isinstance(k, KLP) or k is None:
            def alloc(L):
                s = cur()
                kk = kind_of(ex, s)
                if kk is None:
                    return True
                if not isinstance(kk, KLP):
                    return None
                j = z3.Int(ex._n('p'))
                return fall(j, z3.And(j >= 0, j < zi(s.n)), And(le(0, s.get(j).ref), lt(s.get(j).ref, ex.st.alloc)))
            out.append((name + ' allocated', alloc))
        if isinstance(k, KFlt) or k is None:
            def fin(L):
                s = cur()
                kk = kind_of(ex, s)
                if kk is None:
                    return True
                if not isinstance(kk, KFlt):
                    return None
                j = z3.Int(ex._n('p'))
                return fall(j, z3.And(j >= 0, j < zi(s.n)), f_isfinite(s.get(j)))
            out.append((name + ' all finite', fin))

    for loc in sorted(mod, key=lambda l: tuple(map(str, l))):
        if loc[0] == 'loc':
            nm = 'local %s' % loc[1]
            num(nm, lambda st, env, k=loc[1]: env[k])
            v0 = L0.env0[loc[1]]
            if any(l[0] == 'newloc' for l in mod) and (isint(v0) or isbool(v0) or isinstance(v0, (SFlt, LP))):
                def first(L, k=loc[1]):
                    if isint(L.it) and not is_z(L.it) and L.it == 0:
                        return True
                    a, b = L.env0[k], ex.frames[-1].env[k]
                    return Implies(eq(L.it, 0), f_same(a, b) if isinstance(a, SFlt) else eq(a.ref, b.ref) if isinstance(a, LP)
                                   else eq(a, b) if isint(a) else Iff(zb(a), zb(b)))
                out.append((nm + ' first', first))
        elif loc[0] == 'newloc':
            fresh_local('local ' + loc[1], mod[loc])
        elif loc[0] == 'attr':
            nm = 'attr %d.%s' % (loc[1], loc[2])
            num(nm, lambda st, env, i=loc[1], k=loc[2]: st.heap[i].attrs[k])
            v0 = L0.entry.heap[loc[1]].attrs[loc[2]]
            if isinstance(v0, Ref):
                def get(st, i=loc[1], k=loc[2]):
                    r = st.heap[i].attrs[k]
                    return st.heap[r.id].pay if isinstance(r, Ref) else None
                seqs(nm + '[]', get)
        elif loc[0] == 'ghost':
            nm = 'ghost ' + loc[1]
            num(nm, lambda st, env, k=loc[1]: st.ghost[k])
            if isinstance(L0.entry.ghost.get(loc[1]), Seq):
                seqs(nm, lambda st, k=loc[1]: st.ghost[k])
        elif loc[0] == 'pay':
            seqs('obj %d' % loc[1], lambda st, i=loc[1]: st.heap[i].pay)
        elif loc[0] == 'alloc':
            out.append(('alloc grows', lambda L: le(L.entry.alloc, ex.st.alloc)))
        elif loc[0] == 'lp':
            f = loc[1]

            def frame(L, f=f):
                a, b = L.entry.lp[f], ex.st.lp[f]
                j = z3.Int(ex._n('p'))
                return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(L.entry.alloc)), z3.Select(a, j) == z3.Select(b, j)),
                                 patterns=[z3.Select(b, j)])
            out.append(('lp frame ' + f, frame))
    return out


def fall(j, rng, body):
    if body is True:
        return True
    if body is False:
        return z3.Not(z3.Exists([j], rng)) if False else z3.ForAll([j], z3.Not(rng))
    return z3.ForAll([j], z3.Implies(rng, body))


def test_cands(ex, test):
    """while a < b  suggests  a <= b"""
    out = []
    if test is None:
        return out
    tests = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
    for t in tests:
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.NotEq)):
            def f(L, t=t):
                a, b = ex.eval(t.left), ex.eval(t.comparators[0])
                if isinstance(t.ops[0], (ast.Lt, ast.NotEq, ast.LtE)):
                    if isinstance(t.ops[0], ast.LtE):
                        b = add(b, 1) if isint(b) else b
                    return ex.lib.compare(ex, ast.LtE(), a, b)
                return ex.lib.compare(ex, ast.GtE(), a, b)
            out.append(('guard %s' % ast.unparse(t), f))
    return out


def cut(ex, node, guard, body, orelse, extra, n, test):
    fr = ex.frames[-1]
    entry = ex.st.copy()
    env0 = dict(fr.env)
    local = tuple(ex.prefix[getattr(ex, 'ctxbase', 0):ex.pos])
    fnq = fr.fn.qual if fr.fn is not None else '?'
    skey = (id(node),) + tuple((a, b) for a, b, c in ex.loopctx) + (local,)
    fkey = (id(node), ex.loopctx, local)
    if fkey in ex.cache:
        modlocs, alive, dyn = ex.cache[fkey]
        mod = dyn
    else:
        mod, alive = infer(ex, node, guard, body, extra, n, test, entry, env0, skey, local)
        ex.cache[fkey] = (None, alive, mod)
        ex.inv_log[(fnq, getattr(node, 'lineno', 0))] = sorted(alive)
    if ex.opts.get('merge') and not orelse:
        if merged(ex, node, guard, body, extra, n, test, entry, env0, fkey, local, mod, alive):
            return
    # main pass
    L, it = head(ex, node, mod, entry, env0, n, alive, extra, test)
    ob, oc = getattr(ex, 'ctxbase', 0), ex.loopctx
    ex.ctxbase = ex.pos
    ex.loopctx = oc + ((id(node), local, frozenset(alive)),)
    try:
        if guard(it):
            try:
                body(it)
            except E.ContinueSig:
                pass
            raise E.PathEnd()
    except E.BreakSig:
        ex.ctxbase, ex.loopctx = ob, oc
        return
    except E.Signal:
        ex.ctxbase, ex.loopctx = ob, oc
        raise
    ex.ctxbase, ex.loopctx = ob, oc
    ex.block(orelse)



def merged(ex, node, guard, body, extra, n, test, entry, env0, fkey, local, mod, alive):
    """after the loop: one state, described by the candidates that hold at every exit (instead of one path per exit).
    The body's obligations are proved here, once."""
    fr = ex.frames[-1]
    c = ex.cache.get(('exit',) + fkey)
    if c == 'no':
        return False
    dkey = ('proved',) + fkey
    if c is None or not ex.mute and dkey not in ex.cache:
        ob, oc = getattr(ex, 'ctxbase', 0), ex.loopctx
        L, it = head(ex, node, mod, entry, env0, n, alive, extra, test)
        hst, henv = ex.st.copy(), dict(fr.env)

        def once():
            if not guard(it):
                raise E.BreakSig()
            body(it)
        # how many ways out?  (obligations are left alone in this first look)
        ex.loopctx = oc + ((id(node), local, frozenset(alive)),)
        try:
            if c is None:
                ex.ctxbase = 0
                outs = ex.nested(once)
                exits = [o for o in outs if o[0] == 'break']
                if len(exits) <= 1 or any(o[0] not in ('break', 'normal', 'continue') for o in outs):
                    ex.cache[('exit',) + fkey] = 'no'
                    return False
            if not ex.mute:
                # the body's obligations; a summary made while they were muted (inside another loop's first look) is not enough
                ex.ctxbase = 0
                outs = ex.nested(once, mute=False)
                exits = [o for o in outs if o[0] == 'break']
                ex.cache[dkey] = True
        finally:
            ex.ctxbase, ex.loopctx = ob, oc
            ex.st = entry.copy()
            fr.env.clear()
            fr.env.update(env0)
        if c is None:
            c = summary(ex, node, n, test, entry, env0, mod, it, hst, henv, exits)
            ex.cache[('exit',) + fkey] = c
    xmod, bound, names = c
    ex.st = entry.copy()
    fr.env.clear()
    fr.env.update(env0)
    it = ex.fresh_int('it', lo=0)
    if extra is not None:
        ex.assume(extra(it))
    apply_havoc(ex, xmod, entry, env0, it)
    for k, w in bound.items():
        fr.env[k] = havoc_value(ex, w, w, k)
    L = Loop(ex, node, entry, dict(env0, **bound), it, n)
    ex.mute += 1
    try:
        for name, f in cands(ex, xmod, L, test):
            if name in names:
                g = evalc(ex, f, L)
                if g is not None and g is not True:
                    ex.assume(g)
    finally:
        ex.mute -= 1
    return True


def summary(ex, node, n, test, entry, env0, mod, it, hst, henv, exits):
    """what is modified, which locals are bound and what holds at every exit"""
    fr = ex.frames[-1]
    xmod = dict(mod)
    bound = {}
    ex.mute += 1
    try:
        # locals first assigned in the loop: bound on every way out?
        for k in {k for _, _, _, env in exits for k in env if k not in env0}:
            vals = []
            for _, _, st, env in exits:
                v = env.get(k)
                if isinstance(v, E.MaybeUnbound):
                    ex.st = st
                    v = v.v if ex.valid(lt(0, v.it)) else None
                vals.append(v)
            if any(v is None or isinstance(v, (Poison, Ref)) for v in vals):
                xmod[('newloc', k)] = Poison('assigned on some ways out of a loop only')
                continue
            w = vals[0]
            for v in vals[1:]:
                w = widen(w, v) if isinstance(w, type(v)) or not isinstance(w, LP) and not isinstance(v, LP) else Poison('kinds differ')
            if isinstance(havoc_value(ex, w, vals[0], k), Poison):
                xmod[('newloc', k)] = Poison('loop')
            else:
                xmod.pop(('newloc', k), None)
                bound[k] = w
        for kind, pay, st, env in exits:
            for loc, v in diff(hst, henv, st, env).items():
                if loc[0] in ('loc', 'newloc'):
                    if loc[1] not in env0:
                        if loc[1] not in bound:
                            xmod[('newloc', loc[1])] = Poison('loop')
                        continue
                if loc[0] == 'attr' and loc[1] not in entry.heap or loc[0] == 'pay' and loc[1] not in entry.heap:
                    continue
                if loc[0] == 'attr' and loc[2] not in entry.heap[loc[1]].attrs:
                    loc, v = ('newattr', loc[1], loc[2]), v[0]
                if loc[0] == 'ghost' and loc[1] not in entry.ghost:
                    loc = ('newghost', loc[1])
                if loc[0] == 'attr':
                    v = sample(v[0], v[1])
                elif loc[0] == 'loc':
                    v = sample(v, st)
                xmod[loc] = widen(xmod[loc], v) if loc in xmod else v
        L = Loop(ex, node, entry, dict(env0, **bound), it, n)
        names = None
        for kind, pay, st, env in exits:
            ex.st = st
            fr.env.clear()
            fr.env.update(env)
            for k in bound:
                if isinstance(fr.env.get(k), E.MaybeUnbound):
                    fr.env[k] = fr.env[k].v
            goals = []
            ok = set()
            for name, f in cands(ex, xmod, L, test):
                if names is not None and name not in names:
                    continue
                g = evalc(ex, f, L)
                if g is True:
                    ok.add(name)
                elif g is not None and g is not False:
                    goals.append((name, g))
            if goals and ex.valid(And(*[g for _, g in goals])):
                ok |= {nm for nm, _ in goals}
            else:
                ok |= {nm for nm, g in goals if ex.valid(g)}
            names = ok
    finally:
        ex.mute -= 1
        ex.st = entry.copy()
        fr.env.clear()
        fr.env.update(env0)
    if ex.opts.get('trace'):
        print('  exit', getattr(node, 'lineno', 0), len(exits), 'ways', sorted(bound), len(names))
    return xmod, bound, names


def head(ex, node, mod, entry, env0, n, alive, extra, test):
    """havoc, assume the invariants"""
    it = ex.fresh_int('it', lo=0)
    L = Loop(ex, node, entry, env0, it, n)
    apply_havoc(ex, mod, entry, env0, it)
    if extra is not None:
        ex.assume(extra(it))
    ex.mute += 1
    try:
        for name, f in cands(ex, mod, L, test):
            if name in alive:
                g = evalc(ex, f, L)
                if g is not None and g is not True:
                    ex.assume(g)
    finally:
        ex.mute -= 1
    return L, it


def cands(ex, mod, L, test):
    L.mod = mod
    out = autos(ex, mod, L)
    out += test_cands(ex, test)
    for i, (name, f) in enumerate(ex.pool):
        out.append(('P:' + name, f))
    return out


class _Skip(Exception):
    pass


def evalc(ex, f, L):
    """a candidate formula in the current state, or None"""
    saved = (ex.work, ex.prefix, ex.pos, ex.forced, ex.trail)
    pcl, fl = len(ex.st.pc), len(ex.st.facts)
    # candidates must not branch
    ex.work, ex.prefix, ex.pos, ex.forced, ex.trail = [], [], 0, 0, []
    try:
        r = f(L)
        if ex.prefix:
            del ex.st.pc[pcl:]
            return None
        return lit(r) if r is not None else None
    except (E.Signal, Unsupported, KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception):
        del ex.st.pc[pcl:]
        return None
    finally:
        ex.work, ex.prefix, ex.pos, ex.forced, ex.trail = saved


def infer(ex, node, guard, body, extra, n, test, entry, env0, skey, local):
    fr = ex.frames[-1]
    warm = ex.cached_mod_env.get(skey)
    mod = {l: v for l, v in warm[0].items() if fits(l, entry, env0)} if warm else {}
    alive = set(warm[1]) if warm and warm[1] is not None else None
    entry_checked = {}
    gone = ex.gone.setdefault(skey if ex.opts['warm'] == 1 else id(node), set()) if ex.opts.get('warm') else set()     # dropped in an earlier visit under stronger assumptions
    ex.mute += 1
    ob, oc = getattr(ex, 'ctxbase', 0), ex.loopctx
    killed = set()
    try:
        for rnd in range(60):
            ex.stats['houdini_rounds'] += 1
            if ex.deadline and time.time() > ex.deadline:
                raise E.Budget('time')
            # establish at entry
            ex.st = entry.copy()
            fr.env.clear()
            fr.env.update(env0)
            L0 = Loop(ex, node, entry, env0, 0, n)
            cs = cands(ex, mod, L0, test)
            names = set()
            todo = []
            for name, f in cs:
                if name in killed or name in gone or (alive is not None and name not in alive and name in entry_checked):
                    continue
                if name in entry_checked:
                    if entry_checked[name]:
                        names.add(name)
                    continue
                g = evalc(ex, f, L0)
                if g is None:
                    entry_checked[name] = False
                    continue
                todo.append((name, g))
            if todo:
                if ex.valid(And(*[g for _, g in todo])):
                    for nm, _ in todo:
                        entry_checked[nm] = True
                else:
                    for nm, g in todo:
                        entry_checked[nm] = ex.valid(g)
                names |= {nm for nm, _ in todo if entry_checked[nm]}
            alive = names if alive is None or not warm else names
            alive -= killed
            warm = True
            # arbitrary iteration
            ex.st = entry.copy()
            fr.env.clear()
            fr.env.update(env0)
            L, it = head(ex, node, mod, entry, env0, n, alive, extra, test)
            hst, henv = ex.st.copy(), dict(fr.env)
            ex.ctxbase = 0
            ex.loopctx = oc + ((id(node), local, frozenset(alive)),)

            def once():
                if not guard(it):
                    raise E.PathEnd()
                body(it)
            outs = [o for o in ex.nested(once) if o[0] in ('normal', 'continue')]
            ex.ctxbase, ex.loopctx = ob, oc
            new = {}
            part = {k for kind, pay, st, env in outs for k in env if k not in env0 and
                    any(k not in e2 or isinstance(e2[k], (E.MaybeUnbound, Poison)) for _, _, _, e2 in outs)}
            for kind, pay, st, env in outs:
                for loc, v in diff(hst, henv, st, env).items():
                    if loc[0] == 'loc' and loc[1] not in env0:
                        loc = ('newloc', loc[1])
                        if loc[1] in part:
                            v = Poison('assigned on some paths of a loop only')
                    elif loc[0] == 'newloc' and loc[1] in part:
                        v = Poison('assigned on some paths of a loop only')
                    if loc[0] == 'attr' and (loc[1] not in entry.heap or loc[2] not in entry.heap[loc[1]].attrs):
                        if loc[1] not in entry.heap:
                            continue
                        loc, v = ('newattr', loc[1], loc[2]), v[0]
                    if loc[0] == 'ghost' and loc[1] not in entry.ghost:
                        loc = ('newghost', loc[1])
                    if loc[0] == 'pay' and loc[1] not in entry.heap:
                        continue
                    if loc[0] == 'attr':
                        v = sample(v[0], v[1])
                    elif loc[0] == 'loc':
                        v = sample(v, st)
                    if loc not in mod:
                        new[loc] = v
                    else:
                        # kinds may widen
                        m = widen(mod[loc], v)
                        if m is not mod[loc]:
                            new[loc] = m
            if new:
                mod.update(new)
                continue
            # preserved?
            dropped = set()
            L1 = Loop(ex, node, entry, env0, add(it, 1), n)
            for kind, pay, st, env in outs:
                ex.st = st
                fr.env.clear()
                fr.env.update(env)
                goals = []
                for name, f in cands(ex, mod, L1, test):
                    if name in alive and name not in dropped:
                        g = evalc(ex, f, L1)
                        if g is None or g is False:
                            dropped.add(name)
                        elif g is not True:
                            goals.append((name, g))
                if not goals:
                    continue
                if ex.valid(And(*[g for _, g in goals])):
                    continue
                for name, g in goals:
                    if not ex.valid(g):
                        dropped.add(name)
            ex.cached_mod_env[skey] = (dict(mod), set(alive - dropped))
            if not dropped:
                break
            if ex.opts.get('trace'):
                print('  houdini', getattr(node, 'lineno', 0), 'dropped', sorted(dropped))
            killed |= dropped
            gone |= dropped if ex.opts.get('warm') else set()
            alive -= dropped
        else:
            raise E.Budget('houdini')
    finally:
        ex.mute -= 1
        ex.ctxbase, ex.loopctx = ob, oc
        ex.st = entry.copy()
        fr.env.clear()
        fr.env.update(env0)
    return mod, alive


def widen(old, new):
    if isinstance(old, RefSample) or isinstance(new, RefSample):
        return old
    isn = lambda x: isint(x) or isbool(x)
    if isn(old) and isinstance(new, SFlt):
        return new
    if isinstance(old, SFlt) and old.fin and isinstance(new, SFlt) and not new.fin:
        return new
    if old is None and new is not None:
        return new
    if isinstance(new, Poison) and not isinstance(old, Poison):
        return new
    return old


def fits(loc, entry, env0):
    """does a remembered location exist in this entry state"""
    if loc[0] == 'loc':
        return loc[1] in env0
    if loc[0] == 'newloc':
        return loc[1] not in env0
    if loc[0] == 'attr':
        return loc[1] in entry.heap and loc[2] in entry.heap[loc[1]].attrs
    if loc[0] in ('newattr', 'pay'):
        return loc[1] in entry.heap
    if loc[0] == 'ghost':
        return loc[1] in entry.ghost
    return True
