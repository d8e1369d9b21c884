"""The three samplers' kernels (yield_sample, run to the yield), shared by C11, C12, C13, C24 and C25.

Each property's module runs the same body with the same environment contracts and proves its own postconditions.
"""
from .ns import *
from pyvc import comp

S = 'cpnest.sampler.'
A = z3.ArraySort(I, R)
LK, LR = z3.Function('logL_kind', A, I), z3.Function('logL_of', A, R)      # the user's log-likelihood at a coordinate vector
PK, PRr = z3.Function('logP_kind', A, I), z3.Function('logP_of', A, R)     # the user's log-prior
INB = z3.Function('in_bounds', A, z3.BoolSort())


def LL(v):
    return SFlt(LR(v), LK(v))


def PP(v):
    return SFlt(PRr(v), PK(v))


class KModel(Model):
    """the user's model: deterministic functions of the coordinates (finite or -inf)"""
    def py_getattr(self, ex, name):
        def lkl(ex, p):
            v = ex.lp_vals(p)
            ex.assume(z3.And(LK(v) >= -1, LK(v) <= 0))
            return LL(v)

        def lpr(ex, p):
            v = ex.lp_vals(p)
            ex.assume(z3.And(PK(v) >= -1, PK(v) <= 0))
            return PP(v)
        if name == 'log_likelihood':
            return Fn(lkl)
        if name == 'log_prior':
            return Fn(lpr)
        if name == 'in_bounds':
            return Fn(lambda ex, p: INB(ex.lp_vals(p)))
        if name == 'names':
            return lib.NamesVal()
        raise Unsupported('model.' + name)

    def same(self, o):
        return isinstance(o, KModel)

    def py_same(self, ex, o):
        return isinstance(o, KModel)


class Lock(Model):
    def py_enter(self, ex):
        interfere(ex)
        ex.st.ghost['locked'] = True
        return None

    def py_exit(self, ex, exc):
        ex.st.ghost['locked'] = False
        return False

    def py_getattr(self, ex, name):
        if name == 'acquire':
            return Fn(lambda ex, *a: self.py_enter(ex) or True)
        if name == 'release':
            return Fn(lambda ex, *a: self.py_exit(ex, None) or None)
        raise Unsupported('lock.' + name)

    def same(self, o):
        return isinstance(o, Lock)


def interfere(ex):
    """other workers may have raised the maximum, unless the lock is held"""
    g = ex.st.ghost
    if g['locked'] is True:
        return
    if g['locked'] is not False:
        raise Unsupported('lock state after a loop')
    old = g['lmax']
    v = ex.fresh_flt('lmax', nonan=True)
    ex.assume(f_le(old, v))
    g['lmax'] = v


class LMax(Model):
    """the shared maximum log-likelihood"""
    def py_getattr(self, ex, name):
        if name == 'value':
            interfere(ex)
            return ex.st.ghost['lmax']
        if name == 'get_lock':
            return Fn(lambda ex: Lock())
        raise Unsupported('shared value.' + name)

    def py_setattr(self, ex, name, v):
        if name != 'value':
            raise Unsupported('shared value.' + name)
        interfere(ex)
        v = flt(lib.as_num(v)).with_(npy=False)
        ex.k.P('C24', f_le(ex.st.ghost['lmax'], v), 'a write to the shared maximum never lowers it, whatever the other workers do')
        ex.st.ghost['lmax'] = v

    def same(self, o):
        return isinstance(o, LMax)

    def py_same(self, ex, o):
        return isinstance(o, LMax)


class Chain(Model):
    """the list of recorded samples"""
    def py_getattr(self, ex, name):
        if name == 'append':
            return Fn(lambda ex, p: ex.k.record(p))
        raise Unsupported('samples.' + name)

    def py_len(self, ex):
        return ex.fresh_int('nsamples', lo=0)

    def same(self, o):
        return isinstance(o, Chain)


class Kernel:
    """one call of a kernel; ghost state:
    cur   the point the chain is at            steps, acc   moves tried and accepted
    prev  vals/logL/logP of cur                 amax         the largest accepted log-likelihood
    pub   refs that other code may hold         good         refs that must carry their own likelihood and prior"""
    def __init__(self, ex, prop, klass):
        self.ex, self.prop, self.klass = ex, prop, klass
        ex.k = self

    def P(self, props, goal, label):
        if self.prop in props.split():
            self.ex.prove(goal, label)

    def setup(self, pool_n, **at):
        ex = self.ex
        g = ex.st.ghost
        self.n = pool_n
        pool = ex.fresh_seq('pool', pool_n, KLP())
        self.pool0 = pool
        a0 = self.alloc0 = ex.st.alloc
        g['locked'] = False
        g['lmax'] = ex.fresh_flt('lmax0', nonan=True)
        g['amax'] = NINF
        g['steps'] = g['acc'] = 0
        self.mark('pub', lambda q: q < zi(a0))
        self.mark('good', lambda q: z3.BoolVal(False))
        self.lp0 = dict(ex.st.lp)
        self.th = ex.fresh_flt('logLmin', nonan=True)
        base = dict(poolsize=pool_n, maxmcmc=ex.fresh_int('maxmcmc', lo=1), Nmcmc=ex.fresh_int('Nmcmc', lo=1), verbose=0, model=KModel(), logger=lib.Logger(),
                    sub_acceptance=ex.fresh_flt('sacc', fin=True), acceptance=ex.fresh_flt('acc', fin=True),
                    mcmc_accepted=ex.fresh_int('mcmc_accepted', lo=0), mcmc_counter=ex.fresh_int('mcmc_counter', lo=0), logLmax=LMax(), samples=Chain(),
                    evolution_points=ex.new('deque', pay=pool, meta={'maxlen': pool_n}))
        base.update(at)
        self.a0 = dict(base)
        self.me = ex.new(cls(ex, S + self.klass), attrs=base)

    def mark(self, name, fact):
        """the ghost set becomes {q: fact(q)}"""
        ex = self.ex
        f = z3.Const(ex._n(name), z3.ArraySort(I, z3.BoolSort()))
        q = z3.Int(ex._n('q'))
        ex.assume(z3.ForAll([q], z3.Select(f, q) == fact(q), patterns=[z3.Select(f, q)]))
        ex.st.ghost[name] = f

    def put(self, name, p, when=True):
        old = self.ex.st.ghost[name]
        self.mark(name, lambda q: z3.Or(z3.Select(old, q), z3.And(zb(when), q == zi(p.ref))))

    # -------------------------------------------------------------- events
    def own(self, p):
        """p carries the likelihood and prior of its own coordinates"""
        ex = self.ex
        v = ex.lp_vals(p)
        return And(f_same(ex.lp_get(p, 'logL'), LL(v)), f_same(ex.lp_get(p, 'logP'), PP(v)))

    def publish(self, p):
        self.put('pub', p)

    def private(self, p, label):
        """p is not reachable from the pool, the chain or the coordinator"""
        self.ex.prove(Not(z3.Select(self.ex.st.ghost['pub'], zi(p.ref))), label)

    def all_good(self):
        ex = self.ex
        q = z3.Int(ex._n('q'))
        lp = ex.st.lp
        v = z3.Select(lp['vals'], q)
        return z3.ForAll([q], z3.Implies(z3.Select(ex.st.ghost['good'], q), z3.And(
            z3.Select(lp['logLk'], q) == LK(v), z3.Select(lp['logPk'], q) == PK(v), z3.Implies(LK(v) == 0, z3.Select(lp['logLr'], q) == LR(v)),
            z3.Implies(PK(v) == 0, z3.Select(lp['logPr'], q) == PRr(v)))), patterns=[z3.Select(ex.st.ghost['good'], q)])

    def run(self, args=()):
        ex = self.ex
        gen = noraise(ex, lambda: call_real(ex, S + self.klass + '.yield_sample', [self.me, self.th] + list(args)), 'yield_sample')
        r = noraise(ex, lambda: ex.next_(gen), 'yield_sample', getattr(self, 'allow', ()))
        ex.prove(isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], LP), 'a chain length and a point are returned')
        return r


# ------------------------------------------------------------------ invariant candidates (local names do not matter)
def ofkind(test):
    """the locals that have this kind when the loop is entered, in name order: their present values"""
    def get(L):
        env = L.ex.frames[-1].env
        return [env.get(k) for k, v in sorted(L.env0.items()) if test(v)]
    get.test = test
    return get


lps = ofkind(lambda v: isinstance(v, LP))
ints = ofkind(lib.isint)
flts = ofkind(lambda v: isinstance(v, SFlt))


def nth(get, q, f):
    def c(L):
        xs = get(L)
        return f(L, xs[q]) if q < len(xs) and get.test(xs[q]) else None
    return c


def new(get, q, f):
    """for a local first assigned in the loop: once it is bound"""
    def c(L):
        xs = L.news(get.test)
        if q >= len(xs):
            return True if isinstance(L.it, int) and L.it == 0 else None
        v = xs[q][1]
        if v is None:
            return True
        if isinstance(v, E.MaybeUnbound):
            return Implies(lt(0, v.it), f(L, v.v)) if get.test(v.v) else None
        return f(L, v) if get.test(v) else None
    return c


def every(name, get, f, n=4):
    """one candidate per local variable"""
    return [('%s (local %d)' % (name, q), nth(get, q, f)) for q in range(n)] + [('%s (new local %d)' % (name, q), new(get, q, f)) for q in range(2)]


def g(L):
    return L.ex.st.ghost


COMMON = [
    ('accepted points carry their likelihood', lambda L: L.ex.k.all_good()),
    ('the shared maximum covers the accepted', lambda L: f_le(g(L)['amax'], g(L)['lmax'])),
    ('the shared maximum is not nan', lambda L: And(Not(f_isnan(g(L)['lmax'])), Not(f_isnan(g(L)['amax'])))),
    ('held points exist', lambda L: allocd(L, 'pub')), ('accepted points exist', lambda L: allocd(L, 'good')),
]


def allocd(L, f):
    q = z3.Int(L.ex._n('q'))
    return z3.ForAll([q], z3.Implies(z3.Select(g(L)[f], q), q < zi(L.ex.st.alloc)), patterns=[z3.Select(g(L)[f], q)])


ASSUMES = ['the user\'s log_likelihood, log_prior and in_bounds are deterministic functions of the coordinates, finite or -inf, and do not change the point',
           'random() is not exactly 0', 'the shared maximum and its lock behave as multiprocessing documents; other workers only raise it (this property, for them)']
