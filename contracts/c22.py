"""C22: setting up a run.

Ghost ledger of the workers made so far, in order: `cnt`, and per worker k `w_idx[k]`, `w_pre[k]` (the number in its checkpoint file
name and a code for the text around it), `w_seed[k]`, `c_mhs/c_hmc/c_sli` (how many of each kind), `conn` (producer pipes handed out).
The constructor and `resume` of the workers are used by contract in CPNest.__init__ (one producer pipe taken, the shared values of the
manager kept) and these contracts are proved on their bodies here."""
from .ns import *

C = 'cpnest.cpnest.'
S = 'cpnest.sampler.'
ASSUMES = ['multiprocessing: Pipe() gives the two ends of a new pipe, Value(...) a new shared value, Process(target=f) a process that will call f',
           'a checkpoint file of this output folder with number k was written by the worker with number k of an earlier run with the same seed (so the seed it carries is seed + k)',
           'precondition: nhamiltonian + nslice <= nthreads, all three >= 0']
BOUNDED = ['replay/h22.py: the same postconditions on real CPNest objects']
KINDS = {'MetropolisHastingsSampler': 'c_mhs', 'HamiltonianMonteCarloSampler': 'c_hmc', 'SliceSampler': 'c_sli'}
AI = z3.ArraySort(I, I)
EXISTS = z3.Function('file_exists', I, I, z3.BoolSort())
codes = {}


class W(Model):
    """worker number i of the ledger"""
    def __init__(self, i):
        self.i = i

    def same(self, o):
        return type(o) is type(self) and zi(self.i).eq(zi(o.i))

    def py_same(self, ex, o):
        return eq(self.i, o.i) if type(o) is type(self) else False

    @classmethod
    def kind(cls):
        return KMod(cls, lambda v: zi(v.i))

    def kind_of_elem(self):
        return self.kind()

    def subst(self, a, b):
        from pyvc import comp
        return type(self)(comp.subst(zi(self.i), a, b))

    def v_ite(self, c, o):
        return type(self)(i_ite(c, self.i, o.i))

    def py_getattr(self, ex, name):
        if name == 'produce_sample':
            return Task(self.i)
        raise Unsupported('worker.' + name)


class Task(W):
    pass


class Proc(W):
    def py_getattr(self, ex, name):
        raise Unsupported('process.' + name)


class Ctx(Model):
    def py_enter(self, ex):
        return self

    def py_exit(self, ex, exc):
        return False

    def same(self, o):
        return isinstance(o, Ctx)


class Mgr(Manager):
    def py_getattr(self, ex, name):
        if name == 'start':
            def st(ex):
                ex.st.ghost['started'] = z3.IntVal(1)
            return Fn(st)
        if name in ('logLmin', 'logLmax'):
            return Shared(name)
        raise Unsupported('manager.' + name)

    def same(self, o):
        return isinstance(o, Mgr)


class Files(Model):
    """os.path: joining keeps the parts; a file of the family <text><number><text> exists or not"""
    def py_getattr(self, ex, name):
        if name == 'join':
            def join(ex, *a):
                out = []
                for x in a:
                    out += list(lib.parts(x))
                return SStr(out)
            return Fn(join)
        if name in ('exists', 'isfile'):
            def there(ex, f):
                k = file_key(ex, f, True)
                return EXISTS(*k) if k else ex.fresh_bool('exists')
            return Fn(there)
        raise Unsupported('os.path.' + name)


def file_key(ex, f, soft=False):
    """(code of the literal text, number) of a file name inside the output folder"""
    p = [x for x in lib.parts(f)]
    p = [x for x in p if isinstance(x, str) or x[0] != 'sym']
    nums = [x for x in p if not isinstance(x, str)]
    if len(nums) != 1 or nums[0][0] != 'int':
        if soft:
            return None
        raise Unsupported('checkpoint file name %r' % (p,))
    t = ''.join(x if isinstance(x, str) else '\0' for x in p)
    return z3.IntVal(codes.setdefault(t, len(codes))), zi(nums[0][1])


def add_worker(ex, kind, f, seed):
    g = ex.st.ghost
    pre, idx = file_key(ex, f)
    k = zi(g['cnt'])
    ex.prove(g['started'] == 1, 'the shared values exist before a worker is made')
    ex.prove(g['conn'] < ex.nt, 'a message pipe is left for the worker')
    g['conn'] = z3.simplify(g['conn'] + 1)
    g['w_idx'], g['w_pre'] = z3.Store(g['w_idx'], k, idx), z3.Store(g['w_pre'], k, pre)
    g['w_seed'] = z3.Store(g['w_seed'], k, seed if seed is not None else zi(ex.seed()) + idx)
    g[KINDS[kind]] = z3.simplify(g[KINDS[kind]] + 1)
    g['cnt'] = z3.simplify(k + 1)
    return W(k)


def made(kind):
    def c(ex, model, maxmcmc, seed=None, output=None, verbose=False, sample_prior=False, poolsize=1000, proposal=None, resume_file=None, manager=None):
        ex.prove(isinstance(manager, Mgr), 'the worker belongs to the manager of this run')
        ex.prove(isinstance(model, UserModel), 'the worker has the model of the user')
        ex.prove(lib.isint(seed), 'the worker has a seed')
        ex.prove(eq(maxmcmc, ex.maxmcmc) , 'the worker has the maximum chain length asked for')
        ex.prove(eq(poolsize, ex.poolsize), 'the worker has the pool size asked for')
        ex.prove(Not(And(ex.resume, EXISTS(*file_key(ex, resume_file)))), 'a resumed run uses the checkpoints it finds')
        return add_worker(ex, kind, resume_file, zi(seed))
    return c


def resumed(ex, klass, f, manager, model):
    ex.prove(isinstance(manager, Mgr), 'the resumed worker belongs to the manager of this run')
    ex.prove(isinstance(model, UserModel), 'the resumed worker has the model of the user')
    ex.prove(EXISTS(*file_key(ex, f)), 'only an existing checkpoint is resumed')
    ex.prove(ex.resume, 'a checkpoint is only used when resuming was asked for')
    return add_worker(ex, klass.name, f, None)


def proc(ex, target=None, args=(), **k):
    if isinstance(target, Task):
        return Proc(target.i)
    raise Unsupported('process target')


def run_manager(ex, nthreads=None, **kw):
    ex.prove(eq(nthreads, ex.nt), 'the manager is made for the number of workers asked for')
    return Mgr()


def ns_made(ex, model, **kw):
    g = ex.st.ghost
    g['coord'] = z3.simplify(g['coord'] + 1)
    ex.prove(isinstance(kw.get('manager'), Mgr) and isinstance(model, UserModel), 'the coordinator belongs to this run')
    return Opaque('NS')


def ns_resumed(ex, klass, f, manager, model):
    ex.prove(ex.resume, 'a checkpoint is only used when resuming was asked for')
    return ns_made(ex, model, manager=manager)


def init_c(ex, self, *a, **k):
    return None


def cand(L):
    ex, g = L.ex, L.ex.st.ghost
    c = g['cnt']
    return And(eq(g['conn'], c), forall(c, lambda k: And(eq(g['w_idx'][zi(k)], k), eq(g['w_pre'][zi(k)], 0))))


def cand_seed(L):
    ex, g = L.ex, L.ex.st.ghost
    return forall(g['cnt'], lambda k: eq(g['w_seed'][zi(k)], add(ex.seed(), k)))


def cand_pool(L):
    ex, g = L.ex, L.ex.st.ghost
    s = ex.obj(ex.obj(ex.me).attrs['process_pool']).pay
    if isinstance(s.n, int) and s.n == 0:
        return eq(g['cnt'], 0)
    return And(eq(s.n, g['cnt']), forall(g['cnt'], lambda k: eq(s.get(k).i, k)))


def t_setup(ex):
    codes.clear()
    codes['sampler_\0.pkl'] = 0
    ex.nt = ex.fresh_int('nthreads', lo=1)
    nh, nsl = ex.fresh_int('nhamiltonian', lo=0), ex.fresh_int('nslice', lo=0)
    ex.assume(nh + nsl <= ex.nt)
    ex.maxmcmc, ex.poolsize = ex.fresh_int('maxmcmc', lo=1), ex.fresh_int('poolsize', lo=1)
    ex.resume = ex.fresh_bool('resume')
    g = ex.st.ghost
    g.update(cnt=z3.IntVal(0), conn=z3.IntVal(0), started=z3.IntVal(0), coord=z3.IntVal(0), c_mhs=z3.IntVal(0), c_hmc=z3.IntVal(0), c_sli=z3.IntVal(0))
    for a in ('w_idx', 'w_pre', 'w_seed'):
        g[a] = z3.Const(ex._n(a), AI)
    ex.me = ex.new(cls(ex, C + 'CPNest'))
    ex.seed = lambda: ex.obj(ex.me).attrs['seed']
    how = ex.choose(3)      # default proposals, a list of them, a dictionary of them
    seed = ex.fresh_int('seed', lo=0) if how else None
    props = None if how == 0 else Opaque('props')
    kl = [Fn(lambda ex, *a, **k: Opaque('proposal'))] * 3
    if how == 1:
        props = ex.new_list(Seq.of(kl))
    elif how == 2:
        props = ex.new('dict', pay=dict(mhs=kl[0], hmc=kl[1], sli=kl[2]))
    kw = dict(nlive=ex.fresh_int('nlive', lo=1), poolsize=ex.poolsize, output=SStr([('sym', 'output')]), verbose=ex.fresh_int('verbose', lo=0), seed=seed,
              maxmcmc=ex.maxmcmc, nthreads=ex.nt, nhamiltonian=nh, nslice=nsl, resume=ex.resume, proposals=props,
              prior_sampling=ex.fresh_bool('prior_sampling'), periodic_checkpoint_interval=ex.fresh_flt('interval', fin=True) if how else None)
    noraise(ex, lambda: call_real(ex, C + 'CPNest.__init__', [ex.me, UserModel()], kw), 'CPNest()')
    g = ex.st.ghost
    ex.prove(eq(g['cnt'], ex.nt), 'exactly the requested number of workers is made')
    ex.prove(And(eq(g['c_hmc'], nh), eq(g['c_sli'], nsl), eq(g['c_mhs'], ex.nt - nh - nsl)), 'exactly the requested number of each kind')
    ex.prove(eq(g['conn'], ex.nt), 'every message pipe has its worker')
    ex.prove(eq(g['coord'], 1), 'one coordinator')
    n = g['cnt']
    ex.prove(forall2(n, lambda j, k: Or(g['w_pre'][j] != g['w_pre'][k], g['w_idx'][j] != g['w_idx'][k])), 'no two workers share a checkpoint file')
    ex.prove(forall2(n, lambda j, k: g['w_seed'][j] != g['w_seed'][k]), 'no two workers share a seed')
    s = ex.obj(ex.obj(ex.me).attrs['process_pool']).pay
    ex.prove(And(eq(s.n, n), forall(n, lambda k: eq(s.get(k).i, k))), 'one process per worker, running its loop')
    if seed is not None:
        ex.prove(eq(ex.seed(), seed), 'the seed is the one asked for')


# ------------------------------------------------------------------ the manager's pipes
class End(W):
    """one end of pipe i"""
    def __init__(self, i, side=0):
        self.i, self.side = i, side

    def same(self, o):
        return isinstance(o, End) and self.side == o.side and zi(self.i).eq(zi(o.i))


class ProdEnd(End):
    pass


class ConsEnd(End):
    pass


def mp_pipe(ex, duplex=True):
    g = ex.st.ghost
    ex.prove(duplex is True, 'the pipe carries messages both ways')
    k = g['npipes']
    g['npipes'] = z3.simplify(k + 1)
    return (ConsEnd(k), ProdEnd(k))


class Val(Model):
    """a shared value of its own"""
    def __init__(self, name):
        self.name = name

    def same(self, o):
        return isinstance(o, Val) and o.name == self.name

    def py_same(self, ex, o):
        return self.same(o)

    def py_getattr(self, ex, name):
        g = ex.st.ghost
        if name == 'value':
            if self.name in ex.locked and not g['_held']:
                ex.prove(False, 'the counter is only touched under its lock')
            return g['v:' + self.name]
        if name == 'get_lock':
            return Fn(lambda ex: Held())
        raise Unsupported('shared value.' + name)

    def py_setattr(self, ex, name, v):
        g = ex.st.ghost
        if name != 'value':
            raise Unsupported('shared value.' + name)
        if self.name in ex.locked and not g['_held']:
            ex.prove(False, 'the counter is only touched under its lock')
        g['v:' + self.name] = v


class Held(Model):
    def py_enter(self, ex):
        ex.st.ghost['_held'] = True

    def py_exit(self, ex, exc):
        ex.st.ghost['_held'] = False
        return False


def mp_value(ex, t, v=0, **k):
    g = ex.st.ghost
    n = 'value%d' % g['_nvals']
    g['_nvals'] = g['_nvals'] + 1
    g['v:' + n] = v
    return Val(n)


def cand_pipes(L):
    ex, o = L.ex, L.ex.obj(L.ex.me)
    out = []
    for a in ('producer_pipes', 'consumer_pipes'):
        if not isinstance(o.attrs.get(a), Ref):
            return True
        s = ex.obj(o.attrs[a]).pay
        out += [eq(s.n, L.it), forall(L.it, lambda k, s=s: eq(s.get(k).i, k))]
    return And(eq(ex.st.ghost['npipes'], L.it), *out)


def t_manager(ex):
    ex.nt = ex.fresh_int('nthreads', lo=0)
    ex.locked = ()
    g = ex.st.ghost
    g.update(npipes=z3.IntVal(0), _nvals=0, _held=False, base=z3.IntVal(0))
    ex.me = ex.new(cls(ex, C + 'RunManager'))
    iv = ex.fresh_flt('interval', fin=True)
    kw = {'periodic_checkpoint_interval': iv} if ex.choose(2) else {}
    noraise(ex, lambda: call_real(ex, C + 'RunManager.__init__', [ex.me], dict(nthreads=ex.nt, **kw)), 'RunManager()')
    o = ex.obj(ex.me).attrs
    g = ex.st.ghost
    for a, t, what in (('producer_pipes', ProdEnd, 'worker'), ('consumer_pipes', ConsEnd, 'coordinator')):
        s = ex.obj(o[a]).pay
        e = s.get(z3.Int(ex._n('pr')))
        ex.prove(isinstance(e, t), 'the %s ends are all of one side' % what)
        ex.prove(And(eq(s.n, ex.nt), forall(ex.nt, lambda k: eq(s.get(k).i, k))), 'one %s end per worker, of distinct pipes, in the same order on both sides' % what)
    ex.prove(eq(o['nthreads'], ex.nt), 'the manager knows the number of workers')
    ex.prove(isinstance(o['nconnected'], Val) and eq(g['v:' + o['nconnected'].name], 0), 'no worker is connected yet')
    ex.prove(f_same(flt(lib.as_num(o['periodic_checkpoint_interval'])), iv if kw else PINF), 'the checkpoint interval is the one asked for, or none')
    noraise(ex, lambda: call_real(ex, C + 'RunManager.start', [ex.me]), 'start')
    o = ex.obj(ex.me).attrs
    g = ex.st.ghost
    vs = [o.get(a) for a in ('logLmin', 'logLmax', 'checkpoint_flag', 'nconnected')]
    ex.prove(all(isinstance(v, Val) for v in vs) and len({v.name for v in vs}) == 4, 'threshold, maximum, flag and counter are different shared values')
    ex.prove(And(f_same(flt(lib.as_num(g['v:' + vs[0].name])), NINF), f_same(flt(lib.as_num(g['v:' + vs[1].name])), NINF)), 'threshold and maximum start at -infinity')
    ex.prove(eq(g['v:' + vs[2].name], 0), 'the checkpoint flag starts unset')
    ex.prove(eq(g['base'], 1), 'the server process of the manager is started')


def t_connect(ex):
    ex.nt = ex.fresh_int('nthreads', lo=1)
    g = ex.st.ghost
    n = ex.fresh_int('nconn', lo=0)
    ex.assume(n < ex.nt)
    ex.locked = ('c',)
    g.update({'v:c': n, '_held': False})
    s = Seq(ex.nt, lambda k: ProdEnd(k), ProdEnd.kind())
    ex.me = ex.new(cls(ex, C + 'RunManager'), attrs={'nconnected': Val('c'), 'producer_pipes': ex.new_list(s), 'nthreads': ex.nt})
    r = noraise(ex, lambda: call_real(ex, C + 'RunManager.connect_producer', [ex.me]), 'connect_producer')
    g = ex.st.ghost
    if not (isinstance(r, tuple) and len(r) == 2):
        ex.prove(False, 'a pipe and its number are returned')
        return
    ex.prove(isinstance(r[0], ProdEnd) and eq(r[0].i, n), 'the pipe handed out is the next one')
    ex.prove(eq(r[1], n), 'its number is returned')
    ex.prove(eq(g['v:c'], n + 1), 'the next caller gets the next pipe')
    ex.prove(g['_held'] is False, 'the lock is released')


# ------------------------------------------------------------------ worker constructor and resume
class WMgr(Model):
    def same(self, o):
        return isinstance(o, WMgr)

    def py_same(self, ex, o):
        return isinstance(o, WMgr)

    def py_getattr(self, ex, name):
        if name in ('logLmin', 'logLmax'):
            return Shared(name)
        if name == 'connect_producer':
            def con(ex):
                g = ex.st.ghost
                g['_conn'] = g['_conn'] + 1
                return (ProdEnd(ex.slot), ex.slot)
            return Fn(con)
        if name == 'periodic_checkpoint_interval':
            return ex.fresh_flt('interval', fin=True)
        raise Unsupported('manager.' + name)


def attached(ex, ref, what):
    o = ex.obj(ref).attrs
    ex.prove(ex.st.ghost['_conn'] == 1, what + ': exactly one pipe is taken')
    ex.prove(isinstance(o.get('producer_pipe'), ProdEnd) and o['producer_pipe'].i is ex.slot and o.get('thread_id') is ex.slot, what + ': the pipe taken is the one used')
    for a in ('logLmin', 'logLmax'):
        ex.prove(isinstance(o.get(a), Shared) and o[a].name == a, what + ': %s is the shared one of this run' % a)
    ex.prove(isinstance(o.get('manager'), WMgr), what + ': the manager of this run is kept')
    ex.prove(isinstance(o.get('model'), UserModel), what + ': the model of the user is kept')


def t_new(kind):
    def t(ex):
        g = ex.st.ghost
        g.update({'_conn': 0, 'sh:logLmin': NINF, 'sh:logLmax': NINF})
        ex.slot = ex.fresh_int('slot', lo=0)
        seed, f = ex.fresh_int('seed'), SStr([('sym', 'file')])
        kw = dict(seed=seed, output=SStr([('sym', 'out')]), verbose=ex.fresh_int('verbose', lo=0), sample_prior=ex.fresh_bool('sp'), poolsize=ex.fresh_int('poolsize', lo=1),
                  proposal=Opaque('proposal'), resume_file=f, manager=WMgr())
        mx = ex.fresh_int('maxmcmc', lo=1)
        r = noraise(ex, lambda: ex.instantiate(cls(ex, S + kind), [UserModel(), mx], kw), kind)
        attached(ex, r, kind)
        o = ex.obj(r).attrs
        ex.prove(eq(o['seed'], seed), 'the seed is the one given')
        ex.prove(o['resume_file'] is f, 'the checkpoint file is the one given')
        ex.prove(eq(o['maxmcmc'], mx) and eq(o['poolsize'], kw['poolsize']), 'chain length and pool size are the ones given')
        ex.prove(o['initialised'] is False, 'the pool is drawn when the worker starts')
        ex.prove(eq(ex.obj(o['evolution_points']).pay.n, 0) and eq((ex.obj(o['evolution_points']).meta or {}).get('maxlen'), kw['poolsize']), 'the pool is empty and holds at most poolsize points')
    return t


def t_flag(ex):
    """CPNest.checkpoint raises the flag of the manager"""
    g = ex.st.ghost
    g.update({'v:flag': z3.IntVal(0), '_held': False})
    ex.locked = ()
    m = ex.new(cls(ex, C + 'RunManager'), attrs={'checkpoint_flag': Val('flag')})
    ref = ex.new(cls(ex, C + 'CPNest'), attrs={'manager': m})
    noraise(ex, lambda: call_real(ex, C + 'CPNest.checkpoint', [ref]), 'checkpoint')
    v = ex.st.ghost['v:flag']
    ex.prove(Not(eq(v, 0)) if lib.isint(v) else v is True, 'the flag of the manager is raised')


def base_init(ex, self, *a, **k):
    return None


def base_start(ex, self, *a, **k):
    ex.st.ghost['base'] = z3.simplify(ex.st.ghost['base'] + 1)


def externals_():
    e = dict(externals())
    e.update({'os.path': Files(), 'os.makedirs': Fn(no_effect), 'multiprocessing.Process': Fn(proc), 'multiprocessing.Pipe': Fn(mp_pipe), 'multiprocessing.Value': Fn(mp_value),
              'multiprocessing.cpu_count': Fn(lambda ex: ex.fresh_int('cpus', lo=1)), 'ctypes.c_int': Opaque('c_int'), 'ctypes.c_double': Opaque('c_double')})
    for b in ('multiprocessing.managers.SyncManager', 'SyncManager'):
        e['ext:%s.__init__' % b] = Fn(base_init)
        e['ext:%s.start' % b] = Fn(base_start)
    return e


def targets(tier):
    c = {C + 'RunManager': run_manager, 'cpnest.NestedSampling.NestedSampler': ns_made, 'cpnest.NestedSampling.NestedSampler.resume': ns_resumed,
         'cpnest.utils.LogFile': lambda ex, *a, **k: Ctx(), S + 'Sampler.resume': resumed}
    for k in KINDS:
        c[S + k] = made(k)
    for p in ('DefaultProposalCycle', 'HamiltonianProposalCycle', 'EnsembleSliceProposalCycle'):
        c['cpnest.proposal.' + p] = lambda ex, *a, **k: Opaque('proposal')
    e = externals_()
    T = [Target(C + 'CPNest.__init__', t_setup, contracts=c, externals=e, pool=[('workers so far', cand), ('seeds so far', cand_seed), ('processes so far', cand_pool)], min_obl=20),
         Target(C + 'RunManager.__init__', t_manager, externals=e, pool=[('pipes so far', cand_pipes)], covers=(C + 'RunManager.__init__', C + 'RunManager.start'), min_obl=8),
         Target(C + 'RunManager.connect_producer', t_connect, externals=e, min_obl=4),
         Target(C + 'CPNest.checkpoint', t_flag, externals=e)]
    for k in KINDS:
        T.append(Target(S + k + '()', t_new(k), externals=e, covers=(S + 'Sampler.__init__',), min_obl=8))
    return T
