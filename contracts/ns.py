"""Environment and callee contracts for the coordinator (NestedSampler)."""
from pyvc.spec import *
from pyvc.values import *
from pyvc import lib, npmodel, engine as E
from . import c01

NS = 'cpnest.NestedSampling.'
I, R = z3.IntSort(), z3.RealSort()


def logl(ex, p):
    return ex.lp_get(p, 'logL')


# ------------------------------------------------------------------ shared values and pipes
class Shared(Model):
    """multiprocessing Value; `rely(ex, old)` gives the value another process may have left"""
    def __init__(self, name, rely=None):
        self.name, self.rely = name, rely

    def key(self):
        return 'sh:' + self.name

    def py_getattr(self, ex, name):
        if name == 'value':
            if self.rely is not None:
                ex.st.ghost[self.key()] = self.rely(ex, ex.st.ghost[self.key()])
            return ex.st.ghost[self.key()]
        if name in ('get_lock', 'get_obj'):
            return Fn(lambda ex: LockCM())
        raise Unsupported('shared value attribute ' + name)

    def py_setattr(self, ex, name, v):
        if name != 'value':
            raise Unsupported('shared value attribute ' + name)
        ex.st.ghost[self.key()] = flt(lib.as_num(v)).with_(npy=False)

    def same(self, o):
        return isinstance(o, Shared) and o.name == self.name

    def py_same(self, ex, o):
        return self.same(o)


class LockCM(Model):
    def py_enter(self, ex):
        return None

    def py_exit(self, ex, exc):
        return False

    def py_getattr(self, ex, name):
        if name in ('acquire', 'release'):
            return Fn(lambda ex, *a: True)
        raise Unsupported('lock.' + name)


def max_rely(ex, old):
    """workers only raise the maximum (C24)"""
    v = ex.fresh_flt('logLmax', nonan=True)
    ex.assume(f_le(old, v))
    return v


class Pipe(Model):
    def __init__(self, i):
        self.i = i

    def same(self, o):
        from pyvc.loops import same
        return isinstance(o, Pipe) and same(zi(self.i), zi(o.i))

    def subst(self, a, b):
        from pyvc import comp
        return Pipe(comp.subst(zi(self.i), a, b))

    def v_ite(self, c, o):
        return Pipe(i_ite(c, self.i, o.i))

    def kind_of_elem(self):
        return KMod(Pipe, lambda v: v.i)

    def py_same(self, ex, o):
        return isinstance(o, Pipe) and eq(self.i, o.i)

    def py_getattr(self, ex, name):
        if name == 'send':
            return Fn(lambda ex, m: send(ex, self.i, m), 'send')
        if name == 'recv':
            return Fn(lambda ex: recv(ex, self.i), 'recv')
        if name in ('close',):
            return Fn(lambda ex: None)
        raise Unsupported('pipe.' + name)


def bump(ex, g, i, d):
    a = ex.st.ghost[g]
    ex.st.ghost[g] = z3.Store(a, zi(i), z3.Select(a, zi(i)) + d)


def send(ex, i, m):
    if m is None:
        ex.prove(f_same(ex.st.ghost['sh:logLmin'], PINF), 'stop message: sent after the threshold is +inf')
        bump(ex, 'stops', i, 1)
    elif isinstance(m, str):
        ex.prove(m == 'checkpoint', 'text message is the checkpoint request')
        bump(ex, 'ckpts', i, 1)
    elif isinstance(m, LP):
        bump(ex, 'out', i, 1)
        bump(ex, 'asks', i, 1)
    else:
        raise Unsupported('message %r' % (m,))


def recv(ex, i):
    out = ex.st.ghost['out']
    ex.prove(z3.Select(out, zi(i)) >= 1, 'recv: the worker owes a reply')
    bump(ex, 'out', i, -1)
    bump(ex, 'ans', i, 1)
    ex.st.ghost['answers'] = z3.simplify(ex.st.ghost['answers'] + 1)
    p = reply(ex)
    a, s, j = ex.fresh_flt('acc', fin=True), ex.fresh_flt('sub', fin=True), ex.fresh_int('jumps', lo=0)
    return (a, s, j, p)


def reply(ex):
    """the worker contract (C21, C25): a point, whose likelihood is not nan"""
    p = ex.new_lp()
    arrs = dict(logLk=I, logLr=R, logPk=I, logPr=R)
    ex.lp_set(p, 'logL', ex.fresh_flt('propL', nonan=True))
    ex.lp_set(p, 'logP', ex.fresh_flt('propP', nonan=True))
    ex.lp_set(p, 'vals', z3.Const(ex._n('propvals'), z3.ArraySort(I, R)))
    return p


class Pipes(Model):
    def py_len(self, ex):
        return ex.nthreads

    def py_iter(self, ex):
        return Seq(ex.nthreads, Pipe)

    def py_getitem(self, ex, i):
        return Pipe(lib.norm_index(ex, ex.nthreads, i))

    def same(self, o):
        return isinstance(o, Pipes)

    def py_same(self, ex, o):
        return isinstance(o, Pipes)


class Manager(Model):
    def py_getattr(self, ex, name):
        if name == 'logLmin':
            return Shared('logLmin')
        if name == 'logLmax':
            return Shared('logLmax', None if ex.opts.get('quiet_lmax') else max_rely)
        if name == 'consumer_pipes':
            return Pipes()
        if name == 'nthreads':
            return ex.nthreads
        if name == 'periodic_checkpoint_interval':
            return SFlt(z3.Real('periodic_checkpoint_interval'))
        raise Unsupported('manager.' + name)

    def same(self, o):
        return isinstance(o, Manager)

    def py_same(self, ex, o):
        return isinstance(o, Manager)


class UserModel(Model):
    """the user's model"""
    def py_getattr(self, ex, name):
        if name == 'new_point':
            return Fn(lambda ex: reply(ex))
        if name == 'names':
            return lib.NamesVal()
        if name in ('header', 'strsample'):
            return Fn(lambda ex, *a: SStr([('sym', name)]))
        raise Unsupported('model.' + name)

    def same(self, o):
        return isinstance(o, UserModel)

    def py_same(self, ex, o):
        return isinstance(o, UserModel)


class File(Model):
    def py_enter(self, ex):
        return self

    def py_exit(self, ex, exc):
        return False

    def py_getattr(self, ex, name):
        if name in ('write', 'close', 'flush', 'fileno'):
            return Fn(lambda ex, *a: None)
        raise Unsupported('file.' + name)


class Path(Model):
    """os.path"""
    def py_getattr(self, ex, name):
        if name == 'join':
            return Fn(lambda ex, *a: SStr([('sym', 'path')]))
        raise Unsupported('os.path.' + name)


class PBar(Model):
    def py_enter(self, ex):
        return self

    def py_exit(self, ex, exc):
        return False

    def py_getattr(self, ex, name):
        return Fn(lambda ex, *a, **k: None)

    def same(self, o):
        return isinstance(o, PBar)


def no_effect(ex, *a, **k):
    return None


def externals():
    return {'os.path': Path(), 'builtin:open': Fn(lambda ex, *a, **k: File()), 'tqdm.tqdm': Fn(lambda ex, *a, **k: PBar()),
            'sys.stdout': PBar(), 'sys.stderr': PBar(), 'os.getpid': Fn(lambda ex: ex.fresh_int('pid')),
            'sys.exit': Fn(lambda ex, c=0: lib.raise_('SystemExit', c)), 'os.replace': Fn(no_effect), 'os.fsync': Fn(no_effect),
            'scipy.stats.kstest': Fn(kstest), 'numpy.savetxt': Fn(no_effect), 'pickle.dump': Fn(no_effect),
            'scipy.integrate': lib.ModuleVal('scipy.integrate')}


def kstest(ex, *a, **k):
    ex.st.ghost['ks'] = ex.obj(a[0]).pay if isinstance(a[0], Ref) else a[0]
    return (ex.fresh_flt('D', fin=True), ex.fresh_flt('p', fin=True))


# ------------------------------------------------------------------ the ordered container, by contract (proved in C01)
def olp_new(ex, src):
    s = lib.to_seq(ex, src)
    ref = ex.new(cls(ex, NS + 'OrderedLivePoints'), attrs={}, pay=None)
    if isinstance(s.n, int) and s.n == 0:
        ex.obj(ref).pay = s
    else:
        ks = forall(s.n, lambda k: And(Not(f_isnan(logl(ex, s.get(k))))))
        if not valid_lp_seq(ex, s):
            raise Unsupported('OrderedLivePoints of non-points')
        # already sorted input: unchanged (stable sort)
        t = lib.sort_seq(ex, s, npmodel.AttrGetter('logL'))
        ex.st.facts.append(z3.Implies(zb(c01.ordered(ex, s)), zb(forall(s.n, lambda k: eq(t.meta['perm'][0](k) if t.meta else k, k)))))
        ex.obj(ref).pay = t
    return ref


def valid_lp_seq(ex, s):
    v = s.get(0) if isinstance(s.n, int) else s.get(z3.Int(ex._n('pr')))
    return isinstance(v, LP)


def olp_insert(ex, ref, p):
    o = ex.obj(ref)
    s = o.pay
    ex.prove(Not(f_isnan(logl(ex, p))), 'insert: likelihood is not nan')
    idx = ex.fresh_int('idx', lo=0)
    ex.assume(idx <= zi(s.n))
    lp = dict(ex.st.lp)
    ex.assume_forall(lambda i: z3.Implies(z3.And(i >= 0, i < zi(s.n)), zb(Iff(lt(i, idx), f_le(logl(ex, s.get(i)), logl(ex, p))))),
                     pattern=None)
    o.pay = lib.seq_insert(s, idx, p)
    g = ex.st.ghost
    if 'pos' in g and g.get('_olp') == ref.id:
        pos, org = g['pos'], g['org']
        np_ = z3.Const(ex._n('pos'), pos.sort())
        no = z3.Const(ex._n('org'), org.sort())
        q = z3.Int(ex._n('q'))
        ex.st.facts.append(z3.ForAll([q], np_[q] == z3.If(pos[q] >= idx, pos[q] + 1, pos[q]), patterns=[np_[q]]))
        ex.st.facts.append(z3.ForAll([q], no[q] == z3.If(q < idx, org[q], z3.If(q == idx, z3.IntVal(-1), org[q - 1])), patterns=[no[q]]))
        g['pos'], g['org'] = np_, no
    g['inserts'] = z3.simplify(g.get('inserts', z3.IntVal(0)) + 1)
    g['_last_insert'] = (idx, p, s)
    h = g.get('_on_insert')
    if h:
        h(ex, ref, p, idx, s)
    return idx


def olp_remove(ex, ref, n):
    o = ex.obj(ref)
    s = o.pay
    ex.prove(And(le(0, n), le(n, s.n)), 'remove: 0 <= n <= number of points')
    o.pay = lib.sub_seq(s, n, s.n)


OLP_C = {NS + 'OrderedLivePoints': olp_new, NS + 'OrderedLivePoints.insert_live_point': olp_insert, NS + 'KeyOrderedList.add': olp_insert,
         NS + 'OrderedLivePoints.remove_n_worst_points': olp_remove}


# ------------------------------------------------------------------ evidence integrator, by contract (proved in C06/C07)
def inc_contract(ex, ref, logL, nlive=None, nreplace=1):
    o = ex.obj(ref)
    nl = o.attrs['nlive'] if nlive is None else nlive
    g = ex.st.ghost
    g['incL'] = lib.seq_append(g['incL'], flt(lib.as_num(logL)))
    g['incN'] = lib.seq_append(g['incN'], lib.to_int(ex, nl))
    g['incM'] = lib.seq_append(g['incM'], lib.to_int(ex, nreplace))
    for a in ('logZ', 'logw', 'info'):
        o.attrs[a] = ex.fresh_flt(a, nonan=True, npy=True)
    ex.assume(f_lt(o.attrs['logZ'], PINF))
    o.attrs['iteration'] = lib.binop(ex, __import__('ast').Add(), o.attrs['iteration'], 1)


def fin_contract(ex, ref):
    ex.obj(ref).attrs['logZ'] = ex.fresh_flt('finalZ', nonan=True, npy=True)
    ex.st.ghost['finalised'] = z3.simplify(ex.st.ghost['finalised'] + 1)
    ex.st.ghost['_fin_incs'] = ex.st.ghost['incL'].n
    ex.st.ghost['_finZ'] = ex.obj(ref).attrs['logZ']
    return ex.obj(ref).attrs['logZ']


STATE_C = {NS + '_NSintegralState.increment': inc_contract, NS + '_NSintegralState.finalise': fin_contract,
           NS + '_NSintegralState.plot': no_effect}


# ------------------------------------------------------------------ pre-state
def init_ghost(ex):
    g = ex.st.ghost
    g['sh:logLmin'] = ex.fresh_flt('logLmin', nonan=True)
    g['sh:logLmax'] = ex.fresh_flt('logLmax', nonan=True)
    for a in ('out', 'stops', 'ckpts', 'asks', 'ans'):
        g[a] = z3.Const(ex._n(a), z3.ArraySort(I, I))
    g['answers'] = ex.fresh_int('answers')
    g['inserts'] = ex.fresh_int('inserts')
    g['finalised'] = z3.IntVal(0)
    g['incL'] = ex.fresh_seq('incL', ex.fresh_int('ninc', lo=0), KFlt())
    g['incN'] = ex.fresh_seq('incN', g['incL'].n, KInt())
    g['incM'] = ex.fresh_seq('incM', g['incL'].n, KInt())


def sampler(ex, raw=False):
    """a NestedSampler as its constructor leaves it, for any nlive and any number of workers"""
    ex.nthreads = z3.Int('nthreads')
    N = z3.Int('Nlive')
    ex.assume(z3.And(ex.nthreads >= 1, N > ex.nthreads))
    init_ghost(ex)
    c = cls(ex, NS + 'NestedSampler')
    st_new = dict(ex.contracts)
    ref = ex.instantiate(c, [UserModel()], {'manager': Manager(), 'nlive': N, 'output': 'out', 'verbose': ex.fresh_int('verbose'),
                                           'seed': 1, 'prior_sampling': ex.fresh_bool('prior_sampling'),
                                           'stopping': ex.fresh_flt('tolerance', fin=True)})
    return ref, N


def set_list(ex, ref, name, seq):
    ex.obj(ref).attrs[name] = ex.new_list(seq)


def live_state(ex, ref, N):
    """an arbitrary state between iterations: full live set, all requests answered"""
    o = ex.obj(ref)
    s = ex.fresh_seq('live', N, KLP())
    pr = ex.new(cls(ex, NS + 'OrderedLivePoints'), attrs=mirror_poison(ex), pay=s)
    o.attrs['params'] = pr
    ex.assume(c01.ordered(ex, s))
    ns = ex.fresh_seq('nested', ex.fresh_int('nns', lo=0), KLP())
    set_list(ex, ref, 'nested_samples', ns)
    set_list(ex, ref, 'insertion_indices', ex.fresh_seq('insidx', ex.fresh_int('nii', lo=0), KFlt(True)))
    set_list(ex, ref, 'rolling_p', ex.fresh_seq('rolling', ex.fresh_int('nrp', lo=0), KFlt(True)))
    for a in ('accepted', 'rejected', 'iteration'):
        o.attrs[a] = ex.fresh_int(a, lo=1 if a == 'rejected' else 0)
    o.attrs['acceptance'] = ex.fresh_flt('acceptance', fin=True)
    o.attrs['queue_counter'] = ex.fresh_int('qc', 0, ex.nthreads)
    o.attrs['condition'] = ex.fresh_flt('condition')
    o.attrs['worst'] = npmodel.nparr(ex, ex.fresh_seq('worst', ex.fresh_int('nw', lo=0), KInt()))
    o.attrs['jumps'] = ex.fresh_int('jumps')
    o.attrs['initialised'] = True
    so = ex.obj(o.attrs['state'])
    for a in ('logZ', 'logw', 'info', 'oldZ'):
        if a in so.attrs:
            so.attrs[a] = ex.fresh_flt(a, nonan=True, npy=True)
    so.attrs['iteration'] = ex.fresh_int('siter', lo=0)
    g = ex.st.ghost
    q = z3.Int(ex._n('q'))
    ex.st.facts.append(z3.ForAll([q], g['out'][q] == 0))
    g['_olp'] = pr.id
    idn = z3.Const(ex._n('pos'), z3.ArraySort(I, I))
    ex.st.facts.append(z3.ForAll([q], idn[q] == q, patterns=[idn[q]]))
    g['pos'] = idn
    g['org'] = idn
    return s, ns


def mirror_poison(ex):
    return {a: Poison('representation of the ordered container') for a in ('_keys', '_key')}
