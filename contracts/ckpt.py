"""Ghost file system and pickling, for C18 and C19.

Files: `_fs` maps a file name to what it holds: ('old',) the previous checkpoint (or no file), ('new', image) a complete image,
('partial',) anything else, ('gone',).  After every step of a library call that touches files (opening truncates; dumping
writes bytes; only flush and close complete them; os.replace is atomic) the monitor proves that the checkpoint file holds
the previous or a complete new checkpoint: these are exactly the points at which a crash can leave the disk in another state.

Pickling: an image of an object of the package is made by running its real __getstate__ (else its __dict__), recursively and keeping
shared references shared; loading makes new objects and runs their real __setstate__.  Containers and live points are
copied with equal contents (live points: proved in C16).  Shared values, pipes, locks, managers, generators and
files cannot be pickled."""
import ast
from .ns import *
from . import c22
from pyvc import frontend
from pyvc.loops import same

BOUND = ('model', 'manager', 'logLmin', 'logLmax', 'logger', 'producer_pipe', 'thread_id', 'last_checkpoint_time')


class Img:
    """image of one object"""
    def __init__(self, cls, pay, meta, attrs, setstate):
        self.cls, self.pay, self.meta, self.attrs, self.setstate = cls, pay, meta, attrs, setstate


class Rng(Model):
    pass


def unpicklable(ex, v):
    return isinstance(v, (Shared, Pipe, WorkerEnd, Manager, Mgr2, Handle, LockCM, E.GenObj)) or v.__class__.__name__ in ('Pipes', 'Val', 'Held')


class WorkerEnd(Model):
    def __init__(self, tag):
        self.tag = tag

    def same(self, o):
        return isinstance(o, WorkerEnd) and o.tag == self.tag


class Mgr2(Manager):
    """the manager of the run numbered `run`"""
    def __init__(self, run):
        self.run = run

    def same(self, o):
        return isinstance(o, Mgr2) and o.run == self.run

    def py_same(self, ex, o):
        return self.same(o)

    def py_getattr(self, ex, name):
        if name in ('logLmin', 'logLmax'):
            return Shared(name + str(self.run))
        if name == 'connect_producer':
            def con(ex):
                g = ex.st.ghost
                g['_conn'] = g['_conn'] + 1
                return (WorkerEnd(self.run), SInt('slot%d' % self.run))
            return Fn(con)
        if name == 'nthreads':
            return ex.nthreads
        if name == 'periodic_checkpoint_interval':
            return ex.fresh_flt('interval', fin=True)
        raise Unsupported('manager.' + name)


def SInt(name):
    return z3.Int(name)


class Mod2(UserModel):
    """the user's model, given to run number `run`"""
    def __init__(self, run):
        self.run = run

    def same(self, o):
        return isinstance(o, Mod2) and o.run == self.run

    def py_same(self, ex, o):
        return self.same(o)

    def py_getattr(self, ex, name):
        if name in ('potential', 'force', 'log_likelihood', 'log_prior', 'in_bounds'):
            return E.Bound(Fn(lambda ex, *a: unsupp(name), name), self)
        if name == 'bounds':
            return ex.new_list(ex.fresh_seq('bounds', ex.fresh_int('dim', lo=1), KTuple([KFlt(True), KFlt(True)])))
        return super().py_getattr(ex, name)


def unsupp(n):
    raise Unsupported('call of model.' + n)


# ------------------------------------------------------------------ files
def fname(ex, f):
    return tuple(lib.parts(f))


def content(ex, n):
    for k, v in ex.st.ghost['_fs']:
        if k == n:
            return v
    return ('gone',)


def put(ex, n, v):
    g = ex.st.ghost
    g['_fs'] = tuple((k, w) for k, w in g['_fs'] if k != n) + ((n, v),)
    monitor(ex)


def monitor(ex):
    c = content(ex, ex.F)
    if ex.st.ghost.get('_watch'):
        ex.prove(c[0] in ('old', 'new'), 'at every moment the checkpoint file holds the previous or the complete new checkpoint')


class Handle(Model):
    def __init__(self, n, mode):
        self.n, self.mode, self.img, self.whole, self.open = n, mode, None, False, True

    def same(self, o):
        return self is o

    def py_enter(self, ex):
        return self

    def py_exit(self, ex, exc):
        self.close(ex)
        return False

    def flush(self, ex):
        if 'r' in self.mode:
            return
        put(ex, self.n, ('new', self.img) if self.whole else ('partial',))

    def close(self, ex):
        if self.open:
            self.open = False
            self.flush(ex)

    def py_getattr(self, ex, name):
        if name == 'close':
            return Fn(self.close)
        if name == 'flush':
            return Fn(self.flush)
        if name == 'fileno':
            return Fn(lambda ex: FD())
        if name == 'name':
            return SStr(list(self.n))
        if name == 'write':
            def w(ex, b):
                if not (isinstance(b, Model) and isinstance(b, Bytes)):
                    raise Unsupported('bytes written')
                self.img, self.whole = b.img, self.img is None
                put(ex, self.n, ('partial',))
            return Fn(w)
        if name == 'read':
            return Fn(lambda ex: Bytes(read(ex, self)))
        raise Unsupported('file.' + name)


class FD(Model):
    pass


class Bytes(Model):
    def __init__(self, img):
        self.img = img


def f_open(ex, name, mode='r', *a, **k):
    g = ex.st.ghost
    n = fname(ex, name)
    if g.get('_fs') is None:
        return File()
    if 'r' in mode and '+' not in mode:
        if content(ex, n)[0] == 'gone':
            lib.raise_('FileNotFoundError')
        return Handle(n, mode)
    if mode != 'wb':
        raise Unsupported('open mode ' + str(mode))
    if n != ex.F and ex.st.ghost.get('_watch'):
        own = any(p in n for p in ex.F if not isinstance(p, str)) or any(not isinstance(p, str) and p[0] == 'int' for p in n)
        ex.prove(own, 'a scratch file is named after the checkpoint file (no other process writes it)')
    put(ex, n, ('partial',))
    return Handle(n, mode)


def f_replace(ex, a, b):
    a, b = fname(ex, a), fname(ex, b)
    if a == b:
        return
    c = content(ex, a)
    if c[0] == 'gone':
        lib.raise_('FileNotFoundError')
    g = ex.st.ghost
    g['_fs'] = tuple((k, w) for k, w in g['_fs'] if k not in (a, b)) + ((b, c),)
    monitor(ex)


def f_remove(ex, a):
    n = fname(ex, a)
    if content(ex, n)[0] == 'gone':
        lib.raise_('FileNotFoundError')
    g = ex.st.ghost
    g['_fs'] = tuple((k, w) for k, w in g['_fs'] if k != n)
    monitor(ex)


def f_copy(ex, a, b, **k):
    a, b = fname(ex, a), fname(ex, b)
    c = content(ex, a)
    if c[0] == 'gone':
        lib.raise_('FileNotFoundError')
    put(ex, b, ('partial',))
    put(ex, b, c)


class Paths(Model):
    def py_getattr(self, ex, name):
        if name == 'join':
            return Fn(lambda ex, *a: SStr([x for s in a for x in lib.parts(s)]))
        if name in ('exists', 'isfile'):
            return Fn(lambda ex, f: content(ex, fname(ex, f))[0] != 'gone' and ex.branch(ex.fresh_bool('there')) if content(ex, fname(ex, f))[0] == 'old' else content(ex, fname(ex, f))[0] != 'gone')
        if name in ('dirname', 'basename', 'abspath'):
            return Fn(lambda ex, f: SStr([('sym', name)] + list(lib.parts(f))))
        raise Unsupported('os.path.' + name)


# ------------------------------------------------------------------ pickling
def dump(ex, obj, f, *a, **k):
    if not isinstance(f, Handle):
        raise Unsupported('dump to %r' % (f,))
    put(ex, f.n, ('partial',))
    if ex.st.ghost.get('_mayfail') and ex.branch(ex.fresh_bool('disk_full')):
        raise E.PyRaise(E.PyExc('OSError', ()))
    img = image(ex, obj, {})
    f.whole = f.img is None
    f.img = img


def dumps(ex, obj, *a, **k):
    return Bytes(image(ex, obj, {}))


def load(ex, f, **k):
    if not isinstance(f, Handle):
        raise Unsupported('load from %r' % (f,))
    return rebuild(ex, read(ex, f), {})


def read(ex, f):
    c = content(ex, f.n)
    if c[0] != 'new':
        raise Unsupported('load of a file not written here')
    return c[1]


def image(ex, v, memo):
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        o = ex.obj(v)
        if isinstance(o.cls, E.ClassInfo):
            im = memo[v.id] = Img(o.cls, o.pay, o.meta, None, False)
            m, kind, _ = ex.find_method(o.cls, '__getstate__')
            st = ex.call(m, [v]) if m is not None else None
            if m is None:
                d = dict(o.attrs)
            elif isinstance(st, E.DictView):
                d = dict(ex.obj(st.ref).attrs)
            elif isinstance(st, Ref) and ex.obj(st).cls == 'dict' and isinstance(ex.obj(st).pay, dict):
                d = dict(ex.obj(st).pay)
            else:
                raise Unsupported('__getstate__ returns %r' % (st,))
            im.attrs = {k: image(ex, w, memo) for k, w in d.items()}
            return im
        im = memo[v.id] = Img(o.cls, None, o.meta, None, False)
        if isinstance(o.pay, dict):
            im.pay = {k: image(ex, w, memo) for k, w in o.pay.items()}
        elif isinstance(o.pay, Seq) and o.pay.items is not None:
            im.pay = [image(ex, w, memo) for w in o.pay.items]
        else:
            im.pay = o.pay
        return im
    if isinstance(v, E.Bound):
        return ('bound', v.fn, image(ex, v.self_, memo))
    if isinstance(v, tuple):
        return ('tuple', [image(ex, w, memo) for w in v])
    if unpicklable(ex, v):
        raise E.PyRaise(E.PyExc('TypeError', ('cannot pickle',)))
    return ('value', v)


def rebuild(ex, im, memo):
    if isinstance(im, Img):
        if id(im) in memo:
            return memo[id(im)]
        if isinstance(im.cls, E.ClassInfo):
            r = memo[id(im)] = ex.new(im.cls, attrs={}, pay=im.pay, meta=im.meta)
            d = {k: rebuild(ex, w, memo) for k, w in im.attrs.items()}
            m, kind, _ = ex.find_method(im.cls, '__setstate__')
            if m is not None:
                ex.call(m, [r, ex.new('dict', pay=d)])
            else:
                ex.obj(r).attrs = d
            return r
        r = memo[id(im)] = ex.new(im.cls, pay=None, meta=im.meta)
        if isinstance(im.pay, dict):
            ex.obj(r).pay = {k: rebuild(ex, w, memo) for k, w in im.pay.items()}
        elif isinstance(im.pay, list):
            ex.obj(r).pay = Seq.of([rebuild(ex, w, memo) for w in im.pay])
        else:
            ex.obj(r).pay = im.pay
        return r
    if im[0] == 'bound':
        return E.Bound(im[1], rebuild(ex, im[2], memo))
    if im[0] == 'tuple':
        return tuple(rebuild(ex, w, memo) for w in im[1])
    return im[1]


# ------------------------------------------------------------------ comparing states
def picture(ex, v, memo, skip=()):
    """content of a state, comparable later (no side effects, no __getstate__)"""
    if isinstance(v, Ref):
        if v.id in memo:
            return ('ref', memo[v.id])
        memo[v.id] = len(memo)
        o = ex.obj(v)
        at = {k: picture(ex, w, memo) for k, w in sorted((o.attrs or {}).items()) if k not in skip} if isinstance(o.cls, E.ClassInfo) else {}
        if isinstance(o.pay, dict):
            p = ('dict', {k: picture(ex, w, memo) for k, w in o.pay.items()})
        elif isinstance(o.pay, Seq) and o.pay.items is not None:
            p = ('items', [picture(ex, w, memo) for w in o.pay.items])
        else:
            p = ('pay', o.pay)
        return ('obj', o.cls, at, p, (o.meta or {}).get('maxlen'))
    if isinstance(v, E.Bound):
        return ('bound', v.fn, picture(ex, v.self_, memo))
    if isinstance(v, tuple):
        return ('tuple', [picture(ex, w, memo) for w in v])
    return ('value', v)


def compare(ex, a, b, path, what, inner=()):
    """prove that picture b is picture a"""
    if a[0] != b[0]:
        ex.prove(False, '%s: %s' % (what, path))
        return
    if a[0] == 'obj':
        if a[1] != b[1] and not (isinstance(a[1], E.ClassInfo) and isinstance(b[1], E.ClassInfo) and a[1].qual == b[1].qual):
            ex.prove(False, '%s: class of %s' % (what, path))
            return
        ka, kb = {k for k in a[2] if k not in inner}, {k for k in b[2] if k not in inner}
        for k in sorted(ka ^ kb):
            ex.prove(False, '%s: %s.%s is there' % (what, path, k) if k in ka else '%s: no new attribute %s.%s' % (what, path, k))
        for k in sorted(ka & kb):
            compare(ex, a[2][k], b[2][k], path + '.' + k, what, inner)
        compare_pay(ex, a[3], b[3], path, what, inner)
        ex.prove(a[4] is b[4] or bool_same(a[4], b[4]), '%s: %s' % (what, path))
    elif a[0] == 'ref':
        ex.prove(a[1] == b[1], '%s: %s (shared parts stay shared)' % (what, path))
    elif a[0] == 'bound':
        ex.prove(a[1] is b[1] or getattr(a[1], 'qual', 0) == getattr(b[1], 'qual', 1) or getattr(a[1], 'name', 0) == getattr(b[1], 'name', 1), '%s: %s' % (what, path))
        compare(ex, a[2], b[2], path, what, inner)
    elif a[0] == 'tuple':
        ex.prove(len(a[1]) == len(b[1]), '%s: %s' % (what, path))
        for x, y in zip(a[1], b[1]):
            compare(ex, x, y, path, what, inner)
    else:
        x, y = a[1], b[1]
        if x is y or bool_same(x, y):
            ex.prove(True, '%s: %s' % (what, path))
        elif isinstance(x, SFlt) and isinstance(y, SFlt):
            ex.prove(f_same(x, y), '%s: %s' % (what, path))
        elif (lib.isint(x) and lib.isint(y)):
            ex.prove(eq(x, y), '%s: %s' % (what, path))
        elif lib.isbool(x) and lib.isbool(y):
            ex.prove(iff(x, y), '%s: %s' % (what, path))
        elif isinstance(x, lib.Logger) and isinstance(y, lib.Logger):
            ex.prove(True, '%s: %s' % (what, path))
        elif isinstance(x, E.GenObj) and isinstance(y, E.GenObj):
            ex.prove(x.fn.qual == y.fn.qual, '%s: %s' % (what, path))
        elif isinstance(x, E.Poison) and isinstance(y, E.Poison):
            pass
        else:
            ex.prove(False, '%s: %s' % (what, path))


def bool_same(x, y):
    try:
        return type(x) is type(y) and not isinstance(x, Opaque) and bool(same(x, y))
    except Exception:
        return False


def elem_same(ex, x, y):
    if isinstance(x, LP) and isinstance(y, LP):
        return eq(x.ref, y.ref)
    if isinstance(x, SFlt) and isinstance(y, SFlt):
        return f_same(x, y)
    return lib.py_eq(ex, x, y)


def compare_pay(ex, p, q, path, what, inner):
    if p[0] != q[0]:
        ex.prove(False, '%s: contents of %s' % (what, path))
    elif p[0] == 'dict':
        ex.prove(set(p[1]) == set(q[1]), '%s: keys of %s' % (what, path))
        for k in set(p[1]) & set(q[1]):
            compare(ex, p[1][k], q[1][k], path + '[%r]' % k, what, inner)
    elif p[0] == 'items':
        ex.prove(len(p[1]) == len(q[1]), '%s: length of %s' % (what, path))
        for x, y in zip(p[1], q[1]):
            compare(ex, x, y, path + '[]', what, inner)
    elif p[1] is not q[1]:
        s, t = p[1], q[1]
        if not (isinstance(s, Seq) and isinstance(t, Seq)):
            ex.prove(False, '%s: contents of %s' % (what, path))
            return
        ex.prove(And(eq(s.n, t.n), forall(s.n, lambda k: elem_same(ex, s.get(k), t.get(k)))), '%s: contents of %s' % (what, path))


# ------------------------------------------------------------------ arbitrary states
def method_attrs(c):
    """names of the attributes any method of the class stores on self"""
    out = set()
    for k in c.mro():
        if isinstance(k, E.ClassInfo):
            for m, _ in k.methods.values():
                if not m.args.args:
                    continue
                s = m.args.args[0].arg
                for x in ast.walk(m):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == s:
                        out.add(x.attr)
            out -= set(k.setters)
    return out


def fill(ex, ref, skip=()):
    """attributes that other methods add during a run: any value"""
    o = ex.obj(ref)
    for a, v in sorted(o.attrs.items()):
        # what the constructor set may have been changed since
        if a in skip or a in BOUND or a == 'resume_file':
            continue
        if isinstance(v, bool):
            o.attrs[a] = ex.fresh_bool(a)
        elif isinstance(v, int):
            o.attrs[a] = ex.fresh_int(a)
        elif isinstance(v, (float, SFlt)) or lib.isnum(v) and not lib.isint(v):
            o.attrs[a] = ex.fresh_flt(a)
        elif v is None:
            o.attrs[a] = Opaque(o.cls.name + '.' + a)
    for a in sorted(method_attrs(o.cls)):
        if a not in o.attrs and a not in skip and not a.startswith('__'):
            o.attrs[a] = Opaque(o.cls.name + '.' + a)


def shared_state(ex):
    g = ex.st.ghost
    g['_conn'] = 0
    for r in (1, 2):
        for n in ('logLmin', 'logLmax'):
            g['sh:%s%d' % (n, r)] = ex.fresh_flt(n + str(r), nonan=True)


def start_fs(ex, ref, watch, fail=False):
    ex.F = fname(ex, ex.obj(ref).attrs['resume_file'])
    g = ex.st.ghost
    g['_fs'] = ((ex.F, ('old',)),)
    g['_watch'], g['_mayfail'] = watch, fail


def coordinator(ex):
    ex.st.ghost['_fs'] = None
    ref, N = sampler(ex)
    live_state(ex, ref, N)
    shared_state(ex)
    o = ex.obj(ref)
    m = Mgr2(1)
    o.attrs.update(manager=m, logLmin=Shared('logLmin1'), logLmax=Shared('logLmax1'), model=Mod2(1), resume_file=SStr([('sym', 'resume')]), logZ=Opaque('logZ'))
    o.attrs['params_keys'] = None
    del o.attrs['params_keys']
    fill(ex, ref, ('llmin', 'llmax'))
    fill(ex, o.attrs['state'])
    so = ex.obj(o.attrs['state'])
    for a in ('logLs', 'log_vols'):
        so.attrs[a] = ex.new_list(ex.fresh_seq(a, ex.fresh_int('n' + a, lo=1), KFlt()))
    return ref


class Scipy(Model):
    pass


def worker(ex, kind, cyc):
    ex.st.ghost['_fs'] = None
    shared_state(ex)
    PR = 'cpnest.proposal.'
    kw = {'model': Mod2(1)} if cyc == 'HamiltonianProposalCycle' else {}
    p = ex.instantiate(cls(ex, PR + cyc), [], kw)
    # everything the proposals hold during a run
    po = ex.obj(p)
    fill(ex, p)
    for v in list(po.attrs.values()):
        if isinstance(v, Ref) and ex.obj(v).cls == 'list' and ex.obj(v).pay.items is not None:
            for q in ex.obj(v).pay.items:
                if isinstance(q, Ref) and isinstance(ex.obj(q).cls, E.ClassInfo):
                    fill(ex, q)
    po.attrs['idx'] = ex.fresh_int('idx', lo=0)
    ps = ex.fresh_int('poolsize', lo=4)
    r = ex.instantiate(cls(ex, 'cpnest.sampler.' + kind), [Mod2(1), ex.fresh_int('maxmcmc', lo=10)],
                       dict(seed=ex.fresh_int('seed'), output=SStr([('sym', 'out')]), verbose=ex.fresh_int('verbose', lo=0), sample_prior=ex.fresh_bool('sp'), poolsize=ps,
                            proposal=p, resume_file=SStr([('sym', 'resume')]), manager=Mgr2(1)))
    o = ex.obj(r)
    pool = o.attrs['evolution_points'] = ex.new('deque', pay=ex.fresh_seq('pool', ps, KLP()), meta={'maxlen': ps})
    # the proposals hold the pool itself
    for v in list(po.attrs.values()):
        if isinstance(v, Ref) and ex.obj(v).cls == 'list' and ex.obj(v).pay.items is not None:
            for q in ex.obj(v).pay.items:
                if isinstance(q, Ref) and isinstance(ex.obj(q).cls, E.ClassInfo) and 'ensemble' in ex.obj(q).attrs:
                    ex.obj(q).attrs['ensemble'] = pool
    o.attrs['samples'] = ex.new_list(ex.fresh_seq('samples', ex.fresh_int('ns', lo=0), KLP()))
    for a in ('Nmcmc', 'mcmc_accepted', 'mcmc_counter'):
        o.attrs[a] = ex.fresh_int(a, lo=0)
    for a in ('Nmcmc_exact', 'acceptance', 'sub_acceptance'):
        o.attrs[a] = ex.fresh_flt(a, fin=True)
    o.attrs['initialised'] = ex.fresh_bool('init')
    fill(ex, r)
    ex.st.ghost['_conn'] = 0
    return r


def opaque_fn(tag):
    return Fn(lambda ex, *a, **k: Opaque(tag))


EXT = dict(externals())
EXT.update({'builtin:open': Fn(f_open), 'os.replace': Fn(f_replace), 'os.rename': Fn(f_replace), 'os.remove': Fn(f_remove), 'os.unlink': Fn(f_remove),
            'shutil.copy': Fn(f_copy), 'shutil.copyfile': Fn(f_copy), 'shutil.copy2': Fn(f_copy), 'shutil.move': Fn(f_replace), 'os.path': Paths(), 'os.fsync': Fn(no_effect),
            'pickle.dump': Fn(dump), 'pickle.dumps': Fn(dumps), 'pickle.load': Fn(load),
            'pickle.loads': Fn(lambda ex, b, **k: rebuild(ex, b.img, {})), 'os.getpid': Fn(lambda ex: z3.Int('pid'))})
WORKERS = [('MetropolisHastingsSampler', 'DefaultProposalCycle'), ('HamiltonianMonteCarloSampler', 'HamiltonianProposalCycle'), ('SliceSampler', 'EnsembleSliceProposalCycle')]
