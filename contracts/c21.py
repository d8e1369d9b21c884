"""C21: the worker loop.  Ghosts: `owed` requests taken and not answered yet, `taken`, `answered`, `stop` (0 running; 1 told to stop or the threshold was
seen at +infinity; 2 told to checkpoint), `cks` own checkpoints written, `mine` kernel calls since the last request.  The
kernels (C11, C12, C24, C25), reset, the adaptation (C23) and checkpoint (C19) are used by contract; the pipe hands
over the coordinator's messages in order."""
from .ns import *
from . import c23, c26

S = 'cpnest.sampler.Sampler'
KINDS = ('MetropolisHastingsSampler', 'HamiltonianMonteCarloSampler', 'SliceSampler')
ASSUMES = ['the pipe delivers the messages of the coordinator in order, each once', 'the coordinator only raises the threshold (C02) and sets it to +infinity when no request is unanswered (C04)',
           'precondition: poolsize >= 4', 'partial correctness: that an iteration of the loop ends is not proved']
BOUNDED = ['replay/h21.py: scripted message histories on the real loop with the three kernels']


def lmin_rely(ex, old):
    v = ex.fresh_flt('logLmin', nonan=True)
    ex.assume(f_le(old, v))
    g = ex.st.ghost
    ex.assume(Or(eq(g['owed'], 0), f_lt(v, PINF)))
    g['reads'] = z3.simplify(g['reads'] + 1)
    g['stop'] = z3.If(And(eq(g['stop'], 0), f_same(v, PINF)), z3.IntVal(1), g['stop'])
    return v


class Flag(Model):
    """raised by the coordinator process at any moment, never lowered"""
    def same(self, o):
        return isinstance(o, Flag)

    def py_getattr(self, ex, name):
        if name == 'value':
            v = ex.fresh_int('flag')
            g = ex.st.ghost
            ex.assume(Implies(Not(eq(g['flag'], 0)), Not(eq(v, 0))))
            g['flag'] = v
            g['stop'] = z3.If(Not(eq(v, 0)), z3.IntVal(2), g['stop'])
            return v
        raise Unsupported('flag.' + name)


class WM(Model):
    def same(self, o):
        return isinstance(o, WM)

    def py_same(self, ex, o):
        return isinstance(o, WM)

    def py_getattr(self, ex, name):
        if name == 'checkpoint_flag':
            return Flag()
        if name == 'periodic_checkpoint_interval':
            return SFlt(z3.Real('interval'))
        if name == 'logLmin':
            return Shared('logLmin', lmin_rely)
        raise Unsupported('manager.' + name)


class WPipe(Model):
    def same(self, o):
        return isinstance(o, WPipe)

    def py_getattr(self, ex, name):
        g = ex.st.ghost
        if name == 'poll':
            def poll(ex, t=0):
                b = ex.fresh_bool('waiting')
                ex.st.ghost['_ready'] = b
                return b
            return Fn(poll)
        if name == 'recv':
            return Fn(take)
        if name == 'send':
            return Fn(reply_)
        raise Unsupported('pipe.' + name)


def running(ex, what):
    ex.prove(eq(ex.st.ghost['stop'], 0), what)


def take(ex):
    g = ex.st.ghost
    running(ex, 'no message is taken after the stop, the checkpoint request or the end of the run')
    ex.prove(g.get('_ready') if g.get('_ready') is not None else False, 'a message is only taken when one is there')
    g['_ready'] = None
    ex.prove(eq(g['owed'], 0), 'a request is answered before the next one is taken')
    k = ex.choose(3)
    if k == 0:
        g['stop'] = z3.IntVal(1)
        return None
    if k == 1:
        g['stop'] = z3.IntVal(2)
        return 'checkpoint'
    p = ex.fresh_lp('req')
    g['owed'], g['taken'] = z3.IntVal(1), z3.simplify(g['taken'] + 1)
    g['reads'], g['mine'] = z3.IntVal(0), z3.IntVal(0)
    g['_req'] = p
    return p


def kernel(ex, gen):
    g = ex.st.ghost
    thr = flt(lib.as_num(gen.env['logLmin']))
    ref = ex.me
    o = ex.obj(ref)
    running(ex, 'no point is produced after the stop, the checkpoint request or the end of the run')
    ex.prove(f_lt(thr, PINF), 'no point is asked of the kernel with the threshold at +infinity')
    ex.prove(f_same(thr, g['sh:logLmin']), 'the threshold used is the one just read')
    po = ex.obj(o.attrs['evolution_points'])
    ex.prove(le(1, po.pay.n), 'the kernel has a point to start from')
    if ex.branch(eq(g['owed'], 1)):
        ex.prove(g['reads'] >= 1, 'a request is served with the threshold read after it was taken')
        ex.prove(eq(g['mine'], 0), 'one kernel call per request')
        last = po.pay.get(sub(po.pay.n, 1))
        ex.prove(isinstance(last, LP) and g.get('_req') is not None and last.ref == g['_req'].ref, 'the point received joins the pool before the kernel runs')
        g['mine'] = z3.simplify(g['mine'] + 1)
    po.pay = ex.fresh_seq('pool', po.pay.n, KLP())
    for a in ('acceptance', 'sub_acceptance'):
        o.attrs[a] = ex.fresh_flt(a, fin=True)
    o.attrs['mcmc_counter'] = ex.fresh_int('counter', lo=1)
    o.attrs['mcmc_accepted'] = ex.fresh_int('accepted', lo=0)
    r = (ex.fresh_int('Nmcmc', lo=1), ex.fresh_lp('out'))
    g['_last'] = (r, o.attrs['acceptance'], o.attrs['sub_acceptance'])
    return r


def reply_(ex, m):
    g = ex.st.ghost
    running(ex, 'nothing is sent after the stop, the checkpoint request or the end of the run')
    ex.prove(eq(g['owed'], 1), 'nothing is sent unasked')
    ex.prove(eq(g['mine'], 1), 'a reply follows the kernel call of its request')
    if not (isinstance(m, tuple) and len(m) == 4):
        ex.prove(False, 'a reply holds two acceptances, the count and the point')
        return
    if g.get('_last') is None:
        ex.prove(False, 'a reply holds what the kernel gave')
        return
    r, a, sa = g['_last']
    ex.prove(f_same(flt(m[0]), flt(a)) and f_same(flt(m[1]), flt(sa)), 'a reply holds the acceptances of the kernel')
    ex.prove(eq(m[2], r[0]), 'a reply holds the number of steps made')
    ex.prove(isinstance(m[3], LP) and m[3].ref == r[1].ref, 'a reply holds the point produced for it')
    g['owed'] = z3.simplify(g['owed'] - 1)
    g['answered'] = z3.simplify(g['answered'] + 1)


def ckpt(ex, ref):
    g = ex.st.ghost
    ex.prove(eq(g['owed'], 0), 'no checkpoint while a request is unanswered')
    g['cks'] = z3.simplify(g['cks'] + 1)


def reset(ex, ref):
    o = ex.obj(ref)
    o.attrs['initialised'] = True
    o.attrs['evolution_points'] = ex.new('deque', pay=ex.fresh_seq('pool', o.attrs['poolsize'], KLP()), meta={'maxlen': o.attrs['poolsize']})
    o.attrs['mcmc_counter'] = ex.fresh_int('counter', lo=1)
    o.attrs['mcmc_accepted'] = ex.fresh_int('accepted', lo=0)
    ex.st.ghost['resets'] = z3.simplify(ex.st.ghost['resets'] + 1)


def adapt(ex, ref, *a, **k):
    ex.obj(ref).attrs['Nmcmc'] = ex.fresh_int('Nmcmc', lo=1)
    return ex.obj(ref).attrs['Nmcmc']


class Ens(Model):
    def same(self, o):
        return isinstance(o, Ens)

    def py_getattr(self, ex, name):
        if name == 'set_ensemble':
            def se(ex, e):
                ex.prove(isinstance(e, Ref) and e == ex.obj(ex.me).attrs['evolution_points'], 'the ensemble of the proposal is the pool')
            return Fn(se)
        raise Unsupported('proposal.' + name)


def worker(ex, kind):
    g = ex.st.ghost
    for a in ('owed', 'taken', 'answered', 'cks', 'resets', 'reads', 'mine', 'stop', 'flag'):
        g[a] = z3.IntVal(0)
    g['flag'] = ex.fresh_int('flag0')
    g['_ready'] = g['_last'] = g['_req'] = None
    g['sh:logLmin'] = ex.fresh_flt('logLmin0', nonan=True)
    ps = ex.fresh_int('poolsize', lo=4)
    ref = c23.base(ex, 'cpnest.sampler.' + kind, poolsize=ps, manager=WM(), producer_pipe=WPipe(), logLmin=Shared('logLmin', lmin_rely), proposal=Ens(),
                   initialised=ex.fresh_bool('initialised'), sample_prior=ex.fresh_bool('sample_prior'), output='out', last_checkpoint_time=ex.fresh_flt('t0', fin=True),
                   evolution_points=ex.new('deque', pay=ex.fresh_seq('pool', ps, KLP()), meta={'maxlen': ps}),
                   samples=ex.new_list(ex.fresh_seq('samples', ex.fresh_int('ns', lo=0), KLP())), mcmc_counter=ex.fresh_int('mc', lo=1), mcmc_accepted=ex.fresh_int('ma', lo=0))
    ex.me = ref
    return ref


def t_loop(kind):
    def t(ex):
        ref = worker(ex, kind)
        ini = ex.obj(ref).attrs['initialised']
        try:
            r = call_real(ex, 'cpnest.sampler.%s._produce_sample' % kind, [ref])
        except E.PyRaise as e:
            g = ex.st.ghost
            if e.exc.name != 'SystemExit':
                ex.prove(False, 'the loop does not end with %s' % e.exc.name)
                return
            ex.prove(eq(g['stop'], 2), 'the process only exits when told to checkpoint')
            ex.prove(eq(e.exc.args[0] if e.exc.args else 0, 130), 'it exits with the checkpoint status')
            ex.prove(g['cks'] >= 1, 'it writes its own checkpoint first')
            ex.prove(And(eq(g['owed'], 0), eq(g['taken'], g['answered'])), 'every request taken was answered once')
            return
        g = ex.st.ghost
        ex.prove(eq(g['stop'], 1), 'the loop only ends when told to stop or at threshold +infinity')
        ex.prove(And(eq(g['owed'], 0), eq(g['taken'], g['answered'])), 'every request taken was answered once')
        ex.prove(Implies(ini, eq(g['resets'], 0)) if not isinstance(ini, bool) else True, 'a worker that has its pool does not draw a new one')
        ex.prove(Implies(Not(ini), eq(g['resets'], 1)), 'a new worker draws its pool once')
    return t


def cand(L):
    g = L.ex.st.ghost
    o = L.ex.obj(L.ex.me).attrs
    po = L.ex.obj(o['evolution_points'])
    return And(eq(g['owed'], 0), eq(g['taken'], g['answered']), eq(g['stop'], 0), eq(po.pay.n, o['poolsize']))


def t_signal(ex):
    """an interrupt inside the loop: one checkpoint, nothing sent"""
    ref = worker(ex, KINDS[0])
    how = ex.choose(3)

    def body(ex, r):
        if how == 0:
            return 0
        raise E.PyRaise(E.PyExc(cls(ex, 'cpnest.cpnest.CheckPoint') if how == 1 else 'SystemExit', (130,)))
    ex.contracts[S + '._produce_sample'] = body
    ex.contracts[S + '.checkpoint'] = lambda ex, r: ex.st.ghost.__setitem__('cks', z3.simplify(ex.st.ghost['cks'] + 1))
    exited = False
    try:
        call_real(ex, S + '.produce_sample', [ref])
    except E.PyRaise as e:
        ex.prove(e.exc.name == 'SystemExit', 'no other exception leaves the worker')
        exited = True
    g = ex.st.ghost
    ex.prove(eq(g['cks'], 1 if how == 1 else 0), 'an interrupt makes the worker checkpoint once, nothing else does')
    if how == 2:
        ex.prove(exited, 'the exit of the loop ends the process')
    ex.prove(eq(g['answered'], 0), 'nothing is sent')


def targets(tier):
    e = dict(externals())
    e['numpy.lib.recfunctions.stack_arrays'] = Fn(c26.stack_arrays)
    T = []
    for k in KINDS:
        c = {'next:cpnest.sampler.%s.yield_sample' % k: kernel, S + '.reset': reset, 'cpnest.sampler.SliceSampler.reset': reset, S + '.checkpoint': ckpt,
             S + '.estimate_nmcmc': adapt, S + '.estimate_nmcmc_on_the_fly': adapt}
        T.append(Target('cpnest.sampler.%s._produce_sample' % k, t_loop(k), contracts=c, externals=e, pool=[('nothing owed', cand)], covers=(S + '._produce_sample',), min_obl=15))
    T.append(Target(S + '.produce_sample', t_signal, contracts={}, externals=e, min_obl=3))
    return T
