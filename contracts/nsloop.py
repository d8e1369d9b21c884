"""The main loop of the coordinator, with the iteration taken by its contract (C02, C03, C04, C05, C27)."""
from .c02 import *
from . import c02
from pyvc import engine as E

q_ = NS + 'NestedSampler.'


def interrupt(ex):
    raise E.PyRaise(E.PyExc(cls(ex, 'cpnest.cpnest.CheckPoint'), ()))


def par(ex, ref):
    return ex.obj(ex.obj(ref).attrs['params'])


def boundary_ok(ex, ref):
    """what holds between iterations"""
    o, g = ex.obj(ref), ex.st.ghost
    s = par(ex, ref).pay
    ns = ex.obj(o.attrs['nested_samples']).pay
    return And(eq(s.n, ex.Nlive), c01.ordered(ex, s), f_le(g['sh:logLmin'], logl(ex, s.get(0))),
               forall2(ns.n, lambda i, j: f_le(logl(ex, ns.get(i)), logl(ex, ns.get(j)))),
               True if ns.n == 0 and isinstance(ns.n, int) else Or(eq(ns.n, 0), f_le(logl(ex, ns.get(sub(ns.n, 1))), logl(ex, s.get(0)))),
               eq(ns.n, o.attrs['iteration']),
               forall(ns.n, lambda k: And(le(0, ns.get(k).ref), lt(ns.get(k).ref, ex.st.alloc))),
               forall(s.n, lambda k: And(le(0, s.get(k).ref), lt(s.get(k).ref, ex.st.alloc))))


def iteration_c(ex, ref):
    """consume_sample, by contract"""
    o, g = ex.obj(ref), ex.st.ghost
    n, N = ex.nthreads, ex.Nlive
    ex.prove(boundary_ok(ex, ref), 'an iteration starts from a complete, ordered state')
    if 'out' in g:
        ex.prove(forall(n, lambda j: g['stops'][j] == 0), 'no worker has been stopped before an iteration')
    ex.prove(f_lt(o.attrs['tolerance'], o.attrs['condition']), 'an iteration is only made while the remaining evidence exceeds the tolerance')
    if ex.interrupts:
        snap(ex, ref)
        if ex.branch(ex.fresh_bool('interrupted')):
            wreck(ex, ref)
            interrupt(ex)
    s0 = par(ex, ref).pay
    for a in ('acceptance', 'condition'):
        o.attrs[a] = ex.fresh_flt(a)
    for a in ('accepted', 'rejected', 'queue_counter', 'jumps'):
        o.attrs[a] = ex.fresh_int(a)
    thr = logl(ex, s0.get(sub(n, 1)))
    nsr = ex.obj(o.attrs['nested_samples'])
    nsr.pay = lib.seq_concat(nsr.pay, lib.sub_seq(s0, 0, n))
    inc_contract(ex, o.attrs['state'], thr, None, n)
    s1 = new_points(ex, 'live', N)
    ex.assume(c01.ordered(ex, s1))
    ex.assume(forall(N, lambda k: f_le(thr, logl(ex, s1.get(k)))))
    par(ex, ref).pay = s1
    g['sh:logLmin'] = thr
    o.attrs['iteration'] = add(o.attrs['iteration'], n)
    ii = ex.obj(o.attrs['insertion_indices'])
    ii.pay = lib.seq_concat(ii.pay, ex.fresh_seq('newranks', n, KFlt(True)))
    g['iters'] = z3.simplify(g['iters'] + 1)
    if ex.interrupts:
        snap(ex, ref)


def new_points(ex, name, N):
    """a live set holding old points and points received since"""
    k = ex.fresh_int('received', lo=0)
    ex.st.alloc = z3.simplify(zi(ex.st.alloc) + k)
    return ex.fresh_seq(name, N, KLP())


def reset_c(ex, ref):
    o, g = ex.obj(ref), ex.st.ghost
    s = new_points(ex, 'live', ex.Nlive)
    ex.assume(c01.ordered(ex, s))
    ex.assume(forall(ex.Nlive, lambda k: f_lt(NINF, logl(ex, s.get(k)))))
    o.attrs['params'] = ex.new(cls(ex, NS + 'OrderedLivePoints'), attrs=mirror_poison(ex), pay=s)
    o.attrs['initialised'] = True
    o.attrs['queue_counter'] = ex.fresh_int('qc')
    o.attrs['jumps'] = ex.fresh_int('jumps')
    g['resets'] = z3.simplify(g['resets'] + 1)
    ex.initial = s


def chain_c(ex, ref):
    g = ex.st.ghost
    g['chains'] = z3.simplify(g['chains'] + 1)
    g['chain_n'] = lib.to_seq(ex, ex.obj(ref).attrs['nested_samples']).n


def evid_c(ex, ref):
    ex.st.ghost['evids'] = z3.simplify(ex.st.ghost['evids'] + 1)


def check_c(ex, ref, **k):
    rp = ex.obj(ex.obj(ref).attrs['rolling_p'])
    rp.pay = ex.fresh_seq('rolling', ex.fresh_int('nrp', lo=0), KFlt(True))
    if ex.interrupts and ex.branch(ex.fresh_bool('interrupted')):
        interrupt(ex)


def ckpt_c(ex, ref):
    g = ex.st.ghost
    h = getattr(ex, 'on_ckpt', None)
    if h:
        h(ex, ref)
    g['cks'] = z3.simplify(g['cks'] + 1)


# ------------------------------------------------------------------ interrupts
def lists_of(ex, ref):
    o = ex.obj(ref)
    so = ex.obj(o.attrs['state'])
    return [(o.attrs[a], a) for a in ('nested_samples', 'insertion_indices', 'rolling_p')] + [(so.attrs[a], a) for a in ('logLs', 'log_vols')]


def snap(ex, ref):
    o = ex.obj(ref)
    so = ex.obj(o.attrs['state'])
    ex.st.ghost['_snap0'] = ex.st.ghost.get('_snap')
    ex.st.ghost['_snap'] = dict(attrs=dict(o.attrs), sattrs=dict(so.attrs), live=par(ex, ref).pay, thr=ex.st.ghost['sh:logLmin'],
                                lists=[(r, nm, ex.obj(r).pay) for r, nm in lists_of(ex, ref)])


def wreck(ex, ref):
    """anything an interrupted iteration may leave: every attribute changed, the live set in any state, the
    record and the histories with anything appended (that they are only ever appended to is proved on the iteration itself)"""
    o, g = ex.obj(ref), ex.st.ghost
    so = ex.obj(o.attrs['state'])
    pr = par(ex, ref)
    pr.pay = new_points(ex, 'wreck', ex.fresh_int('nw', lo=0))
    for r, nm in lists_of(ex, ref):
        ob = ex.obj(r)
        k = KLP() if nm == 'nested_samples' else KFlt()
        ob.pay = lib.seq_concat(ob.pay, ex.fresh_seq('junk', ex.fresh_int('nj', lo=0), k))
    keep = {'logger', 'manager', 'model', 'logLmin', 'logLmax'}
    for a in list(o.attrs):
        if a in ('state', 'params', 'nested_samples', 'insertion_indices', 'rolling_p'):
            continue
        if a not in keep and a not in ex.run_const:
            o.attrs[a] = Poison('interrupted iteration')
    for a in list(so.attrs):
        if a not in ('logLs', 'log_vols', 'logger', 'nlive'):
            so.attrs[a] = Poison('interrupted iteration')
    g['sh:logLmin'] = ex.fresh_flt('wreckthr')


def at_boundary(ex, ref):
    o, g = ex.obj(ref), ex.st.ghost
    from pyvc.loops import same
    # the boundary after the last complete iteration, or the one it started from
    sn, s0 = g['_snap'], g['_snap0']
    if s0 is not None and not same(sn['attrs']['iteration'], o.attrs['iteration']) and same(s0['attrs']['iteration'], o.attrs['iteration']):
        sn = s0
    ex.prove(f_same(g['sh:logLmin'], sn['thr']), 'checkpoint: the threshold is the one of the boundary')
    for who, at, old in (('sampler', o.attrs, sn['attrs']), ('evidence', ex.obj(o.attrs['state']).attrs, sn['sattrs'])):
        for a, v in sorted(old.items()):
            if a in ('params', 'rolling_p', 'last_checkpoint_time'):
                continue
            w = at.get(a)
            ok = same(v, w)
            if not ok and isinstance(v, SFlt) and isinstance(w, SFlt):
                ok = f_same(v, w)
            elif not ok and lib.isint(v) and lib.isint(w):
                ok = eq(v, w)
            ex.prove(ok, 'checkpoint: %s.%s is the one of the boundary' % (who, a))
    s = par(ex, ref).pay
    ex.prove(And(eq(s.n, sn['live'].n), forall(s.n, lambda k: eq(s.get(k).ref, sn['live'].get(k).ref))), 'checkpoint: the live set is the one of the boundary')
    for r, nm, p in sn['lists']:
        if nm == 'rolling_p':
            continue
        t = ex.obj(r).pay
        e = (lambda k: eq(t.get(k).ref, p.get(k).ref)) if nm == 'nested_samples' else (lambda k: f_same(t.get(k), p.get(k)))
        ex.prove(And(eq(t.n, p.n), forall(p.n, e)), 'checkpoint: %s is the one of the boundary' % nm)


# ------------------------------------------------------------------ runner
def run_loop(ex, interrupts=False, prior=False):
    ex.interrupts = interrupts
    ref, N = sampler(ex)
    ex.Nlive, ex.target_self = N, ref
    o, g = ex.obj(ref), ex.st.ghost
    q = z3.Int(ex._n('q'))
    for a in ('asks', 'ans', 'stops', 'ckpts'):
        ex.st.facts.append(z3.ForAll([q], g[a][q] == 0))
    for a in ('iters', 'resets', 'chains', 'evids', 'cks'):
        g[a] = z3.IntVal(0)
    ex.assume(Not(f_isnan(o.attrs['tolerance'])))
    # attributes the constructor sets that no iteration touches are part of the state all the same; nothing is excluded
    ex.run_const = set()
    o.attrs['prior_sampling'] = prior
    ex.initial = None
    if ex.branch(ex.fresh_bool('resumed')):
        s, ns = live_state(ex, ref, N)
        ex.assume(boundary_ok(ex, ref))
        ex.fresh = False
    else:
        ex.fresh = True
        g['sh:logLmin'] = NINF
    ex.pre = dict(cond0=o.attrs['condition'], iter0=o.attrs['iteration'], incL=g['incL'], incN=g['incN'], incM=g['incM'], ns=ex.obj(o.attrs['nested_samples']).pay)
    return ref, N


def call(ex, ref):
    return noraise(ex, lambda: call_real(ex, q_ + 'nested_sampling_loop', [ref]), 'nested_sampling_loop')


def cand_boundary(L):
    return boundary_ok(L.ex, L.ex.target_self)


def cand_hist(L):
    """evidence was fed n points removed of N at every iteration"""
    ex, g = L.ex, L.ex.st.ghost
    i0 = ex.pre['incL'].n
    return And(eq(g['incL'].n, add(i0, g['iters'])), eq(g['incN'].n, g['incL'].n), eq(g['incM'].n, g['incL'].n),
               forall(g['incL'].n, lambda k: And(eq(g['incN'].get(k), ex.Nlive), eq(g['incM'].get(k), ex.nthreads)), lo=i0))


def cand_count(L):
    ex = L.ex
    ns = ex.obj(ex.obj(ex.target_self).attrs['nested_samples']).pay
    return eq(ns.n, add(ex.pre['ns'].n, mulz(L.ex.st.ghost['iters'], ex.nthreads)))


def mulz(a, b):
    return zi(a) * zi(b)


def tail(L):
    """final loop: the live points reached so far are recorded and fed to the evidence"""
    ex, g = L.ex, L.ex.st.ghost
    o = ex.obj(ex.target_self)
    ns0 = L.entry.heap[o.attrs['nested_samples'].id].pay
    ns = ex.obj(o.attrs['nested_samples']).pay
    p = par(ex, ex.target_self).pay
    return And(eq(ns.n, add(ns0.n, L.it)), forall(L.it, lambda k: eq(ns.get(add(ns0.n, k)).ref, p.get(k).ref)),
               forall(ns0.n, lambda k: eq(ns.get(k).ref, ns0.get(k).ref)))


def tail_inc(L):
    ex, g = L.ex, L.ex.st.ghost
    i0 = L.entry.ghost['incL']
    p = par(ex, ex.target_self).pay
    return And(eq(g['incL'].n, add(i0.n, L.it)), eq(g['incN'].n, g['incL'].n), eq(g['incM'].n, g['incL'].n),
               forall(L.it, lambda k: And(f_same(g['incL'].get(add(i0.n, k)), logl(ex, p.get(k))), eq(g['incN'].get(add(i0.n, k)), sub(ex.Nlive, k)),
                                          eq(g['incM'].get(add(i0.n, k)), 1))),
               forall(i0.n, lambda k: And(f_same(g['incL'].get(k), i0.get(k)), eq(g['incN'].get(k), L.entry.ghost['incN'].get(k)),
                                          eq(g['incM'].get(k), L.entry.ghost['incM'].get(k)))))


def stops_upto(L):
    g = L.ex.st.ghost
    return forall(L.ex.nthreads, lambda j: g['stops'][j] == z3.If(j < zi(L.it), 1, 0))


def ckpts_upto(L):
    g = L.ex.st.ghost
    return forall(L.ex.nthreads, lambda j: g['ckpts'][j] == z3.If(j < zi(L.it), 1, 0))


def cand_first(L):
    """nothing changes the estimate before the first iteration"""
    o = L.ex.obj(L.ex.target_self)
    return Or(lt(0, L.ex.st.ghost['iters']), f_same(o.attrs['condition'], L.ex.pre['cond0']))


def cand_iters(L):
    return le(0, L.ex.st.ghost['iters'])


LPOOL = [('first iteration', cand_first), ('iterations', cand_iters), ('boundary', cand_boundary), ('history', cand_hist), ('record length', cand_count), ('tail', tail), ('tail contours', tail_inc),
         ('stopped', stops_upto), ('told to checkpoint', ckpts_upto)]


def live_at_end(ex):
    ex.st.ghost['_endlive'] = par(ex, ex.target_self).pay


def target(pid, name, run, label='', **k):
    c = dict(OLP_C)
    c.update(STATE_C)
    c.update({q_ + 'consume_sample': iteration_c, q_ + 'reset': reset_c, q_ + 'write_chain_to_file': chain_c, q_ + 'write_evidence_to_file': evid_c,
              q_ + 'check_insertion_indices': check_c, q_ + 'checkpoint': ckpt_c})
    return Target(name + label, run, contracts=c, externals=externals(), pool=LPOOL, covers=(name,), **k)


# ------------------------------------------------------------------ C04
def t_messages(ex):
    ref, N = run_loop(ex)
    call(ex, ref)
    g = ex.st.ghost
    ex.prove(forall(ex.nthreads, lambda j: g['stops'][j] == 1), 'every worker is told to stop exactly once')
    ex.prove(forall(ex.nthreads, lambda j: g['ckpts'][j] == 0), 'no checkpoint request in a finished run')
    ex.prove(f_same(g['sh:logLmin'], PINF), 'the threshold is +infinity at the end')


def t_messages_prior(ex):
    ref, N = run_loop(ex, prior=True)
    call(ex, ref)
    g = ex.st.ghost
    ex.prove(forall(ex.nthreads, lambda j: g['stops'][j] == 1), 'prior run: every worker is told to stop exactly once')
    ex.prove(forall(ex.nthreads, lambda j: g['ckpts'][j] == 0), 'prior run: no checkpoint request')


# ------------------------------------------------------------------ C03
def t_contours(ex):
    """C06: what the whole loop feeds into the running evidence"""
    ref, N = run_loop(ex)
    n = ex.nthreads
    call(ex, ref)
    g = ex.st.ghost
    p = par(ex, ref).pay
    pre_ = ex.pre
    i0, m = pre_['incL'].n, g['iters']
    L, Ns, M = g['incL'], g['incN'], g['incM']
    ex.prove(And(eq(L.n, add(add(i0, m), N)), eq(Ns.n, L.n), eq(M.n, L.n)), 'one contour per iteration and one per final live point')
    ex.prove(forall(m, lambda k: And(eq(Ns.get(add(i0, k)), N), eq(M.get(add(i0, k)), n))), 'each iteration shrinks the volume by n of N points')
    t0 = add(i0, m)
    ex.prove(eq(p.n, N), 'the live set is complete at the end')
    ex.prove(forall(N, lambda k: And(f_same(L.get(add(t0, k)), logl(ex, p.get(k))), eq(Ns.get(add(t0, k)), sub(N, k)), eq(M.get(add(t0, k)), 1))),
             'the final live points shrink the volume by 1/N, 1/(N-1), ...')


def t_record(ex):
    ref, N = run_loop(ex)
    ret = call(ex, ref)
    o, g = ex.obj(ref), ex.st.ghost
    n = ex.nthreads
    ns = lib.to_seq(ex, o.attrs['nested_samples'])
    p = par(ex, ref).pay
    pre_ = ex.pre
    ex.prove(eq(ns.n, add(add(pre_['ns'].n, mulz(g['iters'], n)), N)), 'the record grows by the replacements and the final live points')
    ex.prove(eq(ns.n, add(o.attrs['iteration'], N)), 'a finished run records replacements + live points')
    ex.prove(forall2(ns.n, lambda i, j: f_le(logl(ex, ns.get(i)), logl(ex, ns.get(j)))), 'the record is in non-decreasing likelihood order')
    ex.prove(eq(p.n, N), 'the live set is complete at the end')
    ex.prove(forall(N, lambda k: eq(ns.get(add(sub(ns.n, N), k)).ref, p.get(k).ref)), 'every final live point is recorded once')
    ex.prove(forall(pre_['ns'].n, lambda k: eq(ns.get(k).ref, pre_['ns'].get(k).ref)), 'what was recorded stays recorded')
    i0 = pre_['incL'].n
    m = g['iters']
    L, Ns, M = g['incL'], g['incN'], g['incM']
    ex.prove(And(eq(L.n, add(add(i0, m), N)), eq(Ns.n, L.n), eq(M.n, L.n)), 'one contour per iteration and one per final live point')
    ex.prove(forall(m, lambda k: And(eq(Ns.get(add(i0, k)), N), eq(M.get(add(i0, k)), n))), 'each iteration removes n of N live points')
    t0 = add(i0, m)
    ex.prove(forall(N, lambda k: And(f_same(L.get(add(t0, k)), logl(ex, p.get(k))), eq(Ns.get(add(t0, k)), sub(N, k)), eq(M.get(add(t0, k)), 1))),
             'each final live point is one contour with the live count that is left')
    ex.prove(eq(g['finalised'], 1), 'the evidence is finalised once')
    ex.prove(eq(g['_fin_incs'], L.n), 'the evidence is finalised after the last contour')
    ex.prove(isinstance(ret, tuple) and len(ret) == 2 and f_same(flt(ret[0]), g['_finZ']), 'the final evidence is returned')
    ex.prove(isinstance(ret, tuple) and len(ret) == 2 and ret[1] == o.attrs['nested_samples'], 'the record is returned')
    ex.prove(And(eq(g['chains'], 1), eq(g['chain_n'], ns.n), eq(g['evids'], 1)), 'the complete record is written once')


# ------------------------------------------------------------------ C27
def t_stop(ex):
    ref, N = run_loop(ex)
    o = ex.obj(ref)
    cond0 = o.attrs['condition']
    call(ex, ref)
    o, g = ex.obj(ref), ex.st.ghost
    # that every iteration starts with condition > tolerance is an obligation at the call
    ex.prove(Not(f_lt(o.attrs['tolerance'], o.attrs['condition'])), 'the loop stops only when the estimate is within the tolerance')
    if ex.fresh:
        ex.prove(Implies(f_lt(o.attrs['tolerance'], PINF), lt(0, g['iters'])), 'a fresh run makes at least one iteration')
        ex.prove(eq(g['resets'], 1), 'a fresh run populates the live set')
    else:
        ex.prove(eq(g['resets'], 0), 'a resumed run keeps its live set')


def t_prior(ex):
    ref, N = run_loop(ex, prior=True)
    call(ex, ref)
    o, g = ex.obj(ref), ex.st.ghost
    ex.prove(eq(g['iters'], 0), 'a prior run makes no iteration')
    ns = lib.to_seq(ex, o.attrs['nested_samples'])
    if ex.fresh:
        ex.prove(And(eq(ns.n, N), forall(N, lambda k: eq(ns.get(k).ref, ex.initial.get(k).ref))), 'a prior run records exactly the initial live points')
        ex.prove(And(eq(g['chains'], 1), eq(g['chain_n'], N)), 'and writes them')


def t_condition(ex):
    """the estimate made by an iteration"""
    ref, N = sampler(ex)
    start(ex, ref, N)
    o, g = ex.obj(ref), ex.st.ghost
    Z = ex.obj(o.attrs['state']).attrs['logZ']
    lm = g['sh:logLmax']
    X = f_neg(f_div_nozero(flt(ex.pre['iter0']), flt(N)))
    want = f_sub(npmodel.laddexp(ex, Z, f_add(lm, X)), Z)
    ex.prove(f_same(o.attrs['condition'], want), 'the estimate is log(Z + Lmax*X) - log Z with X = exp(-replacements/N)')
    ex.prove(eq(o.attrs['iteration'], add(ex.pre['iter0'], ex.nthreads)), 'every replacement is counted')


# ------------------------------------------------------------------ C20
def t_interrupt(ex):
    ref, N = run_loop(ex, interrupts=True)
    ex.on_ckpt = at_boundary
    g = ex.st.ghost
    try:
        call_real(ex, q_ + 'nested_sampling_loop', [ref])
    except E.PyRaise as e:
        g = ex.st.ghost
        ex.prove(e.exc.name == 'SystemExit', 'an interrupt ends in an exit, not %s' % e.exc.name)
        a = e.exc.args[0] if e.exc.args else None
        ex.prove(lib.isint(a) and eq(a, 130), 'the exit status is the checkpoint status')
        ex.prove(forall(ex.nthreads, lambda j: g['ckpts'][j] == 1), 'every worker is told to checkpoint exactly once')
        ex.prove(forall(ex.nthreads, lambda j: g['stops'][j] == 0), 'no worker is told to stop')
        ex.prove(lt(0, g['cks']), 'the coordinator checkpoints')
        return
    ex.prove(forall(ex.nthreads, lambda j: ex.st.ghost['ckpts'][j] == 0), 'no checkpoint request without an interrupt')
