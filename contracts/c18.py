"""C18: a checkpoint gives back the exact state."""
from .ckpt import *
from . import ckpt

ASSUMES = ['pickle: an image of a package object is made with its own __getstate__ / __setstate__, shared references stay shared, containers and plain values come back equal, '
           'live points as proved in C16; shared values, pipes, locks, managers and generators cannot be pickled, the user\'s model can',
           'attributes are those the constructors set and any that a method of the class stores on self (scanned in the current source), with arbitrary values']
BOUNDED = ['replay/h18.py: real checkpoints of the coordinator and the three kinds of worker, continued in step with the original']


def t_resume(make, klass, extra):
    q = klass.rsplit('.', 1)[0]

    def t(ex):
        ref = make(ex)
        start_fs(ex, ref, False)
        skip = BOUND
        before = picture(ex, ref, {})
        bare = picture(ex, ref, {}, skip)
        sh = {k: ex.st.ghost[k] for k in ('sh:logLmin1', 'sh:logLmax1')}
        noraise(ex, lambda: ex.call(ex.getattr(ref, 'checkpoint'), []), 'checkpoint')
        g = ex.st.ghost
        compare(ex, before, picture(ex, ref, {}), klass.rsplit('.', 1)[1], 'taking a checkpoint changes nothing')
        ex.prove(And(*[f_same(g[k], v) for k, v in sh.items()]), 'taking a checkpoint leaves the shared values')
        c = content(ex, ex.F)
        if c[0] != 'new':
            ex.prove(False, 'the checkpoint is written')
            return
        C = cls(ex, klass)
        args = [ex.obj(ref).attrs['resume_file'], Mgr2(2), Mod2(2)]
        new = noraise(ex, lambda: ex.call(ex.getattr(C, 'resume'), args), 'resume')
        if not isinstance(new, Ref):
            ex.prove(False, 'resume gives a sampler')
            return
        o = ex.obj(new).attrs
        compare(ex, bare, picture(ex, new, {}, skip), klass.rsplit('.', 1)[1], 'the state comes back')
        ex.prove(isinstance(o.get('manager'), Mgr2) and o['manager'].run == 2, 'attached to the manager of the new run')
        ex.prove(isinstance(o.get('model'), Mod2) and o['model'].run == 2, 'attached to the model of the new run')
        ex.prove(all(isinstance(o.get(a), Shared) and o[a].name == a + '2' for a in ('logLmin', 'logLmax')), 'attached to the shared values of the new run')
        ex.prove(isinstance(o.get('logger'), lib.Logger), 'it has a logger')
        ex.prove('last_checkpoint_time' in o and lib.isnum(o['last_checkpoint_time']), 'it has a checkpoint clock')
        extra(ex, o, sh)
    return t


def coord_extra(ex, o, sh):
    g = ex.st.ghost
    ex.prove(f_same(g['sh:logLmin2'], sh['sh:logLmin1']), 'the shared threshold is the checkpointed one')
    ex.prove(f_same(g['sh:logLmax2'], sh['sh:logLmax1']), 'the shared maximum is the checkpointed one')


def worker_extra(ex, o, sh):
    ex.prove(ex.st.ghost['_conn'] == 1, 'one pipe of the new run is taken')
    ex.prove(isinstance(o.get('producer_pipe'), WorkerEnd) and o['producer_pipe'].tag == 2 and z3.is_expr(o.get('thread_id')) and o['thread_id'].eq(z3.Int('slot2')),
             'attached to its pipe of the new run')


def targets(tier):
    k = NS + 'NestedSampler'
    T = [Target(k + '.resume', t_resume(coordinator, k, coord_extra), externals=EXT, min_obl=30,
                covers=tuple(k + '.' + x for x in ('checkpoint', 'resume', '__getstate__', '__setstate__')) + (NS + '_NSintegralState.__getstate__', NS + '_NSintegralState.__setstate__'))]
    for w, c in WORKERS:
        q = 'cpnest.sampler.' + w
        T.append(Target(q + '.resume', t_resume(lambda ex, w=w, c=c: ckpt.worker(ex, w, c), q, worker_extra), externals=EXT, min_obl=30,
                        covers=tuple('cpnest.sampler.Sampler.' + x for x in ('checkpoint', 'resume', '__getstate__', '__setstate__'))
                        + (('cpnest.proposal.HamiltonianProposal.__getstate__', 'cpnest.proposal.HamiltonianProposal.__setstate__') if 'Hamil' in c else ())))
    return T
