"""C19: crashes while checkpointing."""
from .ckpt import *
from . import ckpt

NOTE = None
ASSUMES = ['os.replace / os.rename are atomic within one folder; bytes are complete on the file once it is flushed or closed (loss of the operating system\'s cache in a power failure is not modelled)',
           'opening for writing truncates at once; a failing write leaves anything in the file being written and in no other']
BOUNDED = ['replay/h19.py: process death at every file operation of the real writers']


def t_write(make, qual):
    def t(ex):
        ref = make(ex)
        start_fs(ex, ref, True, True)
        try:
            call_real(ex, qual, [ref])
        except E.PyRaise as e:
            ex.prove(e.exc.name == 'OSError', 'a checkpoint only fails with the disk (not %s)' % e.exc.name)
            ex.prove(content(ex, ex.F) == ('old',), 'a failed checkpoint leaves the previous one')
            return
        c = content(ex, ex.F)
        ex.prove(c[0] == 'new' and isinstance(c[1], Img) and c[1].cls is ex.obj(ref).cls, 'after the call the checkpoint file holds the new state')
        ex.prove(fname(ex, ex.obj(ref).attrs['resume_file']) == ex.F, 'the checkpoint goes where it will be looked for')
    return t


def targets(tier):
    T = [Target(NS + 'NestedSampler.checkpoint', t_write(coordinator, NS + 'NestedSampler.checkpoint'), externals=EXT, min_obl=6)]
    for k, c in WORKERS:
        T.append(Target('cpnest.sampler.%s.checkpoint' % k, t_write(lambda ex, k=k, c=c: ckpt.worker(ex, k, c), 'cpnest.sampler.Sampler.checkpoint'), externals=EXT,
                        covers=('cpnest.sampler.Sampler.checkpoint',), min_obl=6))
    return T
