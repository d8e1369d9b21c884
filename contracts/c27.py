"""C27: the stopping rule."""
from .c02 import *
from . import c02, nsloop


def targets(tier):
    q = NS + 'NestedSampler.'
    return [T(q + 'consume_sample', nsloop.t_condition, covers=(q + 'consume_sample',), opts={'quiet_lmax': True}),
            nsloop.target('C27', q + 'nested_sampling_loop', nsloop.t_stop),
            nsloop.target('C27', q + 'nested_sampling_loop', nsloop.t_prior, label=' (prior run)')]


ASSUMES = c02.ASSUMES + ['the shared maximum is constant while one estimate is made (it is read once)']
