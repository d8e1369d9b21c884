"""C20: interrupts."""
from .c02 import *
from . import c02, nsloop


def targets(tier):
    q = NS + 'NestedSampler.'
    return [nsloop.target('C20', q + 'nested_sampling_loop', nsloop.t_interrupt, budget=500)]


ASSUMES = c02.ASSUMES + ['an interrupted iteration may leave any attribute, the live set and the threshold in any state; lists of the record and the histories are only appended to']
BOUNDED = ['replay/h20.py raises the interrupt at every line and every bytecode of the loop on small configurations, so also between the end of one iteration and the snapshot of the next']
