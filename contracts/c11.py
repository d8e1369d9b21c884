"""C11: the Metropolis-Hastings kernel."""
from . import mh, kern


def targets(tier):
    return [mh.target('C11')]


ASSUMES = kern.ASSUMES + ['a proposal may move and return the copy it is given or return another new point; its log-Jacobian is finite', 'points in the pool have non-zero prior (C25)',
                          'the kernel is left at its first yield: every caller asks a new generator for one point']
BOUNDED = ['replay/h11.py replays the same rule on the real sampler with scripted proposals and random numbers']
