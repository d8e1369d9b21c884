"""C25"""
from . import mh, hmc, kern, leap, pool, slicek


def targets(tier):
    return [mh.target('C25'), hmc.target('C25'), slicek.target('C25')] + [t for t in leap.targets() if t.name.rsplit('.', 1)[1] in ('evolve_trajectory_one_step_momentum', 'evolve_trajectory', 'get_sample')] + pool.targets()


ASSUMES = kern.ASSUMES
