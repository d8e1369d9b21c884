"""C13: Hamiltonian moves."""
from . import hmc, leap, kern


def targets(tier):
    return leap.targets() + [hmc.target('C13')]


ASSUMES = kern.ASSUMES + ['the user\'s force is a deterministic function of the coordinates; lower < upper for every bound', 'the splines approximating the normal give a number or nan; numpy dot / norm as documented (|v / norm(v)| = 1)',
                          'the potential is minus the log-prior (Model.potential, proved in C17)', 'masses and step sizes are arbitrary finite numbers: update_mass, update_normal_vector (numpy / scipy estimates from the ensemble) are not specified']
BOUNDED = ['replay/h13.py: the same statements evaluated on the running code, including the real splines and masses']
