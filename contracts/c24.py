"""C24"""
from . import mh, hmc, kern, slicek


def targets(tier):
    return [mh.target('C24'), hmc.target('C24'), slicek.target('C24')]


ASSUMES = kern.ASSUMES
