"""C18: the C extension indexes within bounds."""
from . import cq

TECHNIQUE = cq.TECHNIQUE
EXPLANATION = 'Index expressions are linear expressions with intervals and masks; every access to a node, to the free-node cache and every copy is checked against the bounds; positions given by the caller must be known to be in 0..length-1 where they lead to an element.'
RULE = 'slot index in 0..31, cache index in 0..1023 and cache size in 0..1024 at return, copies no longer than a node; element positions compared with the length on the path'
ASSUMPTIONS = cq.COMMON
MINIMUM = {'entry points': 20, 'paths to an exit': 300}


def jobs(tier):
    return cq.jobs(tier)


def analyse(name, tier):
    return cq.analyse(name, tier, 'C18')
