"""C17: the C types cooperate with the garbage collector."""
from . import cq

TECHNIQUE = cq.TECHNIQUE
EXPLANATION = 'Tracking state of every object is part of the abstract state; the traverse functions are interpreted with a visit function that counts, and the counts are compared with the references each object owns alone.'
RULE = 'tracked only with all fields set and untracked before being freed; every object handed out is tracked, the working copy of an evolver is not; tp_traverse visits each reference owned by the instance alone exactly once and none of a shared node, and passes the result on'
ASSUMPTIONS = cq.COMMON
MINIMUM = {'entry points': 20, 'paths to an exit': 300}


def jobs(tier):
    return cq.jobs(tier)


def analyse(name, tier):
    return cq.analyse(name, tier, 'C17')
