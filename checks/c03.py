"""C03: the C extension writes only memory no vector can see."""
from . import cq

TECHNIQUE = cq.TECHNIQUE
EXPLANATION = 'Every store to a vector or node is checked: objects that existed before the call may only be written if they are the working copy of the evolver or a node marked as owned by it; nodes keep that mark only while the evolver alone refers to them.'
RULE = 'no store to length, shift, root, tail of an existing vector; no store to a slot of an existing node without the owner mark; nothing reachable from a vector handed out carries the mark'
ASSUMPTIONS = cq.COMMON
MINIMUM = {'entry points': 20, 'paths to an exit': 300}


def jobs(tier):
    return cq.jobs(tier)


def analyse(name, tier):
    return cq.analyse(name, tier, 'C03')
