"""C14: each operation of the C extension keeps reference counts right."""
from . import cq

TECHNIQUE = cq.TECHNIQUE
EXPLANATION = 'Every function Python can call (slots and method tables, read from the source) is interpreted abstractly from every kind of object it may be called on; for each object and tree node the references acquired and given up are counted along every path, and compared at the exit with the number of places that hold it.'
RULE = 'at every exit of every entry point: references acquired minus released = references stored in live objects + returned, for Python objects and nodes; no use or release after the last reference is gone; a freed node is not shared'
ASSUMPTIONS = cq.COMMON
MINIMUM = {'entry points': 20, 'paths to an exit': 300}


def jobs(tier):
    return cq.jobs(tier)


def analyse(name, tier):
    return cq.analyse(name, tier, 'C14')
