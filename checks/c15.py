"""C15: the C extension is in order whenever user code runs."""
from . import cq

TECHNIQUE = cq.TECHNIQUE
EXPLANATION = 'At every point where user code may run (calls of the Python API that run it, release of the last reference) the abstract heap is checked: what user code can reach owns what it points to and is initialised. For evolvers and iterators the function is analysed again with the object changed by user code at the first, second, ... such point.'
RULE = 'at every callback: no reachable object refers to something freed or not owned, no tracked object has an unset field; after a callback that replaced the contents of the evolver or iterator nothing that belonged to the old contents is used unless a reference was held'
ASSUMPTIONS = cq.COMMON
MINIMUM = {'entry points': 20, 'paths to an exit': 300}


def jobs(tier):
    return cq.jobs(tier)


def analyse(name, tier):
    return cq.analyse(name, tier, 'C15', havoc=True)
