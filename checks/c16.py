"""C16: exceptions in the C extension reach the caller."""
from . import cq

TECHNIQUE = cq.TECHNIQUE
EXPLANATION = 'The pending exception is part of the abstract state: calls that may fail fork into a failing path; clearing or replacing an exception raised by called code, calling on with one set, and exits whose result does not match are reported.'
RULE = 'result NULL (or -1) exactly when an exception is set; no exception raised by called code is cleared or replaced; no call that can raise is made with an exception set'
ASSUMPTIONS = cq.COMMON
MINIMUM = {'entry points': 20, 'paths to an exit': 300}


def jobs(tier):
    return cq.jobs(tier)


def analyse(name, tier):
    return cq.analyse(name, tier, 'C16')
