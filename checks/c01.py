"""C01: no operation of the Python collections writes to an object that existed before the call."""
from .pyq import *

EXPLANATION = ('Every public method of every persistent class is analysed from an arbitrary well-formed instance (inferred '
               'field templates; vectors: no tree / one level / two levels) with opaque arguments; the heap abstraction '
               'records for each object whether it existed before the call (frozen) or was created by it. Writes to frozen '
               'objects are reported.')
RULE = 'no write (attribute, item, slice, mutating container method) reaches an object with ownership "frozen"'
ASSUMPTIONS = ['loops are iterated at most 6 (quick) / 10 (thorough) times in the abstract before the analysis of that loop stops',
               'methods of user objects do not reach into private attributes', 'recursion depth bounded (2, trees: 3)']
MINIMUM = {'operations analysed': 400, 'functions entered': 150}


def jobs(tier):
    if tier == 'thorough':
        return ['pmap', 'pmap*'] + SPEC + VECTOR
    return PYFAMILIES + ['RecSub', 'ClsSub']


def analyse(name, tier):
    S = session(name, rounds=6 if tier == 'quick' else 10, budget=60000 if tier == 'quick' else 300000)
    W, I = S.W, S.I
    out = []
    n = 0
    for label, setup in S.variants:
        setup()
        # constructors and factories
        for nm, f, args, kw, star, dstar in infer.constructors(W, S.family):
            del I.reports[:]
            W.site = ('new', nm, len(args), star is not None)
            S.attempt('%s(...)' % nm, lambda: W.run(W.state(), f, args, kw, star, dstar))
            out += mutation_violations(S, I.reports, ('frozen',), 'existing object written', 'construction by ' + nm)
        for c in sorted(S.found):
            if infer.is_evolver(W, c):
                continue
            for op in S.ops(c):
                del I.reports[:]
                n += 1
                W.site = ('op', repr(op))
                S.attempt(repr(op), lambda: ops.run_op(W, W.state(), W.pre(c, 'self'), op))
                out += mutation_violations(S, I.reports, ('frozen',), 'existing object written', repr(op))
    return {'violations': out, 'coverage': coverage(S, {'pre-states x operations': n})}
