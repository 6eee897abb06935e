"""C02: evolvers write only what no collection and no other evolver can see."""
from .pyq import *

EXPLANATION = ('For every type with evolver(): from an arbitrary well-formed collection, evolver(), one or two updates, persistent(), '
               'another update. Everything reachable from the source, from results of persistent() and from a second evolver of the '
               'same source is marked as existing; writes to it by the remaining operations are reported.')
RULE = 'no evolver operation writes an object reachable from the source, an earlier result of persistent() or a sibling evolver'
ASSUMPTIONS = ['at most two updates (thorough: three) around persistent()']
MINIMUM = {'evolver histories': 150, 'evolver classes': 6}
READS = {'__getitem__', '__len__', '__contains__', 'is_dirty', '__iter__', '__repr__', '__str__', '__bool__'}


def jobs(tier):
    if tier == 'thorough':
        return ['pmap', 'pmap*', 'pset', 'pvector'] + [f for f in SPEC + VECTOR if f[0].isupper()]
    return ['pmap', 'pmap*', 'pset', 'pvector', 'Vec', 'Set_', 'Map', 'Rec', 'Cls']


def distinct(S, outs, limit=12):
    """returning outcomes, a few of them"""
    r = [o for o in outs or [] if o.kind == 'ret']
    return r[:limit]


def analyse(name, tier):
    S = session(name, budget=40000 if tier == 'quick' else 200000)
    W, I = S.W, S.I
    out = []
    hist = 0
    classes = set()
    MSG = 'visible object written by an evolver'

    def rep(ctx):
        v = mutation_violations(S, I.reports, ('frozen',), MSG, ctx)
        del I.reports[:]
        return v
    for label, setup, st0, src, e in S.evolvers():
        setup()
        ec = I.get(st0, e[1]).cls
        classes.add(ec)
        ups = [op for op in S.ops(ec) if op.name not in READS and op.name != 'persistent']
        del I.reports[:]
        for op in ups:
            W.site = ('op1', repr(op))
            o1 = S.attempt(repr(op), lambda: ops.run_op(W, st0, e, op))
            out += rep('evolver(), ' + repr(op))
            hist += 1
            for o in distinct(S, o1, 8 if tier == 'quick' else 30):
                # a second evolver of the source is independent
                W.site = 'persistent'
                ps = S.attempt(ec + '.persistent()', lambda: W.method(o.st, e, 'persistent'))
                out += rep('evolver(), %r, persistent()' % op)
                seen = set()
                for p in distinct(S, ps, 3 if tier == 'quick' else 10):
                    if p.val[0] != 'l':
                        continue
                    st2 = S.freeze(p.st, [p.val])
                    for op2 in ups:
                        hist += 1
                        W.site = ('op2', repr(op2))
                        S.attempt(repr(op2), lambda: ops.run_op(W, st2, e, op2))
                        out += rep('evolver(), %r, persistent(), %r' % (op, op2))
                    # evolver of the result and the old evolver do not share anything
                    if len(seen) == 0:
                        seen.add(1)
                        W.site = 'evolver2'
                        for q in distinct(S, S.attempt('evolver()', lambda: W.method(st2, p.val, 'evolver')) or [], 2):
                            st3 = S.freeze(q.st, [e])
                            for op2 in ups:
                                hist += 1
                                W.site = ('op3', repr(op2))
                                S.attempt(repr(op2), lambda: ops.run_op(W, st3, q.val, op2))
                                out += rep('evolver e1, %r, e1.persistent().evolver() e2, e2: %r' % (op, op2))
        # two evolvers of one source
        W.site = 'evolverB'
        for q in distinct(S, S.attempt('evolver()', lambda: W.method(st0, src, 'evolver', pins=[e])), 2):
            for op in ups:
                st3 = S.freeze(q.st, [e])
                hist += 1
                W.site = ('op4', repr(op))
                S.attempt(repr(op), lambda: ops.run_op(W, st3, q.val, op))
                out += rep('two evolvers of one collection, %r on one of them' % op)
    return {'violations': out, 'coverage': coverage(S, {'evolver histories': hist, 'evolver classes': classes})}
