"""What the checks of the Python part share."""
import os
from pyabs.model import *
from pyabs.session import Session, SPEC, VECTOR, REAL
from pyabs import infer, ops
from pyabs.program import where

PYFAMILIES = ['pmap', 'pmap*', 'pset', 'pbag', 'plist', 'pdeque', 'pvector', 'Vec', 'Set_', 'Map', 'Rec', 'Cls']


def split(families):
    """one job per shape of the vector"""
    return [v for f in families for v in ([f + '@small', f + '@depth1', f + '@depth2'] if f in VECTOR else [f])]


def session(name, **kw):
    if '@' in name:
        name, var = name.split('@')
        s = Session(name, **kw)
        s.variants = [v for v in s.variants if v[0] == var]
        return s
    if name.endswith('*'):
        return Session(name[:-1], contract=True, **kw)
    return Session(name, **kw)


def qual(node):
    m = getattr(node, '_mod', None)
    return '%s:%s' % (m.name if m else '?', getattr(node, '_qual', '?'))


def construct(node):
    import ast
    try:
        return ast.unparse(node)[:100]
    except Exception:
        return type(node).__name__


def trace(frames):
    out = []
    for f in frames:
        if getattr(f, '_mod', None) is not None:
            out.append('%s %s' % (where(f), getattr(f, '_qual', '')))
    return out


def mutation_violations(S, reports, own, what, ctx):
    """violations from the mutation reports on objects with the given ownership"""
    out = []
    for rule, node, d, st, frames in reports:
        if rule != 'mutation' or d['own'] not in own:
            continue
        if node is not None and getattr(node, 'lineno', 0) >= 100000:
            continue           # the contract, not the program
        m = getattr(node, '_mod', None)
        if m is not None and m.name == '_collections_abc':
            fr = [f for f in frames if getattr(f, '_mod', None) is not None]
            node2 = fr[-1] if fr else node
        else:
            node2 = node
        out.append({'key': '%s|%s|%s' % (what, qual(node2), d['what']),
                    'where': where(node2) + ' in ' + getattr(node2, '_qual', '?'),
                    'message': '%s: %s on %s, during %s' % (what, d['what'], describe(S, d), ctx),
                    'construct': construct(node), 'trace': trace(frames)})
    return out


def describe(S, d):
    loc, o = d['loc'], d['obj']
    if o is None:
        return "a caller's object (%s)" % (str(d.get('expr'))[:60],)
    k = o.cls or o.kind
    if loc[0] == 'p':
        return '%s reached as %s' % (k, path(loc[1]))
    return '%s (%s)' % (k, o.own)


def path(p):
    if p[0] == 'r':
        return str(p[1])
    if p[0] in ('f', 'fs'):
        return path(p[1]) + '.' + str(p[2])
    if p[0] == 'e':
        return path(p[1]) + '[]'
    if p[0] == 'v':
        return 'argument'
    return str(p)[:60]


def funcs(S):
    return {qual(S.I.prog.funcs[f]) for f in S.I.stats['funcs'] if f[0].startswith('pyrsistent')}


def coverage(S, extra=None):
    c = {'operations analysed': len(S.done), 'operations given up (too many states)': sorted(set(S.skipped)),
         'functions entered': funcs(S), 'calls': S.I.stats['calls'], 'loops': S.I.stats['loops'],
         'gaps': dict(S.W.gaps)}
    c.update(extra or {})
    return c
