"""Template inference: which values the fields of the instances of each class can hold.

Classes are grouped in families that are analysed separately: a family is a public factory or a client declaration
and every class of the package its operations return.  Within a family the factories, constructors and all public
operations are analysed with opaque arguments until the templates are stable."""
import time
from .model import *
from . import ops
from .program import AnalysisBroken
from .interp import Budget

A = lambda n: S('arg', n)
PURE = {'__repr__', '__str__', '__hash__', '__len__', '__contains__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__',
        '__ge__', '__bool__', 'count', 'index', 'issuperset', 'issubset', 'isdisjoint'}
FAMILIES = {
    'pmap': ['pmap'], 'pset': ['pset'], 'pbag': ['pbag'], 'plist': ['plist'], 'pdeque': ['pdeque'],
    'pvector': ['python_pvector'],
}


def factory(W, n):
    return W.glob('_pvector', n) if n == 'python_pvector' else W.public(n)


def factories(W, names=None):
    return [(n, factory(W, n)) for n in names or ('pmap', 'pset', 'pbag', 'plist', 'pdeque', 'python_pvector')]


def scan(W, outs, found):
    I = W.I
    for o in outs:
        if o.kind != 'ret':
            continue
        a = o.val
        if a[0] == 'l':
            ob = I.get(o.st, a[1])
            if ob.kind == 'inst' and ob.cls in I.classes:
                W.fold_value(o.st, a)
                found.add(ob.cls)
            elif ob.kind in ('tuple', 'list'):
                for s in ob.segs:
                    for x in s[1]:
                        if x[0] == 'l' and I.get(o.st, x[1]).kind == 'inst' and I.get(o.st, x[1]).cls in I.classes:
                            W.fold_value(o.st, x)
                            found.add(I.get(o.st, x[1]).cls)


def limited(W, budget, fn):
    """fn(), or None when it takes more steps than the budget"""
    I = W.I
    saved = I.frames, I.sinks, I.pins, I.handlers
    steps, old = I.steps, I.budget
    I.steps, I.budget = 0, budget
    try:
        return fn()
    except (Budget, RecursionError):
        I.frames, I.sinks, I.pins, I.handlers = saved
        return None
    except AnalysisBroken as e:
        I.frames, I.sinks, I.pins, I.handlers = saved
        W.gaps[str(e)] = W.gaps.get(str(e), 0) + 1
        return None
    except Exception as e:
        if W.debug:
            raise
        I.frames, I.sinks, I.pins, I.handlers = saved
        k = 'internal: %s %s' % (type(e).__name__, str(e)[:80])
        W.gaps[k] = W.gaps.get(k, 0) + 1
        return None
    finally:
        W.laststeps = I.steps
        I.budget = old
        I.steps += steps
        I.inloop = 0


def constructors(W, family):
    """(name, function, args, kw, star, dstar) for everything that makes the first objects of the family"""
    out = []
    if family in FAMILIES:
        for n, f in factories(W, FAMILIES[family]):
            for args, kw, star, dstar in ops.signatures(W, f, False):
                out.append((n, f, args, kw, star, dstar))
        return out
    c = 'client.' + family
    if c not in W.I.classes:
        raise AnalysisBroken('client class %s not found' % family)
    new = W.I.class_lookup(W.state(), c, '__new__')
    sigs = ops.signatures(W, new, True) if new and ops.underlying(new)[0] == 'f' else None
    for args, kw, star, dstar in sigs or [([], {}, None, None)]:
        if (args[:1], kw, star, dstar) not in [x[2:] for x in out]:
            out.append((family, ('c', c), args[:1], kw, star, dstar))
    return out


def is_evolver(W, cid):
    return W.I.class_lookup(W.state(), cid, 'persistent') is not None


def infer(W, family, log=None, rounds=4, budget=60000, skip=(), only=None):
    I = W.I
    found = set()
    W.slow = set()
    for rnd in range(rounds):
        W.changed = False
        for n, f, args, kw, star, dstar in constructors(W, family):
            W.site = ('new', n, len(args), star is not None, dstar is not None)
            t = time.time()
            outs = limited(W, budget * 10, lambda: W.run(W.state(), f, args, kw, star, dstar))
            if outs is None:
                W.slow.add(n)
                continue
            scan(W, outs, found)
            if log:
                log(rnd, n, time.time() - t, outs, [], W.laststeps)
        I.precache.clear()
        done = set()
        while True:
            todo = sorted(found - done)
            if not todo:
                break
            for c in todo:
                done.add(c)
                own = 'evo' if is_evolver(W, c) else None
                for op in ops.class_ops(W, c):
                    if op.name in PURE or op.name in skip or repr(op) in W.slow or (only and op.name not in only):
                        continue
                    t = time.time()
                    nr = len(I.reports)
                    W.site = ('infer', repr(op))
                    me = W.pre(c, 'self' if own is None else 'evo', own)
                    outs = limited(W, budget, lambda: ops.run_op(W, W.state(), me, op))
                    if outs is None:
                        W.slow.add(repr(op))
                        if log:
                            log(rnd, op, time.time() - t, [], [], 'BUDGET')
                        continue
                    limited(W, 0, lambda: scan(W, outs, found))
                    if own:
                        for o in outs:
                            limited(W, 0, lambda: W.fold_value(o.st, me))
                    if log:
                        log(rnd, op, time.time() - t, outs, I.reports[nr:], W.laststeps)
        if not W.changed:
            break
        I.precache.clear()
    W.rounds = rnd + 1
    W.stable = not W.changed
    return found


def vector_variants(W, cid='_pvector.PythonPVector'):
    """well-formed vectors as pre-states: everything in the tail / a tree of one level / a tree of two levels.
    The attribute names are read off the constructor; returns setup functions, one per variant."""
    from .spec import vector_names
    nm = vector_names(W.prog.modules['pyrsistent._pvector'].tree)

    def setup(depth):
        def go():
            T = W.I.tmpl
            for k in [k for k in T if k[0] == cid or (isinstance(k[0], tuple) and k[0][:1] == ('vt',))]:
                del T[k]
            leaf = ('vt', 0)
            T[(leaf, 'el')] = {('user',)}
            T[(cid, nm['COUNT'])] = {('int',)}
            T[(cid, nm['OFFSET'])] = {('int',)}
            T[(cid, nm['SHIFT'])] = {('atom', K(W.shift * max(depth, 1)))}
            T[(cid, nm['TAIL'])] = {('cont', 'list', leaf)}
            prev = leaf
            for d in range(depth):
                n = ('vt', d + 1)
                T[(n, 'el')] = {('cont', 'list', prev)}
                prev = n
            T[(cid, nm['ROOT'])] = {('cont', 'list', prev if depth else ('empty',))}
            W.I.precache.clear()
        return go
    v = W.I.base[('mod', 'pyrsistent._pvector')].fields.get('SHIFT')
    k = sorted(v, key=repr)[0] if v else None
    W.shift = k[2] if k and k[0] == 'k' and isinstance(k[2], int) else 5
    return [('small', setup(0)), ('depth1', setup(1)), ('depth2', setup(2))]
