"""C12: freeze, thaw and mutant convert every level they promise to."""
import itertools
from .exact import *

EXPLANATION = ('freeze, thaw and functions decorated with mutant are analysed for every nesting of dict, defaultdict, list, tuple, '
               'set, pmap, pvector, pset and checked collections up to three levels, with strict given, omitted and false. The kinds of '
               'the containers of the result and the values in them are compared level by level with the documented conversion; an object '
               'that is to be left alone must come back as the same object, at every level.')
RULE = 'the kind of every container of the result is the documented one for its level and the strict setting'
ASSUMPTIONS = ['containers hold one or two entries', 'nesting up to three levels (the functions recurse, so every level is handled by the same code)']
MINIMUM = {'conversions analysed': 300, 'levels compared': 900}
PLAIN = ['dict', 'defaultdict', 'list', 'tuple', 'set']
PERS = ['pmap', 'pvector', 'pset']
OTHER = ['Map', 'Vec0', 'frozenset', 'leaf']


def jobs(tier):
    return [f + '|' + k for f in ('freeze', 'thaw') for k in PLAIN + PERS + ['PythonPVector', 'Rec0']] + ['mutant']


def frozen(t, strict):
    """what freeze(t, strict) has to give; trees are (kind, entries...)"""
    k = t[0]
    if k == 'dict' or k == 'defaultdict' or strict and k in ('pmap', 'Rec0'):
        return ('pmap',) + tuple((a, frozen(b, strict)) for a, b in t[1:])
    if k == 'list' or strict and k in ('pvector', 'PythonPVector'):
        return ('pvector',) + tuple(frozen(b, strict) for b in t[1:])
    if k == 'tuple':
        return ('tuple',) + tuple(frozen(b, strict) for b in t[1:])
    if k == 'set':
        return ('pset',) + t[1:]
    return ('same', t)


def thawed(t, strict):
    k = t[0]
    if k in ('pmap', 'Rec0') or strict and k == 'dict':
        return ('dict',) + tuple((a, thawed(b, strict)) for a, b in t[1:])
    if k in ('pvector', 'PythonPVector') or strict and k == 'list':
        return ('list',) + tuple(thawed(b, strict) for b in t[1:])
    if k == 'tuple':
        return ('tuple',) + tuple(thawed(b, strict) for b in t[1:])
    if k == 'pset':
        return ('set',) + t[1:]
    return ('same', t)


MAPS = ('dict', 'defaultdict', 'pmap', 'Rec0')
SETS = ('set', 'pset', 'frozenset')


def wrap(kind, inner, n):
    """a container of this kind with a constant and, where the kind allows it, the inner tree"""
    c = ('leaf', 'c%d' % n)
    if kind in SETS:
        return (kind, c)
    if kind in MAPS:
        return (kind, (('leaf', 'x' if kind == 'Rec0' else 'k%d' % n), inner))
    if n % 2:
        return (kind, inner)
    return (kind, c, inner)


def analyse(name, tier):
    X = Exact('pset', budget=60000, inferred=False, rec=8, more=name == 'mutant')
    Se, W, I = X.Se, X.W, X.I
    I.several = 6
    out = []
    n = {'conversions analysed': 0, 'levels compared': 0, 'undecided': 0}

    def report(key, node, msg):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'), 'message': msg})

    def build(st, t, i=0):
        """-> state, atom; the atoms of the inner containers are remembered in made"""
        if t[0] == 'leaf':
            return st, K(t[1])
        if t[0] in MAPS:
            pairs = []
            for j, (a, b) in enumerate(t[1:]):
                st, v = build(st, b, i + 1)
                pairs.append((K(a[1]), v))
            X.site('mk%d' % i)
            st, (d,) = ops.make_args(W, st, [mapping(*pairs)])
            if t[0] == 'dict':
                made[t] = d
                return st, d
            if t[0] == 'defaultdict':
                st = st.copy()
                st.heap[d[1]] = st.heap[d[1]].with_(cls='collections.defaultdict')
                made[t] = d
                return st, d
            f, arg = W.public('pmap'), d
            if t[0] == 'Rec0':
                r = X.ret(X.call('mkp%d' % i, st, W.glob('client', 'Rec0'), [], {a[2]: b for a, b in pairs}, pins=list(made.values())))
                if len(r) != 1:
                    raise NotImplementedError('building %r gives %d states' % (t, len(r)))
                made[t] = r[0].val
                return r[0].st, r[0].val
        else:
            items = []
            for j, b in enumerate(t[1:]):
                st, v = build(st, b, i + 1)
                items.append(v)
            kind = t[0] if t[0] in ('list', 'tuple', 'set', 'frozenset') else 'list'
            X.site('mk%d' % i)
            st, (d,) = ops.make_args(W, st, [('mk', kind) + (tuple(('i', V(v)) for v in items) or (None,))])
            if kind == t[0]:
                made[t] = d
                return st, d
            f, arg = W.glob('_pvector', 'python_pvector') if t[0] == 'PythonPVector' else W.public(t[0]), d
        r = X.ret(X.call('mkp%d' % i, st, f, [arg], pins=list(made.values())))
        if len(r) != 1:
            raise NotImplementedError('building %r gives %d states' % (t, len(r)))
        made[t] = r[0].val
        return r[0].st, r[0].val

    PUB = {'_pmap.PMap': 'pmap', '_pset.PSet': 'pset', '_pvector.PythonPVector': 'PythonPVector'}

    def kind(st, v):
        if v[0] == 'k':
            return 'leaf'
        if v[0] != 'l':
            return None
        o = I.get(st, v[1])
        if o.kind == 'inst':
            return PUB.get(o.cls, o.cls)
        if o.kind == 'pvec':
            return 'pvector'
        if o.kind == 'dict' and o.cls == 'collections.defaultdict':
            return 'defaultdict'
        return o.kind

    def entries(st, v):
        """[(key, value)] or [value] of a container of known shape, else None"""
        o = I.get(st, v[1])
        k = kind(st, v)
        if k in ('pmap', 'pset'):
            ds = [ob for l, ob in X.objects(st, v) if ob.kind == 'dict']
            own = [at for at in (o.fields.get('_buckets') or ())] if k == 'pmap' else None
            if k == 'pset':
                m = next(iter(o.fields.get('_map') or [None]), None)
                if m is None or m[0] != 'l':
                    return None
                e = entries(st, m)
                return None if e is None else [a for a, b in e]
            if not own or len(own) != 1 or own[0][0] != 'l':
                return None
            o = I.get(st, own[0][1])
            if o.kind != 'dict':
                return None
        if k == 'PythonPVector':
            vals = X.leaves(st, v)
            return None
        if o.kind == 'dict':
            r = [(a, b) for a, b in (o.kvs or {}).items()]
            for s in o.segs:
                if s[0] != 'di' or len(s[1]) != 1:
                    return None
                r.append((next(iter(s[1])), s[2]))
            return [(a, next(iter(b))) for a, b in r] if all(len(b) == 1 for a, b in r) else None
        if any(s[0] != 'i' or len(s[1]) != 1 for s in o.segs):
            return None
        return [next(iter(s[1])) for s in o.segs]

    def compare(st, v, want, path, t):
        """-> None, or what is wrong"""
        n['levels compared'] += 1
        if want[0] == 'same':
            if want[1][0] == 'leaf':
                return None if v == K(want[1][1]) or v[0] not in 'kl' else 'the value %s%s is replaced' % (want[1][1], path)
            if want[1] not in made or v[0] != 'l':
                return None
            return None if v == made[want[1]] else 'the %s%s is not left alone' % (want[1][0], path)
        k = kind(st, v)
        if k is None:
            n['undecided'] += 1
            return None
        if k != want[0] and not (want[0] == 'pvector' and k == 'PythonPVector'):
            return 'the %s%s becomes a %s, not a %s' % (t[0], path, 'value' if k == 'leaf' else k, want[0])
        e = entries(st, v)
        if e is None:
            n['undecided'] += 1
            return None
        if len(e) != len(want) - 1:
            return 'the %s%s is converted with %d instead of %d entries' % (t[0], path, len(e), len(want) - 1)
        if want[0] in ('pmap', 'dict'):
            got = dict(e)
            for (a, b), (_, tb) in zip(want[1:], t[1:]):
                if K(a[1]) not in got:
                    return 'the key %s of the %s%s is lost' % (a[1], t[0], path)
                r = compare(st, got[K(a[1])], b, ' in a %s%s' % (t[0], path), tb)
                if r:
                    return r
        elif want[0] in ('pset', 'set'):
            if {K(a[1]) for a in want[1:]} != set(e):
                return 'the elements of the %s%s change' % (t[0], path)
        else:
            for g, b, tb in zip(e, want[1:], t[1:]):
                r = compare(st, g, b, ' in a %s%s' % (t[0], path), tb)
                if r:
                    return r
        return None

    def run(fn, t, strict):
        made.clear()
        try:
            st, v = build(W.state(), t)
        except NotImplementedError:
            n['undecided'] += 1
            return
        f = W.public(fn)
        node = I.prog.funcs[ops.underlying(f)[1]]
        want = (frozen if fn == 'freeze' else thawed)(t, strict is not False)
        for args, kw in ([([v], {}), ([v, K(True)], {})] if strict else [([v], {'strict': K(False)}), ([v, K(False)], {})]):
            n['conversions analysed'] += 1
            outs = X.call('do', st, f, args, kw, pins=list(made.values()))
            for o in X.ret(outs):
                r = compare(o.st, o.val, want, '', t)
                if r and Se.exact:
                    report(fn, node, '%s(%s%s): %s' % (fn, text(t), '' if strict else ', strict=False', r))
            if outs and not X.ret(outs) and Se.exact:
                report(fn, node, '%s(%s%s) always raises' % (fn, text(t), '' if strict else ', strict=False'))
    made = {}
    if name == 'mutant':
        mutant(X, n, report, build, compare, made)
    else:
        fn, outer = name.split('|')
        kinds = PLAIN + PERS
        for mid in ['leaf'] + kinds + ['frozenset', 'Rec0']:
            for inner in ['leaf'] + kinds:
                if (mid == 'leaf' or mid in SETS) and inner != 'leaf' or outer in SETS and mid != 'leaf':
                    continue
                t0 = ('leaf', 'x') if inner == 'leaf' else wrap(inner, ('leaf', 'y'), 1)
                t1 = ('leaf', 'z') if mid == 'leaf' else wrap(mid, t0, 2)
                t = wrap(outer, t1, 3)
                for strict in (True, False):
                    run(fn, t, strict)
        if outer != 'Rec0':
            run(fn, (outer,), True)
            run(fn, (outer,), False)
    return {'violations': out, 'coverage': coverage(Se, n)}


def mutant(X, n, report, build, compare, made):
    """the function receives frozen arguments and what it returns is frozen"""
    I, W, Se = X.I, X.W, X.Se
    f = W.public('mutant')
    node = I.prog.funcs[ops.underlying(f)[1]]
    args = [('list', ('leaf', 'a')), ('dict', (('leaf', 'k'), ('set', ('leaf', 'b')))), ('pvector', ('list', ('leaf', 'c')))]
    kw = {'p': ('list', ('dict', (('leaf', 'q'), ('list', ('leaf', 'd'))))), 'r': ('set', ('leaf', 'e'))}
    for na, nk in ((1, 0), (0, 1), (3, 0), (0, 2), (2, 1)):
        made.clear()
        st = W.state()
        av, kv = [], {}
        for i, t in enumerate(args[:na]):
            st, v = build(st, t, 10 * i)
            av.append(v)
        names = sorted(kw)[:nk]
        for i, k in enumerate(names):
            st, kv[k] = build(st, kw[k], 100 + 10 * i)
        n['conversions analysed'] += 1
        for o in X.ret(X.call('do', st, W.glob('client', 'mut_args'), av, kv, pins=list(made.values()))):
            b = I.get(o.st, o.val[1]) if o.val[0] == 'l' else None
            if b is None or b.kind != 'inst' or b.cls != 'client.Box':
                continue
            a, k = (I.get(o.st, next(iter(b.fields[x]))[1]) for x in 'ak')
            got = [next(iter(s[1])) for s in a.segs if s[0] == 'i' and len(s[1]) == 1]
            kws = dict((x, next(iter(v))) for x, v in (k.kvs or {}).items() if len(v) == 1)
            if len(got) != na or set(kws) != {K(x) for x in names}:
                if Se.exact and all(s[0] == 'i' for s in a.segs):
                    report('mutant', node, 'the decorated function is not called with the arguments given')
                continue
            for v, t in list(zip(got, args)) + [(kws[K(x)], kw[x]) for x in names]:
                r = compare(o.st, v, frozen(t, True), '', t)
                if r and Se.exact:
                    report('mutant', node, 'an argument of a function decorated with mutant is not frozen: %s' % r)
    t = ('dict', (('leaf', 'k'), ('list', ('set', ('leaf', 'b')), ('tuple', ('list', ('leaf', 'c'))))))
    for fn, t in (('mut_result', t), ('mut_result2', ('pvector', ('list', ('leaf', 'c'))))):
        made.clear()
        for o in X.ret(X.call('do', W.state(), W.glob('client', fn), [], {})):
            n['conversions analysed'] += 1
            r = compare(o.st, o.val, frozen(t, True), '', t)
            if r and Se.exact:
                report('mutant', node, 'the result of a function decorated with mutant is not frozen: %s' % r)


def text(t):
    if t[0] == 'leaf':
        return repr(t[1])
    if t[0] in MAPS:
        return '%s({%s})' % (t[0], ', '.join('%r: %s' % (a[1], text(b)) for a, b in t[1:]))
    return '%s(%s)' % (t[0], ', '.join(text(b) for b in t[1:]))
