"""C11: pickling rebuilds the same type with all of its state."""
from .exact import *

EXPLANATION = ('For every collection type instances with opaque elements are built, what __reduce__ returns is taken apart on every '
               'path, and the callable it names is applied to the arguments it carries, again on every path. The rebuilt object is '
               'compared with the original: class, elements with their order of appearance, keys with their values, multiplicities, '
               'the maximum length of a deque, and the field values (which must be the very values: a factory applied again gives '
               'another value). What is handed to pickle must not contain results of hash() or id().')
RULE = 'applying what __reduce__ returns gives an instance of the same class with the same state, running no factory, and nothing of it depends on hash() or id()'
ASSUMPTIONS = ['instances hold up to two elements', 'pickle restores the arguments as they were given to it',
               'for the plain vector it is checked what is handed to pvector()', 'a type without __reduce__ is pickled by the interpreter slot by slot']
MINIMUM = {'instances reduced': 20, 'instances rebuilt': 18}
GENERIC = {'pbag'}


def jobs(tier):
    return ['pmap', 'pset', 'pbag', 'plist', 'pdeque', 'pvector@small', 'Vec@small', 'VecSub@small', 'Set_', 'SetSub', 'Map', 'MapSub', 'Rec', 'RecSub',
            'Cls', 'ClsSub', 'fields']


def analyse(name, tier):
    fam = name.split('@')[0]
    X = Exact('Rec' if fam == 'fields' else name, budget=60000 if tier == 'quick' else 300000, inferred=False, more=fam == 'fields')
    Se, W, I = X.Se, X.W, X.I
    I.several = 6
    if '@' in name:
        Se.variants[0][1]()
    out = []
    n = {'instances reduced': 0, 'instances rebuilt': 0, 'facts compared': 0, 'undecided': 0}
    a, b, x, y = (E(i) for i in 'abxy')

    def report(key, node, msg):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'), 'message': msg})

    def failed(st):
        return any(mentions(k, 'exc') for k in st.facts)

    def items(st, l):
        """the elements of a builtin container of known shape, else None"""
        o = I.get(st, l)
        if o.kind == 'dict':
            r = [(k, v) for k, v in (o.kvs or {}).items()]
            for s in o.segs:
                if s[0] != 'di' or len(s[1]) != 1:
                    return None
                r.append((next(iter(s[1])), s[2]))
            return r if all(len(v) == 1 for k, v in r) else None
        if any(s[0] != 'i' or len(s[1]) != 1 for s in o.segs):
            return None
        return [next(iter(s[1])) for s in o.segs]

    def contents(st, val, depth=0):
        """what is stored below val, in canonical form: opaque values, instances by class and contents"""
        if val[0] != 'l':
            return val
        o = I.get(st, val[1])
        if depth > 6:
            return ('deep',)
        if o.kind in ('list', 'tuple', 'dict', 'pvec'):
            it = items(st, val[1])
            if it is None:
                return None
            if o.kind == 'dict':
                r = [(contents(st, k, depth + 1), contents(st, next(iter(v)), depth + 1)) for k, v in it]
                return None if any(None in p for p in r) else ('dict', frozenset(r))
            r = tuple(contents(st, e, depth + 1) for e in it)
            return None if None in r else (o.kind, r)
        return (o.kind, getattr(o, 'cls', None))

    def listing(what, st, val, kind):
        """list(val) / dict(val) in all ways it can come out"""
        r = []
        for q in X.ret(X.call(what, st, ('b', kind), [val], pins=[val])):
            r.append((q.st, contents(q.st, q.val)))
        return r

    def roundtrip(st, me, kind, label, fields=None, extra=None):
        cls = I.get(st, me[1]).cls
        f = I.class_lookup(st, cls, '__reduce__')
        node = Se.function(me, ops.Op('__reduce__', cls)) if f is not None else None
        if node is None or not hasattr(node, '_mod'):
            return
        for o in X.ret(X.method('reduce', st, me, '__reduce__', [], pins=[me])):
            if o.val[0] != 'l' or I.get(o.st, o.val[1]).kind != 'tuple':
                if Se.exact and o.val[0] in ('l', 'k'):
                    report('shape', node, '__reduce__ of %s does not return a tuple' % label)
                continue
            parts = items(o.st, o.val[1])
            if parts is None or len(parts) < 2 or parts[1][0] != 'l':
                n['undecided'] += 1
                continue
            n['instances reduced'] += 1
            fn, args = parts[0], items(o.st, parts[1][1])
            for l, ob in X.objects(o.st, parts[1]):
                for v in ob.all_vals():
                    for at in v:
                        if ob.kind in ('list', 'tuple', 'dict') and at[0] == 's' and at[1][0] in ('hash', 'id'):
                            report('process', node, 'what %s hands to pickle contains a result of %s()' % (label, at[1][0]))
            if args is None:
                n['undecided'] += 1
                continue
            made = X.ret(X.call('rebuild', o.st, fn, args, pins=[o.val, me]))
            for q in made:
                if failed(q.st):
                    continue
                if q.val[0] != 'l':
                    continue
                got = I.get(q.st, q.val[1])
                n['instances rebuilt'] += 1
                n['facts compared'] += 1
                if fam == 'pvector':
                    if got.kind != 'pvec' and not (got.kind == 'inst' and got.cls == cls) and Se.exact:
                        report('class', node, 'restoring a pickled %s gives no vector' % label)
                elif got.kind != 'inst' or got.cls != cls:
                    if Se.exact:
                        report('class', node, 'restoring a pickled %s gives an instance of %s' % (label, getattr(got, 'cls', got.kind)))
                    continue
                if fields is not None:
                    for name_ in fields:
                        n['facts compared'] += 1
                        for r0 in X.ret(X.call('field', q.st, ('b', 'getattr'), [me, K(name_)], pins=[me, q.val, o.val]))[:1]:
                            rs = X.call('field2', r0.st, ('b', 'getattr'), [q.val, K(name_)], pins=[me, q.val, o.val, r0.val])
                            if not X.ret(rs) and rs and Se.exact:
                                report('state', node, 'field %s of a %s is not restored' % (name_, label))
                            for r1 in X.ret(rs):
                                same = r0.val == r1.val or I.identical(r1.st, r0.val, r1.val)
                                if same is not True and Se.exact and r0.val[0] in 'sk' and r1.val[0] in 'sk':
                                    report('state', node, 'field %s of a %s is restored with another value%s' % (
                                        name_, label, ' (a factory was run again)' if mentions(r1.val, 'MK1') else ''))
                elif kind:
                    was = listing('was', q.st, me, kind)
                    for s1, w in was:
                        for s2, g in listing('now', s1, q.val, kind):
                            n['facts compared'] += 1
                            if w is None or g is None:
                                n['undecided'] += 1
                                continue
                            w_, g_ = (w, g) if kind == 'dict' or fam in ('pvector', 'Vec', 'VecSub', 'plist', 'pdeque', 'seq') else (
                                (w[0], frozenset(w[1])), (g[0], frozenset(g[1])))
                            if w_ != g_ and Se.exact:
                                report('state', node, 'a restored %s does not have the contents of the pickled one' % label)
                for attr in extra or ():
                    for r0 in X.ret(X.call('x0', q.st, ('b', 'getattr'), [me, K(attr)], pins=[me, q.val, o.val]))[:1]:
                        for r1 in X.ret(X.call('x1', r0.st, ('b', 'getattr'), [q.val, K(attr)], pins=[me, q.val, o.val]))[:1]:
                            n['facts compared'] += 1
                            if r0.val != r1.val and Se.exact and r0.val[0] in 'sk' and r1.val[0] in 'sk':
                                report('state', node, '%s of a restored %s differs' % (attr, label))
            if not made and Se.exact:
                report('raises', node, 'what %s hands to pickle cannot be restored' % label)

    def neq(st, p, q):
        return I.assume(st, I.mkeq('eq', p[1], q[1]), False) or st
    st = W.state()
    if fam in ('pset', 'pbag', 'plist', 'pvector'):
        f = W.glob('_pvector', 'python_pvector') if fam == 'pvector' else W.public(fam)
        for sh in ([], ['a'], ['a', 'b']):
            for q in X.ret(X.call('make', neq(st, a, b), f, [seq('list', *sh)]))[:2]:
                if Se.is_inst(q.st, q.val):
                    roundtrip(q.st, q.val, 'list', fam)
    elif fam == 'pdeque':
        for sh in ([], ['a'], ['a', 'b'], ['a', 'b', 'x', 'y']):
            for ml in (NONE, K(2), K(5), K(0), S('n', ('r', 'maxlen'))):
                for q in X.ret(X.call('make', st, W.public('pdeque'), [seq('list', *sh), ml]))[:2]:
                    if Se.is_inst(q.st, q.val):
                        roundtrip(q.st, q.val, 'list' if ml[0] == 'k' else None, 'pdeque', extra=['maxlen'])
    elif fam == 'pmap':
        for sh in ([], [(a, x)], [(a, x), (b, y)]):
            for q in X.ret(X.call('make', neq(st, a, b), W.public('pmap'), [mapping(*sh)]))[:2]:
                roundtrip(q.st, q.val, 'dict', 'pmap')
    elif fam in ('Vec', 'VecSub', 'Set_', 'SetSub'):
        for sh in ([], ['a'], ['a', 'b']):
            for q in X.ret(X.new('make', Se.cid, [seq('list', *sh)], st=neq(st, a, b)))[:1]:
                if Se.is_inst(q.st, q.val):
                    roundtrip(q.st, q.val, 'list', fam)
    elif fam in ('Map', 'MapSub'):
        for sh in ([], [(a, x)], [(a, x), (b, y)]):
            for q in X.ret(X.new('make', Se.cid, [mapping(*sh)], st=neq(st, a, b)))[:1]:
                if Se.is_inst(q.st, q.val):
                    roundtrip(q.st, q.val, 'dict', fam)
    elif fam in ('Rec', 'RecSub', 'Cls', 'ClsSub'):
        fields = ['a', 'b', 'c'] + (['d'] if 'Sub' in fam else [])
        for sub in (fields, [f for f in fields if f != 'c']):
            for q in X.ret(X.new('make', Se.cid, [], {f: E('v' + f) for f in sub}, st=st))[:4]:
                if Se.is_inst(q.st, q.val) and not failed(q.st):
                    roundtrip(q.st, q.val, None, fam, fields=sub)
                    break
    else:
        fam = 'seq'
        for cls, fl in (('RecVec', {'p': 'vector'}), ('RecSet', {'q': 'set'}), ('RecMap', {'p': 'map', 'r': 'map'})):
            for nm, kind in fl.items():
                kw = {g: {'vector': seq('list', 'a', 'b'), 'set': seq('list', 'a'), 'map': mapping((a, x))}[k] for g, k in fl.items()}
                for q in X.ret(X.new('make', 'client.' + cls, [], kw, st=st))[:1]:
                    if not Se.is_inst(q.st, q.val) or failed(q.st):
                        continue
                    for r in X.ret(X.call('value', q.st, ('b', 'getattr'), [q.val, K(nm)], pins=[q.val]))[:1]:
                        if r.val[0] == 'l' and I.get(r.st, r.val[1]).kind == 'inst':
                            roundtrip(r.st, r.val, 'dict' if kind == 'map' else 'list', '%s field' % kind)
    return {'violations': out, 'coverage': coverage(Se, n)}


def mentions(e, tag):
    return e == tag or isinstance(e, tuple) and any(mentions(x, tag) for x in e)
