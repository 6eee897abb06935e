"""C10: equal collections hash equal and equality sees all contents."""
from .exact import *

EXPLANATION = ('For every collection type instances with the same opaque contents are produced by different histories (construction in '
               'another order, additions, replacements, removals, evolvers, with and without a hash that was asked for on the way), and '
               'pairs of instances whose contents differ in one respect (an element, a value, a key, a multiplicity, the number, the '
               'order) with the facts that tell the elements apart. All paths of ==, != and hash() on these are followed. Equal contents '
               'must never be reported unequal and have the same hash as a value number (the expression computed, sets being unordered); '
               'different contents must never be reported equal; != must be the negation.')
RULE = 'on every path == is true for the same contents and false for contents that differ, != is its negation, and the value number of the hash is the same for the same contents'
ASSUMPTIONS = ['instances hold up to three elements', '== of elements is an equivalence relation consistent with hash()',
               'hash() of builtin containers depends on what is in them only']
MINIMUM = {'pairs compared': 150, 'hashes compared': 40, 'comparisons decided': 300}
a, b, c, d, x, y, z = (E(i) for i in 'abcdxyz')
I_ = lambda *names: seq('list', *names)


def jobs(tier):
    return ['pmap', 'pmap*', 'pset', 'pbag', 'plist', 'pdeque', 'pvector@small', 'Vec@small', 'Set_', 'Map', 'Rec', 'RecSub', 'Rec0', 'Cls', 'ClsSub', 'Cls0']


# histories: a list of steps; the first makes the collection, the others are (method, args[, kw]) on the result
# 'hash' asks for the hash on the way, 'evolver'/'persistent' switch to and from an evolver
SAME = {
    'pvector': [[[I_('a', 'b')], [I_('a'), ('append', [b])], [I_('a', 'c'), ('hash',), ('set', [K(1), b])], [I_('a', 'b', 'c'), ('delete', [K(2)])],
                 [I_('a'), ('extend', [I_('b')])], [I_('a', 'c'), ('evolver',), ('__setitem__', [K(1), b]), ('persistent',)]],
                [[I_()], [I_('a'), ('delete', [K(0)])]]],
    'pset': [[[I_('a', 'b')], [I_('b', 'a')], [I_('a'), ('hash',), ('add', [b])], [I_('a', 'b', 'c'), ('hash',), ('remove', [c])], [I_('b'), ('update', [I_('a')])],
              [I_('a', 'c'), ('discard', [c]), ('add', [b])], [I_('a'), ('evolver',), ('add', [b]), ('persistent',)]],
             [[I_('a', 'b')], [('of', 'keys', mapping((a, x), (b, y)))]],
             [[I_()], [I_('a'), ('remove', [a])]]],
    'pbag': [[[I_('a', 'b')], [I_('b', 'a')], [I_('a'), ('hash',), ('add', [b])], [I_('a', 'b', 'b'), ('hash',), ('remove', [b])],
              [I_('a', 'b', 'c'), ('remove', [c])], [I_('b'), ('update', [I_('a')])]],
             [[I_('a', 'a', 'b')], [I_('a', 'b', 'a')], [I_('a', 'b'), ('add', [a])]],
             [[I_()], [I_('a'), ('remove', [a])]]],
    'plist': [[[I_('a', 'b')], [I_('b'), ('cons', [a])], [I_(), ('cons', [b]), ('cons', [a])], [I_('b', 'a'), ('reverse', [])]],
              [[I_()], [I_('a'), ('remove', [a])]]],
    'pdeque': [[[I_('a', 'b')], [I_('a'), ('append', [b])], [I_('b'), ('appendleft', [a])], [I_(), ('append', [a]), ('append', [b])],
                [I_(), ('appendleft', [b]), ('appendleft', [a])], [I_('a', 'b', 'c'), ('pop', [])], [I_('c', 'a', 'b'), ('popleft', [])],
                [I_('b', 'a'), ('reverse', [])], [('args', [I_('a', 'b')], {'maxlen': K(5)})], [('args', [I_('c', 'a'), K(2)], {}), ('append', [b])],
                [('args', [I_(), K(3)], {}), ('append', [a]), ('append', [b])]],
               [[I_('a', 'b', 'c')], [I_('a'), ('append', [b]), ('append', [c])], [I_('c'), ('appendleft', [b]), ('appendleft', [a])],
                [I_('b'), ('appendleft', [a]), ('append', [c])]],
               [[I_()], [I_('a'), ('pop', [])]]],
    'pmap': [[[mapping((a, x), (b, y))], [mapping((b, y), (a, x))], [mapping((a, x)), ('hash',), ('set', [b, y])],
              [mapping((a, z), (b, y)), ('hash',), ('set', [a, x])], [mapping((a, x), (b, y), (c, z)), ('hash',), ('remove', [c])],
              [mapping((a, x)), ('update', [mapping((b, y))])], [mapping((a, z)), ('hash',), ('evolver',), ('__setitem__', [a, x]), ('__setitem__', [b, y]), ('persistent',)]],
             [[mapping()], [mapping((a, x)), ('remove', [a])]]],
}
SAME['Vec'] = SAME['pvector']
SAME['Set_'] = SAME['pset']
SAME['Map'] = [SAME['pmap'][0][:1] + SAME['pmap'][0][1:3] + SAME['pmap'][0][4:5], SAME['pmap'][1]]
DIFF = {
    'pvector': [(I_('a', 'b'), I_('a', 'c')), (I_('a', 'b'), I_('c', 'b')), (I_('a', 'b'), I_('a')), (I_('a'), I_()), (I_('a', 'b'), I_('b', 'a'))],
    'pset': [(I_('a', 'b'), I_('a', 'c')), (I_('a', 'b'), I_('a')), (I_('a'), I_())],
    'pbag': [(I_('a', 'b'), I_('a', 'c')), (I_('a', 'a'), I_('a')), (I_('a', 'a', 'b'), I_('a', 'b', 'b')), (I_('a', 'b'), I_('a', 'b', 'c')), (I_('a'), I_())],
    'pmap': [(mapping((a, x)), mapping((a, y))), (mapping((a, x)), mapping((b, x))), (mapping((a, x), (b, y)), mapping((a, x))),
             (mapping((a, x), (b, y)), mapping((a, x), (b, z))), (mapping((a, x), (b, y)), mapping((a, y), (b, x))), (mapping((a, x)), mapping())],
}
DIFF['plist'] = DIFF['pdeque'] = DIFF['Vec'] = DIFF['pvector']
DIFF['pdeque'] = DIFF['pvector'] + [(I_('a', 'b', 'c'), I_('a', 'b', 'd')), (I_('a', 'b', 'c', 'd'), I_('a', 'b', 'd', 'c'))]
DIFF['Set_'] = DIFF['pset']
DIFF['Map'] = DIFF['pmap']


def fields(fam):
    return ['x'] if fam.endswith('0') else ['a', 'b', 'c'] + (['d'] if 'Sub' in fam else [])


def analyse(name, tier):
    fam = name.split('@')[0].rstrip('*')
    X = Exact(name, budget=40000 if tier == 'quick' else 300000, inferred=False)
    Se, W, I = X.Se, X.W, X.I
    I.several = 6
    if '@' in name:
        Se.variants[0][1]()
    out = []
    n = {'pairs compared': 0, 'comparisons decided': 0, 'hashes compared': 0, 'undecided': 0}

    def report(key, node, msg):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'), 'message': msg})

    def failed(st):
        return any(mentions(k, 'exc') for k in st.facts)
    st0 = W.state()
    for i, p in enumerate((a, b, c, d)):
        for q in (a, b, c, d)[i + 1:]:
            st0 = I.assume(st0, I.mkeq('eq', p[1], q[1]), False) or st0
    for i, p in enumerate((x, y, z)):
        for q in (x, y, z)[i + 1:]:
            st0 = I.assume(st0, I.mkeq('eq', p[1], q[1]), False) or st0

    def produce(st, steps, pins, tag):
        """one way to come to the instance; [] if it does not come about on a single path"""
        make = steps[0]
        if not isinstance(make, dict) and make[0] == "of":
            rs = []
            for r in X.ret(X.call('mo' + tag, st, W.public('pmap'), [make[2]], {}, pins=pins))[:1]:
                rs += X.ret(X.method('mk' + tag, r.st, r.val, make[1], [], {}, pins=pins + [r.val]))
            return [r for r in rs if Se.is_inst(r.st, r.val)][:2]
        if fam[0].islower():
            f = W.glob('_pvector', 'python_pvector') if fam == 'pvector' else W.public(fam)
        else:
            f = ('c', Se.cid)
        if not isinstance(make, dict) and make[0] == 'args':
            rs = X.ret(X.call('mk' + tag, st, f, make[1], make[2], pins=pins))
        elif isinstance(make, dict):
            rs = X.ret(X.call('mk' + tag, st, f, [], make, pins=pins))
        else:
            rs = X.ret(X.call('mk' + tag, st, f, [make], {}, pins=pins))
        rs = [r for r in rs if Se.is_inst(r.st, r.val) and not failed(r.st)][:2]
        for i, sp in enumerate(steps[1:]):
            nxt = []
            for r in rs:
                t = '%s%d' % (tag, i)
                if sp[0] == 'hash':
                    for q in X.ret(X.call('h' + t, r.st, ('b', 'hash'), [r.val], pins=pins + [r.val]))[:1]:
                        q.val = r.val
                        nxt.append(q)
                    continue
                args, kw = (sp[1] if len(sp) > 1 else []), (sp[2] if len(sp) > 2 else {})
                ev = sp[0] == '__setitem__' or sp[0] in ('add',) and i and steps[i][0] == 'evolver'
                for q in X.ret(X.method('s' + t, r.st, r.val, sp[0], args, kw, pins=pins + [r.val])):
                    if failed(q.st):
                        continue
                    if ev:
                        q.val = r.val
                    nxt.append(q)
            rs = nxt[:2]
        return rs

    def truths(op, st, p, q):
        """the truth values p op q can have"""
        r = []
        for o in X.ret(X.call('cmp', st, ('b', 'operator.' + op), [p, q], pins=[p, q])):
            if failed(o.st):
                continue
            if any(k not in st.facts for k in o.st.facts):
                r.append(None)          # depends on something not known
            elif o.val[0] == 'k':
                r.append(bool(o.val[2]))
            else:
                t = [v for s, v in I.truth(o.st, o.val)]
                r.append(t[0] if len(t) == 1 else None)
        return r

    def node(me, st, meth):
        m = Se.function(me, ops.Op(meth, I.get(st, me[1]).cls))
        return m if m is not None and hasattr(m, '_mod') else I.classes[I.get(st, me[1]).cls].node

    def judge(st, p, q, equal, text):
        n['pairs compared'] += 1
        for op, want in (('eq', equal), ('ne', not equal)):
            for u, v in ((p, q), (q, p)):
                for t in truths(op, st, u, v):
                    if t is None:
                        n['undecided'] += 1
                        continue
                    n['comparisons decided'] += 1
                    if t != want and Se.exact:
                        report('%s|%s' % (op, 'same' if equal else 'different'), node(p, st, '__%s__' % op), '%s: %s can be %s for %s' % (
                            name, '==' if op == 'eq' else '!=', t, text))

    def hashes(st, p):
        outs = X.call('hash', st, ('b', 'hash'), [p], pins=[p])
        if outs and not X.ret(outs) and Se.exact:
            report('hash', node(p, st, '__hash__'), '%s: hash() of an instance with hashable contents always raises' % name)
        return [canon(o.val) for o in X.ret(outs) if not failed(o.st)]

    def same(groups, label=str):
        for g in groups:
            first = None
            for k, steps in enumerate(g):
                for r in produce(st0, g[0], [], 'A')[:1]:
                    for q in produce(r.st, steps, [r.val], 'B')[:2 if k else 1]:
                        if k:
                            judge(q.st, r.val, q.val, True, 'the same contents (%s)' % history(steps))
                        h1, h2 = hashes(q.st, r.val), hashes(q.st, q.val)
                        for u in h1:
                            for v in h2:
                                if u is None or v is None or len(h1) > 1 or len(h2) > 1:
                                    n['undecided'] += 1
                                    continue
                                n['hashes compared'] += 1
                                if u != v and Se.exact:
                                    report('hash', node(q.val, q.st, '__hash__'), '%s: the hash differs for the same contents (%s)' % (name, history(steps)))

    def different(pairs):
        for s, t in pairs:
            for hashed in (False, True):
                for r in produce(st0, [s] + ([('hash',)] if hashed else []), [], 'A')[:1]:
                    for q in produce(r.st, [t] + ([('hash',)] if hashed else []), [r.val], 'B')[:1]:
                        judge(q.st, r.val, q.val, False, 'different contents (%s and %s%s)' % (shown(s), shown(t), ', after hashing' if hashed else ''))
    if name == 'pmap':
        # the map on its own storage: a remembered hash never passes to a map with other contents
        for steps in (['set', [b, y]], ['set', [a, y]], ['remove', [a]], ['update', [mapping((b, y))]], ['discard', [a]], ['evolver', []]):
            for r in produce(st0, [mapping((a, x)), ('hash',)], [], 'A')[:1]:
                old = I.get(r.st, r.val[1]).fields
                outs = X.ret(X.method('upd', r.st, r.val, steps[0], steps[1], pins=[r.val]))
                if steps[0] == 'evolver':
                    outs = [p for q in outs for w in X.ret(X.method('upd2', q.st, q.val, '__setitem__', [b, y], pins=[r.val, q.val]))
                            for p in X.ret(X.method('upd3', w.st, q.val, 'persistent', [], pins=[r.val, q.val]))]
                for o in outs:
                    n['pairs compared'] += 1
                    if not Se.is_inst(o.st, o.val) or o.val == r.val:
                        continue
                    new = I.get(o.st, o.val[1]).fields
                    for f, v in old.items():
                        w = new.get(f) or ()
                        n['hashes compared'] += 1
                        for at in v:
                            if at[0] == 's' and at[1][0] == 'hash' and at in w and Se.exact:
                                report('stale', node(r.val, r.st, steps[0]), 'a map made by %s() keeps the remembered hash of the map it was made from' % steps[0])
    elif fam in SAME:
        same(SAME[fam])
        different(DIFF[fam])
    else:
        fs = fields(fam)
        base = {f: E('v' + f) for f in fs}
        h = [[base]]
        for f in fs:
            for op in ('is', 'eq'):
                st0 = I.assume(st0, I.mkeq(op, ('arg', 'v' + f), ('arg', 'w')), False) or st0
        for f in fs:
            if f == 'b' or fam in ('Rec', 'RecSub'):
                continue          # the factory of b runs on every update
            h.append([dict(base, **{f: E('w')}), ('hash',), ('set', [K(f), base[f]])])
            h.append([{g: v for g, v in base.items() if g != f}, ('hash',), ('set', [K(f), base[f]])])
        same([h])
        for f in fs:
            s1 = st0
            if f == 'b':
                e1, e2 = ('call', ('decl', 'MK1'), ('arg', 'vb')), ('call', ('decl', 'MK1'), ('arg', 'w'))
            else:
                e1, e2 = ('arg', 'v' + f), ('arg', 'w')
            st0 = I.assume(s1, I.mkeq('eq', e1, e2), False) or s1
            different([(base, dict(base, **{f: E('w')})), (base, {g: v for g, v in base.items() if g != f})] if f in ('c', 'x') else [(base, dict(base, **{f: E('w')}))])
            st0 = s1
    return {'violations': out, 'coverage': coverage(Se, n)}


def canon(v):
    """the value number of a hash; None when it is not a single expression"""
    def opaque(e):
        return isinstance(e, tuple) and (e[:1] in (('opq',), ('or',), ('cyc',), ('obj',), ('r',), ('dr',)) or any(opaque(i) for i in e))
    if v[0] == 's':
        return None if opaque(v[1]) else v
    return v if v[0] == 'k' else None


def shown(s):
    if not isinstance(s, dict) and s[0] == "of":
        return '%s.%s()' % (shown(s[2]), s[1])
    if isinstance(s, dict):
        return '{%s}' % ', '.join('%s=%s' % (k, v[1][1]) for k, v in sorted(s.items()))
    if s[1] == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (next(iter(e[1]))[1][1], next(iter(e[2]))[1][1]) for e in s[2:] if e)
    if s[0] == 'args':
        return shown(s[1][0]) + ' with a bound'
    return '[%s]' % ', '.join(next(iter(e[1]))[1][1] for e in s[2:] if e)


def history(steps):
    return ' '.join([shown(steps[0])] + [s[0] for s in steps[1:]])


def mentions(e, tag):
    return e == tag or isinstance(e, tuple) and any(mentions(x, tag) for x in e)
