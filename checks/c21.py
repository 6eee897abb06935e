"""C21: a bag only holds positive multiplicities."""
from .exact import *

EXPLANATION = ('Bags are described by maps from opaque elements to unknown counts that are only known to be at least one. Every '
               'operation of the bag is followed on all paths, on bags of up to two distinct elements, alone and combined with '
               'a second bag; the keys may or may not be equal. In each resulting bag the count of every entry is compared with one '
               'under the facts of the path, and containment, count and length are compared with the entries.')
RULE = ('every count stored in a returned bag is at least 1 on its path; x in bag, count(x) and len(bag) agree with the entries')
ASSUMPTIONS = ['bags of at most two distinct elements (counts are unbounded)', 'the map below behaves as its contract says (C22)']
MINIMUM = {'bags examined': 150, 'counts compared': 200}
READS = {'__repr__', '__str__', '__hash__', '__iter__', '__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__', '__init__', '__new__'}


def jobs(tier):
    return ['single', 'binary', 'reads']


def analyse(name, tier):
    X = Exact('pbag', budget=60000 if tier == 'quick' else 300000)
    Se, W, I = X.Se, X.W, X.I
    cid = '_pbag.PBag'
    pm, pb = W.public('pmap'), W.public('pbag')
    out = []
    n = [0, 0, 0]

    def report(key, node, msg):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'), 'message': msg})

    def bag(st, tag, keys):
        """[(state, bag)] with unknown positive counts"""
        pairs = []
        for i, k in enumerate(keys):
            for j in keys[:i]:
                s = I.assume(st, I.mkeq('eq', E(k)[1], E(j)[1]), False)
                if s is None:
                    return []
                st = s
        for k in keys:
            c = S('n', ('r', tag + k))
            st = I.assume_cmp(st, '>=', c, K(1), True)
            pairs.append((E(k), c))
        r = []
        for q in X.ret(X.call(tag, st, pm, [mapping(*pairs)])):
            for b in X.ret(X.call(tag + 'bag', q.st, ('c', cid), [q.val], pins=[q.val])):
                if Se.is_inst(b.st, b.val):
                    r.append((b.st, b.val))
        return r

    def is_bag(st, a):
        return Se.is_inst(st, a) and cid in I.classes[I.get(st, a[1]).cls].mro

    def entries(st, val):
        """the entries of the map the bag consists of: [(key, count)]"""
        r = []
        for f, v in I.get(st, val[1]).fields.items():
            for m in v:
                for l, d in X.objects(st, m) if m[0] == 'l' else ():
                    if d.kind == 'dict' and d.own != 'user':
                        for k, c in (d.kvs or {}).items():
                            r.extend((k, x) for x in c)
                        for s in d.segs:
                            r.extend((k, x) for k in s[1] for x in s[2])
        return r

    def judge(o, node, ctx):
        if o.kind != 'ret' or not is_bag(o.st, o.val):
            return
        n[0] += 1
        exact = Se.exact
        for k, c in entries(o.st, o.val):
            if c == ABSENT:
                continue
            b = I.decide_cmp(o.st, '>=', c, K(1))
            n[1] += b is True
            if b is False:
                report('count', node, 'an element is left with a count below one: %s' % ctx)
            elif b is None and exact and as_lin(c) is not None and c[0] == 's' and not top(c):
                report('count', node, 'the count %s can be zero or negative: %s' % (show(c), ctx))
            elif b is None:
                n[2] += 1

    def top(c):
        return c[1][0] not in ('n', 'lin', 'min', 'max')

    selfs = [(s, b, ''.join(ks)) for ks in ((), ('a',), ('a', 'b')) for s, b in bag(W.state(), 'n', ks)]
    node = I.classes[cid].node
    if name == 'single':
        fn = I.prog.funcs[ops.underlying(pb)[1]]
        for sh in (('mk', 'list', None), seq('list', 'a'), seq('list', 'a', 'b'), seq('list', 'a', 'a', 'b')):
            for o in X.call('pbag', W.state(), pb, [sh]):
                judge(o, fn, 'pbag(<%d elements>)' % (len(sh) - 2))
        for st, me, ks in selfs:
            for op in Se.ops(cid):
                if op.kind in ('cm', 'sm', 'prop') or op.name in READS:
                    continue
                if len(op.args) > 1 or op.star or op.dstar:
                    continue
                if op.name in ('__add__', '__sub__', '__or__', '__and__', '__len__', '__contains__', 'count'):
                    continue
                alts = [[seq('list', 'x')], [seq('list', 'x', 'y')], [seq('list', 'a', 'a')], [('mk', 'list', None)]] if op.name == 'update' else \
                    [[E('x')]] + [[E(k)] for k in ks] if op.args else [[]]
                for a in alts:
                    for o in X.method('op', st, me, op.name, a):
                        judge(o, Se.function(me, op), '%s on a bag of %d elements' % (op.name, len(ks)))
    elif name == 'binary':
        for st, me, ks in selfs:
            for oks in ((), ('a',), ('c',), ('a', 'b'), ('b', 'c')) if tier != 'quick' else ((), ('a',), ('c',), ('a', 'b')):
                for s, other in bag(st, 'm', oks):
                    for op in Se.ops(cid):
                        if op.name in READS or len(op.args) != 1 or op.kind != 'method' or op.name in ('add', 'remove', 'count', 'update', '__contains__'):
                            continue
                        for o in X.method('op', s, me, op.name, [other], pins=[other]):
                            judge(o, Se.function(me, op), '%s of bags of %d and %d elements' % (op.name, len(ks), len(oks)))
    else:
        for st, me, ks in selfs:
            own = [(k, c) for k, c in entries(st, me) if c != ABSENT]
            for x, same in [('x', k) for k in ['-'] + list(ks)] + [(k, None) for k in ks]:
                s0 = st
                for k in ks if same else ():
                    s0 = I.assume(s0, I.mkeq('eq', E('x')[1], E(k)[1]), k == same)
                for o in X.ret(X.method('in', s0, me, '__contains__', [E(x)])):
                    for c in X.ret(X.method('count', o.st, me, 'count', [E(x)])):
                        n[0] += 1
                        if not Se.exact:
                            continue
                        tr = I.truth(c.st, o.val)
                        for s2, t in tr:
                            b = I.decide_cmp(s2, '>=', c.val, K(1))
                            n[1] += b is not None
                            if b is not None and b != t:
                                report('contains', node, 'containment and count disagree on a bag of %d elements' % len(ks))
            for o in X.ret(X.method('len', st, me, '__len__')):
                tot = K(0)
                for k, c in own:
                    tot = lin_add(tot, c) if tot is not None else None
                d = lin_add(o.val, tot, -1) if tot is not None else None
                n[0] += 1
                if d is not None and d[0] == 'k':
                    n[1] += 1
                    if d[2] != 0:
                        report('len', node, 'the length is not the sum of the counts')
                elif d is not None and Se.exact and not top(d):
                    report('len', node, 'the length (%s) is not the sum of the counts' % show(o.val))
    return {'violations': out, 'coverage': coverage(Se, {'bags examined': n[0], 'counts compared': n[1], 'undecided': n[2]})}


def show(a):
    return str(a[2] if a[0] == 'k' else a[1])[:80]
