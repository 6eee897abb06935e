"""C20: a bounded deque keeps its bound and never exceeds it."""
from .exact import *

EXPLANATION = ('Every public operation of the deque is analysed on an arbitrary well-formed deque (any contents, any bound, length not '
               'above the bound) and, with containers of known size, on deques built by the factories with bounds 0 to 3. For each '
               'returned deque its maxlen is read through the property and compared, as a value number, with that of the receiver or '
               'the requested one; its length, as a linear expression, is compared with the bound under the facts of the path.')
RULE = ('maxlen of each returned deque is the value of the receiver (or the requested one); len(result) <= maxlen follows on every path '
        'on which maxlen is not None')
ASSUMPTIONS = ['lengths that are not linear in the lengths involved are only followed for known sizes']
MINIMUM = {'deques examined': 100, 'length comparisons decided': 60}


def jobs(tier):
    return ['any', 'known']


def analyse(name, tier):
    X = Exact('pdeque', budget=60000 if tier == 'quick' else 300000)
    Se, W, I = X.Se, X.W, X.I
    cid = '_pdeque.PDeque'
    out = []
    n = [0, 0, 0]

    def report(key, node, msg):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'), 'message': msg})

    def is_deque(st, a):
        return Se.is_inst(st, a) and cid in [c for c in I.classes[I.get(st, a[1]).cls].mro]

    def bounds_of(st, a):
        """[(state, maxlen atom, length atom)]"""
        r = []
        for s, m in W.attr(st, a, 'maxlen'):
            for o in W.method(s, a, '__len__', [], pins=[a]):
                if o.kind == 'ret':
                    r.append((o.st, m, o.val))
        return r

    def same(st, a, b):
        if a == b:
            return True
        ga, gb = I.gvn(st, a), I.gvn(st, b)
        if ga == gb:
            return True
        if I.fact(st, I.mkeq('is', ga, gb)) is True or I.fact(st, I.mkeq('eq', ga, gb)) is True:
            return True
        return False

    def judge(o, node, want, ctx):
        """want: [atoms] the bound may be"""
        if o.kind != 'ret' or not is_deque(o.st, o.val):
            return
        n[0] += 1
        exact = Se.exact
        r = Se.attempt('maxlen', lambda: bounds_of(o.st, o.val)) or []
        for st, m, ln in r:
            if not any(same(st, m, w) for w in want):
                if exact and m[0] in ('k', 's'):
                    report('maxlen', node, 'the bound of the result is not the bound asked for (%s): %s' % (show(m), ctx))
                continue
            if m == NONE or any(w == NONE and same(st, m, w) for w in want):
                continue
            if I.fact(st, I.mkeq('is', I.gvn(st, m), NONE)) is True:
                continue
            b = I.decide_cmp(st, '<=', ln, m)
            if b is True:
                n[1] += 1
            elif b is False:
                report('length', node, 'the deque holds more elements than its bound: %s' % ctx)
            elif exact and linear(ln) and linear(m):
                # no test on this path relates the two although the length grew
                n[2] += 1
                if grew(ln):
                    report('length', node, 'the length can grow beyond the bound (%s against %s): %s' % (show(ln), show(m), ctx))

    def linear(a):
        return as_lin(a) is not None

    def grew(ln):
        """ln - (length of the receiver) is a positive constant"""
        for w in lens:
            d = lin_add(ln, w, -1)
            if d is not None and d[0] == 'k' and d[2] > 0:
                return True
        return False

    lens = []
    if name == 'any':
        me = W.pre(cid, 'self')
        st0 = W.state()
        # the fields behind maxlen and len() hold integers
        for st, m, ln in bounds_of(st0, me):
            for a in (m, ln):
                if a[0] == 's' and a[1][0] == 'u' and a[1][1][0] == 'f':
                    t = I.tmpl.get((cid, a[1][1][2]))
                    if t is not None:
                        t.discard(('user',))
                        t.add(('int',))
        I.precache.clear()
        me = W.pre(cid, 'self')
        st0 = W.state()
        pre = bounds_of(st0, me)
        for st, m, ln in pre:
            if m == NONE:
                starts = [(st, NONE, ln)]
            else:
                s2 = I.assume_cmp(st, '<=', ln, m, True)
                starts = [(s2, m, ln)] if s2 is not None else []
            for s, m, ln in starts:
                lens[:] = [ln]
                for op in Se.ops(cid):
                    if op.kind in ('cm', 'sm', 'prop') or op.name in ('__new__',):
                        continue
                    node = Se.function(me, op)
                    for args in variants(op):
                        W.site = ('op', repr(op), repr(args))
                        Se.exact = True
                        o2 = ops.Op(op.name, op.cid, args, op.kw, op.star, op.dstar, op.kind)
                        for o in Se.attempt(repr(o2), lambda: ops.run_op(W, s, me, o2)) or []:
                            judge(o, node, [m], '%r on any deque' % o2)
    else:
        f = W.public('pdeque')
        fnode = I.prog.funcs[ops.underlying(f)[1]]
        bounds = [NONE, K(0), K(1), K(2)] if tier == 'quick' else [NONE] + [K(i) for i in range(5)]
        names = ['a', 'b', 'c', 'd'][:3 if tier == 'quick' else 4]
        for m in bounds:
            for size in range(len(names) + 1):
                sh = seq('list', *names[:size])
                for q in X.call('make', W.state(), f, [sh], {'maxlen': m}):
                    judge(q, fnode, [m], 'pdeque(<%d elements>, maxlen=%s)' % (size, m[2]))
                    if q.kind != 'ret' or not is_deque(q.st, q.val):
                        continue
                    me = q.val
                    for op in Se.ops(cid):
                        if op.kind in ('cm', 'sm', 'prop') or op.name in ('__new__', '__hash__', '__repr__', '__str__', '__lt__', '__eq__', 'count', '__iter__'):
                            continue
                        node = Se.function(me, op)
                        for args in known_variants(op):
                            o2 = ops.Op(op.name, op.cid, args, op.kw, op.star, op.dstar, op.kind)
                            W.site = ('op', repr(o2))
                            Se.exact = True
                            for o in Se.attempt(repr(o2), lambda: ops.run_op(W, q.st, me, o2)) or []:
                                judge(o, node, [m], 'pdeque(<%d elements>, maxlen=%s).%r' % (size, m[2], o2))
                                if o.kind == 'ret' and op.name == '__reduce__' and o.val[0] == 'l':
                                    t = I.get(o.st, o.val[1])
                                    if t.kind == 'tuple' and len(t.segs) == 2:
                                        for g in t.segs[0][1]:
                                            for a in t.segs[1][1]:
                                                al = [next(iter(z[1])) for z in I.get(o.st, a[1]).segs]
                                                for o3 in X.call('restore', o.st, g, al):
                                                    judge(o3, node, [m], 'restoring a pickled deque with maxlen=%s' % m[2])
    return {'violations': out, 'coverage': coverage(Se, {'deques examined': n[0], 'length comparisons decided': n[1], 'undecided': n[2]})}


def variants(op):
    yield list(op.args)
    if op.name in ('pop', 'popleft', 'rotate') and op.args:
        yield [K(1)]
    if op.name in ('extend', 'extendleft'):
        yield [seq('list', 'x')]
        yield [seq('list', 'x', 'y')]
    if op.name == '__getitem__':
        yield from ([('sl', NONE, NONE, K(2))], [('sl', E('i'), NONE, NONE)], [('sl', NONE, E('j'), NONE)])


def known_variants(op):
    if op.name in ('pop', 'popleft', 'rotate'):
        yield from ([K(1)], [K(2)], [K(-1)])
    elif op.name in ('extend', 'extendleft'):
        yield from ([('mk', 'list', None)], [seq('list', 'x')], [seq('list', 'x', 'y')], [seq('list', 'x', 'y', 'z')])
    elif op.name == '__getitem__':
        for a, b, c in ((NONE, NONE, NONE), (K(1), NONE, NONE), (NONE, K(1), NONE), (NONE, NONE, K(2)), (NONE, NONE, K(-1)), (K(0), K(2), NONE)):
            yield [('sl', a, b, c)]
    else:
        yield list(op.args)


def show(a):
    return str(a[2] if a[0] == 'k' else a[1])[:60]
