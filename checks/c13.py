"""C13: updates without effect return the same object."""
from .exact import *

EXPLANATION = ('For every collection type the calls that have nothing to do are set up with opaque elements: discarding an absent '
               'key, setting a key to the object it has, adding a present element, extending or updating with nothing, a full '
               'slice, transformations that change nothing, create() of an instance, copy(). All paths of these calls are followed, '
               'from arbitrary and from known instances; whether a key is present is fixed as a fact beforehand. On each path '
               'that returns, the returned object is compared with the receiver by identity.')
RULE = 'every returning path of a call without effect returns the receiver itself'
ASSUMPTIONS = ['known instances hold up to two elements', '== of keys is an equivalence relation']
MINIMUM = {'calls without effect': 80, 'paths returning the receiver': 80}
TYPED = {'Vec', 'Set_', 'Map'}


def jobs(tier):
    return ['pmap', 'pmap*', 'pset', 'pbag', 'plist', 'pdeque', 'pvector@small', 'pvector@depth1', 'pvector@depth2', 'Vec@small', 'Vec@depth1',
            'Set_', 'Map', 'Rec', 'RecSub', 'Cls', 'freeze']


EMPTY = ('mk', 'list', None)
NOMAP = ('mk', 'dict', None)
FULL = ('sl', NONE, NONE, NONE)


def analyse(name, tier):
    fam = name.split('@')[0].rstrip('*')
    if fam == 'freeze':
        X = Exact('pmap*', budget=60000, inferred=False)
    else:
        X = Exact(name, budget=30000 if tier == 'quick' else 200000)
    Se, W, I = X.Se, X.W, X.I
    out = []
    n = [0, 0, 0]
    cid = Se.cid

    def report(key, node, msg):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'), 'message': msg})

    def judge(outs, me, node, ctx):
        n[0] += 1
        for o in outs:
            if o.kind != 'ret':
                continue
            if any(mentions(k, 'exc') for k in o.st.facts):
                continue
            r = I.identical(o.st, o.val, me)
            if r is True:
                n[1] += 1
            elif r is False and Se.exact and o.val[0] in ('l', 'k'):
                report('copy', node, 'a call without effect does not return the receiver: %s' % ctx)
            else:
                n[2] += 1

    def do(st, me, meth, args=(), kw=None, ctx=''):
        if I.class_lookup(st, I.get(st, me[1]).cls, meth) is None:
            return
        op = ops.Op(meth, I.get(st, me[1]).cls)
        judge(X.method('do', st, me, meth, args, kw), me, Se.function(me, op), '%s.%s(%s) %s' % (name, meth, ', '.join(show(a) for a in args), ctx))

    for label, setup in Se.variants:
        setup()
        break
    me = W.pre(cid, 'self') if fam != 'freeze' else None
    st = W.state()

    def neq(st, a, b):
        return I.assume(st, I.mkeq('eq', a[1], b[1]), False) or st
    x, y, a, b, z = (E(i) for i in 'xyabz')
    ident = I.prog.funcs and S('fn', 'ident')
    ABS = {'arbitrary'}
    if fam == 'pvector' or fam == 'Vec':
        # ---- any vector
        do(st, me, 'extend', [EMPTY])
        do(st, me, 'extend', [('mk', 'iter', None)])
        do(st, me, '__add__', [EMPTY])
        do(st, me, '__getitem__', [FULL])
        do(st, me, 'mset', [])
        do(st, me, 'transform', [])
        if '@small' in name:
            for q in make(X, cid, seq('list', 'a'), fam):
                do(q.st, q.val, 'extend', [EMPTY])
                do(q.st, q.val, '__getitem__', [FULL])
                for i, v in ((0, a),):
                    do(q.st, q.val, 'transform', [('mk', 'list', ('i', V(K(i)))), v], ctx='to the value it has')
        if fam == 'Vec':
            create(X, cid, me, st, judge, name)
    elif fam == 'pmap' and '*' not in name:
        core_map(X, me, st, do, report)
    elif fam in ('pmap', 'Map'):
        do(st, me, 'update', [])
        do(st, me, 'update', [NOMAP])
        do(st, me, 'update_with', [E('f')])
        do(st, me, '__add__', [NOMAP])
        do(st, me, 'copy', [])
        do(st, me, 'transform', [])
        if fam == 'Map':
            create(X, cid, me, st, judge, name)
        qs = X.ret(X.call('make', plain(X, st), W.public('pmap') if fam == 'pmap' else ('c', cid), [mapping((a, x), (b, y))] if fam == 'pmap' else [mapping((a, x))]))
        for q in qs[:2]:
            two = fam == 'pmap'
            s = neq(q.st, a, b) if two else q.st
            for k, v in ((a, x), (b, y))[:1 + two]:
                do(s, q.val, 'set', [k, v], ctx='with the object it has')
                do(s, q.val, 'update', [mapping((k, v))], ctx='with the object it has')
                do(s, q.val, '__add__', [mapping((k, v))], ctx='with the object it has')
                do(s, q.val, 'transform', [('mk', 'list', ('i', V(k))), v], ctx='to the object it has')
            s = neq(neq(s, z, a), z, b)
            do(s, q.val, 'discard', [z], ctx='of an absent key')
            if fam == 'pmap':
                for q2 in X.ret(X.call('outer', q.st, W.public('pmap'), [mapping((E('o'), q.val))], pins=[q.val]))[:1]:
                    s2 = I.assume(q2.st, ('callable', ('arg', 'o')), False) or q2.st
                    do(s2, q2.val, 'transform', [('mk', 'list', ('i', V(E('o'))), ('i', V(a))), x], ctx='two levels down to the object it has')
                    do(s2, q2.val, 'set', [E('o'), q.val], ctx='to the object it has')
            for g in [W.public('discard')]:
                do(s, q.val, 'transform', [('mk', 'list', ('i', V(z))), g], ctx='discarding an absent key')
    elif fam in ('pset', 'Set_'):
        do(st, me, 'update', [EMPTY])
        do(st, me, 'update', [('mk', 'tuple', None)])
        do(st, me, 'copy', [])
        if fam == 'Set_':
            create(X, cid, me, st, judge, name)
        for q in make(X, cid, seq('list', 'a', 'b') if fam == 'pset' else seq('list', 'a'), fam):
            s = neq(q.st, a, b)
            do(s, q.val, 'add', [a], ctx='of a present element')
            do(s, q.val, 'update', [seq('list', 'a')], ctx='with a present element')
            if fam == 'pset':
                do(s, q.val, 'add', [b], ctx='of a present element')
            s = neq(neq(s, z, a), z, b)
            do(s, q.val, 'discard', [z], ctx='of an absent element')
    elif fam == 'pbag':
        do(st, me, 'update', [EMPTY])
    elif fam == 'plist':
        do(st, me, 'mcons', [EMPTY])
    elif fam == 'pdeque':
        do(st, me, '__getitem__', [FULL])
    elif fam in ('Rec', 'RecSub', 'Cls'):
        fields = ['a', 'b', 'c'] + (['d'] if fam == 'RecSub' else [])
        if fam != 'Cls':
            do(st, me, 'update', [NOMAP])
            do(st, me, 'update', [])
        create(X, cid, me, st, judge, name)
        do(st, me, 'transform', [])
        for q in X.ret(X.new('make', cid, [], {f: E('v' + f) for f in fields}, st=plain(X, W.state())))[:1]:
            if any(mentions(k, 'exc') for k in q.st.facts):
                continue
            create(X, cid, q.val, q.st, judge, name)
            if fam != 'Cls':
                do(q.st, q.val, 'discard', [K('zz')], ctx='of an unknown name')
            for f in fields:
                if f == 'b':
                    continue          # its factory runs on every update
                v = E('v' + f)
                if fam != 'Cls':
                    do(q.st, q.val, 'set', [K(f), v], ctx='to the object it has')
                    do(q.st, q.val, 'set', [], {f: v}, ctx='%s to the object it has' % f)
                do(q.st, q.val, 'transform', [('mk', 'list', ('i', V(K(f)))), v], ctx='to the object it has')
    else:
        fz = W.public('freeze')
        fnode = I.prog.funcs[ops.underlying(fz)[1]]
        for mk, arg in (('pmap', mapping((a, x))), ('pset', seq('list', 'a')), ('pvector', seq('list', 'a'))):
            f = W.public(mk)
            for q in X.ret(X.call('make', W.state(), f, [arg])):
                judge(X.call('do', q.st, fz, [q.val], {'strict': K(False)}, pins=[q.val]), q.val, fnode, 'freeze(%s, strict=False)' % mk)
    return {'violations': out, 'coverage': coverage(Se, {'calls without effect': n[0], 'paths returning the receiver': n[1], 'undecided': n[2]})}


def make(X, cid, arg, fam):
    st = plain(X, X.W.state())
    if fam[0].islower():
        f = X.W.glob('_pvector', 'python_pvector') if fam == 'pvector' else X.W.public(fam)
        return [q for q in X.ret(X.call('make', st, f, [arg])) if X.Se.is_inst(q.st, q.val)][:2]
    return [q for q in X.ret(X.new('make', cid, [arg], st=st)) if X.Se.is_inst(q.st, q.val)][:1]


def plain(X, st):
    """the values are not functions"""
    for n in ('a', 'b', 'x', 'y', 'va', 'vb', 'vc', 'vd', 'z'):
        st = X.I.assume(st, ('callable', ('arg', n)), False) or st
        for g in ('discard',):
            st = X.I.assume(st, X.I.mkeq('is', ('arg', n), X.W.public(g)), False) or st
    return st


def create(X, cid, me, st, judge, name):
    for s, f in X.W.attr(st, ('c', cid), 'create'):
        fn = ops.underlying(f)
        for kw in ({}, {'ignore_extra': K(True)}):
            outs = X.call('do', s, f, [me], kw, pins=[me])
            judge(outs, me, X.I.prog.funcs[fn[1]], '%s.create(<instance>%s)' % (name, ', ignore_extra' if kw else ''))


def core_map(X, me, st, do, report):
    """the map itself: what a search found or did not find is known from asking first"""
    I = X.I
    k, v = E('k'), E('v')
    # setting: when the value found was compared and is the same object, nothing happens
    node = X.Se.function(me, ops.Op('set', X.Se.cid))
    outs = X.ret(X.method('set', st, me, 'set', [k, v]))
    kept = 0
    for o in outs:
        same = any(f[0] == 'is' and t is True and mentions(f, ('arg', 'v')) and mentions(f, 'hash') for f, t in o.st.facts.items())
        if I.identical(o.st, o.val, me) is True:
            kept += 1
        elif same and X.Se.exact:
            report('copy', node, 'setting a key to the object it has does not return the receiver')
    if outs and not kept and X.Se.exact:
        report('copy', node, 'setting a key never returns the receiver')


def show(a):
    return repr(a[2]) if a[0] == 'k' else str(a[1][1]) if a[0] == 's' else '<%s>' % (a[1] if a[0] == 'mk' else a[0])


def mentions(e, tag):
    return e == tag or isinstance(e, tuple) and any(mentions(x, tag) for x in e)
