"""C23: a rejected update leaves the evolver unchanged."""
from .exact import *

EXPLANATION = ('Evolvers of every collection type are taken from instances with opaque elements, without and with updates pending, and '
               'every operation that may refuse its arguments is analysed with arguments of unknown type and presence. On each path on '
               'which it raises because of a missing key or index, a wrong type or an undeclared field, the analysis goes on from the '
               'state at the raise: persistent() must not raise and must give the contents it would have given before the operation.')
RULE = 'on every raising path the state of the evolver represents the contents it had before the call'
ASSUMPTIONS = ['instances hold up to two elements', 'exceptions raised by user code (factories, invariants, iterables) are not covered']
MINIMUM = {'raising paths': 60, 'contents compared': 60}
a, b, c, d, x, y, z, w = (E(i) for i in 'abcdxyzw')
I_ = lambda *names: seq('list', *names)
REJECT = ('IndexError', 'KeyError', 'TypeError', 'AttributeError', 'ValueError', '_checked_types.CheckedTypeError', '_checked_types.CheckedKeyTypeError',
          '_checked_types.CheckedValueTypeError', '_field_common.PTypeError')


def jobs(tier):
    return ['pmap', 'pmap*', 'pset', 'pvector@small', 'Vec@small', 'VecInv@small', 'VecTypes@small', 'VecSub@small', 'Set_', 'SetInv', 'SetTypes', 'Map',
            'MapInv', 'MapKey', 'MapValue', 'Rec', 'RecSub', 'Rec0', 'Cls', 'Cls0']


def scenarios(fam):
    """(what the instance is made from, updates before, operations that may be refused)"""
    if fam in ('pvector', 'Vec', 'VecInv', 'VecTypes', 'VecSub'):
        ops_ = [('__setitem__', [K(9), z]), ('set', [K(9), z]), ('set', [K(-9), z]), ('append', [z]), ('extend', [I_('z', 'w')]), ('__delitem__', [K(9)]), ('delete', [K(9)]),
                ('delete', [K(-9)]), ('set', [K(0), z]), ('__setitem__', [K(1), z]), ('set', [K('no'), z])]
        return [(I_('a', 'b'), [], ops_), (I_('a', 'b'), [('append', [c])], ops_), (I_('a', 'b'), [('set', [K(0), c])], ops_), (I_(), [], ops_),
                (I_('a'), [('append', [c]), ('set', [K(1), d])], ops_)]
    if fam in ('pset', 'Set_', 'SetInv', 'SetTypes'):
        ops_ = [('remove', [z]), ('add', [z])]
        return [(I_('a', 'b'), [], ops_), (I_('a'), [('add', [c])], ops_), (I_('a', 'b'), [('remove', [a])], ops_ + [('remove', [a])]), (I_(), [], ops_)]
    if fam in ('pmap', 'Map', 'MapInv', 'MapKey', 'MapValue'):
        ops_ = [('remove', [z]), ('__delitem__', [z]), ('set', [z, w]), ('__setitem__', [a, w])]
        return [(mapping((a, x), (b, y)), [], ops_), (mapping((a, x)), [('set', [c, z])], ops_), (mapping((a, x), (b, y)), [('remove', [a])], ops_ + [('remove', [a])]),
                (mapping(), [], ops_)]
    fs = ['x'] if fam.endswith('0') else ['a', 'b', 'c'] + (['d'] if 'Sub' in fam else [])
    base = {f: E('v' + f) for f in fs}
    ops_ = [('set', [K('nope'), z]), ('__setitem__', [K('nope'), z]), ('remove', [K('nope')]), ('__delitem__', [K('nope')])] + \
        [('set', [K(f), z]) for f in fs] + [('__setitem__', [K(f), z]) for f in fs]
    if fam in ('Cls', 'ClsSub', 'Cls0'):
        ops_ = ops_[2:]         # the evolver of a class takes every value and refuses it when the instance is made
    some = [f for f in fs if f in ('c', 'x')][0]
    less = {f: v for f, v in base.items() if f != some}
    return [(base, [], ops_), (base, [('set', [K(some), w])], ops_), (less, [], ops_ + [('remove', [K(some)])]), (base, [('remove', [K(some)])], ops_ + [('remove', [K(some)])])]


def analyse(name, tier):
    fam = name.split('@')[0].rstrip('*')
    X = Exact(name, budget=40000 if tier == 'quick' else 300000, inferred=False)
    Se, W, I = X.Se, X.W, X.I
    I.several = 6
    if '@' in name:
        Se.variants[0][1]()
    out = []
    n = {'operations': 0, 'raising paths': 0, 'contents compared': 0, 'lengths compared': 0, 'undecided': 0}

    def report(key, node, msg):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'), 'message': msg})

    def failed(st):
        return any(mentions(k, 'exc') for k in st.facts)
    st0 = W.state()
    els = (a, b, c, d, z)
    for i, p in enumerate(els):
        for q in els[i + 1:]:
            st0 = I.assume(st0, I.mkeq('eq', p[1], q[1]), False) or st0
    kind = 'dict' if fam in ('pmap', 'Map', 'MapInv', 'MapKey', 'MapValue', 'Rec', 'RecSub', 'Rec0') else 'list'

    def items(st, v):
        o = I.get(st, v[1])
        if o.kind == 'inst' and fam in ('Cls', 'Cls0', 'ClsSub'):
            r = [(f, vs) for f, vs in sorted(o.fields.items()) if not f.startswith('_')]
            return None if any(len(vs) != 1 for f, vs in r) else tuple((f, next(iter(vs))) for f, vs in r if next(iter(vs)) != ('absent',))
        if o.kind == 'dict':
            r = [(k, vs) for k, vs in (o.kvs or {}).items()] + [(next(iter(s[1])), s[2]) for s in o.segs if s[0] == 'di' and len(s[1]) == 1]
            if len(r) != len(o.kvs or {}) + len(o.segs) or any(len(vs) != 1 for k, vs in r):
                return None
            return frozenset((k, next(iter(vs))) for k, vs in r)
        if any(s[0] != 'i' or len(s[1]) != 1 for s in o.segs):
            return None
        r = [next(iter(s[1])) for s in o.segs]
        return tuple(r) if fam in ('pvector', 'Vec', 'VecInv', 'VecTypes', 'VecSub') else frozenset(r)

    def cls(o):
        t = I.type_of(o.st, o.val) if o.val[0] == 'l' else o.val
        return t[1] if t else None

    def contents(st, ev):
        """(contents and the knowledge they take, whether persistent() reports a violated invariant or raises whatever the values)"""
        res, bad = [], False
        outs = X.method('persist', st, ev, 'persistent', [], pins=[ev])
        for o in outs:
            new = [k for k in o.st.facts if k not in st.facts]
            if o.kind != 'ret':
                bad = bad or not new or cls(o) == '_checked_types.InvariantException'
                continue
            if fam in ('Cls', 'Cls0', 'ClsSub'):
                res.append((items(o.st, o.val), new))
                continue
            for r in X.ret(X.call('list', o.st, ('b', kind), [o.val], pins=[ev, o.val])):
                got = items(r.st, r.val)
                for s in X.ret(X.call('len', r.st, ('b', 'len'), [o.val], pins=[ev, o.val])):
                    res.append((None if got is None else (got, s.val), new))
        return res, bad

    def refused(st, ev, m, args):
        if I.class_lookup(st, I.get(st, ev[1]).cls, m) is None:
            return
        I.implicit = True
        outs = X.method('op', st, ev, m, args, pins=[ev])
        I.implicit = False
        for o in outs:
            if o.kind == 'ret' or failed(o.st):
                continue
            t = cls(o)
            if t is not None and any(t == k or k in I.mro_of(I.type_of(o.st, o.val)) for k in REJECT):
                yield o

    def length(st, ev):
        if I.class_lookup(st, I.get(st, ev[1]).cls, '__len__') is None:
            return None
        r = {o.val for o in X.method('length', st, ev, '__len__', [], pins=[ev])}
        return r.pop() if len(r) == 1 else None

    for make, before, opers in scenarios(fam):
        if fam[0].islower():
            f = W.glob('_pvector', 'python_pvector') if fam == 'pvector' else W.public(fam)
        else:
            f = ('c', Se.cid)
        mk = X.call('make', st0, f, [], make) if isinstance(make, dict) else X.call('make', st0, f, [make])
        rs = [r for r in X.ret(mk) if Se.is_inst(r.st, r.val) and not failed(r.st)][:2]
        evs = []
        for r in rs:
            for e in X.ret(X.method('evolver', r.st, r.val, 'evolver', [], pins=[r.val]))[:1]:
                cur = [e.st]
                for i, (m, args) in enumerate(before):
                    cur = [o.st for s in cur for o in X.ret(X.method('up%d' % i, s, e.val, m, args, pins=[r.val, e.val])) if not failed(o.st)][:2]
                evs += [(s, e.val) for s in cur]
        for st, ev in evs[:2]:
            size = length(st, ev)
            for m, args in opers if size else ():
                for o in refused(st, ev, m, args):
                    after = length(o.st, ev)
                    if after is not None:
                        n['lengths compared'] += 1
                        if after != size and Se.exact:
                            node = Se.function(ev, ops.Op(m, I.get(st, ev[1]).cls))
                            report('length', node, '%s of an evolver (%s) raises %s but the evolver has changed its length' % (m, name, cls(o).split('.')[-1]))
            was, bad = contents(st, ev)
            was = {c_ for c_, new in was}
            if bad or len(was) != 1 or None in was:
                n['undecided'] += 1
                continue
            for m, args in opers:
                if I.class_lookup(st, I.get(st, ev[1]).cls, m) is None:
                    continue
                n['operations'] += 1
                node = Se.function(ev, ops.Op(m, I.get(st, ev[1]).cls))
                for o in refused(st, ev, m, args):
                    t = cls(o)
                    n['raising paths'] += 1
                    now, bad = contents(o.st, ev)
                    exact = Se.exact
                    short = '%s of an evolver (%s)' % (m, name)
                    if bad and exact:
                        report('poisoned', node, '%s raises %s and persistent() cannot give the contents any more' % (short, t.split('.')[-1]))
                    for c_, new in now:
                        if c_ is None or new:
                            n['undecided'] += 1
                            continue
                        n['contents compared'] += 1
                        if c_ not in was and exact:
                            report('changed', node, '%s raises %s but the evolver has changed' % (short, t.split('.')[-1]))
    return {'violations': out, 'coverage': coverage(Se, n)}


def mentions(e, tag):
    return e == tag or isinstance(e, tuple) and any(mentions(x, tag) for x in e)
