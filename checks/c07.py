"""C07: checked collections only ever hold checked elements."""
from .exact import *

EXPLANATION = ('Checked vector, set and map classes with one type, several types, an invariant, inherited declarations and a type '
               'given by name are analysed as client code. Every construction, create, update, evolver, transform and restore path '
               'is followed with containers of known shape and opaque elements, both from empty, from exactly known and from '
               'arbitrary instances. For each opaque value found among the elements of a returned instance the path must contain '
               'the facts that its type test and each of its invariants succeeded.')
RULE = ('on every path that returns an instance of a checked class, each element that came from outside has passed the type test '
        'and all invariants declared by the class and its bases')
ASSUMPTIONS = ['containers of one or two elements for operations taking many', 'elements of existing instances are checked (induction)']
MINIMUM = {'paths returning an instance': 300, 'elements examined': 300}

T12, T1, T2 = ('T1', 'T2'), ('T1',), ('T2',)
REQ = {'Vec': (T1, ['OK1']), 'VecTypes': (T12, []), 'VecInv': (None, ['OK1']), 'VecSub': (T1, ['OK1', 'OK2']),
       'VecSubType': (T2, ['OK1']), 'VecName': ('named', []),
       'Set_': (T1, ['OK1']), 'SetTypes': (T12, []), 'SetInv': (None, ['OK1']), 'SetSub': (T1, ['OK1', 'OK2'])}
MREQ = {'Map': (T1, T2, ['OK1']), 'MapKey': (T1, None, []), 'MapValue': (None, T12, []), 'MapInv': (None, None, ['OK1']),
        'MapSub': (T1, T2, ['OK1', 'OK2'])}
FOREIGN = {'Vec': ['VecInv', 'VecTypes', 'VecSub', 'Vec', 'Set_', 'SetInv'], 'VecSub': ['Vec', 'VecSub', 'VecSubType'],
           'VecTypes': ['Vec', 'VecInv'], 'VecInv': ['VecTypes', 'VecSub'], 'VecSubType': ['Vec', 'VecInv'], 'VecName': ['VecInv'],
           'Set_': ['SetInv', 'SetTypes', 'SetSub', 'Set_', 'VecInv'], 'SetSub': ['Set_', 'SetSub'], 'SetTypes': ['Set_', 'SetInv'],
           'SetInv': ['SetTypes', 'SetSub'],
           'Map': ['MapKey', 'MapInv', 'MapSub', 'Map'], 'MapKey': ['MapInv', 'Map'], 'MapValue': ['Map'], 'MapInv': ['MapKey'],
           'MapSub': ['Map', 'MapSub']}
READS = {'__repr__', '__str__', '__hash__', '__len__', '__contains__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
         'index', 'count', 'serialize', '__iter__', '__reversed__', 'keys', 'values', 'items', 'iterkeys', 'itervalues', 'iteritems',
         'issubset', 'issuperset', 'isdisjoint', 'get', '__getitem__', 'tolist', '__reduce__', 'evolver', 'copy', '__getattr__'}


def jobs(tier):
    return list(REQ) + list(MREQ)


def has(e, tag):
    if e == tag:
        return True
    return isinstance(e, tuple) and any(has(x, tag) for x in e)


def analyse(name, tier):
    vec = name in VECTOR
    X = Exact(name + '@small' if vec else name, budget=30000 if tier == 'quick' else 200000)
    Se, W, I = X.Se, X.W, X.I
    X.groups = [T12, T1, T2]
    out = []
    n = [0, 0]
    cid = 'client.' + name

    def report(key, node, msg, ctx):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'),
                    'message': '%s: %s' % (msg, ctx)})

    def entries(st, val):
        """(key, value) expressions of the stored entries; for vectors and sets the value is None"""
        for l, o in X.objects(st, val):
            if o.own == 'user' or o.kind not in ('dict', 'list', 'tuple', 'pvec'):
                continue
            if o.kind == 'dict':
                for k, v in (o.kvs or {}).items():
                    for b in v:
                        yield k, b
                for s in o.segs:
                    for a in s[1]:
                        for b in s[2]:
                            yield a, b
            elif vec:
                for s in o.segs:
                    for a in s[1]:
                        yield a, None

    def outside(a):
        return a is not None and a[0] == 's' and has(a[1], 'arg') and a[1][0] not in INT and not has(a[1], 'it') and a[1][0] not in ('u', 'deep')

    def look(o, node, ctx, pre=()):
        """pre: names of elements known to be good"""
        if o.kind != 'ret' or not Se.is_inst(o.st, o.val):
            return
        c = I.get(o.st, o.val[1]).cls
        fam = c[7:] if c.startswith('client.') else None
        if fam not in REQ and fam not in MREQ:
            return
        n[0] += 1
        exact = Se.exact
        for k, v in entries(o.st, o.val):
            if fam in REQ:
                types, invs = REQ[fam]
                if not outside(k):
                    continue
                n[1] += 1
                e = k[1]
                typed = not types or X.isinst(o.st, e, types) if types != 'named' else any(f[0] == "isinst" and f[1] == e and t for f, t in o.st.facts.items())
                if types and not typed and exact:
                    report('type', node, 'an element of %s was not type checked' % fam, ctx)
                for i in invs:
                    p = X.passed(o.st, i, e)
                    if p is False or (p is None and exact):
                        report('invariant', node, 'an element of %s %s' % (fam, 'violates' if p is False else 'was not checked against'
                                                                        ) + ' a declared invariant (%s)' % i, ctx)
            else:
                kt, vt, invs = MREQ[fam]
                if outside(k):
                    n[1] += 1
                    if kt and not X.isinst(o.st, k[1], kt) and exact:
                        report('keytype', node, 'a key of %s was not type checked' % fam, ctx)
                if outside(v):
                    n[1] += 1
                    if vt and not X.isinst(o.st, v[1], vt) and exact:
                        report('valuetype', node, 'a value of %s was not type checked' % fam, ctx)
                if outside(k) and outside(v):
                    for i in invs:
                        p = X.passed(o.st, i, k[1], v[1])
                        if p is False or (p is None and exact):
                            report('invariant', node, 'an entry of %s %s a declared invariant (%s)' % (
                                fam, 'violates' if p is False else 'was not checked against', i), ctx)

    if name in MREQ:
        shapes = [mapping((E('x'), E('y')))]
        if tier != 'quick':
            shapes.append(mapping((E('x'), E('y')), (E('z'), E('w'))))
        pairs = [('mk', 'list', ('i', V(('pair', V(E('x')), V(E('y'))))))]
    else:
        shapes = [seq(k, 'x') for k in ('list', 'tuple', 'set', 'pvec', 'iter')] + [seq('list', 'x', 'y')]
    cnode = I.classes[cid].mro
    new = I.class_lookup(W.state(), cid, '__new__')
    u = ops.underlying(new) if new else None
    newnode = I.prog.funcs[u[1]] if u and u[0] == 'f' else I.classes[cid].node
    selfs = []
    # ---- construction
    for sh in shapes:
        for o in X.new('new', cid, [sh]):
            look(o, newnode, '%s(<%s>)' % (name, sh[1]))
            if o.kind == 'ret' and len(selfs) < 2 and sh is shapes[0]:
                selfs.append((o.st, o.val, 'known'))
        for kw in ({}, {'ignore_extra': K(True)}):
            for s, f in W.attr(W.state(), ('c', cid), 'create'):
                fn = ops.underlying(f)
                for o in X.call('create', s, f, [sh], kw):
                    look(o, I.prog.funcs[fn[1]] if fn[0] == 'f' else newnode, '%s.create(<%s>)' % (name, sh[1]))
    # ---- from another checked collection or persistent container
    for other in FOREIGN.get(name, ()):
        oc = 'client.' + other
        oshape = mapping((E('x'), E('y'))) if name in MREQ else seq('list', 'x')
        for q in X.ret(X.new('other', oc, [oshape]))[:3]:
            for how in ('new', 'create'):
                if how == 'new':
                    outs = X.call('from', q.st, ('c', cid), [q.val], pins=[q.val])
                else:
                    outs = [o for s, f in W.attr(q.st, ('c', cid), 'create') for o in X.call('from', s, f, [q.val], pins=[q.val])]
                for o in outs:
                    look(o, newnode, '%s%s(%s(..))' % (name, '' if how == 'new' else '.create', other))
    # ---- restoring a pickle: the callable of __reduce__ with other contents
    for st, me, lab in list(selfs):
        for r in X.ret(X.method('reduce', st, me, '__reduce__')):
            t = I.get(r.st, r.val[1]) if r.val[0] == 'l' else None
            if t is None or t.kind != 'tuple' or len(t.segs) < 2:
                continue
            for f in t.segs[0][1]:
                for a in t.segs[1][1]:
                    if a[0] != 'l':
                        continue
                    ar = I.get(r.st, a[1])
                    al = [next(iter(s[1])) for s in ar.segs if s[0] == 'i']
                    if len(al) < 2:
                        continue
                    for sh in shapes[:1]:
                        fn = ops.underlying(f)
                        for o in X.call('restore', r.st, f, [al[0], sh] + al[2:]):
                            look(o, I.prog.funcs[fn[1]] if fn[0] == 'f' else newnode, 'restoring %s from a pickle' % name)
    # ---- operations
    setup = Se.variants[0][1]
    setup()
    targets = selfs[:1] + [(W.state(), W.pre(cid, 'self'), 'any')]

    def variants(op):
        yield list(op.args)
        if op.star or op.dstar:
            return
        for i, a in enumerate(op.args):
            if a[0] == 's':
                for sh in shapes[:1] + ([seq('iter', 'x')] if name in REQ else []):
                    yield list(op.args[:i]) + [sh] + list(op.args[i + 1:])

    def run(st, me, op, args):
        W.site = ('op', repr(op), repr(args))
        Se.exact = True
        o2 = ops.Op(op.name, op.cid, args, op.kw, op.star, op.dstar, op.kind)
        return o2, Se.attempt(repr(o2), lambda: ops.run_op(W, st, me, o2)) or []
    for st, me, lab in targets:
        for op in Se.ops(cid):
            if op.name in READS or op.kind in ('cm', 'sm', 'prop'):
                continue
            if op.star or op.dstar or len(op.args) > 2 or (op.name == 'transform' and lab == 'any'):
                continue         # any number of arguments: loops whose facts do not survive
            node = Se.function(me, op)
            for args in variants(op):
                o2, outs = run(st, me, op, args)
                for o in outs:
                    look(o, node, '%s, %r' % (lab, o2))
    # ---- evolvers
    for st, me, lab in targets:
        for q in X.ret(X.method('evolver', st, me, 'evolver'))[:2]:
            e = q.val
            ec = I.get(q.st, e[1]).cls
            pn = Se.function(e, ops.Op('persistent', ec))
            for op in Se.ops(ec):
                if op.name in READS or op.name in ('persistent', 'is_dirty', '__bool__'):
                    continue
                for args in variants(op):
                    o2, outs = run(q.st, e, op, args)
                    seen = set()
                    for o in outs:
                        key = (o.kind, repr(sorted(o.st.facts.items(), key=repr)), repr([ob.segs for _, ob in X.objects(o.st, e)]))
                        if key in seen or len(seen) > (16 if tier == 'quick' else 200):
                            continue
                        seen.add(key)
                        for p in X.method('p1', o.st, e, 'persistent', pins=[e]):
                            look(p, pn, 'evolver, %r%s, persistent()' % (o2, ' (which raised)' if o.kind == 'raise' else ''))
                            if p.kind == 'raise':
                                # nothing may be smuggled in by asking again
                                for p2 in X.method('p2', p.st, e, 'persistent', pins=[e]):
                                    look(p2, pn, 'evolver, %r, persistent() (which raised), persistent()' % o2)
                                for op3 in Se.ops(ec, ('append', 'add', 'remove')):
                                    if op3.name == 'remove':
                                        continue
                                    o3 = ops.Op(op3.name, op3.cid, [E('good')], {}, None, None, op3.kind)
                                    W.site = ('op3', repr(o3))
                                    for r in (Se.attempt('op3', lambda: ops.run_op(W, p.st, e, o3)) or [])[:4]:
                                        for p3 in X.method('p3', r.st, e, 'persistent', pins=[e]):
                                            look(p3, pn, 'evolver, %r, persistent() (which raised), %r, persistent()' % (o2, o3))
    return {'violations': out, 'coverage': coverage(Se, {'paths returning an instance': n[0], 'elements examined': n[1], 'calls analysed': X.calls})}
