"""C08: record and class instances satisfy their field declarations."""
from .exact import *

EXPLANATION = ('Record and class types with typed, mandatory, initial, factory and invariant fields, global invariants and inherited '
               'declarations are analysed as client code. Construction, create (with and without ignore_extra), set, update, remove, '
               'discard, transform, evolvers and restoring are followed with field names and opaque values. On every path that returns '
               'an instance, the stored fields are compared with the declaration and with the facts established on the path.')
RULE = ('every returned instance: all mandatory fields present, no undeclared field, each value passed its type test and field '
        'invariant, and every global invariant was asked about this instance and agreed')
ASSUMPTIONS = ['updates of at most two fields at a time', 'values of existing instances satisfy the declaration (induction)']
MINIMUM = {'paths returning an instance': 120, 'fields examined': 300}

T12, T1, T2, T3 = ('T1', 'T2'), ('T1',), ('T2',), ('T3',)
BASE = {'a': (T1, ['OK1'], True), 'b': (T12, [], False), 'c': (None, ['OK2'], False)}
SUB = dict(BASE, d=(T3, [], True))
REQ = {'Rec': (BASE, ['GOK1']), 'RecSub': (SUB, ['GOK1', 'GOK2']), 'Cls': (BASE, ['GOK1']), 'ClsSub': (SUB, ['GOK1', 'GOK2']),
       'Rec0': ({'x': (None, [], False)}, []), 'Cls0': ({'x': (None, [], False)}, [])}
READS = {'__repr__', '__str__', '__hash__', '__len__', '__contains__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
         'serialize', '__iter__', 'keys', 'values', 'items', 'iterkeys', 'itervalues', 'iteritems', 'get', '__getitem__', '__reduce__',
         'evolver', 'copy', 'create', '__getattr__', '__setattr__', '__delattr__', 'index', 'count'}


def jobs(tier):
    return ['Rec', 'RecSub', 'Cls', 'ClsSub', 'Rec0', 'Cls0']


def analyse(name, tier):
    X = Exact(name, budget=30000 if tier == 'quick' else 200000)
    Se, W, I = X.Se, X.W, X.I
    X.groups = [T12, T1, T2, T3]
    fields, globs = REQ[name]
    cid = 'client.' + name
    rec = name.startswith('Rec')
    out = []
    n = [0, 0]

    def report(key, node, msg, ctx):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'),
                    'message': '%s: %s' % (msg, ctx)})

    def stored(st, val):
        """[(field or None, atom)] of an instance; None: a name not known to be a field"""
        o = I.get(st, val[1])
        if not rec:
            return [(f, a) for f, v in o.fields.items() if not f.startswith('_') for a in v]
        r = []
        for l, d in X.objects(st, val):
            if d.kind != 'dict' or d.own == 'user':
                continue
            for k, v in (d.kvs or {}).items():
                r.extend((k[2], a) for a in v)
            for s in d.segs:
                for k in s[1]:
                    if k[0] == 'k':
                        r.extend((k[2], a) for a in s[2])
                    elif k[0] == 's':
                        f = [x for x in fields if st.facts.get(I.mkeq('eq', k[1], K(x))) is True]
                        r.extend((f[0] if f else None, a) for a in s[2])
                    # otherwise: the entries of an arbitrary instance
        return r

    def look(o, node, ctx, arbitrary=False, me0=None):
        if o.kind != 'ret' or not Se.is_inst(o.st, o.val):
            return
        if I.get(o.st, o.val[1]).cls != cid or (o.val[1][0] == 'p' and o.val[1] not in o.st.heap):
            return
        if any(mentions(k, 'exc') for k in o.st.facts):
            return               # a declared factory raised an error without contents
        n[0] += 1
        exact = Se.exact
        st = o.st
        if exact and "zz" in ctx and not any(w in ctx for w in ('ignore_extra', 'remove', 'discard', 'del', 'raised')):
            report('unknown', node, 'a value for an undeclared field is accepted', ctx)
        have = set()
        maybe = set()
        for f, a in stored(st, o.val):
            if a == ABSENT:
                maybe.add(f)
                continue
            have.add(f)
            if f not in fields:
                if exact:
                    report('undeclared', node, 'a field that is not declared is stored (%s)' % (f or 'unknown name'), ctx)
                continue
            n[1] += 1
            types, invs, mand = fields[f]
            if a[0] != 's' or a[1][0] in ('u',) and not exact:
                continue
            if a[1][0] == 'u' and arbitrary:
                continue          # a value of the arbitrary instance
            if types and not X.isinst(st, a[1], types) and exact:
                report('type', node, 'field %s was not type checked' % f, ctx)
            for i in invs:
                p = X.passed(st, i, a[1])
                if p is False or p is None and exact:
                    report('invariant', node, 'field %s %s its invariant' % (f, 'violates' if p is False else 'was not checked against'), ctx)
        if exact and not arbitrary:
            for f, (t, i, m) in fields.items():
                if m and (f not in have or f in maybe):
                    report('mandatory', node, 'the mandatory field %s is missing' % f, ctx)
        for g in globs:
            subs = {k[1][2]: v for k, v in st.facts.items() if k[0] == 't' and k[1][0] == 'call' and k[1][1] == ('decl', g) and len(k[1]) == 3}
            me = I.gvn(st, o.val)
            if subs.get(me) is True:
                continue
            if subs.get(me) is False:
                report('global', node, 'the instance violates the global invariant %s' % g, ctx)
            elif exact and not arbitrary and o.val != me0 and not any(v is True for v in subs.values()):
                report('global', node, 'the global invariant %s was not consulted' % g, ctx)

    new = I.class_lookup(W.state(), cid, '__new__')
    u = ops.underlying(new) if new else None
    newnode = I.prog.funcs[u[1]] if u and u[0] == 'f' else I.classes[cid].node
    mand = [f for f in fields if fields[f][2]]
    full = {f: E('v' + f) for f in fields}
    least = {f: E('v' + f) for f in mand}
    combos = [{}, least, full, dict(least, zz=E('zz')), dict([(f, v) for f, v in full.items() if f not in mand[:1]])]
    if 'c' in fields:
        combos.append(dict(least, c=E('vc')))
    selfs = []
    for kw in combos:
        ctx = '%s(%s)' % (name, ', '.join(sorted(kw)))
        for o in X.new('new', cid, [], kw):
            look(o, newnode, ctx)
            if o.kind == 'ret' and kw in (full, least) and not any(mentions(k, 'exc') for k in o.st.facts) and len([1 for s in selfs if s[2] == ctx]) < 2:
                selfs.append((o.st, o.val, ctx))
        d = mapping(*[(K(f), v) for f, v in kw.items()])
        for s, f in W.attr(W.state(), ('c', cid), 'create'):
            fn = ops.underlying(f)
            fnode = I.prog.funcs[fn[1]] if fn[0] == 'f' else newnode
            for k2 in ({}, {'ignore_extra': K(True)}):
                for o in X.call('create', s, f, [d], k2):
                    look(o, fnode, '%s.create(%s%s)' % (name, ', '.join(sorted(kw)), ', ignore_extra' if k2 else ''))
    for st, me, lab in selfs[:1]:
        for r in X.ret(X.method('reduce', st, me, '__reduce__')):
            t = I.get(r.st, r.val[1]) if r.val[0] == 'l' else None
            if t is None or t.kind != 'tuple' or len(t.segs) < 2:
                continue
            for f in t.segs[0][1]:
                for a in t.segs[1][1]:
                    al = [next(iter(s[1])) for s in I.get(r.st, a[1]).segs if s[0] == 'i'] if a[0] == 'l' else []
                    if len(al) < 2:
                        continue
                    fn = ops.underlying(f)
                    for kw in combos:
                        d = mapping(*[(K(x), v) for x, v in kw.items()])
                        for o in X.call('restore', r.st, f, [al[0], d] + al[2:]):
                            look(o, I.prog.funcs[fn[1]] if fn[0] == 'f' else newnode, 'restoring %s from a pickle with %s' % (name, sorted(kw)))
    keys = [K(f) for f in sorted(fields)] + [K('zz')]
    NV = E('new')

    def plans(cls, names):
        """(operation, args, kw)"""
        done = set()
        for op in Se.ops(cls):
            if op.name in READS or op.name in done or op.kind in ('cm', 'sm', 'prop') or op.name in names:
                continue
            done.add(op.name)
            nm = op.name
            if nm == 'transform':
                for k in keys:
                    yield op, [('mk', 'list', ('i', V(k))), E('command')], {}
                continue
            if nm in ('set', '__setitem__', '__setattr__'):
                for k in keys:
                    yield op, [k, NV], {}
                if nm == 'set' and cls == cid:
                    for f in list(fields) + ['zz']:
                        yield op, [], {f: NV}
                    yield op, [], {f: E('new' + f) for f in fields}
            elif nm in ('remove', 'discard', '__delitem__', 'delete'):
                for k in keys:
                    yield op, [k], {}
            elif nm in ('update', '__add__', '__or__'):
                for k in keys:
                    yield op, [mapping((k, NV))], {}
                if nm == 'update':
                    yield op, [mapping((keys[0], NV)), mapping((keys[-2], E('new2')))], {}
            elif nm == 'update_with':
                for k in keys:
                    yield op, [E('fn'), mapping((k, NV))], {}
            else:
                yield op, op.args, op.kw

    def run(what, st, me, op, args, kw):
        return X.method(what, st, me, op.name, args, kw)
    for st, me, lab in selfs + [(W.state(), W.pre(cid, 'self'), 'any instance')]:
        arb = lab == 'any instance'
        for op, args, kw in plans(cid, ()):
            if arb and len(args) > 1 and op.name == 'update':
                continue
            node = Se.function(me, op)
            ctx = '%s: %s(%s)' % (lab, op.name, ', '.join([show(a) for a in args] + sorted(kw)))
            for o in run('op', st, me, op, args, kw):
                look(o, node, ctx, arb, me)
        for q in X.ret(X.method('evolver', st, me, 'evolver'))[:1]:
            e = q.val
            ec = I.get(q.st, e[1]).cls
            pn = Se.function(e, ops.Op('persistent', ec))
            for op, args, kw in plans(ec, ('persistent', 'is_dirty')):
                ctx = '%s: evolver, %s(%s), persistent()' % (lab, op.name, ', '.join([show(a) for a in args] + sorted(kw)))
                seen = set()
                for o in run('eop', q.st, e, op, args, kw):
                    ctx = ctx.replace(' (which raised)', '')
                    key = (o.kind, repr(sorted(o.st.facts.items(), key=repr)))
                    if key in seen or len(seen) > 16:
                        continue
                    seen.add(key)
                    if o.kind == 'raise':
                        ctx = ctx.replace('), persistent()', ') (which raised), persistent()') if 'raised' not in ctx else ctx
                    for p in X.method('p1', o.st, e, 'persistent'):
                        look(p, pn, ctx, arb)
                        if p.kind == 'raise' and not arb:
                            for p2 in X.method('p2', p.st, e, 'persistent'):
                                look(p2, pn, ctx + ' (which raised), persistent()', arb)
                            for f in sorted(fields)[:1] if tier == 'quick' else sorted(fields):
                                for r in X.method('again', p.st, e, 'set', [K(f), E('second')])[:4]:
                                    for p3 in X.method('p3', r.st, e, 'persistent'):
                                        look(p3, pn, ctx + ' (which raised), set(%s), persistent()' % f, arb)
    return {'violations': out, 'coverage': coverage(Se, {'paths returning an instance': n[0], 'fields examined': n[1], 'calls analysed': X.calls})}


def show(a):
    if a[0] == 'k':
        return repr(a[2])
    if a[0] == 's':
        return str(a[1][1])
    return '<%s>' % a[1]


def mentions(e, tag):
    return e == tag or isinstance(e, tuple) and any(mentions(x, tag) for x in e)
