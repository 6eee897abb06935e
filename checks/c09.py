"""C09: declared constraints are inherited and never mixed up."""
from .exact import *

EXPLANATION = ('Families of declarations are analysed as client code: inheritance over several levels, several bases and diamonds, '
               'redeclared fields, invariants that return several verdicts, and vector, set and map fields that differ in element '
               'type, invariant or optionality. For each class the machinery that collects declarations is interpreted abstractly, '
               'then construction and update with opaque values are followed; every path that returns an instance must carry the '
               'verdicts of exactly the constraints in force for that class, and values satisfying them must be accepted.')
RULE = ('on each path returning an instance: every type test and invariant declared by the class or any ancestor succeeded, no '
        'invariant of an unrelated declaration was consulted, and at least one path accepts the value')
ASSUMPTIONS = ['one element or value per field', 'the declarations in pyabs/client.py and client_more.py are representative']
MINIMUM = {'declarations': 20, 'paths returning an instance': 60, 'constraints examined': 100}

T12, T1, T2, T3 = ('T1', 'T2'), ('T1',), ('T2',), ('T3',)
GROUPS = [T12, T1, T2, T3]
SEQ = {'VecSub': (T1, ['OK1', 'OK2']), 'VecSubType': (T2, ['OK1']), 'VecDeep': (T1, ['OK1', 'OK2']),
       'VecDeeper': (T1, ['OK1', 'OK2']), 'VecBoth': (T3, ['OK1', 'OK2']), 'VecDiamond': (T3, ['OK1', 'OK2']),
       'VecMany': (None, ['OK1', 'OK2']), 'VecMore': (None, ['OK1', 'OK2', 'OK3']), 'VecTypes': (T12, []),
       'SetSub': (T1, ['OK1', 'OK2']), 'SetDeep': (T1, ['OK1', 'OK2']), 'SetDeeper': (T1, ['OK1', 'OK2']),
       'SetMany': (None, ['OK1', 'OK2']), 'SetTypes': (T12, [])}
MAPS = {'MapSub': (T1, T2, ['OK1', 'OK2']), 'MapDeep': (T1, T2, ['OK1', 'OK2']), 'MapDeeper': (T1, T2, ['OK1', 'OK2']),
        'MapKey': (T1, None, []), 'MapValue': (None, T12, [])}
BASE = {'a': (T1, ['OK1'], True), 'b': (T12, [], False), 'c': (None, ['OK2'], False)}
SUB = dict(BASE, d=(T3, [], True))
G1, G2 = ['GOK1'], ['GOK1', 'GOK2']
RECS = {'RecSub': (SUB, G2), 'RecDeep': (SUB, G2), 'RecMulti': (dict(SUB, e=(T2, ['OK3'], True)), G2),
        'RecMixin': ({'e': (T2, ['OK3'], True)}, []), 'RecMany': ({'x': (None, ['OK1', 'OK2'], True)}, []),
        'RecRe': (dict(BASE, a=(T2, ['OK3'], True)), G1),
        'ClsSub': (SUB, G2), 'ClsDeep': (SUB, G2), 'ClsMixin': ({'e': (T2, ['OK3'], True)}, []),
        'ClsMany': ({'x': (None, ['OK1', 'OK2'], True)}, []), 'ClsRe': (dict(BASE, a=(T2, ['OK3'], True)), G1)}
# field: kind, element constraints, field invariant, optional
V_, S_, M_ = 'vector', 'set', 'map'
FIELDS = {'RecVec': {'p': (V_, T1, ['OK1'], [], False)},
          'RecVec2': {'p': (V_, T2, [], ['OK3'], False), 'q': (V_, T12, [], [], False)},
          'RecSet': {'p': (S_, T1, [], [], True), 'q': (S_, T2, ['OK2'], [], False)},
          'RecMap': {'p': (M_, (T1, T2), [], [], False), 'q': (M_, (T2, T1), [], [], True),
                     'r': (M_, (T1, T3), [], [], False), 's': (M_, (T3, T2), [], [], False)},
          'RecSame': {'p': (V_, T3, ['OK1'], [], False), 'q': (V_, T3, ['OK2'], [], False)},
          'ClsVec': {'p': (V_, T1, ['OK1'], [], False), 'q': (V_, T2, [], [], False)}}


def jobs(tier):
    return ['vectors', 'sets', 'maps', 'records', 'RecMulti', 'classes', 'fields']


def analyse(name, tier):
    vec = name in ('vectors', 'fields')
    X = Exact('Vec@small' if name == 'vectors' else 'Rec', budget=60000, inferred=False, more=True)
    Se, W, I = X.Se, X.W, X.I
    X.groups = GROUPS
    if name == 'vectors':
        Se.variants[0][1]()
    out = []
    n = {'declarations': 0, 'paths returning an instance': 0, 'constraints examined': 0}

    def report(key, node, msg):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'), 'message': msg})

    def decl(cls):
        return I.classes['client.' + cls].node

    def judge(st, cls, e, types, invs, what, exact, label):
        """one value against its constraints"""
        n['constraints examined'] += len(invs) + bool(types)
        if types and not X.isinst(st, e, types) and exact:
            report('type|%s' % label, decl(cls), 'a %s of %s is accepted without the declared type test' % (what, cls))
        for i in invs:
            p = X.passed(st, i, e)
            if p is False or p is None and exact:
                report('invariant|%s' % label, decl(cls), 'a %s of %s is accepted although its invariant %s %s' % (
                    what, cls, i, 'failed' if p is False else 'was not consulted'))
        for k in st.facts:
            if k[0] == 't' and k[1][0] == 'call' and k[1][1][0] == 'decl' and k[1][1][1][:2] == 'OK' and k[1][2:] == (e,) and k[1][1][1] not in invs:
                report('foreign|%s' % label, decl(cls), 'a %s of %s is judged by the invariant %s of another declaration' % (what, cls, k[1][1][1]))

    def failed(st):
        return any(mentions(k, 'exc') for k in st.facts)

    def accepted(cls, any_, ctx):
        if not any_ and Se.exact:
            report('rejects|%s' % cls, decl(cls), '%s accepts no value in %s' % (cls, ctx))

    def elements(st, val):
        for l, o in X.objects(st, val):
            if o.own == 'user' or o.kind not in ('dict', 'list', 'tuple', 'pvec'):
                continue
            if o.kind == 'dict':
                for k, v in (o.kvs or {}).items():
                    for b in v:
                        yield k, b
                for s in o.segs:
                    for a in s[1]:
                        for b in s[2]:
                            yield a, b
            else:
                for s in o.segs:
                    for a in s[1]:
                        yield a, None

    def arg(a, nm):
        return a is not None and a[0] == 's' and a[1] == ('arg', nm)

    def inst(o, cls):
        return o.kind == 'ret' and Se.is_inst(o.st, o.val) and I.get(o.st, o.val[1]).cls == 'client.' + cls

    def seqs(prefix):
        for cls, (types, invs) in SEQ.items():
            if not cls.startswith(prefix):
                continue
            n['declarations'] += 1
            for sh in (seq('list', 'x'), seq('list', 'x', 'y')):
                ok = False
                for o in X.new('new', 'client.' + cls, [sh]):
                    if not inst(o, cls):
                        continue
                    ok = True
                    n['paths returning an instance'] += 1
                    for a, _ in elements(o.st, o.val):
                        for nm in 'xy':
                            if arg(a, nm):
                                judge(o.st, cls, a[1], types, invs, 'element', Se.exact, cls)
                accepted(cls, ok, 'construction')
            op = 'append' if prefix == 'Vec' else 'add'
            for q in X.ret(X.new('empty', 'client.' + cls, [('mk', 'list', None)]))[:1]:
                ok = False
                for o in X.method('op', q.st, q.val, op, [E('x')]):
                    if inst(o, cls):
                        ok = True
                        n['paths returning an instance'] += 1
                        for a, _ in elements(o.st, o.val):
                            if arg(a, 'x'):
                                judge(o.st, cls, a[1], types, invs, 'element', Se.exact, cls)
                accepted(cls, ok, op)

    def maps():
        for cls, (kt, vt, invs) in MAPS.items():
            n['declarations'] += 1

            def look(o):
                if not inst(o, cls):
                    return False
                n['paths returning an instance'] += 1
                for k, v in elements(o.st, o.val):
                    if arg(k, 'x'):
                        judge(o.st, cls, k[1], kt, [], 'key', Se.exact, cls)
                    if arg(v, 'y'):
                        judge(o.st, cls, v[1], vt, [], 'value', Se.exact, cls)
                    if arg(k, 'x') and arg(v, 'y'):
                        for i in invs:
                            n['constraints examined'] += 1
                            p = X.passed(o.st, i, k[1], v[1])
                            if p is False or p is None and Se.exact:
                                report('invariant|%s' % cls, decl(cls), 'an entry of %s is accepted although its invariant %s %s' % (
                                    cls, i, 'failed' if p is False else 'was not consulted'))
                return True
            r = [look(o) for o in X.new('new', 'client.' + cls, [mapping((E('x'), E('y')))])]
            accepted(cls, any(r), 'construction')
            for q in X.ret(X.new('empty', 'client.' + cls, [('mk', 'dict', None)]))[:1]:
                r = [look(o) for o in X.method('op', q.st, q.val, 'set', [E('x'), E('y')])]
                accepted(cls, any(r), 'set')

    def stored(st, val, rec):
        o = I.get(st, val[1])
        if not rec:
            return [(f, a) for f, v in o.fields.items() if not f.startswith('_') for a in v]
        return [(k[2] if k[0] == 'k' else None, v) for k, v in elements(st, val)]

    def records(prefix, only):
        for cls, (fields, globs) in RECS.items():
            if not cls.startswith(prefix) or (cls == 'RecMulti') != (only == 'RecMulti'):
                continue
            n['declarations'] += 1
            ok = False
            for o in X.new('new', 'client.' + cls, [], {f: E('v' + f) for f in fields}):
                if not inst(o, cls) or failed(o.st):
                    continue
                ok = True
                n['paths returning an instance'] += 1
                for f, a in stored(o.st, o.val, prefix == 'Rec'):
                    if f not in fields or a[0] != 's':
                        continue
                    judge(o.st, cls, a[1], fields[f][0], fields[f][1], 'field %s' % f, Se.exact, cls)
                asked = {k[1][1][1] for k, v in o.st.facts.items() if k[0] == 't' and k[1][0] == 'call' and k[1][1][0] == 'decl' and v}
                for g in globs:
                    n['constraints examined'] += 1
                    if g not in asked and Se.exact:
                        report('global|%s' % cls, decl(cls), 'an instance of %s is accepted without its global invariant %s' % (cls, g))
                for g in asked:
                    if g.startswith('GOK') and g not in globs:
                        report('foreign|%s' % cls, decl(cls), '%s is judged by the global invariant %s of another declaration' % (cls, g))
            accepted(cls, ok, 'construction')
            for m in [f for f in fields if fields[f][2]]:
                for o in X.new('less', 'client.' + cls, [], {f: E('v' + f) for f in fields if f != m}):
                    if inst(o, cls) and not failed(o.st) and Se.exact:
                        report('mandatory|%s' % cls, decl(cls), '%s is created without the mandatory field %s' % (cls, m))

    def fieldtypes():
        for cls, fs in FIELDS.items():
            n['declarations'] += 1
            rec = cls.startswith('Rec')
            for f, (kind, types, invs, finvs, opt) in fs.items():
                sh = mapping((E('x'), E('y'))) if kind == M_ else seq('list', 'x')
                ok = False
                for o in X.new('new', 'client.' + cls, [], {f: sh}):
                    if not inst(o, cls):
                        continue
                    ok = True
                    n['paths returning an instance'] += 1
                    for g, a in stored(o.st, o.val, rec):
                        if g != f or a[0] != 'l':
                            continue
                        for k, v in elements(o.st, a):
                            lab = '%s.%s' % (cls, f)
                            if kind == M_:
                                if arg(k, 'x'):
                                    judge(o.st, cls, k[1], types[0], [], 'key in %s' % f, Se.exact, lab)
                                if arg(v, 'y'):
                                    judge(o.st, cls, v[1], types[1], [], 'value in %s' % f, Se.exact, lab)
                            elif arg(k, 'x'):
                                judge(o.st, cls, k[1], types, invs, 'element in %s' % f, Se.exact, lab)
                    for i in finvs:
                        if not any(k[0] == 't' and k[1][0] == 'call' and k[1][1] == ('decl', i) and v for k, v in o.st.facts.items()) and Se.exact:
                            report('fieldinvariant|%s.%s' % (cls, f), decl(cls), 'the invariant of %s.%s was not consulted' % (cls, f))
                accepted('%s' % cls, ok, f)
                ok = any(inst(o, cls) for o in X.new('none', 'client.' + cls, [], {f: NONE}))
                if Se.exact and ok != opt:
                    report('optional|%s.%s' % (cls, f), decl(cls), 'None is %s for %s.%s' % ('accepted' if ok else 'refused', cls, f))
                # leaving it out gives the declared initial value
                ok = any(inst(o, cls) for o in X.new('initial', 'client.' + cls))
                accepted(cls, ok, 'construction without values')
    if name == 'vectors':
        seqs('Vec')
    elif name == 'sets':
        seqs('Set')
    elif name == 'maps':
        maps()
    elif name in ('records', 'RecMulti'):
        records('Rec', name)
    elif name == 'classes':
        records('Cls', name)
    else:
        fieldtypes()
    return {'violations': out, 'coverage': coverage(Se, dict(n, **{'calls analysed': X.calls}))}


def mentions(e, tag):
    return e == tag or isinstance(e, tuple) and any(mentions(x, tag) for x in e)
