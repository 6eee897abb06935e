"""C04: collections and callers share no mutable container."""
from .pyq import *

EXPLANATION = ('Every constructor, factory and public operation (collections and evolvers) is analysed with each argument in turn '
               'being a list, dict or set owned by the caller. Reported: writes to such a container; a result in which it sits at a '
               'storage position (a field or node, as opposed to an element supplied by the caller); and results that are, or '
               'contain, a mutable container that is storage of the receiver.')
RULE = 'no write to caller-owned containers; no caller-owned container at a storage position; no storage container among returned containers'
ASSUMPTIONS = ['opaque elements stand for any user value', 'bounds of the abstract iteration as in C01']
MINIMUM = {'operations analysed': 900, 'functions entered': 150}

MUTABLE = ('list', 'dict', 'set')
SKIP = {'__repr__', '__str__', '__hash__', '__len__'}


def jobs(tier):
    if tier == 'thorough':
        return ['pmap', 'pmap*'] + SPEC + VECTOR
    return PYFAMILIES


SHAPES = [('list', ('r', V(S('arg', 'item')), '?', ('len', ('arg', 'items')))),
          ('dict', ('dr', V(S('arg', 'akey')), V(S('arg', 'avalue')), '?', ('len', ('arg', 'items')))),
          ('set', ('r', V(S('arg', 'item')), '?', ('len', ('arg', 'items'))))]


def variants(args):
    yield args
    for i in range(len(args)):
        if args[i][0] != 's':
            continue
        for kind, seg in SHAPES:
            yield args[:i] + [('mk', kind, seg)] + args[i + 1:]


def storage_positions(S, st, val, evo=False):
    """caller-owned containers at storage positions of the instances reachable from val"""
    I = S.I
    bad = []
    seen = set()

    def walk(vals, node, path):
        for a in vals:
            if a[0] == 'pair':
                continue
            if a[0] != 'l':
                continue
            loc = a[1]
            try:
                o = I.get(st, loc)
            except Exception:
                continue
            shapes = I.tmpl.get(node) if node is not None else None
            if o.own == 'user':
                if shapes is not None and shapes and ('user',) not in shapes and o.kind in MUTABLE:
                    bad.append((path, o))
                continue
            if (loc, node) in seen or (loc[0] == 'p' and loc not in st.heap):
                continue
            seen.add((loc, node))
            if o.kind == 'inst':
                if o.cls not in I.classes:
                    continue
                for f, v in o.fields.items():
                    n = (o.cls, f)
                    if n not in I.tmpl:
                        n = next(((m, f) for m in I.classes[o.cls].mro if (m, f) in I.tmpl), None)
                    walk(v, n, path + '.' + f)
            elif o.kind in ('list', 'tuple', 'pvec', 'set', 'dict', 'pvecev'):
                for sh in shapes or ():
                    if sh[0] == 'cont' and sh[1] == o.kind:
                        if o.kind == 'dict':
                            for s in o.segs:
                                walk(s[2], (sh[2], 'v'), path + '[]')
                        else:
                            for s in o.segs:
                                walk(s[1], (sh[2], 'el'), path + '[]')
    walk([val], None, 'result')
    return bad


def leaked(S, st, self_, val):
    """mutable containers among the returned ones that are storage of a collection"""
    I = S.I
    bad = []
    seen = set()
    mine = S.reach(st, [self_], pre=False) if self_ is not None else set()

    def walk(a, path):
        if a[0] == 'pair':
            return
        if a[0] == 'pe' and a[1][0] == 'p':
            src = a[1]
            for x in I.expand(a, ('any',)):
                walk(x, path)
            return
        if a[0] != 'l' or a[1] in seen:
            return
        seen.add(a[1])
        try:
            o = I.get(st, a[1])
        except Exception:
            return
        if o.kind in MUTABLE and (o.own == 'frozen' or a[1] in mine) and a[1][0] in ('p', 'h') and o.own != 'user':
            bad.append((path, o, a[1]))
            return
        if o.kind in ('list', 'tuple', 'set', 'dict'):
            for v in o.all_vals():
                for x in v:
                    walk(x, path + '[]')
    walk(val, 'result')
    return bad


def analyse(name, tier):
    S = session(name, rounds=5, budget=30000 if tier == 'quick' else 150000)
    W, I = S.W, S.I
    out = []

    def look(op, outs, me, fatom=None):
        ctx = repr(op)
        out.extend(mutation_violations(S, I.reports, ('user',), "caller's container written", ctx))
        del I.reports[:]
        node = S.function(me, op) if me is not None else fatom
        for o in outs or []:
            if o.kind != 'ret':
                continue
            for path, ob in storage_positions(S, o.st, o.val):
                out.append({'key': 'stored|%s|%s' % (qual(node), path), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'),
                            'message': "the caller's %s becomes storage (%s) in %s" % (ob.kind, path, ctx)})
            if me is not None:
                for path, ob, loc in leaked(S, o.st, me, o.val):
                    out.append({'key': 'leaked|%s|%s' % (qual(node), path), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'),
                                'message': 'a %s that is storage of the collection is returned (%s) by %s' % (ob.kind, path, ctx)})
    for label, setup in S.variants:
        setup()
        for nm, f, args, kw, star, dstar in infer.constructors(W, S.family):
            for av in variants(list(args)):
                del I.reports[:]
                op = ops.Op(nm, S.cid, av, kw, star, dstar)
                W.site = ('new', nm, repr(av))

                def go():
                    st, a2 = ops.make_args(W, W.state(), av)
                    return W.run(st, f, a2, kw, star, dstar)
                outs = S.attempt(repr(op), go)
                u = ops.underlying(f)
                node = I.prog.funcs[u[1]] if u[0] == 'f' else I.classes[u[1]].node
                look(op, outs, None, node)
        for c in sorted(S.found):
            if infer.is_evolver(W, c):
                continue
            for op0 in S.ops(c):
                if op0.name in SKIP:
                    continue
                for av in variants(list(op0.args)):
                    del I.reports[:]
                    op = ops.Op(op0.name, op0.cid, av, op0.kw, op0.star, op0.dstar, op0.kind)
                    W.site = ('op', repr(op))
                    me = W.pre(c, 'self')
                    outs = S.attempt(repr(op), lambda: ops.run_op(W, W.state(), me, op))
                    look(op, outs, me)
    for label, setup, st0, src, e in S.evolvers():
        setup()
        ec = I.get(st0, e[1]).cls
        for op0 in S.ops(ec):
            for av in variants(list(op0.args)):
                op = ops.Op(op0.name, op0.cid, av, op0.kw, op0.star, op0.dstar, op0.kind)
                W.site = ('eop', repr(op))
                del I.reports[:]
                outs = S.attempt(repr(op), lambda: ops.run_op(W, st0, e, op))
                look(op, outs, e)
                if any(a[0] == 'mk' for a in av):
                    for o in [o for o in outs or [] if o.kind == 'ret'][:3]:
                        # a later append must not reach the caller's container, nor may it become storage
                        for nm in ('append', 'add', 'set'):
                            for op2 in S.ops(ec, (nm,)):
                                W.site = ('eop2', repr(op2))
                                S.attempt(repr(op2), lambda: ops.run_op(W, o.st, e, op2))
                                out.extend(mutation_violations(S, I.reports, ('user',), "caller's container written", repr(op) + ', ' + repr(op2)))
                                del I.reports[:]
                        W.site = 'persistent'
                        for p in S.attempt('persistent', lambda: W.method(o.st, e, 'persistent')) or []:
                            if p.kind == 'ret':
                                look(op, [p], e)
    return {'violations': out, 'coverage': coverage(S)}
