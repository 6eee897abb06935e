"""C06: persistent() reports every update, however often it is called."""
from .pyq import *

EXPLANATION = ('For every type with evolver(): from an arbitrary well-formed collection, histories of one or two updates with '
               'persistent() and is_dirty() in between are analysed path by path. On each path the values given to the updates are '
               'looked up among the elements of the collection persistent() returns, lengths are compared as expressions over the '
               'length of the source, and the returned object is compared with the source.')
RULE = ('(1) persistent() of a fresh evolver is its source and is_dirty() is false; (2) a value that reached the evolver is in the '
        'collection persistent() returns, also after an intermediate persistent(); a value that did not is refused or already there; '
        '(3) after a removal the result is not the source; (4) is_dirty() is false right after persistent(), and false only while '
        'persistent() returns the source or the previous result; (5) n updates of one element change the length by at most n, and '
        'persistent() twice gives the same length')
ASSUMPTIONS = ['histories of at most two updates', 'bounds of the abstract iteration as in C01']
MINIMUM = {'evolver histories': 120, 'evolver classes': 6}
READS = {'__getitem__', '__len__', '__contains__', 'is_dirty', '__iter__', '__repr__', '__str__', '__bool__', 'persistent',
         '__getattr__', 'get'}
REMOVES = {'remove', 'delete', '__delitem__', 'discard', 'pop'}
SINGLE = {'append', 'add', 'set', '__setitem__', '__setattr__', 'remove', 'delete', '__delitem__'}


def jobs(tier):
    if tier == 'thorough':
        return split(['pmap', 'pmap*', 'pset', 'pvector'] + [f for f in SPEC + VECTOR if f[0].isupper()])
    return split(['pmap', 'pmap*', 'pset', 'pvector', 'Vec', 'Set_', 'Map', 'Rec', 'Cls', 'Cls0', 'Rec0'])


def retag(op, tag):
    def t(a):
        return S_('arg', tag + a[1][1]) if a is not None and a[0] == 's' else a
    return ops.Op(op.name, op.cid, [t(a) for a in op.args], {k: t(v) for k, v in op.kw.items()}, t(op.star), t(op.dstar), op.kind)


def S_(*e):
    return S(*e)


def argnames(op):
    return [a[1][1] for a in list(op.args) + list(op.kw.values()) + [op.star, op.dstar] if a is not None and a[0] == 's']


def values(op):
    """the arguments that become elements"""
    if op.name in REMOVES:
        return []
    n = argnames(op)
    return n[-1:] if op.name in ('set', '__setitem__', '__setattr__') else n


GROW = {'append', 'add', 'extend', 'update'}


def analyse(name, tier):
    Se = session(name, budget=30000 if tier == 'quick' else 200000)
    W, I = Se.W, Se.I
    out = []
    hist = 0
    classes = set()

    def identity(I, st, e, val):
        # remember on the path that an argument was found to be the object already there
        if e[0] == 'is' and val and mentions(e, 'arg'):
            st = st.copy()
            for n in args_in(e):
                st.facts[('same', ('arg', n))] = True
            return st
    I.hooks['assume'] = identity
    G1, G2 = (8, 3) if tier == 'quick' else (40, 10)

    def sig(st, atoms):
        r = Se.reach(st, atoms, pre=False)
        return frozenset((l, repr(st.heap[l].fields) + repr(st.heap[l].segs) + repr(st.heap[l].kvs)) for l in r if l in st.heap and l[0] != 'env')

    def groups(outs, atoms, limit):
        seen, r = set(), []
        for o in outs or []:
            if o.kind != 'ret':
                continue
            k = (o.val if o.val[0] == 'l' else None, sig(o.st, atoms(o)))
            if k not in seen:
                seen.add(k)
                r.append(o)
        return r[:limit]

    def has_leaf(st, atom, arg, leafset=None):
        """some element below atom is, or is computed from, the argument"""
        for l in Se.reach(st, [atom], pre=False) | ({atom[1]} if atom[0] == 'l' else set()):
            if l not in st.heap:
                continue
            for v in st.heap[l].all_vals():
                for a in v:
                    if leaf_mentions(a, arg):
                        return True
        return False

    def leaf_mentions(a, arg):
        if a[0] == 's':
            if a[1][0] == 'u':
                return root_mentions(a[1][1], arg)
            return a[1][0] not in INT and mentions(a[1], ('arg', arg))
        if a[0] == 'pair':
            return any(leaf_mentions(x, arg) for x in a[1]) or any(leaf_mentions(x, arg) for x in a[2])
        if a[0] == 'pe':
            return a[1][0] == 'p' and root_mentions(a[1][1], arg)
        if a[0] == 'l' and a[1][0] == 'p':
            return root_mentions(a[1][1], arg)
        return False

    def supported(st, arg):
        """a test on this path says that there was nothing to do"""
        for k, v in st.facts.items():
            if mentions(k, 'exc'):
                return True          # the declared factory raised
            if v is not True and k[0] != 'itn' and not (v is False and k[0] == 't'):
                continue
            if k[0] in ('isinst', 'callable'):
                continue
            if k[0] == 't' and v is True:
                continue
            if mentions(k, ('arg', arg)):
                return True
        return False

    def identical(st, arg):
        return any(v is True and k[0] == 'same' and mentions(k, ('arg', arg)) or mentions(k, 'exc') for k, v in st.facts.items())

    def length(st, a):
        r = [o for o in Se.attempt('__len__', lambda: W.method(st, a, '__len__')) or [] if o.kind == 'ret']
        return r[0].val if len(r) == 1 else None

    def difference(a, b):
        if a is None or b is None or as_lin(a) is None or as_lin(b) is None:
            return None
        d = lin_add(a, b, -1)
        return d[2] if d is not None and d[0] == 'k' else None

    def dirty(st, e):
        if I.class_lookup(st, I.get(st, e[1]).cls, 'is_dirty') is None:
            return None
        r = {o.val for o in Se.attempt('is_dirty', lambda: W.method(st, e, 'is_dirty', pins=[e])) or [] if o.kind == 'ret'}
        if len(r) == 1 and list(r)[0][0] == 'k':
            return bool(list(r)[0][2])
        return None

    def empty(st):
        return base is not None and as_lin(base) is not None and I.decide_cmp(st, '==', base, K(0)) is True

    def report(key, node, msg, ctx):
        out.append({'key': '%s|%s' % (key, qual(node)), 'where': where(node) + ' in ' + getattr(node, '_qual', '?'),
                    'message': '%s: %s' % (msg, ctx)})

    def persistent(st, e, pins, n):
        W.site = ('persistent', n)
        return groups(Se.attempt('persistent', lambda: W.method(st, e, 'persistent', pins=pins)),
                      lambda o: [o.val], G1)

    for label, setup, st0, src, e in Se.evolvers():
        setup()
        ec = I.get(st0, e[1]).cls
        classes.add(ec)
        pnode = Se.function(e, ops.Op('persistent', ec))
        # (1)
        for p in persistent(st0, e, [src, e], 0):
            if p.val != src:
                report('clean', pnode, 'persistent() of an evolver without updates is not the collection it came from', ec)
        if dirty(st0, e) is True:
            report('cleandirty', Se.function(e, ops.Op('is_dirty', ec)), 'is_dirty() of an evolver without updates is true', ec)
        base = length(st0, src)
        ups = [op for op in Se.ops(ec) if op.name not in READS]
        fields = FIELDS.get(Se.family)
        if fields:
            # the key of a record is the name of one of its fields
            ups = [ops.Op(op.name, op.cid, [K(f)] + op.args[1:], op.kw, op.star, op.dstar, op.kind) for op in ups for f in fields
                   if op.args and not op.star]
        for op in ups:
            node = Se.function(e, op)
            W.site = ('op1', repr(op))
            Se.exact = True
            outs = Se.attempt(repr(op), lambda: ops.run_op(W, st0, e, op))
            hist += 1
            exact1 = Se.exact
            if op.name in ('set', '__setitem__', '__setattr__'):
                for o in outs or []:
                    for a in values(op) if o.kind == 'ret' else ():
                        if not has_leaf(o.st, e, a) and not identical(o.st, a):
                            report('dropped', node, 'the value given to %s is not in the evolver, it was not found to be the object that is there already' % op.name, 'evolver(), %r' % op)
            for o in groups(outs, lambda o: [e], G1):
                Se.exact = exact1
                isd = dirty(o.st, e)
                value_args = values(op)
                inevo = {a: has_leaf(o.st, e, a) for a in value_args}
                ps = persistent(o.st, e, [src, e], 1)
                ctx = 'evolver(), %r, persistent()' % op
                for p in ps:
                    if p.val[0] != 'l':
                        continue
                    if op.name in REMOVES and op.name != 'discard' and p.val == src and not empty(p.st):
                        report('removal', node, 'the removal is lost, the source is returned', ctx)
                    for a in value_args:
                        there = has_leaf(p.st, p.val, a)
                        if inevo[a] and Se.exact and not there and (p.val == src or not any(has_leaf(x.st, x.val, a) for x in ps)):
                            report('lost', pnode, 'the value given to %s is in the evolver but not in the result' % op.name, ctx)
                        elif not inevo[a] and not there and not supported(p.st, a) and p.val == src:
                            report('dropped', node, 'the value given to %s is not in the evolver' % op.name, ctx)
                    if isd is False and p.val != src:
                        report('dirtyfalse', Se.function(e, ops.Op('is_dirty', ec)), 'is_dirty() is false but persistent() returns a new collection', ctx)
                    if isd is True and p.val == src:
                        report('dirtytrue', pnode, 'is_dirty() is true but persistent() returns the source', ctx)
                    n1 = length(p.st, p.val)
                    d = difference(n1, base)
                    if d is not None and op.name in SINGLE and abs(d) > 1:
                        report('twice', node, 'one update of one element changed the length by %d' % d, ctx)
                    # what the evolver says
                    d2 = difference(length(p.st, e), n1) if I.class_lookup(p.st, ec, '__len__') else None
                    if d2:
                        report('len', Se.function(e, ops.Op('__len__', ec)), 'len() of the evolver and of its result differ by %d' % d2, ctx)
                    # (4), (5)
                    if dirty(p.st, e) is True:
                        report('stilldirty', pnode, 'is_dirty() is true after persistent()', ctx)
                    for q in persistent(p.st, e, [src, e, p.val], 2)[:G2]:
                        hist += 1
                        if q.val[0] != 'l':
                            continue
                        for a in value_args:
                            if q.val != p.val and has_leaf(p.st, p.val, a) and not has_leaf(q.st, q.val, a):
                                report('lost2', pnode, 'the second persistent() lost the value given to %s' % op.name, ctx + ', persistent()')
                        if q.val == src and p.val != src:
                            report('lost2', pnode, 'the second persistent() returns the source again', ctx + ', persistent()')
                        d = difference(length(q.st, q.val), n1)
                        if d:
                            report('twice', pnode, 'the second persistent() changed the length by %d' % d, ctx + ', persistent()')
                # a second update, with and without persistent() in between
                for mid, cands in (('', [o]), (', persistent()', ps)):
                    for m in cands[:G2]:
                        for op2 in ups:
                            if op2.name not in ('set', 'append', 'add', 'remove', 'delete', '__setitem__') or (op2.star or op2.dstar):
                                continue
                            if op2.name == '__setitem__' and any(x.name == 'set' for x in ups):
                                continue
                            o2 = retag(op2, '2')
                            hist += 1
                            Se.exact = exact1
                            W.site = ('op2', repr(o2))
                            for r in groups(Se.attempt(repr(o2), lambda: ops.run_op(W, m.st, e, o2)), lambda o: [e], G2):
                                in2 = [a for a in (value_args if o2.name in GROW and op.name in GROW else []) + values(o2) if has_leaf(r.st, e, a)]
                                exact = Se.exact
                                qs = persistent(r.st, e, [src, e, m.val], 3)
                                for q in qs[:G2]:
                                    ctx2 = 'evolver(), %r%s, %r, persistent()' % (op, mid, o2)
                                    if q.val[0] != 'l':
                                        continue
                                    for a in in2 if exact and Se.exact else ():
                                        if not any(has_leaf(x.st, x.val, a) for x in qs) or q.val in (src, m.val if mid else None) and not has_leaf(q.st, q.val, a):
                                            report('lost', pnode, 'the value %s is in the evolver but not in the result' % a, ctx2)
                                    if mid and m.val != src and o2.name not in REMOVES and q.val == src:
                                        report('lost', pnode, 'the source is returned again', ctx2)
                                    if mid and o2.name in REMOVES and q.val == m.val and Se.family not in VECTOR:
                                        report('removal', pnode, 'the removal is lost', ctx2)
                                    d = difference(length(q.st, q.val), base)
                                    if d is not None and op.name in SINGLE and abs(d) > 2:
                                        report('twice', pnode, 'two updates of one element changed the length by %d' % d, ctx2)
    return {'violations': out, 'coverage': coverage(Se, {'evolver histories': hist, 'evolver classes': classes})}


FIELDS = {'Rec': ('a', 'b'), 'RecSub': ('a', 'd'), 'Rec0': ('x',), 'Cls': ('a', 'b'), 'ClsSub': ('a', 'd'), 'Cls0': ('x',)}
INT = ('n', 'lin', 'len', 'cnt', 'slen', 'count', 'sum')


def root_mentions(path, arg):
    """a position below a collection given as argument"""
    while path[0] in ('f', 'fs', 'e'):
        path = path[1]
    return path[0] == 'v' and mentions(path[1], ('arg', arg))


def args_in(e):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == 'arg':
            yield e[1]
        for x in e:
            yield from args_in(x)


def mentions(e, what):
    if e == what:
        return True
    if isinstance(e, (tuple, frozenset)):
        return any(mentions(x, what) for x in e)
    return False
