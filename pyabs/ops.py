"""The public operations of the package, taken from the class definitions, and how they are called from outside."""
import ast
from .model import *
from .program import AnalysisBroken

# special methods that are part of the public protocol of an instance
DUNDERS = ['__len__', '__getitem__', '__contains__', '__iter__', '__reversed__', '__eq__', '__ne__', '__lt__', '__le__',
           '__gt__', '__ge__', '__hash__', '__add__', '__radd__', '__mul__', '__rmul__', '__sub__', '__and__', '__or__',
           '__xor__', '__rsub__', '__rand__', '__ror__', '__rxor__', '__reduce__', '__repr__', '__str__', '__call__',
           '__setitem__', '__delitem__', '__iadd__', '__bool__', '__copy__', '__deepcopy__', '__getstate__',
           '__setstate__', '__reduce_ex__', '__getattr__', '__setattr__', '__delattr__', '__ior__', '__iand__',
           '__isub__', '__ixor__', '__imul__', '__matmul__', '__neg__', '__invert__', '__index__', '__truediv__']
SKIP = {'__class_getitem__', '__new__', '__init__', '__init_subclass__'}
MIXIN_READS = {'index', 'count', '__contains__', '__reversed__', '__iter__', 'isdisjoint', '__le__', '__lt__', '__ge__', '__gt__'}


def underlying(a):
    while a[0] in ('sm', 'cm', 'bm'):
        a = a[1]
    return a


class Op:
    __slots__ = ('name', 'cid', 'args', 'kw', 'star', 'dstar', 'kind')

    def __init__(self, name, cid, args=(), kw=None, star=None, dstar=None, kind='method'):
        self.name, self.cid, self.args, self.kw, self.star, self.dstar, self.kind = name, cid, args, kw or {}, star, dstar, kind

    def __repr__(self):
        a = [x[1][1] if x[0] == 's' else ('<%s>' % x[1] if x[0] == 'mk' else repr(x)) for x in self.args]
        if self.star:
            a.append('*' + self.star[1][1])
        a += ['%s=%s' % (k, v[1][1]) for k, v in self.kw.items()]
        if self.dstar:
            a.append('**' + self.dstar[1][1])
        return '%s.%s(%s)' % (self.cid, self.name, ', '.join(map(str, a)))


def signatures(W, fatom, skip_first, tag=''):
    """argument lists a caller can use: with and without the optional parameters"""
    I = W.I
    f = underlying(fatom)
    if f[0] != 'f':
        return None
    fn = I.prog.funcs[f[1]]
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip_first:
        pos = pos[1:]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else pos
    opt = [p for p in (pos[len(pos) - nd:] if nd else []) if not p.startswith('_')]
    kwo = [x.arg for x in a.kwonlyargs if not x.arg.startswith('_')]
    out = []
    if fn.name == 'transform' and a.vararg:
        # one path of one step; longer paths are the same operation applied to the parts
        return [([('mk', 'list', ('i', V(S('arg', tag + 'step')))), S('arg', tag + 'command')], {}, None, None)]
    variants = [req]
    for i in range(len(opt)):
        variants.append(req + opt[:i + 1])
    for v in variants:
        out.append(([S('arg', tag + p) for p in v], {}, None, None))
    if a.vararg:
        args = [S('arg', tag + p) for p in req]
        out = [] if a.vararg else out
        out.append((args, {}, None, None))
        out.append((args + [S('arg', tag + a.vararg.arg + '0')], {}, None, None))
        out.append((args + [S('arg', tag + a.vararg.arg + '0'), S('arg', tag + a.vararg.arg + '1')], {}, None, None))
        out.append((args, {}, S('arg', tag + a.vararg.arg), None))
    if a.kwarg:
        args = [S('arg', tag + p) for p in req]
        if not a.vararg:
            out = [(args, {}, None, None)]
        out.append((args, {}, None, S('arg', tag + a.kwarg.arg)))
    if kwo:
        base = out[-1]
        out.append((base[0], {k: S('arg', tag + k) for k in kwo}, base[2], base[3]))
    return out


def class_ops(W, cid, st=None, private=False):
    """every public operation instances of the class offer"""
    I = W.I
    st = st or W.state()
    names = []
    for m in I.classes[cid].mro:
        if m in I.classes:
            for k in sorted(I.base[I.classes[m].dloc].kvs, key=repr):
                n = k[2]
                if n in names or n in SKIP:
                    continue
                if n.startswith('_') and not (n in DUNDERS or (private and not n.startswith('__'))):
                    continue
                names.append(n)
    for n in DUNDERS:
        if n not in names:
            m = I.class_lookup_set(st, cid, n)
            if m and not (m[1] in ('object', 'type')):
                names.append(n)
    ops = []
    for n in sorted(names):
        m = I.class_lookup(st, cid, n)
        if m is None or m == NONE:
            continue
        if m[0] == 'prop':
            ops.append(Op(n, cid, kind='prop'))
            continue
        if m[0] in ('k', 'l', 'c'):
            continue
        u = underlying(m)
        if u[0] == 'f' and I.prog.funcs[u[1]]._mod.name == '_collections_abc' and n in MIXIN_READS:
            continue      # written in terms of the other operations
        sigs = signatures(W, m, skip_first=m[0] != 'sm')
        if sigs is None:
            if m[0] == 'b':
                ops.append(Op(n, cid, [], kind='builtin'))
            continue
        kind = {'f': 'method', 'cm': 'cm', 'sm': 'sm'}.get(m[0], 'method')
        for args, kw, star, dstar in sigs:
            ops.append(Op(n, cid, args, kw, star, dstar, kind))
    return ops


def make_args(W, st, args):
    """containers among the arguments are made here; they belong to the caller"""
    out = []
    for i, a in enumerate(args):
        if a[0] == 'sl':
            loc = ('h', 'user', W.site, i)
            st = st.copy()
            st.heap[loc] = Obj('slice', None, {'start': V(a[1]), 'stop': V(a[2]), 'step': V(a[3])}, own='user')
            a = ('l', loc)
        if a[0] == 'mk':
            loc = ('h', 'user', W.site, i)
            st = st.copy()
            segs = a[2:] if a[2:] != (None,) else ()
            kv = {} if a[1] == 'dict' else None
            if a[1] == 'dict':
                # constant keys are kept apart
                kv = {next(iter(s[1])): s[2] for s in segs if s[0] == 'di' and len(s[1]) == 1 and next(iter(s[1]))[0] == 'k'}
                segs = tuple(s for s in segs if not (s[0] == 'di' and len(s[1]) == 1 and next(iter(s[1]))[0] == 'k'))
            st.heap[loc] = Obj(a[1], None, {}, segs, kv, own='user')
            a = ('l', loc)
        out.append(a)
    return st, out


def run_op(W, st, self_, op):
    """outcomes of the operation on the instance self_ (an atom)"""
    if any(a[0] in ('mk', 'sl') for a in op.args):
        st, args = make_args(W, st, op.args)
        op = Op(op.name, op.cid, args, op.kw, op.star, op.dstar, op.kind)
    if op.kind == 'prop':
        r, raised = W.within(st, lambda s, n: W.I.getattr_(s, self_, op.name, n), [self_])
        from .world import Outcome
        return [Outcome('ret', s, v) for s, v in r] + [Outcome('raise', s, e) for s, e in raised]
    if op.kind in ('cm', 'sm'):
        out = []
        for s, f in W.attr(st, ('c', op.cid), op.name):
            out.extend(W.run(s, f, op.args, op.kw, op.star, op.dstar, [self_]))
        return out
    return W.method(st, self_, op.name, op.args, op.kw, op.star, op.dstar, [self_])
