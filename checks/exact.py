"""Calls with containers of known shape: the elements are opaque, their number is fixed, so that no loop has to be summarised
and every path carries the facts established about each element."""
from .pyq import *


def E(n):
    return S('arg', n)


def seq(kind, *names):
    return ('mk', kind) + (tuple(('i', V(E(n))) for n in names) or (None,))


def mapping(*pairs):
    """pairs of (atom, atom)"""
    return ('mk', 'dict') + (tuple(('di', V(k), V(v)) for k, v in pairs) or (None,))


class Exact:
    def __init__(self, name, **kw):
        self.Se = session(name, **kw)
        self.W, self.I = self.Se.W, self.Se.I
        self.calls = 0
        self.groups = []
        self.I.transitive = True
        self.I.hooks['assume'] = self.remember

    def remember(self, I, st, e, val):
        # which group of declared types a value belongs to; survives the join over the alternatives
        if e[0] in ('isinst', 'typeis') and val and e[2][0] == 'c' and e[2][1].startswith('client.'):
            st = st.copy()
            for g in self.groups:
                if e[2][1][7:] in g:
                    st.facts[('typed', e[1], g)] = True
            return st

    def site(self, what):
        self.W.site = ('exact', what)

    def call(self, what, st, f, args=(), kw=None, pins=()):
        """f: atom; args may be ('mk', ..) descriptions"""
        self.site(what)
        self.calls += 1

        def go():
            s, a = ops.make_args(self.W, st, list(args))
            k = {}
            for i, (n, v) in enumerate(sorted((kw or {}).items())):
                s, r = ops.make_args(self.W, s, [v])
                k[n] = r[0]
            return self.W.run(s, f, a, k, pins=pins)
        self.Se.exact = True
        return self.Se.attempt(what, go) or []

    def method(self, what, st, me, name, args=(), kw=None, pins=()):
        self.site(what)
        self.calls += 1

        def go():
            s, a = ops.make_args(self.W, st, list(args))
            k = {}
            for n, v in sorted((kw or {}).items()):
                s, r = ops.make_args(self.W, s, [v])
                k[n] = r[0]
            return self.W.method(s, me, name, a, k, pins=list(pins) + [me])
        self.Se.exact = True
        return self.Se.attempt(what, go) or []

    def new(self, what, cls, args=(), kw=None, st=None):
        return self.call(what, st or self.W.state(), ('c', cls) if isinstance(cls, str) else cls, args, kw)

    def ret(self, outs):
        return [o for o in outs if o.kind == 'ret']

    def objects(self, st, val):
        r = self.Se.reach(st, [val], pre=False)
        if val[0] == 'l':
            r = r | {val[1]}
        return [(l, st.heap[l]) for l in sorted(r, key=repr) if l in st.heap and st.heap[l].kind != 'env']

    def leaves(self, st, val, prefix=None):
        """opaque values among the elements below val, with the objects they sit in"""
        out = set()
        for l, o in self.objects(st, val):
            for v in o.all_vals():
                for a in v:
                    for x in atoms(a):
                        if x[0] == 's' and x[1][0] not in INT:
                            out.add(x[1])
        return out

    # ---------------------------------------------------------------- facts
    def isinst(self, st, e, types):
        return st.facts.get(('typed', e, types)) is True or any(
            self.I.isinst_fact(st, e, ('c', 'client.' + t)) is True for t in types)

    def passed(self, st, inv, *es):
        return st.facts.get(('t', ('call', ('decl', inv)) + es))


def atoms(a):
    if a[0] == 'pair':
        for x in list(a[1]) + list(a[2]):
            yield from atoms(x)
    else:
        yield a


INT = ('n', 'lin', 'len', 'cnt', 'slen', 'count', 'sum', 'hash', 'op')
