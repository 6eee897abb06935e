"""The world the analysed package lives in: what objects exist before a call, and how calls are made.

Templates describe, per class, the values the fields of its instances can hold.  They are inferred: every factory
and every public method is analysed with opaque arguments, the objects reachable from the results are folded into
the templates, and this is repeated until nothing new appears.
"""
import ast
from .model import *
from .program import Program, AnalysisBroken, where
from .interp import Frame, Budget, EXC_BASES
from .execs import Machine

INTTAGS = ('n', 'lin', 'len', 'cnt', 'slen', 'count', 'sum')


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val


class World:
    def __init__(self, repo=None, spec=False, more=False):
        self.prog = Program(repo, spec, more)
        self.spec = spec
        self.I = Machine(self.prog)
        self.I.exec_module('pyrsistent')
        for m in self.prog.modules:
            if m != '_collections_abc':
                self.I.exec_module(m)
        self.nodever = 0
        self.gaps = {}
        self.debug = False
        self.laststeps = 0
        self.freeze_globals()

    # ------------------------------------------------------------ names
    def glob(self, mod, name):
        env = ('mod', 'client' if mod == 'client' else 'pyrsistent.' + mod if mod else 'pyrsistent')
        v = self.I.base[env].fields.get(name)
        if not v:
            raise AnalysisBroken('%s.%s not found' % (mod, name))
        return sorted(v, key=repr)[0]

    def public(self, name):
        return self.glob('', name)

    def freeze_globals(self):
        I = self.I
        work = [l for l, o in I.base.items() if (o.kind == 'inst' or o.kind == 'pvec') and l[0] != 'cls']
        seen = set()
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            o = I.base.get(l)
            if o is None or o.kind in ('env',) or l[0] == 'cls':
                continue
            I.base[l] = o.with_(own='frozen')
            for v in o.all_vals():
                for a in v:
                    if a[0] == 'l':
                        work.append(a[1])

    # ------------------------------------------------------------ calls
    def run(self, st, f, args=(), kw=None, star=None, dstar=None, pins=()):
        """all outcomes of a call from the outside"""
        I = self.I
        if not hasattr(self, 'hnode'):
            self.hnode = ast.parse('harness()').body[0].value
            self.hnode._mod = None
        self.ncall = getattr(self, 'ncall', 0)
        node = self.hcall()
        hf = Frame(('env', 'harness'), self.prog.modules['pyrsistent'], node, None, I.ctx(0, node), None, 0, ())
        st = st.copy()
        if ('env', 'harness') not in st.heap:
            st.heap[('env', 'harness')] = Obj('env', None, {})
        saved = I.frames, I.sinks, I.pins, I.handlers
        I.frames, I.sinks, I.pins, I.handlers = [hf], [[]], [list(args) + [f] + list(pins)], ()
        try:
            res = I.call(st, f, list(args), dict(kw or {}), node, star, dstar)
            raised = I.sinks[0]
        finally:
            I.frames, I.sinks, I.pins, I.handlers = saved
        return [Outcome('ret', s, v) for s, v in res] + [Outcome('raise', s, e) for s, e in raised]

    def hcall(self):
        """a fresh call site outside the package"""
        site = self.site
        n = self.sites.get(site)
        if n is None:
            n = self.sites[site] = ast.parse('harness()').body[0].value
            n._mod = None
        return n

    sites = {}
    site = 0

    def attr(self, st, a, name):
        I = self.I
        node = self.hcall()
        hf = Frame(('env', 'harness'), self.prog.modules['pyrsistent'], node, None, I.ctx(0, node), None, 0, ())
        saved = I.frames, I.sinks, I.pins, I.handlers
        I.frames, I.sinks, I.pins, I.handlers = [hf], [[]], [[a]], ()
        st = st.copy()
        st.heap.setdefault(('env', 'harness'), Obj('env', None, {}))
        try:
            return I.getattr_(st, a, name, node)
        finally:
            I.frames, I.sinks, I.pins, I.handlers = saved

    def method(self, st, a, name, args=(), kw=None, star=None, dstar=None, pins=()):
        """special methods are looked up on the type"""
        I = self.I
        out = []
        if name.startswith('__') and a[0] == 'l' and I.get(st, a[1]).kind == 'inst':
            m = I.class_lookup(st, I.get(st, a[1]).cls, name)
            if m is None:
                return []
            f = ('bm', m, a) if m[0] in ('f', 'b') else m
            return self.run(st, f, args, kw, star, dstar, pins)
        for s, f in self.attr(st, a, name):
            out.extend(self.run(s, f, args, kw, star, dstar, list(pins) + [a]))
        return out

    def iterate(self, st, a):
        I = self.I
        node = self.hcall()
        hf = Frame(('env', 'harness'), self.prog.modules['pyrsistent'], node, None, I.ctx(0, node), None, 0, ())
        saved = I.frames, I.sinks, I.pins, I.handlers
        I.frames, I.sinks, I.pins, I.handlers = [hf], [[]], [[a]], ()
        st = st.copy()
        st.heap.setdefault(('env', 'harness'), Obj('env', None, {}))
        try:
            return I.iterate(st, a, node)
        finally:
            I.frames, I.sinks, I.pins, I.handlers = saved

    def within(self, st, fn, pins=()):
        """run fn(state, node) in a harness frame; returns (result, raised)"""
        I = self.I
        node = self.hcall()
        hf = Frame(('env', 'harness'), self.prog.modules['pyrsistent'], node, None, I.ctx(0, node), None, 0, ())
        saved = I.frames, I.sinks, I.pins, I.handlers
        I.frames, I.sinks, I.pins, I.handlers = [hf], [[]], [list(pins)], ()
        st = st.copy()
        st.heap.setdefault(('env', 'harness'), Obj('env', None, {}))
        try:
            r = fn(st, node)
            return r, I.sinks[0]
        finally:
            I.frames, I.sinks, I.pins, I.handlers = saved

    def state(self):
        st = State()
        st.heap[('env', 'harness')] = Obj('env', None, {})
        return st

    def pre(self, cid, name='self', own=None):
        if own:
            self.I.roots_own[name] = own
        return ('l', ('p', ('r', name), ('inst', cid), None))

    # ------------------------------------------------------------ templates
    def add_shape(self, node, sh):
        s = self.I.tmpl.setdefault(node, set())
        if sh not in s:
            s.add(sh)
            self.changed = True

    def fold(self, st, vals, node, seen):
        for a in vals:
            sh = self.shape(st, a, node, seen)
            if sh is not None:
                self.add_shape(node, sh)

    def shape(self, st, a, node, seen):
        I = self.I
        t = a[0]
        if t == 'k':
            if isinstance(a[2], int) and not isinstance(a[2], bool):
                return ('int',)
            return ('atom', a)
        if t == 's':
            e = a[1]
            if e[0] in INTTAGS or (I.isinst_fact(st, e, ('b', 'Integral')) or I.isinst_fact(st, e, ('b', 'int'))):
                return ('int',)
            if e[0] == 'memo':
                return None
            v = I.view(st, a)
            if v != a and v[0] == 'l':
                return self.shape(st, v, node, seen)
            return ('user',)
        if t == 'pe':
            if a[1][0] == 'p':
                src = a[1]
                n = (src[3], 'el' if a[2] == 'e' else a[2])
                # elements of a pre-existing container flow here
                for sh in list(I.tmpl.get(n, ())):
                    self.add_shape(node, sh)
                return None
            return ('user',)
        if t == 'pair':
            n0, n1 = (node, 't', 0), (node, 't', 1)
            self.fold(st, a[1], n0, seen)
            self.fold(st, a[2], n1, seen)
            return ('tup', (n0, n1))
        if t == 'l':
            loc = a[1]
            if loc[0] == 'p' and loc not in st.heap:
                return loc[2]
            o = I.get(st, loc)
            if o.kind == 'inst':
                if o.cls not in I.classes:
                    return ('user',)
                if I.classes[o.cls].name == '_EmptyPList' and loc in I.base:
                    return ('atom', a)
                if loc not in seen:
                    self.fold_inst(st, loc, seen | {loc})
                return ('inst', o.cls)
            if loc[0] == 'p':
                sh = loc[2]
                # changed contents of a pre-existing container
                if loc not in seen:
                    if sh[0] == 'cont':
                        self.fold_cont(st, o, sh[2], seen | {loc})
                return sh
            if o.kind == 'tuple' and all(s[0] == 'i' for s in o.segs) and o.segs and len(o.segs) <= 4:
                ns = tuple((node, 't', i) for i in range(len(o.segs)))
                if loc not in seen:
                    for n, s in zip(ns, o.segs):
                        self.fold(st, s[1], n, seen | {loc})
                return ('tup', ns)
            if o.kind in ('list', 'tuple', 'dict', 'set', 'frozenset', 'pvec', 'pvecev', 'iter', 'view'):
                cn = (node, o.kind)
                # a list among the elements of a list of the same field: one node
                if node[1] == 'el' and isinstance(node[0], tuple) and node[0][-1] == o.kind and o.kind == 'list':
                    cn = node[0]
                if loc not in seen:
                    self.fold_cont(st, o, cn, seen | {loc})
                return ('cont', o.kind, cn)
            if o.kind == 'obj':
                return ('atom', a) if loc in I.base else ('user',)
            return ('user',)
        return ('atom', a)

    def fold_cont(self, st, o, cn, seen):
        if o.kind == 'dict':
            self.I.tmpl.setdefault((cn, 'k'), set())
            self.I.tmpl.setdefault((cn, 'v'), set())
            for s in o.segs:
                self.fold(st, s[1], (cn, 'k'), seen)
                self.fold(st, s[2], (cn, 'v'), seen)
            for k, v in (o.kvs or {}).items():
                self.fold(st, V(k), (cn, 'k'), seen)
                self.fold(st, v - V(ABSENT), (cn, 'v'), seen)
        else:
            self.I.tmpl.setdefault((cn, 'el'), set())
            for s in o.segs:
                self.fold(st, s[1], (cn, 'el'), seen)
            if o.kind == 'pvecev':
                pass

    def fold_inst(self, st, loc, seen):
        I = self.I
        o = I.get(st, loc)
        if loc[0] == 'p':
            base = I.preobj(loc)
            changed = {f for f, v in o.fields.items() if base.fields.get(f) != v}
        else:
            changed = set(o.fields)
        for f in changed:
            if f.startswith('$'):
                continue
            self.fold(st, o.fields[f] - V(ABSENT), (o.cls, f), seen)

    def fold_value(self, st, a):
        if a[0] == 'l' and self.I.get(st, a[1]).kind == 'inst':
            self.fold_inst(st, a[1], frozenset([a[1]])) if a[1][0] != 'p' or a[1] in st.heap else None
            return self.I.get(st, a[1]).cls
        return None
