"""One family of collections, ready to be queried: the world, its templates and its pre-states."""
import os
import sys
import time
from .model import *
from .world import World
from . import ops, infer
from .interp import Budget
from .program import AnalysisBroken

SPEC = ['pset', 'pbag', 'plist', 'pdeque',
        'Set_', 'SetTypes', 'SetInv', 'SetSub', 'Map', 'MapKey', 'MapValue', 'MapInv', 'MapSub',
        'Rec', 'RecSub', 'Rec0', 'Cls', 'ClsSub', 'Cls0']
VECTOR = ['pvector', 'Vec', 'VecTypes', 'VecInv', 'VecSub', 'VecSubType', 'VecName', 'VecOfVec']
REAL = ['pmap']
FACTORY_CLASS = {'pset': '_pset.PSet', 'pbag': '_pbag.PBag', 'plist': '_plist.PList', 'pdeque': '_pdeque.PDeque',
                 'pmap': '_pmap.PMap', 'pvector': '_pvector.PythonPVector'}


CORE = ('set', 'remove', 'discard', 'evolver', 'items', 'keys', 'values', 'iteritems', 'iterkeys', 'itervalues', '__getitem__',
        '__contains__', '__iter__', '__len__', '__hash__', '__reduce__', '__setitem__', '__delitem__', 'persistent', 'is_dirty',
        'get')


class Session:
    exact = True       # reset by attempt() when the states were joined

    def __init__(self, family, budget=60000, rec=None, rounds=6, inferred=True, contract=False, more=False):
        sys.setrecursionlimit(20000)
        self.family = family
        self.budget = budget
        self.deadline = float(os.environ.get('VERIF_DEADLINE') or 'inf')
        self.W = W = World(spec=family in SPEC or contract, more=more)
        self.I = I = W.I
        vec = family in VECTOR
        I.hooks['rec'] = rec or (3 if vec else 2)
        I.maxrounds = rounds
        I.coarse = frozenset(I.prog.modules)
        I.coarse_loops = True
        self.skipped = []
        self.done = []
        self.joined = []
        self.core = None
        self.cid = FACTORY_CLASS.get(family, 'client.' + family)
        if self.cid not in I.classes:
            raise AnalysisBroken('class %s not found' % self.cid)
        self.found = {self.cid}
        if vec:
            self.variants = infer.vector_variants(W)
        else:
            if inferred:
                I.coarse_loops = False
                self.found = infer.infer(W, family, budget=budget, rounds=3,
                                         only=CORE if family in REAL and not contract else None)
                if family in REAL and not contract:
                    mod = FACTORY_CLASS[family].split('.')[0]
                    # the other operations are analysed on top of the contract
                    self.core = CORE
                    self.found = {c for c in self.found if c.split('.')[0] == mod}
                I.coarse_loops = True
                I.reports.clear()
            self.variants = [('any', lambda: None)]

    def limited(self, what, fn, budget=None):
        r = infer.limited(self.W, budget or self.budget, fn)
        (self.skipped if r is None else self.done).append(what)
        return r

    def attempt(self, what, fn, budget=None):
        """precisely, or failing that with states joined after every statement"""
        if time.time() > self.deadline:
            self.skipped.append(what)
            return None
        r = infer.limited(self.W, budget or self.budget, fn)
        if r is None:
            del self.I.reports[:]
            self.I.coarse_loops = False
            r = infer.limited(self.W, (budget or self.budget) * 2, fn)
            self.I.coarse_loops = True
            if r is not None:
                self.joined.append(what)
                self.exact = False
        (self.skipped if r is None else self.done).append(what)
        return r

    def ops(self, cid, names=None):
        if names is None and self.core is not None:
            names = self.core
        return [o for o in ops.class_ops(self.W, cid) if names is None or o.name in names]

    def run(self, st, self_, op, budget=None):
        self.W.site = ('op', repr(op))
        return self.limited(repr(op), lambda: ops.run_op(self.W, st, self_, op), budget)

    def call(self, st, self_, name, args=(), kw=None, site=None, budget=None, **k):
        self.W.site = site or ('call', name, len(args))
        return self.limited('%s.%s' % (self.W.I.get(st, self_[1]).cls, name),
                            lambda: self.W.method(st, self_, name, args, kw, **k), budget)

    def evolvers(self):
        """(source variant, state, source, evolver) right after evolver()"""
        out = []
        for label, setup in self.variants:
            setup()
            me = self.W.pre(self.cid, 'self')
            if self.I.class_lookup(self.W.state(), self.cid, 'evolver') is None:
                return []
            for o in self.call(self.W.state(), me, 'evolver', site='evolver') or []:
                if o.kind == 'ret' and o.val[0] == 'l':
                    out.append((label, setup, o.st, me, o.val))
        return out

    def is_inst(self, st, a):
        return a[0] == 'l' and self.I.get(st, a[1]).kind == 'inst' and self.I.get(st, a[1]).cls in self.I.classes

    def reach(self, st, atoms, pre=True):
        """locations reachable from the atoms"""
        I = self.I
        seen = set()
        work = [l for a in atoms for l in I.locs_of(a)]
        while work:
            l = work.pop()
            if l in seen or l[0] in ('cls', 'mod', 'env'):
                continue
            if l[0] == 'p' and l not in st.heap and not pre:
                continue
            seen.add(l)
            try:
                o = I.get(st, l)
            except Budget:
                continue
            if o.kind in ('env',):
                continue
            if l[0] == 'p' and l not in st.heap:
                seen.discard(l)
                continue
            for v in o.all_vals():
                for a in v:
                    work.extend(I.locs_of(a))
        return seen

    def freeze(self, st, atoms, keep=()):
        st = st.copy()
        for l in self.reach(st, atoms, pre=False):
            if l in keep or l in self.I.base and l not in st.heap:
                continue
            o = st.heap.get(l)
            if o is not None and o.own != 'frozen':
                st.heap[l] = o.with_(own='frozen')
        return st

    def function(self, self_, op):
        """the definition an operation resolves to"""
        I = self.I
        m = I.class_lookup(self.W.state(), op.cid, op.name)
        u = ops.underlying(m) if m else None
        if m and m[0] == 'prop':
            u = ops.underlying(m[1])
        if u and u[0] == 'f':
            return I.prog.funcs[u[1]]
        return I.classes[op.cid].node
