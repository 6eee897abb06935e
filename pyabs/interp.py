"""Abstract interpreter for the Python sources (interprocedural, by inlining)."""
import ast
from .model import *
from .program import AnalysisBroken, where

MUT_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault',
               'popitem', 'add', 'discard', 'difference_update', 'intersection_update', '__setitem__', '__delitem__',
               'appendleft', 'popleft', 'symmetric_difference_update', '__ior__', '__iadd__'}

EXC_BASES = {
    'BaseException': ('object',), 'Exception': ('BaseException',), 'TypeError': ('Exception',),
    'ValueError': ('Exception',), 'LookupError': ('Exception',), 'KeyError': ('LookupError',),
    'IndexError': ('LookupError',), 'AttributeError': ('Exception',), 'NotImplementedError': ('RuntimeError',),
    'RuntimeError': ('Exception',), 'StopIteration': ('Exception',), 'ImportError': ('Exception',),
    'SyntaxError': ('Exception',), 'AssertionError': ('Exception',), 'ArithmeticError': ('Exception',),
    'ZeroDivisionError': ('ArithmeticError',), 'OverflowError': ('ArithmeticError',), 'NameError': ('Exception',),
    'RecursionError': ('RuntimeError',),
}
BUILTIN_BASES = {'bool': ('int',), 'OrderedDict': ('dict',), 'collections.defaultdict': ('dict',),
                 'ABCMeta': ('type',), 'Generic': ('object',), 'Enum': ('object',)}
BUILTIN_BASES.update(EXC_BASES)
BUILTIN_NAMES = set('''len isinstance issubclass callable hasattr getattr setattr delattr hash id type repr str int bool list
 tuple dict set frozenset object range slice abs bin print iter next map zip enumerate reversed sorted filter sum min max any
 all super property staticmethod classmethod float bytes NotImplemented Ellipsis __import__ exec eval divmod pow round
 format vars dir ord chr complex globals locals'''.split()) | set(EXC_BASES)


class ClassInfo:
    __slots__ = ('cid', 'name', 'bases', 'mro', 'dloc', 'meta', 'mod', 'node')

    def __init__(self, cid, name, bases, dloc, meta, mod, node):
        self.cid, self.name, self.bases, self.dloc, self.meta, self.mod, self.node = cid, name, bases, dloc, meta, mod, node
        self.mro = None


class Frame:
    __slots__ = ('env', 'mod', 'node', 'cid', 'ctx', 'first', 'acc', 'depth', 'stack', 'cur_exc')

    def __init__(self, env, mod, node, cid, ctx, first, depth, stack):
        self.env, self.mod, self.node, self.cid, self.ctx = env, mod, node, cid, ctx
        self.first, self.acc, self.depth, self.stack = first, None, depth, stack
        self.cur_exc = None


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.base = {}
        self.classes = {}
        self.registry = {}         # abc atom -> set of class atoms
        self.transitive = False    # == of elements is an equivalence
        self.tmpl = {}             # template node -> set of shapes
        self.tversion = 0
        self.precache = {}
        self.reports = []
        self.sinks = []
        self.frames = []
        self.pins = []
        self.ctxs = {}
        self.uids = {}
        self.uidnode = []
        self.modstate = {}
        self.roots_own = {}
        self.steps = 0
        self.budget = 0
        self.max_states = 48
        self.implicit = False
        self.stats = {'calls': 0, 'forks': 0, 'cuts': 0, 'funcs': set(), 'loops': 0}
        self.on_call = None
        self.on_new = None
        self.lenient = set()
        self.hooks = {}
        self.cutsites = {}
        from . import builtins_ as B
        self.B = B

    # ---------------------------------------------------------------- naming
    def uid(self, node):
        u = getattr(node, '_uid', None)
        if u is None:
            u = node._uid = len(self.uidnode)
            self.uidnode.append(node)
        return u

    def ctx(self, parent, node):
        k = (parent, self.uid(node))
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
        return c

    # ---------------------------------------------------------------- heap
    def get(self, st, loc):
        o = st.heap.get(loc)
        if o is not None:
            return o
        o = self.base.get(loc)
        if o is not None:
            return o
        if loc[0] == 'p':
            return self.preobj(loc)
        n = self.fwd.get(loc)
        if n is not None and n != loc:
            return self.get(st, n)
        self.stats['lost'] = self.stats.get('lost', 0) + 1
        raise Budget('lost %r' % (loc,))

    fwd = {}

    def put(self, st, loc, obj):
        st = st.copy()
        st.heap[loc] = obj
        return st

    def own(self, st, loc):
        return self.get(st, loc).own

    def write(self, st, loc, obj, node, what, val=None, memo=False):
        """A mutation performed by the analysed program."""
        old = self.get(st, loc)
        if old.own in ('frozen', 'user') and not memo:
            self.report('mutation', node, {'own': old.own, 'loc': loc, 'what': what, 'obj': old, 'val': val}, st)
        st = st.copy()
        if old.summ and old.kind != 'env':
            obj = join_obj(old, obj, loc)
        st.heap[loc] = obj
        if old.segs != obj.segs and st.facts:
            for k in [k for k in st.facts if k[0] == 'rd' and k[1] == loc]:
                del st.facts[k]
        return st

    def report(self, rule, node, detail, st=None):
        self.reports.append((rule, node, detail, st, tuple(f.node for f in self.frames)))

    several = 0          # how many tuples of one place are told apart

    def alloc(self, st, node, tag, obj):
        fr = self.frames[-1] if self.frames else None
        loc = ('h', self.uid(node) if node is not None else -1, fr.ctx if fr else 0, tag)
        if obj.site is None:
            obj = obj.with_(site=node)
        if self.several and obj.kind in ('tuple', 'inst', 'list') and loc in st.heap:
            for i in range(1, self.several):
                l2 = ('h', loc[1], loc[2], (tag, 'nr', i))
                if l2 not in st.heap and l2 not in self.base:
                    loc = l2
                    break
        if loc in st.heap or loc in self.base:
            if loc in st.heap:
                old = ('h', 'old', loc[1], loc[2], tag, st.heap[loc].own == 'frozen')
                st = self.rename_loc(st, loc, old)
            else:
                i = 0
                while loc in self.base:
                    i += 1
                    loc = ('h', loc[1], loc[2], (tag, i))
        st = st.copy()
        st.heap[loc] = obj
        return st, ('l', loc)

    def rename_loc(self, st, loc, new):
        o = st.heap[loc]
        heap = {}
        cache = {}

        def rv(v):
            for a in v:
                if contains(a, loc):
                    break
            else:
                return v
            return frozenset(rename(a, loc, new, cache) for a in v)
        tgt = None
        for l, ob in st.heap.items():
            if l == loc:
                continue
            ob2 = ob
            for v in ob.all_vals():
                if any(contains(a, loc) for a in v):
                    ob2 = ob.map_vals(rv)
                    break
            heap[l] = ob2
        o2 = o.map_vals(rv).with_(summ=True)
        if new in heap:
            o2 = join_obj(heap[new], o2, new)
        heap[new] = o2
        facts = {(rename(k, loc, new, cache) if contains(k, loc) else k): v for k, v in st.facts.items()
                 if not (k[0] == 'rd' and (contains(k, loc) or contains(v, loc)))}
        st2 = State(heap, facts, st.bounds, st.ev)
        for i, (p) in enumerate(self.pins):
            if any(contains(a, loc) for a in p):
                self.pins[i] = list(p) + [rename(a, loc, new, cache) for a in p if contains(a, loc)]
        return st2

    def compact(self, st, extra=None):
        """one abstract object for all fresh lists (tuples of one length) among the items of a container"""
        parent = {}

        def find(x):
            while parent.get(x, x) != x:
                x = parent[x]
            return x
        rec = set()
        for o in st.heap.values():
            if o.kind == 'inst' and o.cls not in rec:
                for v in o.fields.values():
                    for a in v:
                        if a[0] == 'l':
                            o2 = st.heap.get(a[1])
                            if (o2 is not None and o2.kind == 'inst' and o2.cls == o.cls) or \
                                    (a[1][0] == 'p' and a[1][2] == ('inst', o.cls)):
                                rec.add(o.cls)
        for o in st.heap.values():
            isenv = o.kind == 'env'
            if isenv:
                continue
            for v in o.all_vals():
                if len(v) < 2:
                    continue
                g = {}
                for a in v:
                    if a[0] == 'l' and a[1][0] == 'h':
                        ob = st.heap.get(a[1])
                        if ob is not None and ob.kind == 'inst' and ob.cls in rec and ob.own in ('fresh', 'frozen'):
                            g.setdefault(('inst', ob.cls, ob.own), []).append(a[1])
                            continue
                        if ob is None or ob.kind not in ('list', 'tuple') or ob.own not in ('fresh', 'frozen') or isenv:
                            continue
                        ar = len(ob.segs) if ob.kind == 'tuple' and all(s[0] == 'i' for s in ob.segs) else -1
                        g.setdefault((ob.kind, ar, ob.own), []).append(a[1])
                for ls in g.values():
                    if len(ls) > 1:
                        ls.sort(key=repr)
                        r = find(ls[0])
                        for l in ls[1:]:
                            l = find(l)
                            if l != r:
                                parent[l] = r
        if not parent:
            return st
        ren = {l: find(l) for l in parent}
        self.fwd.update(ren)
        news = set(ren.values())
        cache = {}

        def ra(a):
            r = cache.get(a)
            if r is None:
                r = a
                for l, n in ren.items():
                    if contains(r, l):
                        r = rename(r, l, n)
                cache[a] = r
            return r

        def rv(v):
            r = frozenset(ra(a) for a in v)
            return v if r == v else r
        heap = {}
        for l, o in st.heap.items():
            o2 = o.map_vals(rv) if any(rv(v) is not v for v in o.all_vals()) else o
            l2 = ren.get(l, l)
            if l2 in news:
                o2 = o2.with_(summ=True)
            heap[l2] = join_obj(heap[l2], o2, l2) if l2 in heap else o2
        facts = {}
        for k, v in st.facts.items():
            if any(contains(k, l) for l in ren):
                if k[0] == 'rd':
                    continue
                k = ra(k)
            if isinstance(v, tuple):
                v = ra(v)
            facts[k] = v
        for i, pn in enumerate(self.pins):
            extra_ = [ra(a) for a in pn if ra(a) != a]
            if extra_:
                self.pins[i] = list(pn) + extra_
        return State(heap, facts, st.bounds, st.ev)

    def gc(self, st, extra=()):
        """drop objects reachable from no frame"""
        work = [f.env for f in self.frames] + [f.acc for f in self.frames if f.acc]
        work.extend(l for l in st.heap if l[0] == 'p' or l in self.base)      # changed parts of objects that existed before
        for p in self.pins:
            for a in p:
                work.extend(self.locs_of(a))
        for a in extra:
            work.extend(self.locs_of(a))
        seen = set()
        heap = st.heap
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            o = heap.get(l)
            if o is None:
                n = self.fwd.get(l)
                if n is not None and l not in self.base:
                    work.append(n)
                continue
            for v in o.all_vals():
                for a in v:
                    work.extend(self.locs_of(a))
        # objects in the base that were overridden stay
        drop = [l for l in heap if l not in seen and l not in self.base and l[0] in ('h', 'env') and l[1] != 'keep']
        if drop:
            st = State({l: o for l, o in heap.items() if l not in set(drop)}, st.facts, st.bounds, st.ev)
        return st

    def locs_of(self, a):
        t = a[0]
        if t == 'l':
            return [a[1]]
        if t == 'f':
            return [a[2], a[4]]
        if t in ('bm', 'sm', 'cm', 'prop', 'sup', 'pair', 'part'):
            out = []
            for x in a[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    out.extend(self.locs_of(x))
                elif isinstance(x, (frozenset, tuple)):
                    for y in x:
                        if isinstance(y, tuple):
                            out.extend(self.locs_of(y))
            return out
        if t == 'c':
            return [self.classes[a[1]].dloc]
        if t == 's':
            return self.exprlocs(a[1])
        if t == 'pe':
            return []
        return []

    def exprlocs(self, e):
        out = []
        if isinstance(e, tuple) and e:
            if e[0] in ('h', 'p') and len(e) >= 3 and e[0] == 'h':
                return [e]
            for x in e:
                if isinstance(x, tuple):
                    out.extend(self.exprlocs(x))
        return out

    # ---------------------------------------------------------------- pre-existing objects
    def preobj(self, loc):
        o = self.precache.get(loc)
        if o is not None:
            return o
        _, path, shape, node = loc
        own = self.path_own(path)
        summ = self.path_summary(path)
        if shape[0] == 'inst':
            cid = shape[1]
            fields = {}
            for (c, f) in self.inst_fields(cid):
                fields[f] = frozenset(self.materialize(self.fpath(path, f), (c, f)))
            o = Obj('inst', cid, fields, own=own, summ=summ)
        elif shape[0] == 'tup':
            o = Obj('tuple', None, {}, tuple(('i', frozenset(self.materialize(('e', path, i), n)))
                                             for i, n in enumerate(shape[1])), own=own, summ=summ)
        else:
            kind = shape[1]
            if shape[2] == ('empty',):
                o = Obj(kind, None, {}, (), {} if kind == 'dict' else None, own, summ)
            elif kind == 'dict':
                o = Obj('dict', None, {}, (('dr', V(('pe', loc, 'k')), V(('pe', loc, 'v')), '?', ('len', path)),), {}, own, summ)
            else:
                fields = {}
                if kind == 'pvecev':
                    fields = {'dirty': V(TRUE, FALSE),
                              'base': V(('l', ('p', ('f', path, 'base'), ('cont', 'pvec', node), node)))}
                o = Obj(kind, None, fields, (('r', V(('pe', loc, 'e')), '?', ('len', path)),), None, own, summ)
        self.precache[loc] = o
        return o

    def inst_fields(self, cid):
        out = {}
        names = {cid}
        ci = self.classes.get(cid)
        for n in self.tmpl:
            if len(n) == 2 and n[0] == cid and isinstance(n[1], str) and not n[1].startswith('$'):
                out[n[1]] = n
        if not out and ci:
            for m in ci.mro[1:]:
                for n in self.tmpl:
                    if len(n) == 2 and n[0] == m and not n[1].startswith('$'):
                        out.setdefault(n[1], n)
        return list(out.values())

    def fpath(self, path, f):
        n = 0
        p = path
        if p[0] == 'fs' and p[2] == f:
            return p
        while p[0] == 'f' and p[2] == f:
            n += 1
            p = p[1]
        if n >= 2:
            return ('fs', p, f)
        return ('f', path, f)

    def path_root(self, path):
        while isinstance(path, tuple) and path[0] in ('f', 'fs', 'e'):
            path = path[1]
        return path

    def path_own(self, path):
        r = self.path_root(path)
        if r[0] == 'r':
            return self.roots_own.get(r[1], 'frozen')
        return 'frozen'

    def path_summary(self, path):
        while isinstance(path, tuple) and path[0] in ('f', 'fs', 'e'):
            if path[0] == 'fs' or (path[0] == 'e' and isinstance(path[2], tuple) and path[2][0] == 'els'):
                return True
            path = path[1]
        return False

    def materialize(self, path, node):
        out = []
        for sh in sorted(self.tmpl.get(node, ()), key=repr):
            out.append(self.mat1(path, sh))
        return out or [S('u', path)]

    def mat1(self, path, sh):
        if sh[0] == 'atom':
            return sh[1]
        if sh[0] == 'int':
            return S('n', path)
        if sh[0] == 'user':
            return S('u', path)
        if sh[0] == 'inst':
            return ('l', ('p', path, sh, None))
        if sh[0] == 'tup':
            return ('l', ('p', path, sh, None))
        if sh[0] == 'cont':
            return ('l', ('p', path, sh, sh[2]))
        raise AssertionError(sh)

    def expand(self, a, step):
        """elements of a container, named by step"""
        if a[0] != 'pe':
            return [a]
        src, part = a[1], a[2]
        if src[0] == 'p':
            path, node = src[1], src[3]
            p2 = ('e', path, step)
            if part != 'e':
                return self.materialize(('f', p2, part), (node, part))
            return self.materialize(p2, (node, 'el'))
        # opaque iterable
        e = ('e', src, step)
        if part != 'e':
            e = (part, e)
        return [S(e)]

    # ---------------------------------------------------------------- facts
    def fact(self, st, e):
        v = st.facts.get(e)
        if v is not None:
            return v
        t = e[0]
        if t == 'not':
            v = self.fact(st, e[1])
            return None if v is None else not v
        if t == 'isinst':
            return self.isinst_fact(st, e[1], e[2])
        if t in ('eq', 'is'):
            if e[1] == e[2]:
                return True
            if t == 'is' and st.facts.get(('eq', e[1], e[2])) is False:
                return False
            if t == 'eq' and st.facts.get(('is', e[1], e[2])) is True:
                return True
            if t == 'eq' and self.transitive:
                for k, v in st.facts.items():
                    if k[0] == 'eq' and v is True:
                        for x, y in ((k[1], k[2]), (k[2], k[1])):
                            for p, q in ((e[1], e[2]), (e[2], e[1])):
                                if x == p and y != q:
                                    w = st.facts.get(self.mkeq('eq', y, q))
                                    if w is not None:
                                        return w
        return None

    def isinst_fact(self, st, e, t):
        # facts about the same subject that imply the answer
        for (k, v) in st.facts.items():
            if k[0] == 'isinst' and k[1] == e and v and isinstance(t, tuple):
                r = self.subclass(st, k[2], t)
                if r is True:
                    return True
                if r is False and self.disjoint(k[2], t):
                    return False
            elif k[0] == 'isinst' and k[1] == e and not v:
                if self.subclass(st, t, k[2]) is True:
                    return False
            elif k[0] == 'typeis' and k[1] == e and v:
                r = self.subclass(st, k[2], t)
                if r is not None:
                    return r
        return None

    def disjoint(self, a, b):
        conc = ('dict', 'list', 'tuple', 'set', 'frozenset', 'str', 'int', 'float', 'slice', 'NoneType', 'pvectorc.PVector')
        def c(x):
            return (x[0] == 'b' and (x[1] in conc)) or x[0] == 'c'
        if a[0] == 'c' and b[0] == 'c':
            return False
        if a == ('b', 'type') or b == ('b', 'type'):
            return a[1] in conc or b[1] in conc or a[0] == 'c' and not self.is_meta(a[1]) or b[0] == 'c' and not self.is_meta(b[1])
        return c(a) and c(b)

    def is_meta(self, cid):
        return any(m in ('type', 'ABCMeta') for m in self.classes[cid].mro)

    def assume(self, st, e, val):
        """add a fact; None when contradictory"""
        while e[0] == 'not':
            e, val = e[1], not val
        f = self.fact(st, e)
        if f is not None:
            return st if f == val else None
        if e[0] == 'cmp':
            return self.assume_cmp(st, e[1], e[2], e[3], val)
        if e[0] == 'and' and val:
            for x in e[1:]:
                st = self.assume(st, x, True)
                if st is None:
                    return None
            return st
        if e[0] == 'or' and not val:
            for x in e[1:]:
                st = self.assume(st, x, False)
                if st is None:
                    return None
            return st
        st = st.copy()
        st.facts[e] = val
        if e[0] in ('eq', 'is') and val:
            a, b = e[1], e[2]
            if e[0] == 'is':
                st.facts[('eq', a, b)] = True
        if e[0] == 't' and e[1][0] in ('len', 'n', 'lin', 'cnt', 'e') and not val:
            s2 = self.assume_cmp(st, '==', ('s', e[1]), K(0), True)
            if s2 is not None:
                st = s2
        if self.hooks.get('assume'):
            st = self.hooks['assume'](self, st, e, val) or st
        return st

    # ---- numeric bounds
    def term_bounds(self, st, t):
        b = st.bounds.get(((t, 1),))
        lo, hi = b if b else (-INF, INF)
        if t[0] in ('len', 'cnt', 'slen', 'count'):
            lo = max(lo, 0)
        if t[0] == 'op' and t[1] == '&' and t[3][0] == 'k' and isinstance(t[3][2], int) and t[3][2] >= 0:
            lo, hi = max(lo, 0), min(hi, t[3][2])
        if t[0] == 'op' and t[1] == '%' and t[3][0] == 'k' and isinstance(t[3][2], int) and t[3][2] > 0:
            lo, hi = max(lo, 0), min(hi, t[3][2] - 1)
        if t[0] == 'max':
            # max(a, b) >= each
            pass
        return lo, hi

    def lin_bounds(self, st, atom):
        l = as_lin(atom)
        if l is None:
            return -INF, INF
        c, terms = l
        if not terms:
            return c, c
        part, sg = norm_part(terms)
        lo, hi = st.bounds.get(part, (-INF, INF))
        # sum of the terms
        slo = shi = 0
        for t, k in part:
            a, b = self.term_bounds(st, t)
            if k < 0:
                a, b = b, a
            slo, shi = slo + k * a, shi + k * b
        lo, hi = max(lo, slo), min(hi, shi)
        # decompose: known parts + remaining terms
        if len(part) > 1:
            pd = dict(part)
            for p2, (l2, h2) in list(st.bounds.items()):
                if len(p2) < 2:
                    continue
                for s2 in (1, -1):
                    if all(t in pd for t, k in p2):
                        rest = dict(pd)
                        for t, k in p2:
                            rest[t] = rest[t] - s2 * k
                        rest = {t: k for t, k in rest.items() if k}
                        if len(rest) >= len(pd):
                            continue
                        rl = rh = 0
                        for t, k in rest.items():
                            a, b = self.term_bounds(st, t)
                            if k < 0:
                                a, b = b, a
                            rl, rh = rl + k * a, rh + k * b
                        x, y = (l2, h2) if s2 > 0 else (-h2, -l2)
                        lo, hi = max(lo, x + rl), min(hi, y + rh)
        if sg < 0:
            lo, hi = -hi, -lo
        return lo + c, hi + c

    def assume_cmp(self, st, op, a, b, val):
        """assume a op b (integers) is val; None if contradictory"""
        if not val:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
        d = lin_add(a, b, -1)
        if d is None:
            return st
        c, terms = as_lin(d)
        lo, hi = self.lin_bounds(st, d)
        nlo, nhi = lo, hi
        if op == '<':
            nhi = min(nhi, -1)
        elif op == '<=':
            nhi = min(nhi, 0)
        elif op == '>':
            nlo = max(nlo, 1)
        elif op == '>=':
            nlo = max(nlo, 0)
        elif op == '==':
            nlo, nhi = max(nlo, 0), min(nhi, 0)
        elif op == '!=':
            if nlo == 0:
                nlo = 1
            if nhi == 0:
                nhi = -1
        if nlo > nhi:
            return None
        if (nlo, nhi) != (lo, hi) and terms:
            st = st.copy()
            part, sg = norm_part(terms)
            l2, h2 = nlo - c, nhi - c
            if sg < 0:
                l2, h2 = -h2, -l2
            st.bounds[part] = (l2, h2)
        if op == '!=' or (op == '==' and terms):
            k = ('cmp', '==', a, b)
            st = st.copy()
            st.facts[k] = op == '=='
        return st

    def decide_cmp(self, st, op, a, b):
        d = lin_add(a, b, -1)
        if d is None:
            return None
        lo, hi = self.lin_bounds(st, d)
        if op == '<':
            return True if hi < 0 else False if lo >= 0 else None
        if op == '<=':
            return True if hi <= 0 else False if lo > 0 else None
        if op == '>':
            return True if lo > 0 else False if hi <= 0 else None
        if op == '>=':
            return True if lo >= 0 else False if hi < 0 else None
        if op == '==':
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            f = st.facts.get(('cmp', '==', a, b))
            if f is None:
                f = st.facts.get(('cmp', '==', b, a))
            return f
        if op == '!=':
            r = self.decide_cmp(st, '==', a, b)
            return None if r is None else not r

    # ---------------------------------------------------------------- truth
    def truth(self, st, a):
        """[(state, bool)]"""
        t = a[0]
        if t == 'k':
            return [(st, bool(a[2]))]
        if t == 's':
            e = a[1]
            if e[0] in ('cmp', 'eq', 'is', 'isinst', 'typeis', 'not', 'hasattr', 'issub', 'in', 'callable', 'and', 'or'):
                key = e
            else:
                key = ('t', e)
                v = self.view(st, a)
                if v is not None and v != a:
                    return self.truth(st, v)
                if e[0] in ('len', 'n', 'lin', 'cnt', 'slen'):
                    d = self.decide_cmp(st, '!=', a, K(0))
                    if d is not None:
                        return [(st, d)]
            f = self.fact(st, key)
            if f is None and e[0] == 'cmp':
                f = self.decide_cmp(st, e[1], e[2], e[3])
            if f is not None:
                return [(st, f)]
            self.stats['forks'] += 1
            out = []
            for v in (True, False):
                s2 = self.assume(st, key, v)
                if s2 is not None:
                    out.append((s2, v))
            return out
        if t == 'l':
            o = self.get(st, a[1])
            if o.kind == 'inst':
                m = self.class_lookup(st, o.cls, '__bool__')
                if m is None:
                    m = self.class_lookup(st, o.cls, '__len__')
                if m is None:
                    return [(st, True)]
                out = []
                for s2, r in self.call(st, ('bm', m, a), [], {}, None):
                    out.extend(self.truth(s2, r))
                return out
            if o.kind in ('list', 'tuple', 'dict', 'set', 'frozenset', 'pvec', 'pvecev'):
                return self.emptiness(st, a[1])
            return [(st, True)]
        if t == 'b' and a[1] == 'NotImplemented':
            return [(st, True)]
        return [(st, True)]

    def emptiness(self, st, loc):
        o = self.get(st, loc)
        if nonempty(o.segs) or any(ABSENT not in v for v in (o.kvs or {}).values()):
            return [(st, True)]
        regs = [s for s in o.segs if s[0] in ('r', 'dr')]
        if not regs and not o.kvs:
            return [(st, False)]
        # decided by known lengths
        lx = self.length(st, ('l', loc))
        d = self.decide_cmp(st, '>', lx, K(0)) if lx is not None else None
        out = []
        if d is not False:
            s2 = st
            if lx is not None and lx[0] == 's':
                s2 = self.assume_cmp(st, '>', lx, K(0), True)
            if s2 is not None:
                if len(regs) == 1 and not o.kvs:
                    segs = tuple((s[:2] + ('n',) + s[3:] if s[0] == 'r' else s[:3] + ('n',) + s[4:]) if s in regs else s
                                 for s in o.segs)
                    if not o.summ:
                        s2 = self.put(s2, loc, o.with_(segs=segs))
                out.append((s2, True))
        if d is not True:
            s2 = st
            if lx is not None and lx[0] == 's':
                s2 = self.assume_cmp(st, '==', lx, K(0), True)
            if s2 is not None:
                if not o.summ:
                    s2 = self.put(s2, loc, o.with_(segs=(), kvs={} if o.kvs is not None else None))
                out.append((s2, False))
        return out

    def length(self, st, a):
        """integer atom for len() of a builtin container, or None"""
        if a[0] == 'l':
            o = self.get(st, a[1])
            if o.kind == 'pvecev' or o.kind in ('list', 'tuple', 'dict', 'set', 'frozenset', 'pvec', 'iter', 'view'):
                tot = K(0)
                for v in (o.kvs or {}).values():
                    if ABSENT in v:
                        return S('count', ('opq', 'kvs', a[1]))
                    tot = lin_add(tot, K(1))
                for s in o.segs:
                    if s[0] in ('i', 'di'):
                        tot = lin_add(tot, K(1))
                    else:
                        lx = s[3] if s[0] == 'r' else s[4]
                        if lx[0] == 'k':
                            tot = lin_add(tot, lx)
                        else:
                            if lx[0] not in ('len', 'slen', 'cnt', 'lin', 'n', 'count'):
                                lx = ('count', lx)
                            tot = lin_add(tot, ('s', lx))
                return tot
        if a[0] == 's':
            return S('len', a[1])
        if a[0] == 'k' and isinstance(a[2], (str, tuple, bytes)):
            return K(len(a[2]))
        return None

    # ---------------------------------------------------------------- value numbers
    def gvn(self, st, a, d=0, seen=()):
        t = a[0]
        if t == 'k':
            return a
        if t == 's':
            return a[1]
        if t == 'l':
            loc = a[1]
            if loc[0] == 'p' and loc not in st.heap:
                p = loc[1]
                return p[1] if p[0] == 'v' else ('u', p)
            if loc in seen:
                return ('cyc',)
            if d > 5:
                return ('obj', loc)
            o = self.get(st, loc)
            if o.kind == 'obj' or o.kind == 'env':
                return ('obj', loc)
            if loc[0] == 'p' and o.kind == 'inst':
                # pre-existing instance with narrowed fields: same value
                p = loc[1]
                return p[1] if p[0] == 'v' else ('u', p)
            if loc[0] == 'p' and o.segs == self.preobj(loc).segs:
                return ('u', loc[1])
            sn = seen + (loc,)
            g = lambda v: self.gvnset(st, v, d + 1, sn)
            if o.kind == 'inst':
                return ('inst', ('c', o.cls), tuple((k, g(v)) for k, v in sorted(o.fields.items())))
            segs = []
            for s in o.segs:
                if s[0] == 'i':
                    segs.append(('i', g(s[1])))
                elif s[0] == 'r':
                    segs.append(('r', g(s[1]), s[3]))
                elif s[0] == 'di':
                    segs.append(('di', g(s[1]), g(s[2])))
                else:
                    segs.append(('dr', g(s[1]), g(s[2]), s[4]))
            kv = tuple(sorted(((k, g(v)) for k, v in (o.kvs or {}).items()), key=repr))
            if len(segs) == 1 and segs[0][0] == 'r' and o.kind in ('list', 'tuple', 'pvec') and not kv:
                # an unchanged copy of a container has that container's value
                pass
            return ('seq', o.kind, tuple(segs), kv)
        if t == 'pe':
            src = a[1]
            return ('pe', ('u', src[1]) if src[0] == 'p' else src, a[2])
        if t in ('bm', 'sm', 'cm', 'sup'):
            return (t,) + tuple(self.gvn(st, x, d + 1, seen) if isinstance(x, tuple) else x for x in a[1:])
        if t == 'pair':
            return ('pair', self.gvnset(st, a[1], d + 1, seen), self.gvnset(st, a[2], d + 1, seen))
        return a

    def gvnset(self, st, v, d=0, seen=()):
        xs = sorted({self.gvn(st, a, d, seen) for a in v}, key=repr)
        if len(xs) == 1:
            return xs[0]
        return ('or',) + tuple(xs)

    # ---------------------------------------------------------------- classes
    def compute_mro(self, ci):
        seqs = []
        for b in ci.bases:
            seqs.append(list(self.mro_of(b)))
        seqs.append([x[1] for x in ci.bases])
        out = [ci.cid]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] == c:
                    del s[0]
        # Generic and object last
        out = [x for x in out if x != 'object'] + ['object']
        ci.mro = tuple(out)

    def mro_of(self, catom):
        if catom[0] == 'c':
            return self.classes[catom[1]].mro
        n = catom[1]
        out = [n]
        for b in BUILTIN_BASES.get(n, ()):
            out.extend(x for x in self.mro_of(('b', b)) if x not in out)
        if out[-1] != 'object':
            out.append('object')
        return tuple(out)

    def class_dict(self, st, cid):
        return self.get(st, self.classes[cid].dloc)

    def class_lookup(self, st, cid, name, after=None):
        """attribute found in the MRO (single atom or None); several alternatives -> first"""
        r = self.class_lookup_set(st, cid, name, after)
        if not r:
            return None
        return sorted(r[0], key=repr)[0]

    def class_lookup_set(self, st, cid, name, after=None):
        mro = self.classes[cid].mro if cid in self.classes else self.mro_of(('b', cid))
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else ()
        for m in mro:
            if m in self.classes:
                d = self.class_dict(st, m)
                v = d.kvs.get(K(name))
                if v is not None:
                    v2 = v - V(ABSENT)
                    if v2:
                        return v2, m
            else:
                a = self.B.builtin_class_attr(self, m, name)
                if a is not None:
                    return V(a), m
        return None

    def type_of(self, st, a):
        t = a[0]
        if t == 'k':
            return ('b', a[1])
        if t == 'l':
            o = self.get(st, a[1])
            if o.kind == 'inst':
                return ('c', o.cls) if o.cls in self.classes else ('b', o.cls or 'object')
            if o.kind == 'exc':
                return o.cls
            if o.kind == 'obj':
                return ('b', 'object')
            if o.cls:
                return ('b', o.cls)
            return ('b', {'pvec': 'pvectorc.PVector', 'pvecev': 'pvectorc.Evolver', 'iter': 'generator', 'view': 'dict_view'}.get(o.kind, o.kind))
        if t == 'c':
            return self.classes[a[1]].meta
        if t in ('f', 'bm', 'lam'):
            return ('b', 'function')
        if t in ('cm', 'sm', 'prop'):
            return ('b', {'cm': 'classmethod', 'sm': 'staticmethod', 'prop': 'property'}[t])
        if t == 'b':
            return ('b', 'type') if self.B.is_class(a[1]) else ('b', 'builtin_function')
        return None

    ABC_KINDS = {
        'Mapping': ('dict', 'collections.defaultdict'), 'Sequence': ('list', 'tuple', 'str', 'range'),
        'Set': ('set', 'frozenset', 'dict_keys'), 'MutableMapping': ('dict',), 'MutableSequence': ('list',), 'MutableSet': ('set',),
        'Iterable': ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'generator', 'dict_view', 'range', 'pvectorc.PVector', 'collections.defaultdict'),
        'Sized': ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'dict_view', 'range', 'pvectorc.PVector', 'pvectorc.Evolver', 'collections.defaultdict'),
        'Container': ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'pvectorc.PVector', 'collections.defaultdict'),
        'Collection': ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'pvectorc.PVector'),
        'Hashable': ('tuple', 'frozenset', 'str', 'int', 'bool', 'NoneType', 'float', 'pvectorc.PVector', 'function', 'type'),
        'Callable': ('function', 'type', 'builtin_function'),
        'Integral': ('int', 'bool'), 'Iterator': ('generator',), 'Reversible': ('list', 'tuple', 'dict', 'str'),
    }
    ABC_HOOK = {'Iterable': '__iter__', 'Sized': '__len__', 'Container': '__contains__', 'Hashable': '__hash__',
                'Callable': '__call__'}

    def subclass(self, st, c, t):
        """is class atom c a subclass of t: True / False / None"""
        if c == t:
            return True
        if t == ('b', 'object'):
            return True
        if c[0] not in ('c', 'b') or t[0] not in ('c', 'b'):
            if c[0] == 's' and t[0] in ('c', 'b'):
                return self.fact(st, ('issub', c[1], t))
            return None
        mro = self.mro_of(c)
        if t[1] in mro:
            return True
        name = t[1].rsplit('.', 1)[-1]
        # registered with an ABC (or with a subclass of it)
        for r, cs in self.registry.items():
            if r == t or (r[0] in ('c', 'b') and r != t and t[1] in self.abc_mro(r)):
                for x in cs:
                    if x[1] in mro or (x != t and x[1] in self.abc_mro(c) if False else False):
                        return True
                    # registered class itself an ABC with registered classes
                    if x in self.registry and x != t and self.subclass(st, c, x):
                        return True
        if t[0] == 'b' and t[1].startswith('collections.abc.') or t[1] in ('Integral', 'numbers.Integral'):
            for m in mro:
                if m in self.ABC_KINDS.get(name, ()):
                    return True
            h = self.ABC_HOOK.get(name)
            if h and c[0] == 'c':
                r = self.class_lookup_set(st, c[1], h)
                if r and r[1] != 'object' and NONE not in r[0]:
                    return True
        return False

    def abc_mro(self, r):
        if r[0] == 'b' and r[1].startswith('collections.abc.'):
            return self.B.abc_mro(self, r[1])
        return self.mro_of(r)

    def isinstance_(self, st, a, t):
        """[(state, atom bool)] - no fork"""
        if t[0] == 'l':
            o = self.get(st, t[1])
            if o.kind == 'tuple':
                res = []
                for s in o.segs:
                    for x in s[1]:
                        for x2 in self.expand(x, ('any',)):
                            res.append(self.isinst1(st, a, x2))
                if any(r == TRUE for r in res):
                    return TRUE
                res = [r for r in res if r != FALSE]
                if not res:
                    return FALSE
                if len(res) == 1:
                    return res[0]
                return S(('or',) + tuple(r[1] for r in res))
        return self.isinst1(st, a, t)

    def isinst1(self, st, a, t):
        ty = self.type_of(st, a)
        tg = t if t[0] in ('c', 'b') else self.gvn(st, t)
        if ty is not None and t[0] in ('c', 'b'):
            if a[0] == 'l' and a[1][0] == 'p':
                pass
            r = self.subclass(st, ty, t)
            if r is False and a[0] == 'c' and t == ('b', 'type'):
                r = True
            if r is not None:
                return K(r)
        e = ('isinst', self.gvn(st, a), tg)
        f = self.fact(st, e)
        if f is not None:
            return K(f)
        return S(e)

    def view(self, st, a):
        """an opaque value known to be an instance of an analysed class, as an object"""
        if a[0] != 's':
            return a
        best = None
        for k, v in st.facts.items():
            if v and k[0] in ('isinst', 'typeis') and k[1] == a[1]:
                t = k[2]
                if t[0] == 'c' and not self.is_abstract(t[1]):
                    if best is None or self.subclass(st, t, best):
                        best = t
                elif t[0] == 'c' and best is None:
                    best = ('pv',)
                elif t == ('b', 'pvectorc.PVector'):
                    best = ('pv',)
                elif t[0] == 'b' and t[1] in ('dict', 'list', 'tuple', 'set', 'frozenset', 'collections.defaultdict') and best is None:
                    best = t
        if best is None:
            return a
        if best == ('pv',):
            loc = ('p', ('v', a[1]), ('cont', 'pvec', ('view',)), ('view',))
        elif best[0] == 'b':
            kind = best[1]
            return a
        else:
            if not self.inst_fields(best[1]):
                return a
            loc = ('p', ('v', a[1]), ('inst', best[1]), None)
        return ('l', loc)

    def isinst_any(self, st, e):
        return any(v and k[0] in ('isinst', 'typeis') and k[1] == e for k, v in st.facts.items())

    def is_abstract(self, cid):
        ci = self.classes[cid]
        return ci.name in ('PVector',)

    # ---------------------------------------------------------------- exceptions
    def make_exc(self, st, name, node, args=()):
        return self.alloc(st, node, 'exc-' + name, Obj('exc', ('b', name), {'args': V(K('...'))}))

    def raise_(self, st, exc):
        self.sinks[-1].append((st, exc))

    def raise_name(self, st, name, node, implicit=False):
        if implicit and not (self.implicit or self.handled(name)):
            return
        st2, e = self.make_exc(st, name, node)
        st2 = self.mark(st2, ('raised', name, implicit))
        self.raise_(st2, e)

    def mark(self, st, e):
        return st

    def handled(self, name):
        for h in self.handlers:
            if h == '*' or h in self.mro_of(('b', name)):
                return True
        return False

    handlers = ()

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, kw, node, star=None, dstar=None):
        """[(state, atom)]; args: list of atoms; kw: name -> atom"""
        self.steps += 1
        if self.budget and self.steps > self.budget:
            raise Budget()
        t = f[0]
        if self.on_call is not None:
            r = self.on_call(self, st, f, args, kw, node)
            if r is not None:
                return r
        if t == 'bm':
            return self.call(st, f[1], [f[2]] + list(args), kw, node, star, dstar)
        if t == 'sm':
            return self.call(st, f[1], args, kw, node, star, dstar)
        if t == 'cm':   # unbound classmethod object called directly
            return self.call(st, f[1], args, kw, node, star, dstar)
        if t == 'f':
            return self.call_fn(st, f, args, kw, node, star, dstar)
        if t == 'c':
            return self.instantiate(st, f, args, kw, node, star, dstar)
        if t == 'b':
            return self.B.call_builtin(self, st, f[1], args, kw, node, star, dstar)
        if t == 'part':
            return self.call(st, f[1], list(f[2]) + list(args), kw, node, star, dstar)
        if t == 'l':
            o = self.get(st, f[1])
            if o.kind == 'inst':
                m = self.class_lookup(st, o.cls, '__call__')
                if m is not None:
                    return self.call(st, ('bm', m, f), args, kw, node, star, dstar)
        if t == 's':
            return self.call_opaque(st, f[1], args, kw, node, star, dstar)
        if t == 'k':
            self.raise_name(st, 'TypeError', node, implicit=True)
            return []
        return [(st, S('call', self.gvn(st, f), tuple(self.gvn(st, a) for a in args)))]

    def call_opaque(self, st, fe, args, kw, node, star=None, dstar=None):
        h = self.hooks.get('opaque')
        if h:
            r = h(self, st, fe, args, kw, node)
            if r is not None:
                return r
        if fe[0] == 'attr' and fe[2] in MUT_METHODS and self.userdata(fe[1]):
            self.report('mutation', node, {'own': 'user', 'loc': None, 'what': 'call of .%s() on a caller\'s object' % fe[2],
                                           'obj': None, 'expr': fe[1]}, st)
        ga = tuple(self.gvn(st, a) for a in args) + tuple(('kw', k, self.gvn(st, v)) for k, v in sorted(kw.items()))
        if star is not None:
            ga += (('star', self.gvn(st, star)),)
        if dstar is not None:
            ga += (('dstar', self.gvn(st, dstar)),)
        if self.implicit or '*' in self.handlers or any(h for h in self.handlers):
            self.opaque_raises(st, fe, node)
        return [(st, S(('call', fe) + ga))]

    def opaque_raises(self, st, fe, node):
        if self.hooks.get('noraise'):
            return
        names = set(h for h in self.handlers if h != '*')
        if self.implicit or '*' in self.handlers:
            names.add('Exception')
        for n in sorted(names):
            if n in self.classes:
                s2, e = self.alloc(st, node, 'exc-' + n, Obj('exc', ('c', n), {}))
                # attributes of the exception are opaque
                self.raise_(s2, e)
            else:
                s2, e = self.make_exc(st, n, node)
                self.raise_(s2, e)

    def userdata(self, e):
        while isinstance(e, tuple):
            if e[0] == 'arg':
                return True
            if e[0] in ('e', 'k', 'v', 'attr', 'idx', 'it'):
                e = e[1]
                continue
            return False
        return False

    def call_fn(self, st, f, args, kw, node, star=None, dstar=None):
        fn = self.prog.funcs[f[1]]
        caller = self.frames[-1] if self.frames else None
        stack = caller.stack if caller else ()
        nrec = stack.count(f[1])
        self.stats['calls'] += 1
        lim = self.rec_limit(fn)
        if nrec >= lim or len(stack) > 60:
            self.stats['cuts'] += 1
            self.cutsites[f[1]] = self.cutsites.get(f[1], 0) + 1
            return []
        self.stats['funcs'].add(f[1])
        ctx = self.ctx(caller.ctx if caller else 0, node if node is not None else fn)
        # several callees at one call site have separate environments
        envloc0 = ('env', f[1], ctx)
        outs = []
        sink = self.sinks[-1]
        nsink = len(sink)
        for st1, binding in self.bind_args(st, f, fn, args, kw, node, star, dstar):
            if binding is None:
                self.raise_name(st1, 'TypeError', node or fn, implicit=True)
                continue
            fields = binding
            envloc = envloc0
            fields['$parent'] = V(('env', f[2]))
            if isinstance(fn, ast.FunctionDef) and fn._hasclosure and (envloc in st1.heap or envloc in self.base):
                # closures of an earlier call keep their variables
                self.pins.append([a for v in fields.values() for a in v] + [f])
                st1 = self.gc(st1)
                self.pins.pop()
                n = 0
                while n < 6 and (envloc in st1.heap or envloc in self.base):
                    n += 1
                    envloc = envloc0 + (n,)
            st2 = st1.copy()
            st2.heap[envloc] = Obj('env', None, fields)
            first = args[0] if args else None
            fr = Frame(envloc, fn._mod, fn, f[3], ctx, first, len(stack), stack + (f[1],))
            self.frames.append(fr)
            self.pins.append(list(args) + list(kw.values()) + [f])
            try:
                if isinstance(fn, ast.Lambda):
                    res = [(s, 'ret', v) for s, v in self.ev(st2, fn.body, fr)]
                else:
                    if fn._isgen:
                        st2, acc = self.alloc(st2, fn, 'gen', Obj('iter', None, {}))
                        fr.acc = acc[1]
                    res = self.block(st2, fn.body, fr)
            finally:
                self.frames.pop()
                self.pins.pop()
            keep = isinstance(fn, ast.FunctionDef) and fn._hasclosure
            rr = []
            for s, k, v in res:
                if k in ('next', 'ret'):
                    if fr.acc:
                        v = ('l', fr.acc)
                    elif k == 'next' or v is None:
                        v = NONE
                    if not keep and envloc in s.heap:
                        h = dict(s.heap)
                        if not (envloc in [x.env for x in self.frames]):
                            del h[envloc]
                        s = State(h, s.facts, s.bounds, s.ev)
                    rr.append((s, v))
            outs.extend(rr)
        if len(outs) > 1:
            outs = self.merge_returns(outs, self.is_coarse(fn._mod))
        if len(sink) > nsink + 1 and self.is_coarse(fn._mod):
            g = {}
            for s, e in sink[nsink:]:
                s = self.gc(s, [e])
                k = self.exc_key(s, e)
                g[k] = (join_states(g[k][0], s), e) if k in g and g[k][1] == e else (s, e)
            sink[nsink:] = list(g.values())
        return outs

    def exc_key(self, st, e):
        return e

    coarse = frozenset()
    coarse_loops = False     # join only within loops
    inloop = 0

    def is_coarse(self, mod):
        return mod.name in self.coarse and (self.inloop > 0 or not self.coarse_loops)

    maxrounds = 60

    def merge_returns(self, outs, coarse=False):
        g = {}
        for s, v in outs:
            s = self.gc(s, [v])
            k = v if coarse else (s.hkey(), v)
            old = g.get(k)
            if old is None:
                g[k] = (s, v)
            else:
                g[k] = (join_states(old[0], s), v)
        if coarse:
            r = []
            for s, v in g.values():
                if v[0] in ('k', 'c') or (v[0] == 'l' and v[1][0] == 'h' and self.get(s, v[1]).kind in ('inst', 'pvec', 'pvecev')) or v[0] == 's':
                    s = self.compact(s)
                    if v[0] == 'l':
                        n = v[1]
                        while n not in s.heap and n in self.fwd and n not in self.base and self.fwd[n] != n:
                            n = self.fwd[n]
                        v = ('l', n)
                r.append((s, v))
            return self.dedupe_v(r)
        return self.dedupe_v(list(g.values()))

    def rec_limit(self, fn):
        return self.hooks.get('rec', 3)

    def dedupe_v(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        for s, v in outs:
            seen.setdefault((s.key(), v), (s, v))
        res = list(seen.values())
        if len(res) > self.max_states:
            g = {}
            for s, v in res:
                k = (s.hkey(), v)
                g[k] = (join_states(g[k][0], s), v) if k in g else (s, v)
            res = list(g.values())
            if len(res) > self.max_states * 2:
                g = {}
                for s, v in res:
                    g[v] = (join_states(g[v][0], s), v) if v in g else (s, v)
                res = list(g.values())
                self.stats['bigjoin'] = self.stats.get('bigjoin', 0) + 1
        return res

    def dedupe(self, sts):
        if len(sts) < 2:
            return sts
        return [s for s, _ in self.dedupe_v([(s, None) for s in sts])]

    def bind_args(self, st, f, fn, args, kw, node, star, dstar):
        """[(state, fields or None)]"""
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        dobj = self.get(st, f[4]) if f[4] is not None else None
        fields = {}
        args = list(args)
        kw = dict(kw)
        rest_segs = tuple(('i', V(x)) for x in args[len(pos):])
        for n, v in zip(pos, args):
            fields[n] = V(v)
        starsegs = None
        if star is not None:
            out = []
            for st1, segs in self.iterate(st, star, node):
                if all(s[0] == 'i' for s in segs):
                    # fork on the items
                    sts = [(st1, [])]
                    for s in segs:
                        sts = [(s3, l + [x]) for s2, l in sts for s3, x in self.pick(s2, s[1], ('star',))]
                    for s2, l in sts:
                        out.extend(self.bind_args(s2, f, fn, args + l, kw, node, None, dstar))
                else:
                    # unknown number of positional arguments
                    free = [n for n in pos[len(args):]]
                    if a.vararg and not free:
                        starsegs = segs
                        out.extend(self._bind2(st1, f, fn, args, kw, node, rest_segs + tuple(starsegs), dstar))
                    else:
                        # bind every remaining positional parameter to an element
                        vals = seg_vals(segs)
                        items = []
                        s2 = st1
                        for i, n in enumerate(free):
                            xs = [y for x in vals for y in self.expand(x, ('ix', K(i)))]
                            items.append(frozenset(xs))
                        st3 = s2
                        r = self._bind2(st3, f, fn, args, kw, node, (tuple(segs) if a.vararg else ()), dstar,
                                        extra=dict(zip(free, items)))
                        out.extend(r)
            return out
        return self._bind2(st, f, fn, args, kw, node, rest_segs, dstar)

    def _bind2(self, st, f, fn, args, kw, node, rest_segs, dstar, extra=None):
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        dobj = self.get(st, f[4]) if f[4] is not None else None
        fields = {}
        for n, v in zip(pos, args):
            fields[n] = V(v)
        if extra:
            fields.update(extra)
        if len(args) > len(pos) and not a.vararg:
            return [(st, None)]
        kwd = {}
        for n, v in kw.items():
            if n in fields:
                return [(st, None)]
            if n in pos or n in kwo:
                fields[n] = V(v)
            elif a.kwarg:
                kwd[n] = V(v)
            else:
                return [(st, None)]
        results = [(st, fields, kwd, ())]
        if dstar is not None:
            results = []
            for st1, kvs, segs in self.mapping_items(st, dstar, node):
                todo = [(st1, dict(fields), dict(kwd))]
                for ck, val in sorted(kvs.items(), key=repr):
                    nt = []
                    for s1, fl, kd in todo:
                        if ABSENT in val:
                            # entry may be missing
                            nt.append((s1, dict(fl), dict(kd)))
                        v2 = val - V(ABSENT)
                        if not v2:
                            continue
                        n = ck[2]
                        fl, kd = dict(fl), dict(kd)
                        if n in pos or n in kwo:
                            fl[n] = v2
                        elif a.kwarg:
                            kd[n] = v2
                        else:
                            continue
                        nt.append((s1, fl, kd))
                    todo = nt
                for s1, fl, kd in todo:
                    results.append((s1, fl, kd, segs if a.kwarg else ()))
        outs = []
        for st1, fl, kd, segs in results:
            ok = True
            for n in pos + kwo:
                if n not in fl:
                    d = dobj.fields.get(n) if dobj is not None else None
                    if d is None:
                        ok = False
                        break
                    fl[n] = d
            if not ok:
                outs.append((st1, None))
                continue
            if a.vararg:
                st1, t = self.alloc(st1, fn, 'varargs', Obj('tuple', None, {}, tuple(rest_segs)))
                fl[a.vararg.arg] = V(t)
            if a.kwarg:
                st1, t = self.alloc(st1, fn, 'kwargs', Obj('dict', None, {}, tuple(segs), {K(n): v for n, v in kd.items()}))
                fl[a.kwarg.arg] = V(t)
            outs.append((st1, fl))
        return outs

    def mapping_items(self, st, m, node):
        """[(state, kvs, segs)] of a mapping used with **"""
        if m[0] == 'l':
            o = self.get(st, m[1])
            if o.kind == 'dict':
                return [(st, dict(o.kvs), o.segs)]
            # some mapping object: go through its items
            out = []
            for st1, its in self.method(st, m, 'items', [], node):
                for st2, d in self.B.call_builtin(self, st1, 'dict', [its], {}, node):
                    o = self.get(st2, d[1])
                    out.append((st2, dict(o.kvs), o.segs))
            return out
        if m[0] == 's':
            src = m[1]
            return [(st, {}, (('dr', V(('pe', src, 'k')), V(('pe', src, 'v')), '?', ('len', src)),))]
        return [(st, {}, ())]

    def instantiate(self, st, c, args, kw, node, star=None, dstar=None):
        cid = c[1]
        ci = self.classes[cid]
        h = self.hooks.get('instantiate')
        if h:
            r = h(self, st, c, args, kw, node)
            if r is not None:
                return r
        r = self.class_lookup_set(st, cid, '__new__')
        outs = []
        if self.is_meta(cid):
            return self.call(st, self.class_lookup(st, cid, '__new__'), [c] + list(args), kw, node)
        if r and r[1] in self.classes:
            new = self.class_lookup(st, cid, '__new__')
            if new[0] == 'sm':
                new = new[1]
            news = self.call(st, new, [c] + list(args), kw, node, star, dstar)
        else:
            news = [self.new_inst(st, c, node)]
        ini = self.class_lookup_set(st, cid, '__init__')
        for st1, o in news:
            if ini and ini[1] in self.classes and o[0] == 'l' and self.get(st1, o[1]).kind in ('inst', 'exc') \
                    and self.type_of(st1, o) == c:
                m = self.class_lookup(st1, cid, '__init__')
                self.pins.append([o])
                for st2, _ in self.call(st1, ('bm', m, o), args, kw, node, star, dstar):
                    outs.append((st2, o))
                self.pins.pop()
            else:
                if self.get(st1, o[1]).kind == 'exc' if o[0] == 'l' else False:
                    pass
                outs.append((st1, o))
        return outs

    def new_inst(self, st, c, node):
        if c[0] == 'c' and any(m in EXC_BASES for m in self.classes[c[1]].mro):
            return self.alloc(st, node, 'exc-' + c[1], Obj('exc', c, {}))
        if c[0] == 'c':
            return self.alloc(st, node, 'new-' + c[1], Obj('inst', c[1], {}))
        return self.alloc(st, node, 'obj', Obj('obj'))

    # ---------------------------------------------------------------- attributes
    def bindattr(self, st, v, inst, cls, node):
        """descriptor protocol: [(state, atom)]"""
        t = v[0]
        if t == 'f':
            return [(st, ('bm', v, inst) if inst is not None else v)]
        if t == 'sm':
            return [(st, v[1])]
        if t == 'cm':
            return [(st, ('bm', v[1], cls))]
        if t == 'prop':
            if inst is None:
                return [(st, v)]
            return self.call(st, v[1], [inst], {}, node)
        if t == 'b' and inst is not None and self.B.binds(v[1]):
            return [(st, ('bm', v, inst))]
        return [(st, v)]

    def getattr_(self, st, a, name, node, default=None):
        """[(state, atom)]; missing -> AttributeError (or default)"""
        t = a[0]
        if t == 's':
            v = self.view(st, a)
            if v != a:
                return self.getattr_(st, v, name, node, default)
            if a[1][0] in ('decl',) and name == '__name__':
                return [(st, S('attr', a[1], name))]
            if default is None:
                if 'AttributeError' in self.handlers or '*' in self.handlers or 'Exception' in self.handlers:
                    if self.fact(st, ('hasattr', a[1], name)) is not True:
                        s2 = self.assume(st, ('hasattr', a[1], name), False)
                        if s2 is not None:
                            self.raise_name(s2, 'AttributeError', node)
                s2 = self.assume(st, ('hasattr', a[1], name), True)
                return [(s2, S('attr', a[1], name))] if s2 is not None else []
            out = []
            s2 = self.assume(st, ('hasattr', a[1], name), True)
            if s2 is not None:
                out.append((s2, S('attr', a[1], name)))
            s2 = self.assume(st, ('hasattr', a[1], name), False)
            if s2 is not None:
                out.append((s2, default))
            return out
        if t == 'l':
            return self.getattr_obj(st, a, name, node, default)
        if t == 'c':
            ci = self.classes[a[1]]
            if name == '__dict__':
                return [(st, ('l', ci.dloc))]
            if name == '__mro__' or name == '__bases__':
                xs = ci.bases if name == '__bases__' else [('c', m) if m in self.classes else ('b', m) for m in ci.mro]
                st, l = self.alloc(st, node, name, Obj('tuple', None, {}, tuple(('i', V(b)) for b in xs)))
                return [(st, l)]
            r = self.class_lookup_set(st, a[1], name)
            if r is None or r[1] == 'object' and name in ('__name__',):
                if name == '__name__':
                    return [(st, K(ci.name))]
                mm = ci.meta
                if mm and mm[0] == 'c':
                    r2 = self.class_lookup_set(st, mm[1], name)
                    if r2:
                        return [x for v in r2[0] for x in self.bindattr(st, v, a, mm, node)]
                if name in ('register', 'mro', '__subclasses__'):
                    return [(st, ('bm', ('b', 'type.' + name), a))]
                if name in ('__module__', '__qualname__', '__doc__'):
                    return [(st, K(ci.name))]
                if default is not None:
                    return [(st, default)]
                self.raise_name(st, 'AttributeError', node)
                return []
            out = []
            for v in sorted(r[0], key=repr):
                out.extend(self.bindattr(st, v, None, a, node))
            return out
        if t == 'sup':
            _, cid, slf = a
            if slf[0] == 'c':
                c = slf[1]
                r = self.class_lookup_set(st, c, name, after=cid)
                if r is None and self.classes[cid].mro and self.is_meta(c):
                    r = self.class_lookup_set(st, c, name, after=cid)
            else:
                ty = self.type_of(st, slf)
                c = ty[1]
                r = self.class_lookup_set(st, c, name, after=cid)
            if r is None:
                b = self.B.builtin_class_attr(self, 'object', name)
                if b is None:
                    self.raise_name(st, 'AttributeError', node)
                    return []
                r = (V(b), 'object')
            out = []
            for v in sorted(r[0], key=repr):
                if slf[0] == 'c':
                    if v[0] == 'f' and name != '__new__' or v[0] == 'b' and name not in ('__new__',):
                        if self.is_meta(slf[1]) or True:
                            out.append((st, v if name == '__new__' else ('bm', v, slf)))
                            continue
                    out.extend(self.bindattr(st, v, None, slf, node))
                elif name == '__new__':
                    out.append((st, v))
                else:
                    out.extend(self.bindattr(st, v, slf, ('c', c), node))
            return out
        if t == 'k':
            return [(st, ('bm', ('b', 'str.' + name if a[1] == 'str' else a[1] + '.' + name), a))]
        if t == 'm':
            return self.modattr(st, a[1], name, node)
        if t == 'b':
            if name in ('__bases__', '__mro__') and self.B.is_class(a[1]):
                mro = self.mro_of(a)
                xs = [('b', x) for x in (mro if name == '__mro__' else BUILTIN_BASES.get(a[1], ('object',) if a[1] != 'object' else ()))]
                st, l = self.alloc(st, node, (name, a[1]), Obj('tuple', None, {}, tuple(('i', V(b)) for b in xs)))
                return [(st, l)]
            if name == '__dict__' and self.B.is_class(a[1]):
                st, l = self.alloc(st, node, (name, a[1]), Obj('dict', None, {}, (), {K('__doc__'): V(NONE)}))
                return [(st, l)]
            v = self.B.builtin_attr(self, a[1], name)
            if v is not None:
                return [(st, v)]
            if default is not None:
                return [(st, default)]
            return [(st, ('b', a[1] + '.' + name))]
        if t in ('f', 'bm'):
            if name == '__name__':
                return [(st, K('f'))]
            return [(st, S('attr', self.gvn(st, a), name))]
        return [(st, S('attr', self.gvn(st, a), name))]

    def modattr(self, st, mod, name, node):
        if mod in self.prog.modules and mod != '_collections_abc':
            env = self.exec_module(mod)
            o = self.get(st, env)
            v = o.fields.get(name)
            if v:
                return [(st, x) for x in sorted(v, key=repr)]
            sub = mod + '.' + name
            if sub in self.prog.modules:
                return [(st, ('m', sub))]
        return [(st, self.B.external(self, mod, name))]

    def getattr_obj(self, st, a, name, node, default):
        loc = a[1]
        o = self.get(st, loc)
        if o.kind == 'inst':
            if name == '__class__':
                return [(st, ('c', o.cls))]
            if name == '__dict__':
                return [(st, S('attr', self.gvn(st, a), name))]
            r = self.class_lookup_set(st, o.cls, name)
            if r and any(v[0] == 'prop' for v in r[0]):
                out = []
                for v in sorted(r[0], key=repr):
                    out.extend(self.bindattr(st, v, a, ('c', o.cls), node))
                return out
            if name in o.fields:
                v = o.fields[name]
                out = []
                for x in sorted(v, key=repr):
                    s2 = st
                    if len(v) > 1 and not o.summ:
                        s2 = self.put(st, loc, o.setf(name, V(x)))
                    if x == ABSENT:
                        f = dict(o.fields)
                        del f[name]
                        s2 = self.put(st, loc, o.with_(fields=f))
                        out.extend(self.attr_missing(s2, a, name, node, default))
                    elif x[0] == 's' and x[1][0] == 'pending':
                        out.append((s2, x))
                    else:
                        out.append((s2, x))
                return out
            if r:
                out = []
                for v in sorted(r[0], key=repr):
                    out.extend(self.bindattr(st, v, a, ('c', o.cls), node))
                return out
            if loc[0] == 'p' and self.is_slot(st, o.cls, name):
                return self.slot_maybe(st, a, name, node, default)
            if self.is_slot(st, o.cls, name):
                # declared but not (yet) assigned: __getattr__ is not the place such a value comes from
                return self.attr_missing(st, a, name, node, default, slot=True)
            return self.attr_missing(st, a, name, node, default)
        if o.kind == 'sup':
            return self.getattr_(st, o.fields['sup'], name, node, default)
        if o.kind == 'exc':
            if name in o.fields:
                return [(st, x) for x in sorted(o.fields[name], key=repr)]
            cid = o.cls[1] if o.cls and o.cls[0] == 'c' else None
            if cid:
                r = self.class_lookup_set(st, cid, name)
                if r and r[1] in self.classes:
                    return [y for v in r[0] for y in self.bindattr(st, v, a, o.cls, node)]
            if name in ('__init__', '__str__'):
                return [(st, ('bm', ('b', 'exc.' + name), a))]
            return [(st, S('attr', ('exc', o.cls[1]), name))]
        if o.kind == 'slice':
            v = o.fields.get(name)
            if v:
                out = []
                for x in sorted(v, key=repr):
                    s2 = self.put(st, loc, o.setf(name, V(x))) if len(v) > 1 else st
                    out.append((s2, x))
                return out
        if o.kind == 'part':
            return [(st, S('attr', self.gvn(st, a), name))]
        kind = o.kind
        if self.B.has_method(kind, name):
            return [(st, ('bm', ('b', kind + '.' + name), a))]
        if name == '__class__':
            return [(st, self.type_of(st, a))]
        if default is not None:
            return [(st, default)]
        self.raise_name(st, 'AttributeError', node)
        return []

    def is_slot(self, st, cid, name):
        if name.startswith('__'):
            return False
        for m in self.classes[cid].mro:
            if m in self.classes:
                d = self.class_dict(st, m).kvs.get(K('__slots__'))
                for a in d or ():
                    if a == K(name):
                        return True
                    if a[0] == 'l':
                        for s in self.get(st, a[1]).segs:
                            if K(name) in s[1]:
                                return True
        return False

    def slot_maybe(self, st, a, name, node, default):
        """a slot no constructor sets: a value remembered by an earlier call, or nothing"""
        loc = a[1]
        o = self.get(st, loc)
        g = self.gvn(st, a)
        s1 = self.put(st, loc, o.setf(name, V(S('memo', g, name))))
        out = [(s1, S('memo', g, name))]
        out.extend(self.attr_missing(self.put(st, loc, o.setf(name, V(ABSENT))), a, name, node, default, slot=True))
        return out

    def attr_missing(self, st, a, name, node, default, slot=False):
        o = self.get(st, a[1])
        g = self.class_lookup(st, o.cls, '__getattr__')
        if g is not None and not slot and g[0] != 'b':
            out = []
            if default is not None:
                sink = []
                self.sinks.append(sink)
                h = self.handlers
                self.handlers = h + ('AttributeError',)
                try:
                    out = self.call(st, ('bm', g, a), [K(name)], {}, node)
                finally:
                    self.sinks.pop()
                    self.handlers = h
                for s2, e in sink:
                    if self.exc_matches(s2, e, ('b', 'AttributeError')):
                        out.append((s2, default))
                    else:
                        self.raise_(s2, e)
                return out
            return self.call(st, ('bm', g, a), [K(name)], {}, node)
        if default is not None:
            return [(st, default)]
        self.raise_name(st, 'AttributeError', node)
        return []

    def setattr_(self, st, a, name, val, node, direct=False):
        """[(state)]"""
        if a[0] == 'l':
            loc = a[1]
            o = self.get(st, loc)
            if o.kind in ('inst', 'exc') and not direct:
                cid = o.cls if o.kind == 'inst' else (o.cls[1] if o.cls[0] == 'c' else None)
                if cid:
                    r = self.class_lookup_set(st, cid, '__setattr__')
                    if r and r[1] in self.classes:
                        m = sorted(r[0], key=repr)[0]
                        return [s for s, _ in self.call(st, ('bm', m, a), [K(name), val], {}, node)]
            if o.kind == 'inst':
                r = self.class_lookup_set(st, o.cls, name)
                if r and any(v[0] == 'prop' for v in r[0]):
                    p = [v for v in r[0] if v[0] == 'prop'][0]
                    if len(p) > 2 and p[2]:
                        return [s for s, _ in self.call(st, p[2], [a, val], {}, node)]
                    self.raise_name(st, 'AttributeError', node)
                    return []
            memo = o.own == 'frozen' and self.is_memo(st, a, o, name, val)
            return [self.write(st, loc, o.setf(name, V(val)), node, 'attribute %s' % name, val, memo=memo)]
        if a[0] == 'c':
            d = self.classes[a[1]].dloc
            o = self.get(st, d)
            kv = dict(o.kvs)
            kv[K(name)] = V(val)
            return [self.put(st, d, o.with_(kvs=kv))]
        if a[0] == 's':
            v = self.view(st, a)
            if v != a:
                return self.setattr_(st, v, name, val, node, direct)
            if self.userdata(a[1]):
                self.report('mutation', node, {'own': 'user', 'loc': None, 'what': 'attribute %s' % name, 'obj': None,
                                               'expr': a[1]}, st)
        return [st]

    def is_memo(self, st, a, o, name, val):
        """remembering a value computed from the object itself, in an attribute no constructor sets"""
        nodes = [n for n in self.inst_fields(o.cls)]
        if any(n[1] == name and (n[0], '$ctor', name) in self.ctor_fields for n in nodes):
            return False
        if val[0] == 'k' and val[2] is None:
            return False
        if val[0] == 'l':
            return False
        if val[0] == 's':
            root = self.path_root(a[1][1]) if a[1][0] == 'p' else None
            for r in roots(val[1]):
                if r[0] in ('u', 'n') and root is not None and self.path_root(r[1]) == root:
                    continue
                if r[0] in ('u', 'n') and root is None:
                    continue
                if r[0] == 'memo':
                    continue
                if r[0] in ('cnt', 'opq'):
                    continue
                return False
        return True

    ctor_fields = frozenset()

    # ---------------------------------------------------------------- iteration
    def iterate(self, st, a, node):
        """[(state, segs)]"""
        t = a[0]
        if t == 'l':
            loc = a[1]
            o = self.get(st, loc)
            if o.kind in ('list', 'tuple', 'set', 'frozenset', 'pvec', 'pvecev', 'view'):
                return [(st, o.segs)]
            if o.kind == 'iter':
                st2 = self.put(st, loc, o.with_(segs=()))
                return [(st2, o.segs)]
            if o.kind == 'dict':
                segs = []
                for k, v in sorted(o.kvs.items(), key=repr):
                    if ABSENT in v:
                        segs.append(('r', V(k), '?', ('opq', 'maybe', loc, k)))
                    else:
                        segs.append(('i', V(k)))
                for s in o.segs:
                    segs.append(('i', s[1]) if s[0] == 'di' else ('r', s[1], s[3], s[4]))
                return [(st, tuple(segs))]
            if o.kind == 'inst':
                m = self.class_lookup(st, o.cls, '__iter__')
                if m is not None:
                    out = []
                    for st1, it in self.call(st, ('bm', m, a), [], {}, node):
                        out.extend(self.iterate(st1, it, node))
                    return out
                m = self.class_lookup(st, o.cls, '__getitem__')
                if m is not None:
                    g = self.gvn(st, a)
                    return [(st, (('r', V(('pe', ('it', g, 0), 'e')), '?', ('len', g)),))]
                self.raise_name(st, 'TypeError', node, implicit=True)
                return []
        if t == 's':
            v = self.view(st, a)
            if v != a:
                return self.iterate(st, v, node)
            if self.leaf(a[1]):
                return []
            n = 0
            src = a[1]
            if not self.reiterable(st, src):
                k = ('itn', src)
                n = st.facts.get(k, 0)
                st = st.copy()
                st.facts[k] = n + 1
            if self.implicit or self.handlers:
                self.opaque_raises(st, ('iter', src), node)
            return [(st, (('r', V(('pe', ('it', src, n), 'e')), '?', ('len', src) if n == 0 else ('len', ('it', src, n))),))]
        if t == 'k' and isinstance(a[2], str):
            return [(st, tuple(('i', V(K(c))) for c in a[2]))]
        if t == 'c':
            self.raise_name(st, 'TypeError', node, implicit=True)
            return []
        if t == 'k':
            self.raise_name(st, 'TypeError', node, implicit=True)
            return []
        return [(st, (('r', V(('pe', ('it', self.gvn(st, a), 0), 'e')), '?', ('len', self.gvn(st, a))),))]

    leafmods = frozenset(['pyrsistent._pvector'])

    def leaf(self, e):
        """the vector code never looks inside its elements: in it, an element is not a node"""
        if e[0] not in ('u', 'e', 'idx') or not self.frames or self.frames[-1].mod.name not in self.leafmods:
            return False
        if e[0] == 'u':
            return e[1][0] == 'e'
        if e[0] == 'idx':
            return e[2][:2] != ('seq', 'slice')
        return True

    REITER = ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'collections.defaultdict', 'pvectorc.PVector')

    def reiterable(self, st, e):
        if e[0] in ('decl', 'u', 'glob'):
            return True
        for k, v in st.facts.items():
            if v and k[0] in ('isinst', 'typeis') and k[1] == e:
                t = k[2]
                if t[0] == 'c' or t[1] in self.REITER or t[1] in ('collections.abc.Mapping', 'collections.abc.Sequence', 'collections.abc.Set'):
                    return True
            if v and k[0] == 'reiter' and k[1] == e:
                return True
        if e[0] == 'call' or e[0] == 'attr':
            return False
        return False

    def pick(self, st, valset, step):
        """fork over the members of a value set, elements named by step"""
        out = []
        for a in sorted(valset, key=repr):
            if a == ABSENT:
                continue
            if a[0] == 'pe':
                for x in self.expand(a, step):
                    out.append((st, x))
            elif a[0] == 'pair':
                for s1, k in self.pick(st, a[1], step):
                    for s2, v in self.pick(s1, a[2], step):
                        s3, t = self.alloc_pair(s2, k, v, step)
                        out.append((s3, t))
            else:
                out.extend(self.specialise(st, a, step))
        return out

    def alloc_pair(self, st, k, v, step):
        node = self.frames[-1].node if self.frames else None
        return self.alloc(st, node, ('pair', step), Obj('tuple', None, {}, (('i', V(k)), ('i', V(v)))))

    def specialise(self, st, a, step):
        """name an individual element of a summarised collection of elements"""
        old = self.find_els(a) if a[0] == 's' else None
        if a[0] == 'l' and a[1][0] != 'p':
            o = st.heap.get(a[1])
            if o is not None and o.summ and o.kind == 'tuple' and all(s[0] == 'i' for s in o.segs):
                # one of the tuples this summary stands for
                olds = []
                for s in o.segs:
                    for x in s[1]:
                        e = self.find_els(x)
                        if e and e not in olds:
                            olds.append(e)
                outs = []
                combos = [(st, [])]
                for s in o.segs:
                    combos = [(st, l + [x]) for (st_, l) in combos for x in sorted(s[1], key=repr)]
                for _, l in combos:
                    s2 = st
                    items = []
                    for x in l:
                        y = x
                        for e in olds:
                            y = rename(y, e, step)
                        items.append(('i', V(y)))
                    for e in olds:
                        s2 = self.copy_facts(s2, e, step)
                    s2, t = self.alloc(s2, o.site, ('sp', step), Obj('tuple', None, {}, tuple(items), own=o.own))
                    outs.append((s2, t))
                return outs
            return [(st, a)]
        if old is None:
            return [(st, a)]
        st = self.copy_facts(st, old, step)
        return [(st, rename(a, old, step))]

    def copy_facts(self, st, old, new):
        add = {}
        for k, v in st.facts.items():
            if contains(k, old):
                k2 = rename(k, old, new)
                if k2 not in st.facts:
                    add[k2] = v
        badd = {}
        for p, b in st.bounds.items():
            if contains(p, old):
                p2 = tuple(sorted(((rename(t, old, new), k) for t, k in p), key=repr))
                if p2 not in st.bounds:
                    badd[p2] = b
        if add or badd:
            st = st.copy()
            st.facts.update(add)
            st.bounds.update(badd)
        return st

    def find_els(self, e):
        if not isinstance(e, tuple):
            return None
        if len(e) >= 2 and e[0] == 'els':
            return e
        for x in e:
            if isinstance(x, tuple):
                r = self.find_els(x)
                if r:
                    return r
        return None

    def loop(self, st, segs, node, body, fr, tag=''):
        """run body(state, atom) -> [(state, kind, val)] over the elements.

        returns [(state, kind, val)], kind 'next' when exhausted, 'brk', or 'ret'."""
        cur = [st]
        outs = []
        if not segs:
            return [(st, 'next', None)]
        self.pins.append([a for s in segs for v in s[1:3] if isinstance(v, frozenset) for a in v])
        try:
            return self._loop(cur, segs, node, body, fr, tag, outs)
        finally:
            self.pins.pop()

    def _loop(self, cur, segs, node, body, fr, tag, outs):
        for i, s in enumerate(segs):
            if s[0] == 'i':
                nxt = []
                for c in cur:
                    for c2, x in self.pick(c, s[1], ('ei', self.uid(node), i)):
                        for r in body(c2, x):
                            if r[1] in ('next', 'cont'):
                                nxt.append(r[0])
                            else:
                                outs.append(r)
                cur = self.dedupe(nxt)
            else:
                nxt = []
                for c in cur:
                    for r in self.region_loop(c, s, node, body, fr, (tag, i)):
                        if r[1] == 'next':
                            nxt.append(r[0])
                        else:
                            outs.append(r)
                cur = self.dedupe(nxt)
            if not cur:
                break
        return outs + [(c, 'next', None) for c in cur]

    def region_loop(self, st, seg, node, body, fr, tag):
        _, vals, emp, lenx = seg
        L = ('L', self.uid(node), fr.ctx if fr else 0, tag)
        el, els = ('el', L), ('els', L)
        self.stats['loops'] += 1
        outs, exits = [], []
        lat = lenx if lenx[0] == 'k' else ('s', lenx if lenx[0] in ('len', 'slen', 'cnt', 'lin', 'n', 'count') else ('count', lenx))
        if not vals:
            return [(st, 'next', None)]
        d = self.decide_cmp(st, '>', lat, K(0))
        if emp != 'n' and d is not True:
            s0 = self.assume_cmp(st, '==', lat, K(0), True)
            if s0 is not None:
                exits.append(s0)
        if d is False:
            return [(s, 'next', None) for s in exits]
        st1 = self.assume_cmp(st, '>', lat, K(0), True)
        if st1 is None:
            return [(s, 'next', None) for s in exits]
        st1 = self.drop_el(st1, el, els, L)
        entry = st1
        heads = {}
        work = [(st1, True)]
        rounds = 0
        self.inloop += 1
        while work:
            h, first = work.pop(0)
            rounds += 1
            if rounds > self.maxrounds:
                self.stats['loopcap'] = self.stats.get('loopcap', 0) + 1
                break
            for s1, x in self.pick(h, vals, el):
                for (s2, k, v) in body(s1, x):
                    if k in ('next', 'cont'):
                        s3 = self.backedge(s2, entry, h, L, first)
                        self.add_head(heads, work, s3, fr, rounds)
                    elif k == 'brk':
                        outs.append((self.leave(s2, L), 'brk', v))
                    else:
                        outs.append((self.leave(s2, L), k, self.wit(v, L) if v is not None else v))
        self.inloop -= 1
        for h in heads.values():
            exits.append(self.exhausted(h, L, lat))
        return outs + [(s, 'next', None) for s in exits]

    def pkey(self, st, fr):
        """trace partitioning at loop heads: the control state held in local variables"""
        out = []
        if fr is not None:
            env = fr.env
            while env is not None:
                o = st.heap.get(env)
                if o is None:
                    break
                for n, v in o.fields.items():
                    if len(v) == 1 and not n.startswith('$'):
                        (a,) = v
                        if a[0] == 'k' and (a[2] is None or isinstance(a[2], bool)):
                            out.append((n, a))
                        elif a[0] == 'l' and a[1][0] != 'p':
                            out.append((n, 'l'))
                if o.kind == 'env' and isinstance(env, tuple) and len(env) > 1 and isinstance(env[1], tuple) and env[1][-1].endswith('Comp'):
                    p = o.fields.get('$parent')
                    env = next(iter(p))[1] if p else None
                else:
                    break
        return (frozenset(out), st.ev)

    def add_head(self, heads, work, s3, fr, rounds):
        key = self.pkey(s3, fr)
        if key not in heads and len(heads) >= 12:
            key = next(iter(heads))
        old = heads.get(key)
        if old is None:
            heads[key] = s3
            work.append((s3, False))
            return
        j = join_states(old, s3)
        if fr is not None and self.is_coarse(fr.mod):
            j = self.compact(j)
        if rounds >= 3:
            j = self.widen_nums(old, j, rounds)
        if rounds >= 10:
            # widen: only bounds that are stable stay
            j = State(j.heap, j.facts, {p: b for p, b in j.bounds.items() if old.bounds.get(p) == b}, j.ev)
        if j.key() != old.key():
            heads[key] = j
            work[:] = [(w, f) for (w, f) in work if w is not old]
            work.append((j, False))

    def widen_nums(self, old, st, rounds):
        """many numbers in one place: any number within their bounds"""
        ch = {}
        bounds = None
        for l, o in st.heap.items():
            if all(len(v) < 4 for v in o.all_vals()):
                continue
            b2 = bounds or dict(st.bounds)
            done = [False]

            def rv(v, l=l, b2=b2, done=done):
                if len(v) < 4:
                    return v
                nums = [a for a in v if (a[0] == 'k' and isinstance(a[2], int) and not isinstance(a[2], bool)) or
                        (a[0] == 's' and a[1][0] in ('lin', 'n', 'opq', 'cnt', 'len'))]
                if len(nums) < 4:
                    return v
                w = ('n', ('els', ('wid', l)))
                los, his = zip(*(self.lin_bounds(st, a) for a in nums))
                lo = min(los)
                if rounds > 8 and lo < b2.get(((w, 1),), (lo, 0))[0]:
                    lo = -INF
                b2[((w, 1),)] = (min(lo, b2.get(((w, 1),), (lo, 0))[0]), INF)
                done[0] = True
                return (v - frozenset(nums)) | V(('s', w))
            o2 = o.map_vals(rv)
            if done[0]:
                ch[l] = o2
                bounds = b2
        if not ch:
            return st
        heap = dict(st.heap)
        heap.update(ch)
        return State(heap, st.facts, bounds, st.ev)

    def wit(self, v, L):
        return rename(v, ('el', L), ('wit', L)) if isinstance(v, tuple) else v

    def leave(self, st, L):
        """left the loop early: the current element gets a name of its own"""
        st = self.rename_expr(st, ('wit', L), ('els', ('oldwit', L)), dropfacts=True)
        st = self.rename_expr(st, ('el', L), ('wit', L))
        return st

    def drop_el(self, st, el, els, L):
        """entering the loop again: earlier names of this loop become something else"""
        for nm in (el, els, ('wit', L), ('cnt', L)):
            st = self.rename_expr(st, nm, ('els', ('prev', L)) if nm[0] != 'cnt' else ('opq', L, 'prevcnt'), dropfacts=True)
        return st

    def rename_expr(self, st, old, new, dropfacts=False):
        heap = None
        cache = {}
        for l, o in st.heap.items():
            hit = contains(l, old)
            if not hit:
                for v in o.all_vals():
                    if any(contains(a, old) for a in v):
                        hit = True
                        break
                if not hit:
                    for s in o.segs:
                        if s[0] in ('r', 'dr') and contains(s[-1], old):
                            hit = True
                            break
            if hit:
                if heap is None:
                    heap = dict(st.heap)
                del heap[l]
                l2 = rename(l, old, new, cache)
                o2 = o.map_vals(lambda v: frozenset(rename(a, old, new, cache) for a in v),
                                lambda e: rename(e, old, new, cache))
                if l2 in heap:
                    o2 = join_obj(heap[l2], o2, l2).with_(summ=True)
                elif l2 != l and new[0] == 'els':
                    o2 = o2.with_(summ=True)
                heap[l2] = o2
        facts = st.facts
        if any(contains(k, old) or k[0] == 'rd' and contains(v, old) for k, v in facts.items()):
            nf = {}
            for k, v in facts.items():
                if k[0] == 'rd' and (contains(k, old) or contains(v, old)):
                    continue
                if contains(k, old):
                    if not dropfacts:
                        nf[rename(k, old, new, cache)] = v
                else:
                    nf.setdefault(k, v)
            facts = nf
        bounds = st.bounds
        if any(contains(k, old) for k in bounds):
            nb = {}
            for k, v in bounds.items():
                if contains(k, old):
                    if not dropfacts:
                        k2 = rename(k, old, new, cache)
                        p, sg = norm_part(dict(k2))
                        nb[p] = v if sg > 0 else (-v[1], -v[0])
                else:
                    nb.setdefault(k, v)
            bounds = nb
        if heap is None and facts is st.facts and bounds is st.bounds:
            return st
        for i, p in enumerate(self.pins):
            if any(contains(a, old) for a in p):
                self.pins[i] = list(p) + [rename(a, old, new, cache) for a in p if contains(a, old)]
        return State(heap if heap is not None else st.heap, facts, bounds, st.ev)

    def backedge(self, st, entry, head, L, first):
        el, els = ('el', L), ('els', L)
        # facts that hold for this element and held for all earlier ones
        allf = {}
        keep = {}
        for k, v in st.facts.items():
            if k[0] == 'rd':
                continue
            if contains(k, el):
                k2 = rename(k, el, els)
                if first or head.facts.get(k2) == v:
                    allf[k2] = v
            elif contains(k, els):
                pass
            else:
                keep[k] = v
        allb = {}
        keepb = {}
        for k, v in st.bounds.items():
            if contains(k, el):
                k2, sg = norm_part(dict(rename(k, el, els)))
                if sg < 0:
                    v = (-v[1], -v[0])
                if first:
                    allb[k2] = v
                elif k2 in head.bounds:
                    w = head.bounds[k2]
                    j = (min(v[0], w[0]), max(v[1], w[1]))
                    if j == w:
                        allb[k2] = j
            elif contains(k, els):
                pass
            elif contains(k, ('cnt', L)):
                pass
            else:
                keepb[k] = v
        st = State(st.heap, {k: v for k, v in st.facts.items() if not contains(k, el) and not contains(k, els)},
                   keepb, st.ev)
        st = self.rename_expr(st, el, els)
        st = State(st.heap, {**keep, **allf}, {**keepb, **allb}, st.ev)
        # counters and accumulated sequences
        st = self.widen(st, entry, head, L, first)
        st = self.gc(st)
        return st

    def shift_cnt(self, v, L):
        """express a value in terms of the new iteration count"""
        cnt = ('cnt', L)
        if v[0] == 's' and contains(v[1], cnt):
            l = as_lin(v)
            c, terms = l
            k = terms.get(cnt, 0)
            if k and all(not contains(t, cnt) for t in terms if t != cnt):
                return from_lin(c - k, terms)
            return ('s', rename(v[1], cnt, ('opq', L, 'cnt')))
        return v

    def widen(self, st, entry, head, L, first):
        cnt = ('cnt', L)
        heap = {}
        for l, o in st.heap.items():
            e = entry.heap.get(l)
            if e is None:
                e = self.base.get(l)
            if e is None and l[0] == 'p':
                e = self.preobj(l)
            hd = head.heap.get(l)
            if hd is None:
                hd = e
            if any(contains(a, cnt) for v in o.all_vals() for a in v if a[0] == 's'):
                o = o.map_vals(lambda v: frozenset(self.shift_cnt(a, L) for a in v))
            if o is e or e is None:
                heap[l] = o
                continue
            ch = {}
            for f, v in o.fields.items():
                ev = e.fields.get(f)
                if ev is None or ev == v:
                    continue
                nv = self.widen_val(v, ev, hd.fields.get(f) if hd is not None else None, L, (l, f), first)
                if nv != v:
                    ch[f] = nv
            if ch:
                fl = dict(o.fields)
                fl.update(ch)
                o = o.with_(fields=fl)
            if o.segs != e.segs:
                o = o.with_(segs=self.widen_segs(o, e, L, l, first))
            heap[l] = o
        return State(heap, st.facts, st.bounds, st.ev)

    def widen_val(self, v, ev, hv, L, where_, first):
        if len(v) == 1 and len(ev) == 1:
            (a,), (b,) = v, ev
            if a[0] in 'ks' and b[0] in 'ks' and (a[0] == 'k' and isinstance(a[2], int) and not isinstance(a[2], bool) or a[0] == 's') \
                    and (b[0] == 'k' and isinstance(b[2], int) and not isinstance(b[2], bool) or b[0] == 's'):
                if isinstance(b[2] if b[0] == 'k' else 0, bool):
                    return v
                num = (a[0] == 'k' or a[1][0] in ('lin', 'n', 'len', 'cnt', 'slen', 'opq')) and \
                      (b[0] == 'k' or b[1][0] in ('lin', 'n', 'len', 'cnt', 'slen', 'opq', 'arg', 'u'))
                if not num:
                    return v
                d = lin_add(a, b, -1)
                if first and d is not None and d[0] == 'k':
                    return V(lin_add(b, from_lin(0, {('cnt', L): d[2]})))
                if not first and hv is not None and v == hv:
                    return v
                if not first and d is not None:
                    c, terms = as_lin(d)
                    if c == 0 and list(terms) == [('cnt', L)]:
                        return v
                return V(S('n', ('w', L, where_)))
        return v

    def widen_segs(self, o, e, L, l, first):
        per, sub = ('per', L), ('sub', L)
        es = e.segs
        n = len(es)
        segs = o.segs
        if segs[:n] != es:
            # not an extension of the entry contents: summarise
            if len(segs) > 6 or sum(1 for s in segs if s[0] == 'i') > 4:
                return join_segs(segs, (), ('opq', 'len', l))
            return segs
        rest = segs[n:]
        if not rest:
            return segs
        if any(s[0] in ('di', 'dr') for s in rest):
            ks = vs = BOT
            ne = False
            for s in rest:
                ks |= s[1]
                vs |= s[2]
                ne = ne or s[0] == 'di' or s[3] == 'n'
            lab = per if (len(rest) == 1 and rest[0][0] == 'di' and first) or \
                (len(rest) == 2 and rest[0][0] == 'dr' and rest[0][4] == per and rest[1][0] == 'di') else sub
            if len(rest) == 1 and rest[0][0] == 'dr' and rest[0][4] not in (per, sub):
                lab = sub
            return es + (('dr', ks, vs, 'n' if ne else '?', lab),)
        v = seg_vals(rest)
        ne = nonempty(rest)
        if len(rest) == 1 and rest[0][0] == 'i' and first:
            lab = per
        elif len(rest) == 2 and rest[0][0] == 'r' and rest[0][3] == per and rest[1][0] == 'i':
            lab = per
        else:
            lab = sub
        return es + (('r', v, 'n' if ne else '?', lab),)

    def exhausted(self, st, L, lat):
        """all elements processed: iteration counts are the length"""
        cnt, per, sub = ('cnt', L), ('per', L), ('sub', L)
        heap = {}

        def fv(v):
            if any(a[0] == 's' and contains(a[1], cnt) for a in v):
                return frozenset(self.subst_cnt(a, cnt, lat) for a in v)
            return v
        fin = lat if lat[0] == 'k' else lat[1]

        def fl(x):
            if x == per:
                return fin
            if x == sub:
                return ('opq', 'sub', L)
            return x
        for l, o in st.heap.items():
            hit = any(contains(a, cnt) for v in o.all_vals() for a in v) or \
                any(s[0] in ('r', 'dr') and s[-1] in (per, sub) for s in o.segs)
            heap[l] = o.map_vals(fv, fl) if hit else o
        return State(heap, st.facts, st.bounds, st.ev)

    def subst_cnt(self, a, cnt, lat):
        if a[0] != 's':
            return a
        l = as_lin(a)
        c, terms = l
        if cnt in terms:
            k = terms.pop(cnt)
            base = from_lin(c, terms)
            return lin_add(base, lin_scale(lat, k))
        return ('s', rename(a[1], cnt, lat if lat[0] == 'k' else lat[1]))
