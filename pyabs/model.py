"""Abstract values, objects and states.

Atoms are tuples; variables, fields and container elements hold frozensets of atoms, expression
evaluation always yields one atom per state (states fork on reads).
  ('k', typename, value)     constant
  ('l', loc)                 heap object (abstract location)
  ('f', nid, envloc, cid)    function value (closure); cid = class whose body defined it
  ('bm', fatom, selfatom)    bound method
  ('c', cid)                 class of the analysed program
  ('b', dotted)              builtin / external callable, class or object
  ('s', expr)                opaque value, expr is its value number
  ('pe', src)                any element of the container src (expanded when bound)
  ('absent',)                possibly missing dict entry / attribute
"""
INF = float('inf')


def K(v):
    return ('k', type(v).__name__, v)


def V(*atoms):
    return frozenset(atoms)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ABSENT = ('absent',)
BOT = frozenset()
NOTIMPL = ('b', 'NotImplemented')
MAXDEPTH = 24

_depth_cache = {}


def depth(e):
    d = _depth_cache.get(e)
    if d is None:
        d = 0
        for x in e:
            if isinstance(x, tuple):
                y = depth(x)
                if y > d:
                    d = y
        d += 1
        _depth_cache[e] = d
    return d


def S(*expr):
    if len(expr) == 1 and isinstance(expr[0], tuple):
        expr = expr[0]
    if depth(expr) > MAXDEPTH:
        expr = ('deep', tuple(sorted(roots(expr), key=repr)))
    return ('s', expr)


_root_cache = {}
ROOT_TAGS = ('arg', 'u', 'n', 'decl', 'memo', 'glob', 'opq', 'cnt')


def roots(expr):
    """The primitive sources a value number is derived from."""
    r = _root_cache.get(expr)
    if r is not None:
        return r
    out = set()
    if isinstance(expr, tuple) and expr:
        t = expr[0]
        if t in ROOT_TAGS:
            out.add(expr)
        elif t == 'deep':
            out.update(expr[1])
        else:
            for x in expr:
                if isinstance(x, tuple):
                    out |= roots(x)
    r = _root_cache[expr] = frozenset(out)
    return r


_contains_cache = {}


def contains(expr, sub):
    if expr == sub:
        return True
    if not isinstance(expr, tuple):
        return False
    k = (expr, sub)
    r = _contains_cache.get(k)
    if r is None:
        r = any(isinstance(x, tuple) and contains(x, sub) for x in expr)
        _contains_cache[k] = r
    return r


def rename(e, old, new, cache=None):
    """replace sub-tuple old by new inside a (nested) tuple"""
    if e == old:
        return new
    if not isinstance(e, (tuple, frozenset)):
        return e
    if isinstance(e, frozenset):
        return frozenset(rename(x, old, new, cache) for x in e)
    if cache is not None:
        r = cache.get(e)
        if r is not None:
            return r
    ch = False
    out = []
    for x in e:
        if isinstance(x, (tuple, frozenset)):
            y = rename(x, old, new, cache)
            if y is not x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    r = tuple(out) if ch else e
    if cache is not None:
        cache[e] = r
    return r


# segments of sequence contents:
#   ('i', valset)                 exactly one item
#   ('r', valset, emp, lenexpr)   any number of items, emp: '?' or 'n'; lenexpr: value number of the count
# segments of dict contents (besides kvs, the entries with constant keys):
#   ('di', kset, vset)            one entry
#   ('dr', kset, vset, emp, lenexpr)


class Obj:
    """An abstract heap object (immutable; `with_` makes a changed copy).

    kind: 'inst' (cls = class id), 'list','tuple','dict','set','frozenset','iter','slice','env',
          'pvec','pvecev','exc','obj','prop','sup','part'
    """
    __slots__ = ('kind', 'cls', 'fields', 'segs', 'kvs', 'own', 'summ', 'site', '_k', '_h')
    ATTRS = ('kind', 'cls', 'fields', 'segs', 'kvs', 'own', 'summ', 'site')

    def __init__(self, kind, cls=None, fields=None, segs=(), kvs=None, own='fresh', summ=False, site=None):
        self.kind = kind
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.segs = segs
        self.kvs = kvs
        self.own = own
        self.summ = summ
        self.site = site
        self._k = None

    def with_(self, **kw):
        o = Obj.__new__(Obj)
        for a in Obj.ATTRS:
            setattr(o, a, kw[a] if a in kw else getattr(self, a))
        o._k = None
        return o

    def setf(self, name, val):
        f = dict(self.fields)
        f[name] = val
        return self.with_(fields=f)

    def key(self):
        if self._k is None:
            self._k = (self.kind, self.cls, frozenset(self.fields.items()), self.segs,
                       frozenset(self.kvs.items()) if self.kvs is not None else None,
                       self.own, self.summ)
            self._h = hash(self._k)
        return self._k

    def all_vals(self):
        yield from self.fields.values()
        for s in self.segs:
            yield s[1]
            if s[0] in ('di', 'dr'):
                yield s[2]
        if self.kvs:
            yield from self.kvs.values()

    def map_vals(self, f, fl=None):
        segs = []
        for s in self.segs:
            if s[0] == 'i':
                segs.append(('i', f(s[1])))
            elif s[0] == 'r':
                segs.append(('r', f(s[1]), s[2], fl(s[3]) if fl else s[3]))
            elif s[0] == 'di':
                segs.append(('di', f(s[1]), f(s[2])))
            else:
                segs.append(('dr', f(s[1]), f(s[2]), s[3], fl(s[4]) if fl else s[4]))
        return self.with_(fields={k: f(v) for k, v in self.fields.items()}, segs=tuple(segs),
                          kvs={k: f(v) for k, v in self.kvs.items()} if self.kvs is not None else None)

    def __repr__(self):
        return 'Obj(%s%s %s segs=%s kvs=%s own=%s%s)' % (
            self.kind, ':' + str(self.cls) if self.cls else '', dict(self.fields) if self.fields else '',
            self.segs, self.kvs, self.own, ' summ' if self.summ else '')


def seg_vals(segs):
    out = BOT
    for s in segs:
        out |= s[1]
    return out


def join_segs(a, b, lenname):
    if a == b:
        return a
    # pointwise when the shapes agree
    if len(a) == len(b) and all(x[0] == y[0] for x, y in zip(a, b)):
        out = []
        for x, y in zip(a, b):
            if x[0] == 'i':
                out.append(('i', x[1] | y[1]))
            elif x[0] == 'r':
                out.append(('r', x[1] | y[1], x[2] if x[2] == y[2] else '?', x[3] if x[3] == y[3] else lenname))
            elif x[0] == 'di':
                out.append(('di', x[1] | y[1], x[2] | y[2]))
            else:
                out.append(('dr', x[1] | y[1], x[2] | y[2], x[3] if x[3] == y[3] else '?',
                            x[4] if x[4] == y[4] else lenname))
        return tuple(out)
    if any(s[0] in ('di', 'dr') for s in a + b):
        ks = vs = BOT
        for s in a + b:
            ks |= s[1]
            vs |= s[2]
        return (('dr', ks, vs, 'n' if a and b and nonempty(a) and nonempty(b) else '?', lenname),)
    return (('r', seg_vals(a) | seg_vals(b), 'n' if nonempty(a) and nonempty(b) else '?', lenname),)


def nonempty(segs):
    return any(s[0] in ('i', 'di') or (s[0] == 'r' and s[2] == 'n') or (s[0] == 'dr' and s[3] == 'n')
               for s in segs)


def join_obj(a, b, loc=None):
    if a is b or a.key() == b.key():
        return a
    fields = dict(a.fields)
    for k, v in b.fields.items():
        fields[k] = fields[k] | v if k in fields else v | V(ABSENT)
    for k in a.fields:
        if k not in b.fields:
            fields[k] = fields[k] | V(ABSENT)
    kvs = None
    if a.kvs is not None or b.kvs is not None:
        ak, bk = a.kvs or {}, b.kvs or {}
        kvs = dict(ak)
        for k, v in bk.items():
            kvs[k] = kvs[k] | v if k in kvs else v | V(ABSENT)
        for k in ak:
            if k not in bk:
                kvs[k] = kvs[k] | V(ABSENT)
    own = a.own if a.own == b.own else ('frozen' if 'frozen' in (a.own, b.own) else
                                       'user' if 'user' in (a.own, b.own) else 'fresh')
    return Obj(a.kind, a.cls if a.cls == b.cls else None, fields,
               join_segs(a.segs, b.segs, ('opq', 'len', loc)), kvs, own, a.summ or b.summ, a.site or b.site)


class State:
    __slots__ = ('heap', 'facts', 'bounds', 'ev', '_k')

    def __init__(self, heap=None, facts=None, bounds=None, ev=()):
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.bounds = bounds if bounds is not None else {}
        self.ev = ev

    def copy(self):
        return State(dict(self.heap), dict(self.facts), dict(self.bounds), self.ev)

    def key(self):
        return (frozenset((l, o.key()) for l, o in self.heap.items()),
                frozenset(self.facts.items()), frozenset(self.bounds.items()), self.ev)

    def hkey(self):
        return (frozenset((l, o.key()) for l, o in self.heap.items()), self.ev)


def join_states(a, b):
    heap = dict(a.heap)
    for l, o in b.heap.items():
        if l in heap:
            if heap[l] is not o:
                heap[l] = join_obj(heap[l], o, l)
        else:
            heap[l] = o
    facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
    bounds = {}
    for k, (lo, hi) in a.bounds.items():
        if k in b.bounds:
            l2, h2 = b.bounds[k]
            lo, hi = min(lo, l2), max(hi, h2)
            if lo > -INF or hi < INF:
                bounds[k] = (lo, hi)
    ev = a.ev
    for e in b.ev:
        if e not in ev:
            ev = ev + (e,)
    return State(heap, facts, bounds, ev)


# ------------------------------------------------------------------ linear integer terms

def as_lin(atom):
    """(const, {term: coef}) for integer atoms, or None."""
    if atom[0] == 'k':
        if isinstance(atom[2], int):
            return (int(atom[2]), {})
        return None
    if atom[0] == 's':
        e = atom[1]
        if e[0] == 'lin':
            return (e[1], dict(e[2]))
        return (0, {e: 1})
    return None


def from_lin(c, terms):
    terms = {t: k for t, k in terms.items() if k != 0}
    if not terms:
        return K(c)
    if c == 0 and len(terms) == 1:
        (t, k), = terms.items()
        if k == 1:
            return S(t)
    return S(('lin', c, tuple(sorted(terms.items(), key=repr))))


def lin_add(a, b, sign=1):
    la, lb = as_lin(a), as_lin(b)
    if la is None or lb is None:
        return None
    t = dict(la[1])
    for x, k in lb[1].items():
        t[x] = t.get(x, 0) + sign * k
    return from_lin(la[0] + sign * lb[0], t)


def lin_scale(a, n):
    la = as_lin(a)
    if la is None:
        return None
    return from_lin(la[0] * n, {t: k * n for t, k in la[1].items()})


def norm_part(terms):
    """canonical linear part and the sign it was multiplied with"""
    items = tuple(sorted(((t, k) for t, k in terms.items() if k), key=repr))
    if items and items[0][1] < 0:
        return tuple((t, -k) for t, k in items), -1
    return items, 1
