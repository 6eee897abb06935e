"""Models of the builtins and of the standard library the package uses."""
import ast
from .model import *
from .interp import EXC_BASES, BUILTIN_BASES

CLASSES = {'list', 'tuple', 'dict', 'set', 'frozenset', 'object', 'type', 'int', 'bool', 'str', 'float', 'bytes', 'range',
           'slice', 'Generic', 'ABCMeta', 'Enum', 'Integral', 'NoneType', 'collections.defaultdict', 'collections.OrderedDict',
           'function', 'generator', 'pvectorc.PVector', 'pvectorc.Evolver', 'Any', 'complex', 'Number'} | set(EXC_BASES)
BOOLEXPR = ('cmp', 'eq', 'is', 'isinst', 'typeis', 'not', 'hasattr', 'issub', 'in', 'callable', 'and', 'or')
NUMTAGS = ('lin', 'n', 'len', 'cnt', 'slen', 'count', 'sum')


def is_class(n):
    return n in CLASSES or n.startswith('collections.abc.')


def is_abc(I, name):
    return name in abc_defs(I)


def abc_defs(I):
    d = getattr(I, '_abcdefs', None)
    if d is None:
        d = {}
        for n in I.prog.modules['_collections_abc'].tree.body:
            if isinstance(n, ast.ClassDef):
                d[n.name] = n
        I._abcdefs = d
        env = ('mod', '_collections_abc')
        I.base[env] = Obj('env', None, {k: V(('b', 'collections.abc.' + k)) for k in d}, own='global')
        for n in d.values():
            for f in n.body:
                if isinstance(f, ast.FunctionDef):
                    names = [x.arg for x in f.args.args]
                    dl = ('fd', f._nid, 0)
                    fl = {}
                    for a, dv in zip(names[len(names) - len(f.args.defaults):], f.args.defaults):
                        if isinstance(dv, ast.Constant):
                            fl[a] = V(K(dv.value))
                        else:
                            fl[a] = V(S('glob', 'default', a))
                    I.base[dl] = Obj('env', None, fl, own='global')
    return d


def abc_mro(I, name):
    d = abc_defs(I)
    out = []

    def go(n):
        if n in d and 'collections.abc.' + n not in out:
            out.append('collections.abc.' + n)
            for b in d[n].bases:
                if isinstance(b, ast.Name):
                    go(b.id)
    go(name.rsplit('.', 1)[-1])
    return out


def abc_attr(I, cls, name):
    d = abc_defs(I)
    for c in abc_mro(I, cls):
        for f in d[c.rsplit('.', 1)[-1]].body:
            if isinstance(f, ast.FunctionDef) and f.name == name:
                fa = ('f', f._nid, ('mod', '_collections_abc'), None, ('fd', f._nid, 0))
                for dec in f.decorator_list:
                    if isinstance(dec, ast.Name) and dec.id == 'classmethod':
                        return ('cm', fa)
                return fa
    return None


def external(I, mod, name):
    if mod in ('collections.abc', '_collections_abc'):
        return ('b', 'collections.abc.' + name)
    if mod == 'typing':
        return ('b', name) if name in ('Generic', 'TypeVar', 'Any') else S('glob', 'typing', name)
    if mod == 'abc':
        return ('b', 'identity') if name == 'abstractmethod' else ('b', name)
    if mod == 'enum' and name == 'Enum':
        return ('b', 'Enum')
    if mod == 'numbers':
        return ('b', name)
    return ('b', mod + '.' + name)


OBJ_ATTRS = {'__new__', '__init__', '__setattr__', '__delattr__', '__eq__', '__ne__', '__hash__', '__repr__', '__str__',
             '__reduce__', '__getattribute__', '__init_subclass__', '__format__', '__reduce_ex__'}


def builtin_class_attr(I, cls, name):
    if cls.startswith('collections.abc.'):
        return abc_attr(I, cls, name)
    if cls in ('type', 'ABCMeta') and name in ('__new__', '__init__', '__call__'):
        return ('b', 'type.' + name)
    if cls in EXC_BASES and name in ('__init__', '__str__', '__new__', '__reduce__'):
        return ('b', 'exc.' + name)
    if cls in METHODS_OF and name in METHODS_OF[cls]:
        return ('b', cls + '.' + name)
    if cls == 'object' and name in OBJ_ATTRS:
        return ('b', 'object.' + name)
    return None


def builtin_attr(I, name, attr):
    if name.startswith('collections.abc.'):
        if attr == 'register':
            return ('bm', ('b', 'type.register'), ('b', name))
        a = abc_attr(I, name, attr)
        if a is not None:
            return a
    if attr == '__name__':
        return K(name)
    if attr == 'register' and is_class(name):
        return ('bm', ('b', 'type.register'), ('b', name))
    if name == 'os.environ' and attr == 'get':
        return ('b', 'os.environ.get')
    if name in METHODS_OF and attr in METHODS_OF[name]:
        return ('b', name + '.' + attr)
    return None


def binds(n):
    return '.' in n and not n.startswith(('collections.', 'operator.', 'functools.', 'itertools.', 'pvectorc.'))


LISTM = set('append extend insert pop remove reverse sort index count copy clear __len__ __getitem__ __setitem__ __delitem__ __iter__ __contains__ __add__ __eq__ __hash__'.split())
TUPM = set('index count __len__ __getitem__ __iter__ __contains__ __add__ __eq__ __hash__'.split())
DICTM = set('get items keys values pop setdefault update copy clear popitem __len__ __getitem__ __setitem__ __delitem__ __iter__ __contains__ __eq__ fromkeys'.split())
SETM = set('add discard remove update union difference intersection copy clear pop issubset issuperset isdisjoint symmetric_difference __len__ __iter__ __contains__ __eq__ difference_update intersection_update'.split())
PVM = set('evolver extend append set mset tolist delete remove index count transform _totuple __len__ __getitem__ __iter__ __contains__ __eq__ __hash__ __add__ __mul__ __reduce__ _to_list'.split())
PVE = set('set append extend persistent is_dirty delete __getitem__ __setitem__ __delitem__ __len__'.split())
METHODS_OF = {'list': LISTM, 'tuple': TUPM, 'dict': DICTM, 'set': SETM, 'frozenset': SETM, 'pvec': PVM, 'pvecev': PVE,
              'view': set('__len__ __iter__ __contains__ __eq__ isdisjoint'.split()), 'iter': {'__iter__', '__next__', 'send', 'close'}}


def has_method(kind, name):
    return name in METHODS_OF.get(kind, ())


# ------------------------------------------------------------------ helpers

def alloc(I, st, node, tag, kind, segs=(), kvs=None, **kw):
    return I.alloc(st, node, tag, Obj(kind, None, {}, tuple(segs), kvs if kind == 'dict' and kvs is not None else ({} if kind == 'dict' else None), **kw))


def opq_len(I, node, tag):
    fr = I.frames[-1] if I.frames else None
    return ('opq', tag, I.uid(node) if node is not None else 0, fr.ctx if fr else 0)


def lexpr(a):
    """length label of an integer atom"""
    if a is None:
        return ('opq', 'len?')
    return a if a[0] == 'k' else a[1]


def key_eq(I, st, a, b):
    """are two dict keys / elements equal: True / False / fact expression"""
    if a == b:
        if a[0] == 'l' and I.get(st, a[1]).summ:
            return ('eq', ('one', I.gvn(st, a)), ('another', I.gvn(st, a)))
        if a[0] == 's' and a[1][0] == 'id' and isinstance(a[1][1], tuple):
            try:
                if I.get(st, a[1][1]).summ:
                    return ('eq', ('one', a[1]), ('another', a[1]))
            except KeyError:
                pass
        return True
    con = ('k', 'c', 'b', 'f')
    if a[0] in con and b[0] in con:
        return a[0] == 'k' and b[0] == 'k' and a[2] == b[2]
    if a[0] == 's' and b[0] == 's' and a[1][0] == 'id' and b[1][0] == 'id':
        la, lb = a[1][1], b[1][1]
        if la[0] == 'p' and lb[0] == 'p':
            return ('eq',) + tuple(sorted((a[1], b[1]), key=repr))
        return False
    for x, y in ((a, b), (b, a)):
        if x[0] in con and y[0] == 'l' and I.get(st, y[1]).kind in ('tuple', 'list', 'dict', 'set'):
            return False
    ga, gb = I.gvn(st, a), I.gvn(st, b)
    if ga == gb:
        return True
    if a[0] == 'l' and b[0] == 'l':
        oa, ob = I.get(st, a[1]), I.get(st, b[1])
        if oa.kind in ('dict', 'set', 'frozenset') and oa.kind == ob.kind and I.transitive:
            r = unordered_eq(I, st, oa, ob)
            if r is not None:
                return r
        if (oa.kind == 'tuple' or I.transitive and oa.kind == 'list') and ob.kind == oa.kind and all(s[0] == 'i' for s in oa.segs + ob.segs):
            if len(oa.segs) != len(ob.segs):
                return False
            unk = []
            for x, y in zip(oa.segs, ob.segs):
                if len(x[1]) == 1 and len(y[1]) == 1:
                    r = key_eq(I, st, next(iter(x[1])), next(iter(y[1])))
                    if r is False:
                        return False
                    if r is not True:
                        unk.append(r)
                else:
                    unk.append(I.mkeq('eq', ga, gb))
            if not unk:
                return True
            e = unk[0] if len(unk) == 1 else ('and',) + tuple(unk)
            f = I.fact(st, e)
            return e if f is None else f
    e = I.mkeq('eq', ga, gb)
    f = I.fact(st, e)
    return e if f is None else f


def unordered_eq(I, st, oa, ob):
    """dicts and sets of known shape: True / False / fact expression, None if nothing is known"""
    def known(o):
        if o.kind != 'dict':
            return [(next(iter(s[1])), None) for s in o.segs] if all(s[0] == 'i' and len(s[1]) == 1 for s in o.segs) else None
        r = [(k, v) for k, v in (o.kvs or {}).items()] + [(next(iter(s[1])), s[2]) for s in o.segs if s[0] == 'di' and len(s[1]) == 1]
        if len(r) != len(o.kvs or {}) + len(o.segs) or any(len(v) != 1 for k, v in r):
            return None
        return [(k, next(iter(v))) for k, v in r]
    a, b = known(oa), known(ob)
    if a is None or b is None:
        return None
    unk = []
    for x, y in ((a, b), (b, a)):
        for k, v in x:
            rs = [(key_eq(I, st, k, k2), v2) for k2, v2 in y]
            hit = [v2 for r, v2 in rs if r is True]
            if not hit:
                if all(r is False for r, _ in rs):
                    return False
                return None
            if v is not None:
                r = key_eq(I, st, v, hit[0])
                if r is False:
                    return False
                if r is not True and r not in unk:
                    unk.append(r)
    if not unk:
        return True
    e = unk[0] if len(unk) == 1 else ('and',) + tuple(unk)
    f = I.fact(st, e)
    return e if f is None else f


def fork(I, st, r):
    """[(state, bool)] of True/False/expr"""
    if r is True or r is False:
        return [(st, r)]
    out = []
    for v in (True, False):
        s2 = I.assume(st, r, v)
        if s2 is not None:
            out.append((s2, v))
    return out


MISS = ('miss',)


def dict_lookup(I, st, loc, k, node):
    """[(state, value atom or MISS)]"""
    o = I.get(st, loc)
    out = []
    cur = [st]
    gk = I.gvn(st, k)
    const = k[0] in ('k', 'c', 'b')
    # later entries first
    for idx in range(len(o.segs) - 1, -1, -1):
        s = o.segs[idx]
        nxt = []
        for c in cur:
            if s[0] == 'di':
                done = False
                if len(s[1]) == 1:
                    (k2,) = s[1]
                    for c2, b in fork(I, c, key_eq(I, c, k, k2)):
                        if b:
                            for c3, v in I.pick(c2, s[2], ('key', gk)):
                                out.append((c3, v))
                        else:
                            nxt.append(c2)
                else:
                    e = ('has1', loc, idx, gk)
                    for k2 in s[1]:
                        if key_eq(I, c, k, k2) is not False:
                            break
                    else:
                        nxt.append(c)
                        continue
                    for c2, b in fork(I, c, I.fact(c, e) if I.fact(c, e) is not None else e):
                        if b:
                            for c3, v in I.pick(c2, s[2], ('key', gk)):
                                out.append((c3, v))
                        else:
                            nxt.append(c2)
            else:
                ks = s[1]
                if ks and not any(a[0] == 'pe' for a in ks) and all(
                        not isinstance(key_eq(I, c, k, a), tuple) and key_eq(I, c, k, a) is False for a in ks):
                    nxt.append(c)
                    continue
                e = ('has', loc, gk)
                f = I.fact(c, e)
                if f is None and any(a[0] == 'pe' and a[1][0] != 'p' for a in ks):
                    srcs = [a[1] for a in ks if a[0] == 'pe']
                    e = ('in', gk, srcs[0])
                    f = I.fact(c, e)
                for c2, b in fork(I, c, e if f is None else f):
                    if b:
                        for c3, v in I.pick(c2, s[2], ('key', gk)):
                            out.append((c3, v))
                    else:
                        nxt.append(c2)
        cur = nxt
        if not cur:
            return out
    kvs = o.kvs or {}
    if const:
        v = kvs.get(k)
        for c in cur:
            if v is None:
                out.append((c, MISS))
            else:
                for a in sorted(v, key=repr):
                    c2 = c
                    if len(v) > 1 and not o.summ:
                        kv = dict(kvs)
                        if a == ABSENT:
                            del kv[k]
                        else:
                            kv[k] = V(a)
                        c2 = I.put(c, loc, I.get(c, loc).with_(kvs=kv))
                    if a == ABSENT:
                        out.append((c2, MISS))
                    elif a[0] == 'pe':
                        out.extend(I.pick(c2, V(a), ('key', gk)))
                    else:
                        out.append((c2, a))
        return out
    for ck, v in sorted(kvs.items(), key=repr):
        nxt = []
        for c in cur:
            for c2, b in fork(I, c, key_eq(I, c, k, ck)):
                if b:
                    for a in sorted(v, key=repr):
                        if a == ABSENT:
                            nxt.append(c2)
                        elif a[0] == 'pe':
                            out.extend(I.pick(c2, V(a), ('key', gk)))
                        else:
                            out.append((c2, a))
                else:
                    nxt.append(c2)
        cur = nxt
    return out + [(c, MISS) for c in cur]


def dict_set(I, st, loc, k, v, node, write=True):
    o = I.get(st, loc)
    if k[0] in ('k', 'c', 'b') and not o.summ and not any(s[0] == 'dr' for s in o.segs):
        kv = dict(o.kvs)
        kv[k] = V(v)
        o2 = o.with_(kvs=kv)
    else:
        segs = list(o.segs)
        segs = [s for s in segs if not (s[0] == 'di' and len(s[1]) == 1 and key_eq(I, st, next(iter(s[1])), k) is True)]
        hit = [ck for ck in (o.kvs or {}) if key_eq(I, st, k, ck) is True]
        if hit and not o.summ:
            kv = dict(o.kvs)
            kv[hit[0]] = V(v)
            o2 = o.with_(kvs=kv)
        else:
            segs.append(('di', V(k), V(v)))
            if len(segs) > 8:
                ks = vs = BOT
                for s in segs:
                    ks |= s[1]
                    vs |= s[2]
                segs = [('dr', ks, vs, 'n', ('opq', 'dict', loc))]
            o2 = o.with_(segs=tuple(segs))
    st = I.write(st, loc, o2, node, 'dict item', v)
    gk = I.gvn(st, k)
    if ('has', loc, gk) in st.facts:
        st = st.copy()
        st.facts[('has', loc, gk)] = True
    return st


def dict_del(I, st, loc, k, node):
    o = I.get(st, loc)
    kv = dict(o.kvs or {})
    gk = I.gvn(st, k)
    if k in kv:
        del kv[k]
        segs = o.segs
    else:
        segs = tuple(s for s in o.segs if not (s[0] == 'di' and len(s[1]) == 1 and key_eq(I, st, next(iter(s[1])), k) is True))
        if segs == o.segs:
            hit = False
            for ck in list(kv):
                r = key_eq(I, st, k, ck)
                if r is True:
                    del kv[ck]
                    hit = True
                elif r is not False:
                    kv[ck] = kv[ck] | V(ABSENT)
            if not hit:
                segs = tuple(s if s[0] == 'di' else ('dr', s[1], s[2], '?', ('opq', 'del', loc)) for s in segs)
    st = I.write(st, loc, o.with_(kvs=kv, segs=segs), node, 'dict item deletion')
    st = st.copy()
    st.facts[('has', loc, gk)] = False
    return st


def dict_contains(I, st, loc, k, node):
    o = I.get(st, loc)
    hashcheck(I, st, k, node)
    return [(s, K(v is not MISS)) for s, v in dict_lookup(I, st, loc, k, node)]


def hashcheck(I, st, k, node):
    if k[0] == 's' and I.implicit:
        s2 = I.assume(st, ('unhashable', k[1]), True)
        if s2 is not None:
            I.raise_name(s2, 'TypeError', node, implicit=True)


def seq_contains(I, st, segs, x, node):
    out = []
    cur = [st]
    gx = I.gvn(st, x)
    for i, s in enumerate(segs):
        nxt = []
        for c in cur:
            if s[0] in ('i', 'di'):
                for a in sorted(s[1], key=repr):
                    if a[0] in ('pe', 'pair'):
                        e = ('in', gx, I.gvn(c, a))
                        r = I.fact(c, e)
                        r = e if r is None else r
                    else:
                        rr = list(I.rich(c, '==', a, x, node)) if a[0] == 'l' else None
                        if rr is not None:
                            for c2, v in rr:
                                for c3, b in I.truth(c2, v):
                                    if b:
                                        out.append((c3, TRUE))
                                    else:
                                        nxt.append(c3)
                            continue
                        r = key_eq(I, c, x, a)
                    for c2, b in fork(I, c, r):
                        if b:
                            out.append((c2, TRUE))
                        else:
                            nxt.append(c2)
            else:
                con = True
                for a in s[1]:
                    if a[0] in ('pe', 'pair', 's', 'l') or key_eq(I, c, x, a) is not False:
                        con = False
                if con:
                    nxt.append(c)
                    continue
                e = ('in', gx, ('r', I.gvnset(c, s[1]), s[3]))
                f = I.fact(c, e)
                for c2, b in fork(I, c, e if f is None else f):
                    if b:
                        out.append((c2, TRUE))
                    else:
                        nxt.append(c2)
        cur = I.dedupe(nxt)
    return out + [(c, FALSE) for c in cur]


def map_segs(I, st, segs, node, fn, kind='iter', tag='map'):
    """loop over segs building a new sequence; fn(st, x) -> [(st, atom)] (None atom: skip)"""
    st, acc = alloc(I, st, node, tag, kind)
    loc = acc[1]
    fr = I.frames[-1] if I.frames else None

    def body(c, x):
        r = []
        I.pins.append([acc])
        for c2, v in fn(c, x):
            if v is None:
                r.append((c2, 'next', None))
            else:
                o = I.get(c2, loc)
                r.append((I.put(c2, loc, o.with_(segs=o.segs + (('i', V(v)),))), 'next', None))
        I.pins.pop()
        return r
    I.pins.append([acc])
    outs = I.loop(st, segs, node, body, fr, tag=tag)
    I.pins.pop()
    return [(s, acc) for s, k, _ in outs if k == 'next']


def each(I, st, segs, node, fn, tag='each'):
    fr = I.frames[-1] if I.frames else None
    return [s for s, k, _ in I.loop(st, segs, node, lambda c, x: [(c2, 'next', None) for c2 in fn(c, x)], fr, tag=tag)]


def slice_segs(I, st, o, sl, node):
    """[(state, segs)] of a slice of a sequence"""
    out = []
    cur = [(st, [])]
    sloc = sl[1]
    so = I.get(st, sloc)
    combos = [(st, ())]
    for f in ('start', 'stop', 'step'):
        nxt = []
        for c, l in combos:
            for c2, v in I.getattr_(c, sl, f, node):
                nxt.append((c2, l + (v,)))
        combos = nxt
    res = []
    for c, (a, b, s) in combos:
        segs = o.segs
        if all(x[0] == 'k' for x in (a, b, s)) and all(x[0] == 'i' for x in segs):
            try:
                res.append((c, tuple(list(segs)[slice(a[2], b[2], s[2])])))
                continue
            except Exception:
                I.raise_name(c, 'TypeError', node, implicit=True)
                continue
        if a == NONE and b == NONE and s == NONE:
            res.append((c, segs))
            continue
        # constant prefix dropped from leading items: l[1:]
        if a[0] == 'k' and isinstance(a[2], int) and a[2] >= 0 and b == NONE and s in (NONE, K(1)):
            n = a[2]
            if len(segs) >= n and all(x[0] == 'i' for x in segs[:n]):
                res.append((c, segs[n:]))
                continue
            if len(segs) == 1 and segs[0][0] == 'r':
                r = segs[0]
                tot = r[3] if r[3][0] == 'k' else ('s', r[3] if r[3][0] in NUMTAGS else ('count', r[3]))
                d = I.decide_cmp(c, '>=', tot, K(n))
                if r[2] == 'n' and n == 1 or d is True:
                    res.append((c, (('r', r[1], '?', lexpr(lin_add(tot, K(-n)))),)))
                    continue
        tot = K(0)
        for x in segs:
            tot = lin_add(tot, K(1)) if x[0] == 'i' else lin_add(tot, x[3] if x[3][0] == 'k' else ('s', x[3] if x[3][0] in NUMTAGS else ('count', x[3])))
        vals = seg_vals(segs)
        lab = ('slen', lexpr(tot), I.gvn(c, a), I.gvn(c, b), I.gvn(c, s))
        la = S(lab)
        c2 = I.assume_cmp(c, '<=', la, tot, True) or c
        if s in (NONE, K(1)):
            if b == NONE and a != NONE and as_lin(a) is not None:
                # x[-m:] has at most m elements when m > 0
                if I.decide_cmp(c2, '<', a, K(0)):
                    c2 = I.assume_cmp(c2, '<=', la, lin_scale(a, -1), True) or c2
            if a == NONE and b != NONE and as_lin(b) is not None:
                if I.decide_cmp(c2, '>=', b, K(0)):
                    c2 = I.assume_cmp(c2, '<=', la, b, True) or c2
            if a != NONE and b != NONE and as_lin(a) is not None and as_lin(b) is not None:
                if I.decide_cmp(c2, '>=', a, K(0)) and I.decide_cmp(c2, '>=', b, a):
                    c2 = I.assume_cmp(c2, '<=', la, lin_add(b, a, -1), True) or c2
        res.append((c2, (('r', vals, '?', lab),)))
    return res


# ------------------------------------------------------------------ items

def seq_index(I, st, loc, o, i, node):
    segs = o.segs
    if i[0] == 'k' and isinstance(i[2], int):
        n = i[2]
        ss = segs if n >= 0 else tuple(reversed(segs))
        k = n if n >= 0 else -n - 1
        if len(ss) > k and all(x[0] == 'i' for x in ss[:k + 1]):
            return I.pick(st, ss[k][1], ('ix', i))
        if all(x[0] == 'i' for x in ss):
            I.raise_name(st, 'IndexError', node, implicit=True)
            return []
        if n == 0 and ss and ss[0][0] == 'r':
            pass
    # unknown position
    if not segs:
        I.raise_name(st, 'IndexError', node, implicit=True)
        return []
    tot = I.length(st, ('l', loc))
    if as_lin(i) is not None and tot is not None:
        inr = I.decide_cmp(st, '<', i, tot) is True and I.decide_cmp(st, '>=', i, K(0)) is True
    else:
        inr = False
    gi = I.gvn(st, i)
    rd = ('rd', loc, gi)
    known = st.facts.get(rd)
    if known is not None:
        return [(st, known)]
    if not inr:
        I.raise_name(st, 'IndexError', node, implicit=True)
    out = I.pick(st, seg_vals(segs), ('ix', gi))
    if o.summ or len(out) < 2:
        return out
    # reading the same item again gives the same object until the container is written
    res = []
    for s, a in out:
        s = s.copy()
        s.facts[rd] = a
        res.append((s, a))
    return res


def getitem(I, st, loc, o, i, node):
    k = o.kind
    if k == 'dict':
        out = []
        for s, v in dict_lookup(I, st, loc, i, node):
            if v is MISS:
                if o.cls == 'collections.defaultdict':
                    out.append((s, S('default', I.gvn(s, i))))
                else:
                    I.raise_name(s, 'KeyError', node, implicit=o.own not in ('fresh',) or True)
            else:
                out.append((s, v))
        return out
    if i[0] == 'l' and I.get(st, i[1]).kind == 'slice':
        out = []
        for s, segs in slice_segs(I, st, o, i, node):
            so = I.get(s, i[1])
            if k == 'pvec' and all(so.fields[f] == V(NONE) for f in ('start', 'stop', 'step')):
                out.append((s, ('l', loc)))
                continue
            out.append(alloc(I, s, node, 'sliced', k if k != 'pvecev' else 'list', segs))
        return out
    if i[0] == 's' and I.isinst_fact(st, i[1], ('b', 'slice')):
        return [alloc(I, st, node, 'sliced', k if k != 'pvecev' else 'list', (('r', seg_vals(o.segs), '?', ('slen', lexpr(I.length(st, ('l', loc))), i[1])),))]
    if k in ('list', 'tuple', 'pvec', 'pvecev', 'iter', 'view'):
        return seq_index(I, st, loc, o, i, node)
    return [(st, S('idx', I.gvn(st, ('l', loc)), I.gvn(st, i)))]


def weak_set(I, st, loc, o, i, val):
    segs = o.segs
    if i[0] == 'k' and isinstance(i[2], int) and all(x[0] == 'i' for x in segs) and -len(segs) <= i[2] < len(segs):
        l = list(segs)
        l[i[2]] = ('i', V(val))
        return tuple(l)
    tot = I.length(st, ('l', loc))
    return (('r', seg_vals(segs) | V(val), 'n', lexpr(tot)),)


def setitem(I, st, loc, o, i, val, node):
    if o.kind == 'dict':
        hashcheck(I, st, i, node)
        return [dict_set(I, st, loc, i, val, node)]
    if o.kind in ('list', 'pvecev'):
        if i[0] == 'l' and I.get(st, i[1]).kind == 'slice':
            out = []
            for s, sg in I.iterate(st, val, node):
                o2 = I.get(s, loc)
                out.append(I.write(s, loc, o2.with_(segs=(('r', seg_vals(o2.segs) | seg_vals(sg), '?', opq_len(I, node, 'sl')),)), node, 'slice assignment', val))
            return out
        if o.kind == 'list' and i[0] == 'k' and not o.segs:
            I.raise_name(st, 'IndexError', node, implicit=True)
            return []
        h = I.hooks.get('store')
        if h:
            h(I, st, loc, o, i, val, node)
        if i[0] != 'k':
            I.raise_name(st, 'IndexError', node, implicit=True)
        o2 = o.with_(segs=weak_set(I, st, loc, o, i, val))
        if o.kind == 'pvecev':
            f = dict(o2.fields)
            f['dirty'] = V(TRUE)
            o2 = o2.with_(fields=f)
        return [I.write(st, loc, o2, node, 'item assignment', val)]
    I.raise_name(st, 'TypeError', node, implicit=True)
    return []


def delitem(I, st, loc, o, i, node):
    if o.kind == 'dict':
        out = []
        for s, v in dict_lookup(I, st, loc, i, node):
            if v is MISS:
                I.raise_name(s, 'KeyError', node, implicit=True)
            else:
                out.append(dict_del(I, s, loc, i, node))
        return out
    if o.kind in ('list', 'pvecev'):
        if i[0] != 'k' or o.segs[:1] != () and o.segs[0][0] != 'i':
            I.raise_name(st, 'IndexError', node, implicit=True)
        if i[0] == 'k' and isinstance(i[2], int) and all(x[0] == 'i' for x in o.segs) and -len(o.segs) <= i[2] < len(o.segs):
            l = list(o.segs)
            del l[i[2]]
            segs = tuple(l)
        elif i[0] == 'k' and isinstance(i[2], int) and all(x[0] == 'i' for x in o.segs):
            I.raise_name(st, 'IndexError', node, implicit=True)
            return []
        elif not o.segs:
            if not (i[0] == 'l' or i[0] == 's'):
                I.raise_name(st, 'IndexError', node, implicit=True)
                return []
            segs = ()
        else:
            segs = (('r', seg_vals(o.segs), '?', ('opq', 'del', I.uid(node), lexpr(I.length(st, ('l', loc))))),)
        o2 = o.with_(segs=segs)
        if o.kind == 'pvecev':
            f = dict(o2.fields)
            f['dirty'] = V(TRUE)
            o2 = o2.with_(fields=f)
        return [I.write(st, loc, o2, node, 'item deletion')]
    I.raise_name(st, 'TypeError', node, implicit=True)
    return []


# ------------------------------------------------------------------ operators

def binop(I, st, op, a, b, node, inplace=False):
    oa = I.get(st, a[1]) if a[0] == 'l' else None
    ob = I.get(st, b[1]) if b[0] == 'l' else None
    va = I.view(st, a)
    if va != a:
        oa = I.get(st, va[1])
        a = va
    ka = oa.kind if oa is not None else None
    kb = ob.kind if ob is not None else None
    if op == '+' and ka in ('list', 'tuple', 'pvec') :
        if inplace and ka == 'list':
            return [(s, a) for s, _ in call_builtin(I, st, 'list.extend', [a, b], {}, node)]
        out = []
        for s, sg in I.iterate(st, b, node):
            s2, l = alloc(I, s, node, 'concat', ka, oa.segs + tuple(sg))
            out.append((s2, l))
        return out
    if op == '*' and (ka in ('list', 'tuple', 'pvec') or kb in ('list', 'tuple', 'pvec')):
        if ka not in ('list', 'tuple', 'pvec'):
            a, b, oa, ob, ka, kb = b, a, ob, oa, kb, ka
        n = b
        if kb is not None and kb != 'inst' or (n[0] == 'k' and not isinstance(n[2], int)):
            I.raise_name(st, 'TypeError', node, implicit=True)
            return []
        if n[0] == 'k' and isinstance(n[2], int) and all(s[0] == 'i' for s in oa.segs) and len(oa.segs) * max(n[2], 0) <= 4:
            return [alloc(I, st, node, 'rep', ka, oa.segs * max(n[2], 0))]
        vals = seg_vals(oa.segs)
        if not vals:
            return [alloc(I, st, node, 'rep', ka, ())]
        if len(oa.segs) == 1 and oa.segs[0][0] == 'i' and as_lin(n) is not None:
            lab = lexpr(n)
        else:
            lab = ('opq', 'rep', lexpr(I.length(st, a)), I.gvn(st, n))
        emp = 'n' if I.decide_cmp(st, '>', n, K(0)) is True and nonempty(oa.segs) else '?'
        return [alloc(I, st, node, 'rep', ka, (('r', vals, emp, lab),))]
    if op in '-|&^' and ka in ('set', 'frozenset', 'view') or (op in '-|&^' and kb in ('set', 'frozenset') and ka is not None and ka != 'inst'):
        return set_op(I, st, op, a, b, node)
    if op == '|' and ka == 'dict':
        s2, d = call_builtin(I, st, 'dict', [a], {}, node)[0]
        return [(s3, d) for s3, _ in call_builtin(I, s2, 'dict.update', [d, b], {}, node)]
    return None


def set_op(I, st, op, a, b, node):
    out = []
    for s, sa in I.iterate(st, a, node):
        for s2, sb in I.iterate(s, b, node):
            if op == '|':
                out.append(alloc(I, s2, node, 'setop', 'set', sa + tuple(sb)))
                continue
            if all(x[0] == 'i' for x in sa) and op in '-&':
                cur = [(s2, ())]
                for x in sa:
                    nxt = []
                    for c, l in cur:
                        for c1, xa in I.pick(c, x[1], ('setop',)):
                            for c2, r in seq_contains(I, c1, sb, xa, node):
                                hit = r == TRUE
                                nxt.append((c2, l + (('i', V(xa)),) if hit == (op == '&') else l))
                    cur = nxt
                out.extend(alloc(I, c, node, 'setop', 'set', l) for c, l in cur)
            else:
                vals = seg_vals(sa) | (seg_vals(sb) if op == '^' else BOT)
                lab = ('opq', 'setop', op, I.gvn(s2, a), I.gvn(s2, b))
                out.append(alloc(I, s2, node, 'setop', 'set', (('r', vals, '?', lab),) if vals else ()))
    return out


def isnum(a):
    return (a[0] == 'k' and isinstance(a[2], (int, float))) or (a[0] == 's' and a[1][0] in NUMTAGS)


def builtin_cmp(I, st, op, a, b, node):
    if a[0] == 'k' and b[0] == 'k':
        try:
            return [(st, K(bool(eval('x %s y' % op, {}, {'x': a[2], 'y': b[2]}))))]
        except Exception:
            I.raise_name(st, 'TypeError', node, implicit=True)
            return []
    if op in ('==', '!='):
        if isnum(a) or isnum(b):
            if a[0] in 'ks' and b[0] in 'ks' and as_lin(a) is not None and as_lin(b) is not None:
                r = I.decide_cmp(st, op, a, b)
                if r is not None:
                    return [(st, K(r))]
                e = ('cmp', '==', a, b)
                return [(st, S(e) if op == '==' else S('not', e))]
        r = key_eq(I, st, a, b)
        if r is True or r is False:
            if r is False and a[0] == 'l' and b[0] == 'l' and I.get(st, a[1]).kind not in ('tuple',):
                pass
            return [(st, K(r == (op == '==')))]
        # containers of different builtin kinds are never equal
        if a[0] == 'l' and b[0] == 'l':
            ka, kb = I.get(st, a[1]).kind, I.get(st, b[1]).kind
            if ka != kb and {ka, kb} <= {'list', 'tuple', 'dict', 'set'}:
                return [(st, K(op == '!='))]
        return [(st, S(r) if op == '==' else S('not', r))]
    if as_lin(a) is not None and as_lin(b) is not None and a[0] in 'ks' and b[0] in 'ks':
        r = I.decide_cmp(st, op, a, b)
        if r is not None:
            return [(st, K(r))]
        return [(st, S('cmp', op, a, b))]
    if a[0] == 'k' and isinstance(a[2], float) or b[0] == 'k' and isinstance(b[2], float):
        return [(st, S('t', ('op', op, I.gvn(st, a), I.gvn(st, b))))]
    return [(st, S('op', op, I.gvn(st, a), I.gvn(st, b)))]


# ------------------------------------------------------------------ calls

def call_builtin(I, st, name, args, kw, node, star=None, dstar=None):
    if star is not None:
        out = []
        for s, segs in I.iterate(st, star, node):
            if all(x[0] == 'i' for x in segs):
                cur = [(s, [])]
                for x in segs:
                    cur = [(s3, l + [y]) for s2, l in cur for s3, y in I.pick(s2, x[1], ('star',))]
                for s2, l in cur:
                    out.extend(call_builtin(I, s2, name, list(args) + l, kw, node, None, dstar))
            else:
                f = FUNCS_STAR.get(name)
                if f:
                    out.extend(f(I, s, args, segs, node))
                else:
                    out.append((s, S('call', ('b', name), tuple(I.gvn(s, a) for a in args), I.gvn(s, star))))
        return out
    if dstar is not None:
        if name == 'dict':
            res = []
            for s, d in call_builtin(I, st, 'dict', args, kw, node):
                res.extend((s2, d) for s2, _ in call_builtin(I, s, 'dict.update', [d, dstar], {}, node))
            return res
    f = FUNCS.get(name)
    if f is None:
        short = name.rsplit('.', 1)[-1]
        pre = name.rsplit('.', 1)[0] if '.' in name else ''
        if name in EXC_BASES:
            return [I.alloc(st, node, 'exc-' + name, Obj('exc', ('b', name), {'args': BOT or V(K('...'))}))]
        if pre == 'exc':
            return [(st, NONE)]
        if pre in ('list', 'tuple', 'dict', 'set', 'frozenset', 'pvec', 'pvecev', 'view', 'iter') and args:
            r = generic_method(I, st, pre, short, args, kw, node)
            if r is not None:
                return r
        if pre in ('str', 'int', 'float', 'bool', 'NoneType') and args and all(a[0] == 'k' for a in args) and not kw:
            try:
                v = getattr(args[0][2], short)(*[a[2] for a in args[1:]])
                if isinstance(v, (str, int, bool, float, type(None))):
                    return [(st, K(v))]
                if isinstance(v, list) and len(v) < 10:
                    return [alloc(I, st, node, 'strlist', 'list', tuple(('i', V(K(x))) for x in v))]
            except AttributeError:
                I.raise_name(st, 'AttributeError', node, implicit=True)
                return []
            except Exception:
                pass
        if pre == 'operator' and len(args) == 2 and short in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            return I.rich(st, {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[short], args[0], args[1], node)
        if pre == 'NoneType':
            I.raise_name(st, 'AttributeError', node, implicit=True)
            return []
        for a in args:
            if a[0] == 's' and I.implicit:
                pass
        return [(st, S(('call', ('b', name)) + tuple(I.gvn(st, a) for a in args) + tuple((k, I.gvn(st, v)) for k, v in sorted(kw.items()))))]
    I.pins.append(list(args) + list(kw.values()))
    try:
        return f(I, st, args, kw, node)
    finally:
        I.pins.pop()


def generic_method(I, st, kind, meth, args, kw, node):
    a = args[0]
    if meth == '__len__':
        return [(st, I.length(st, a))]
    if meth == '__iter__':
        return FUNCS['iter'](I, st, [a], {}, node)
    if meth == '__getitem__':
        return I.getitem(st, a, args[1], node)
    if meth == '__setitem__':
        return [(s, NONE) for s in I.setitem(st, a, args[1], args[2], node)]
    if meth == '__delitem__':
        return [(s, NONE) for s in I.delitem(st, a, args[1], node)]
    if meth == '__contains__':
        return I.contains_(st, a, args[1], node)
    if meth == '__add__':
        return I.binop(st, '+', a, args[1], node)
    if meth == '__eq__':
        return builtin_cmp(I, st, '==', a, args[1], node)
    if meth == '__hash__':
        return FUNCS['hash'](I, st, [a], {}, node)
    return None


FUNCS = {}
FUNCS_STAR = {}


def B(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


def const1(I, st, args, kw, node):
    return [(st, NONE)]


@B('len')
def _(I, st, args, kw, node):
    a = args[0]
    v = I.view(st, a)
    if v[0] == 'l' and I.get(st, v[1]).kind == 'inst':
        m = I.special(st, v, '__len__')
        if m:
            return I.call(st, m, [], {}, node)
        I.raise_name(st, 'TypeError', node, implicit=True)
        return []
    if v[0] == 's' and I.leaf(v[1]):
        return []
    n = I.length(st, v)
    if n is None:
        I.raise_name(st, 'TypeError', node, implicit=True)
        return []
    if a[0] == 's' and (I.handlers or I.implicit) and not I.isinst_any(st, a[1]):
        I.opaque_raises(st, ('len', a[1]), node)
    return [(st, n)]


@B('isinstance')
def _(I, st, args, kw, node):
    return [(st, I.isinstance_(st, args[0], args[1]))]


@B('issubclass')
def _(I, st, args, kw, node):
    a, t = args
    if t[0] == 'l':
        res = [x for s in I.get(st, t[1]).segs for x in s[1]]
        rs = [issub1(I, st, a, x) for x in res]
        if TRUE in rs:
            return [(st, TRUE)]
        rs = [r for r in rs if r != FALSE]
        if not rs:
            return [(st, FALSE)]
        return [(st, rs[0] if len(rs) == 1 else S(('or',) + tuple(r[1] for r in rs)))]
    return [(st, issub1(I, st, a, t))]


def issub1(I, st, a, t):
    if a[0] in ('c', 'b') and t[0] in ('c', 'b'):
        r = I.subclass(st, a, t)
        if r is not None:
            return K(r)
    e = ('issub', I.gvn(st, a), t if t[0] in ('c', 'b') else I.gvn(st, t))
    f = I.fact(st, e)
    return K(f) if f is not None else S(e)


@B('callable')
def _(I, st, args, kw, node):
    a = args[0]
    if a[0] in ('f', 'bm', 'c', 'b', 'sm', 'cm', 'part'):
        return [(st, TRUE)]
    if a[0] == 'l':
        return [(st, K(I.special(st, a, '__call__') is not None))]
    if a[0] == 'k':
        return [(st, FALSE)]
    e = ('callable', I.gvn(st, a))
    f = I.fact(st, e)
    return [(st, K(f) if f is not None else S(e))]


@B('hasattr')
def _(I, st, args, kw, node):
    a, n = args
    if n[0] != 'k':
        return [(st, S('hasattr', I.gvn(st, a), I.gvn(st, n)))]
    name = n[2]
    v = I.view(st, a)
    if v[0] == 'l':
        loc = v[1]
        o = I.get(st, loc)
        if o.kind == 'inst':
            if name in o.fields:
                vs = o.fields[name]
                if ABSENT not in vs:
                    return [(st, TRUE)]
                if vs == V(ABSENT):
                    return [(st, FALSE)]
                return [(I.put(st, loc, o.setf(name, vs - V(ABSENT))), TRUE), (I.put(st, loc, o.setf(name, V(ABSENT))), FALSE)]
            if I.class_lookup_set(st, o.cls, name):
                return [(st, TRUE)]
            if I.is_slot(st, o.cls, name):
                if loc[0] == 'p':
                    g = I.gvn(st, v)
                    return [(I.put(st, loc, o.setf(name, V(S('memo', g, name)))), TRUE), (I.put(st, loc, o.setf(name, V(ABSENT))), FALSE)]
                return [(st, FALSE)]
            return [(st, FALSE)]
        return [(st, K(has_method(o.kind, name)))]
    if a[0] == 's':
        e = ('hasattr', a[1], name)
        f = I.fact(st, e)
        return [(st, K(f) if f is not None else S(e))]
    return [(st, TRUE)]


@B('getattr')
def _(I, st, args, kw, node):
    a, n = args[:2]
    d = args[2] if len(args) > 2 else None
    if n[0] == 'k':
        return I.getattr_(st, a, n[2], node, d)
    ga, gn = I.gvn(st, a), I.gvn(st, n)
    out = [(st, S('attrdyn', ga, gn))]
    if d is not None:
        out.append((st, d))
    return out


@B('setattr', 'object.__setattr__')
def _(I, st, args, kw, node):
    a, n, v = args
    direct = False
    if n[0] == 'k':
        return [(s, NONE) for s in I.setattr_(st, a, n[2], v, node, direct=direct)]
    if a[0] == 'l':
        o = I.get(st, a[1])
        return [(I.write(st, a[1], o.setf('$dyn', o.fields.get('$dyn', BOT) | V(v)), node, 'attribute <dynamic>', v), NONE)]
    return [(st, NONE)]


def _osa(I, st, args, kw, node):
    a, n, v = args
    if n[0] == 'k':
        return [(s, NONE) for s in I.setattr_(st, a, n[2], v, node, direct=True)]
    if a[0] == 'l':
        o = I.get(st, a[1])
        return [(I.write(st, a[1], o.setf('$dyn', o.fields.get('$dyn', BOT) | V(v)), node, 'attribute <dynamic>', v), NONE)]
    return [(st, NONE)]


FUNCS['object.__setattr__'] = _osa


@B('object.__delattr__', 'delattr')
def _(I, st, args, kw, node):
    if args[1][0] == 'k':
        return [(s, NONE) for s in I.delattr_(st, args[0], args[1][2], node, direct=True)]
    return [(st, NONE)]


@B('object.__new__', 'exc.__new__')
def _(I, st, args, kw, node):
    c = args[0]
    if c[0] == 's':
        return [I.alloc(st, node, 'new-opaque', Obj('obj'))]
    return [I.new_inst(st, c, node)]


@B('object.__init__', 'exc.__init__', 'object.__init_subclass__', 'type.__init__')
def _(I, st, args, kw, node):
    return [(st, NONE)]


@B('object')
def _(I, st, args, kw, node):
    return [I.alloc(st, node, 'object', Obj('obj'))]


@B('type.__new__')
def _(I, st, args, kw, node):
    if len(args) == 4:
        return I.type_new(st, args[0], args[1], args[2], args[3], node)
    return FUNCS['type'](I, st, args[1:], kw, node)


@B('type.__call__')
def _(I, st, args, kw, node):
    return I.instantiate(st, args[0], args[1:], kw, node)


@B('type.register')
def _(I, st, args, kw, node):
    I.registry.setdefault(args[0], set()).add(args[1])
    return [(st, args[1])]


@B('type')
def _(I, st, args, kw, node):
    if len(args) == 3:
        return I.type_new(st, ('b', 'type'), args[0], args[1], args[2], node)
    a = args[0]
    v = I.view(st, a)
    t = I.type_of(st, a)
    if t is not None:
        return [(st, t)]
    for k, val in st.facts.items():
        if val and k[0] == 'typeis' and k[1] == a[1]:
            return [(st, k[2])]
    return [(st, S('type', I.gvn(st, a)))]


@B('id')
def _(I, st, args, kw, node):
    a = args[0]
    if a[0] == 'l':
        return [(st, S('id', a[1]))]
    return [(st, S('id', I.gvn(st, a)))]


@B('hash', 'object.__hash__')
def _(I, st, args, kw, node):
    a = args[0]
    m = I.special(st, a, '__hash__')
    if m:
        return I.call(st, m, [], {}, node)
    if a[0] == 's' and (I.implicit or any(h in ('*', 'TypeError') for h in I.handlers)):
        I.opaque_raises(st, ('hash', a[1]), node)
    g = I.gvn(st, a)
    if g[0] == 'seq' and g[1] in ('frozenset', 'set'):
        g = ('seq', g[1], tuple(sorted(g[2], key=repr)), g[3])          # the order plays no role
    return [(st, S('hash', g))]


@B('repr', 'str', 'format', 'str.format', 'str.join', 'ascii', 'object.__repr__', 'object.__str__', 'str.replace', 'exc.__str__')
def _(I, st, args, kw, node):
    if len(args) == 1 and args[0][0] == 'k' and not kw:
        return [(st, K(str(args[0][2])))]
    return [(st, S(('fmt',) + tuple(I.gvn(st, a) for a in args)))]


@B('int', 'float', 'abs', 'bin', 'round', 'ord', 'chr')
def _(I, st, args, kw, node):
    nm = node.func.id if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) else 'int'
    if args and args[0][0] == 'k':
        try:
            return [(st, K(eval(nm)(args[0][2])))]
        except Exception:
            pass
    if not args:
        return [(st, K(0))]
    return [(st, S('n', ('call', nm, I.gvn(st, args[0]))))]


@B('bool')
def _(I, st, args, kw, node):
    if not args:
        return [(st, FALSE)]
    a = args[0]
    if a[0] == 's' and a[1][0] in BOOLEXPR:
        return [(st, a)]
    return [(s, K(b)) for s, b in I.truth(st, a)]


@B('print', 'exec', 'eval')
def _(I, st, args, kw, node):
    return [(st, NONE)]


@B('identity', 'functools.update_wrapper')
def _(I, st, args, kw, node):
    return [(st, args[0])]


@B('functools.wraps')
def _(I, st, args, kw, node):
    return [(st, ('b', 'identity'))]


@B('functools.partial')
def _(I, st, args, kw, node):
    return [(st, ('part', args[0], tuple(args[1:])))]


@B('property')
def _(I, st, args, kw, node):
    return [(st, ('prop', args[0], args[1] if len(args) > 1 and args[1] != NONE else None))]


@B('staticmethod')
def _(I, st, args, kw, node):
    return [(st, ('sm', args[0]))]


@B('classmethod')
def _(I, st, args, kw, node):
    return [(st, ('cm', args[0]))]


@B('TypeVar')
def _(I, st, args, kw, node):
    return [(st, S('glob', 'TypeVar'))]


@B('os.environ.get')
def _(I, st, args, kw, node):
    return [(st, NONE)]


@B('pvectorc.pvector')
def _(I, st, args, kw, node):
    if not args:
        return [alloc(I, st, node, 'pvec', 'pvec')]
    return [alloc(I, s, node, 'pvec', 'pvec', sg) for s, sg in I.iterate(st, args[0], node)]


# -- constructors of containers
def mkseq(kind):
    def f(I, st, args, kw, node):
        if not args:
            return [alloc(I, st, node, kind, kind)]
        a = args[0]
        if a[0] == 'l' and kind in ('tuple', 'frozenset') and I.get(st, a[1]).kind == kind:
            return [(st, a)]
        return [alloc(I, s, node, kind, kind, sg) for s, sg in I.iterate(st, a, node)]
    return f


for _k in ('list', 'tuple', 'set', 'frozenset'):
    FUNCS[_k] = mkseq(_k)


@B('dict', 'collections.OrderedDict')
def _(I, st, args, kw, node):
    outs = []
    if args:
        a = args[0]
        v = I.view(st, a)
        if v[0] == 'l' and I.get(st, v[1]).kind == 'dict':
            o = I.get(st, v[1])
            outs = [alloc(I, st, node, 'dict', 'dict', o.segs, dict(o.kvs))]
        elif (v[0] == 'l' and I.get(st, v[1]).kind == 'inst' and I.class_lookup(st, I.get(st, v[1]).cls, 'keys') is not None):
            # the dict constructor uses keys() and item access
            for s1, it in I.method(st, v, 'keys', [], node):
                for s2, segs in I.iterate(s1, it, node):
                    s2, d = alloc(I, s2, node, 'dict', 'dict')
                    I.pins.append([d, v])

                    def fn(c, k, d=d):
                        return [dict_set(I, c2, d[1], k, x, node) for c2, x in I.getitem(c, v, k, node)]
                    outs.extend((s3, d) for s3 in each(I, s2, segs, node, fn, 'dict'))
                    I.pins.pop()
        elif a[0] == 's':
            mp = I.isinst_fact(st, a[1], ('b', 'collections.abc.Mapping')) or I.isinst_fact(st, a[1], ('b', 'dict'))
            if I.handlers or I.implicit:
                I.opaque_raises(st, ('dict', a[1]), node)
            if mp is False:
                for s1, segs in I.iterate(st, a, node):
                    outs.extend(from_pairs(I, s1, segs, node))
            else:
                outs = [alloc(I, st, node, 'dict', 'dict', (('dr', V(('pe', a[1], 'k')), V(('pe', a[1], 'v')), '?', ('len', a[1])),), {})]
        else:
            for s1, segs in I.iterate(st, a, node):
                outs.extend(from_pairs(I, s1, segs, node))
    else:
        outs = [alloc(I, st, node, 'dict', 'dict', (), {})]
    if kw:
        res = []
        for s, d in outs:
            for k, v in kw.items():
                s = dict_set(I, s, d[1], K(k), v, node)
            res.append((s, d))
        outs = res
    return outs


def from_pairs(I, st, segs, node):
    st, d = alloc(I, st, node, 'dict', 'dict', (), {})
    I.pins.append([d])

    def fn(c, x):
        return [dict_set(I, c2, d[1], k, v, node) for c2, (k, v) in I.unpack(c, x, 2, node)]
    outs = [(s, d) for s in each(I, st, segs, node, fn, 'pairs')]
    I.pins.pop()
    return outs


@B('range')
def _(I, st, args, kw, node):
    if all(a[0] == 'k' for a in args):
        r = range(*[a[2] for a in args])
        if len(r) <= 8:
            return [alloc(I, st, node, 'range', 'view', tuple(('i', V(K(i))) for i in r))]
    src = ('range',) + tuple(I.gvn(st, a) for a in args)
    if len(args) == 1:
        lab = lexpr(args[0]) if as_lin(args[0]) is not None else ('count', src)
    else:
        lab = ('count', src)
    return [alloc(I, st, node, 'range', 'view', (('r', V(('pe', src, 'e')), '?', lab),))]


@B('slice')
def _(I, st, args, kw, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return [I.alloc(st, node, 'slice', Obj('slice', None, {'start': V(a[0]), 'stop': V(a[1]), 'step': V(a[2])}))]


@B('iter')
def _(I, st, args, kw, node):
    a = args[0]
    if a[0] == 'l' and I.get(st, a[1]).kind == 'iter':
        return [(st, a)]
    return [alloc(I, s, node, 'iter', 'iter', sg) for s, sg in I.iterate(st, a, node)]


@B('next', 'iter.__next__')
def _(I, st, args, kw, node):
    a = args[0]
    d = args[1] if len(args) > 1 else None
    out = []
    if a[0] == 'l':
        loc = a[1]
        cur = [st]
        o = I.get(st, loc)
        segs = o.segs
        for i, s in enumerate(segs):
            nxt = []
            for c in cur:
                if s[0] == 'i':
                    c1 = I.put(c, loc, o.with_(segs=segs[i + 1:]))
                    out.extend(I.pick(c1, s[1], ('nx', i)))
                else:
                    lat = s[3] if s[3][0] == 'k' else ('s', s[3] if s[3][0] in NUMTAGS else ('count', s[3]))
                    c1 = I.assume_cmp(c, '>', lat, K(0), True)
                    if c1 is not None:
                        c2 = I.put(c1, loc, o.with_(segs=(('r', s[1], '?', lexpr(lin_add(lat, K(-1)))),) + segs[i + 1:]))
                        out.extend(I.pick(c2, s[1], ('nx', i)))
                    c1 = I.assume_cmp(c, '==', lat, K(0), True) if s[2] != 'n' else None
                    if c1 is not None:
                        nxt.append(c1)
            cur = nxt
        for c in cur:
            if d is not None:
                out.append((c, d))
            else:
                I.raise_name(c, 'StopIteration', node)
        return out
    if d is not None:
        out.append((st, d))
    else:
        I.raise_name(st, 'StopIteration', node, implicit=True)
    return out + [(st, S('next', I.gvn(st, a)))]


@B('map')
def _(I, st, args, kw, node):
    f = args[0]
    if len(args) == 2:
        out = []
        for s, segs in I.iterate(st, args[1], node):
            out.extend(map_segs(I, s, segs, node, lambda c, x: I.call(c, f, [x], {}, node)))
        return out
    its = [(st, [])]
    for a in args[1:]:
        its = [(s2, l + [sg]) for s, l in its for s2, sg in I.iterate(s, a, node)]
    out = []
    for s, l in its:
        if all(x[0] == 'i' for sg in l for x in sg):
            n = min(len(sg) for sg in l)
            cur = [(s, ())]
            for i in range(n):
                nxt = []
                for c, acc in cur:
                    xs = [(c, [])]
                    for sg in l:
                        xs = [(c3, al + [y]) for c2, al in xs for c3, y in I.pick(c2, sg[i][1], ('mp', i))]
                    for c2, al in xs:
                        nxt.extend((c3, acc + (('i', V(r)),)) for c3, r in I.call(c2, f, al, {}, node))
                cur = nxt
            out.extend(alloc(I, c, node, 'map', 'iter', acc) for c, acc in cur)
        else:
            others = [seg_vals(sg) for sg in l[1:]]

            def fn(c, x):
                xs = [(c, [x])]
                for v in others:
                    xs = [(c3, al + [y]) for c2, al in xs for c3, y in I.pick(c2, v, ('mp', 'z'))]
                return [r for c2, al in xs for r in I.call(c2, f, al, {}, node)]
            out.extend(map_segs(I, s, l[0], node, fn))
    return out


@B('filter')
def _(I, st, args, kw, node):
    f = args[0]
    out = []

    def fn(c, x):
        if f == NONE:
            return [(c2, x if b else None) for c2, b in I.truth(c, x)]
        return [(c3, x if b else None) for c2, r in I.call(c, f, [x], {}, node) for c3, b in I.truth(c2, r)]
    for s, segs in I.iterate(st, args[1], node):
        out.extend(map_segs(I, s, segs, node, fn, tag='filter'))
    return out


@B('enumerate')
def _(I, st, args, kw, node):
    out = []
    for s, segs in I.iterate(st, args[0], node):
        cnt = [0]

        def fn(c, x):
            idx = S('n', ('index', I.uid(node), I.gvn(c, x)))
            c2, t = alloc(I, c, node, 'enum', 'tuple', (('i', V(idx)), ('i', V(x))))
            return [(c2, t)]
        out.extend(map_segs(I, s, segs, node, fn, tag='enumerate'))
    return out


@B('zip')
def _(I, st, args, kw, node):
    its = [(st, [])]
    for a in args:
        its = [(s2, l + [sg]) for s, l in its for s2, sg in I.iterate(s, a, node)]
    out = []
    for s, l in its:
        if not l:
            out.append(alloc(I, s, node, 'zip', 'iter'))
            continue
        if all(x[0] == 'i' for sg in l for x in sg):
            n = min(len(sg) for sg in l)
            segs = []
            for i in range(n):
                s, t = alloc(I, s, node, ('zip', i), 'tuple', tuple(('i', sg[i][1]) for sg in l))
                segs.append(('i', V(t)))
            out.append(alloc(I, s, node, 'zip', 'iter', segs))
            continue
        others = [seg_vals(sg) for sg in l[1:]]

        def fn(c, x):
            xs = [(c, [x])]
            for j, v in enumerate(others):
                xs = [(c3, al + [y]) for c2, al in xs for c3, y in I.pick(c2, v, ('zp', j, I.gvn(c2, x)))]
            return [alloc(I, c2, node, 'zipt', 'tuple', tuple(('i', V(y)) for y in al)) for c2, al in xs]
        out.extend(map_segs(I, s, l[0], node, fn, tag='zip'))
    return out


@B('reversed')
def _(I, st, args, kw, node):
    a = args[0]
    m = I.special(st, a, '__reversed__')
    if m:
        return I.call(st, m, [], {}, node)
    return [alloc(I, s, node, 'reversed', 'iter', tuple(reversed(sg))) for s, sg in I.iterate(st, a, node)]


@B('sorted')
def _(I, st, args, kw, node):
    return [alloc(I, s, node, 'sorted', 'list', sg) for s, sg in I.iterate(st, args[0], node)]


@B('itertools.chain')
def _(I, st, args, kw, node):
    cur = [(st, ())]
    for a in args:
        cur = [(s2, l + tuple(sg)) for s, l in cur for s2, sg in I.iterate(s, a, node)]
    return [alloc(I, s, node, 'chain', 'iter', l) for s, l in cur]


@B('itertools.chain.from_iterable')
def _(I, st, args, kw, node):
    out = []
    for s, segs in I.iterate(st, args[0], node):
        s, acc = alloc(I, s, node, 'chain', 'iter')
        loc = acc[1]
        I.pins.append([acc])

        def fn(c, x):
            r = []
            for c2, sg in I.iterate(c, x, node):
                o = I.get(c2, loc)
                r.append(I.put(c2, loc, o.with_(segs=o.segs + tuple(sg))))
            return r
        out.extend((s2, acc) for s2 in each(I, s, segs, node, fn, 'chain'))
        I.pins.pop()
    return out


@B('itertools.islice')
def _(I, st, args, kw, node):
    out = []
    for s, sg in I.iterate(st, args[0], node):
        if len(args) == 2 and as_lin(args[1]) is not None:
            tot = K(0)
            for x in sg:
                tot = lin_add(tot, K(1)) if x[0] == 'i' else lin_add(tot, x[3] if x[3][0] == 'k' else ('s', x[3] if x[3][0] in NUMTAGS else ('count', x[3])))
            lab = ('slen', lexpr(tot), K(0), I.gvn(s, args[1]))
            s = I.assume_cmp(s, '<=', S(lab), tot, True) or s
            if I.decide_cmp(s, '>=', args[1], K(0)):
                s = I.assume_cmp(s, '<=', S(lab), args[1], True) or s
        else:
            lab = opq_len(I, node, 'islice')
        v = seg_vals(sg)
        out.append(alloc(I, s, node, 'islice', 'iter', (('r', v, '?', lab),) if v else ()))
    return out


@B('functools.reduce')
def _(I, st, args, kw, node):
    f = args[0]
    out = []
    fr = I.frames[-1] if I.frames else None
    for s, segs in I.iterate(st, args[1], node):
        if len(args) > 2:
            starts = [(s, args[2], segs)]
        else:
            starts = []
            if segs and segs[0][0] == 'i':
                starts = [(s2, x, segs[1:]) for s2, x in I.pick(s, segs[0][1], ('rd', 0))]
            elif segs:
                starts = [(s2, x, segs) for s2, x in I.pick(s, segs[0][1], ('rd', 0))]
        for s1, init, sg in starts:
            cell = ('env', 'reduce', I.uid(node) if node is not None else 0, fr.ctx if fr else 0)
            s1 = I.put(s1, cell, Obj('env', None, {'v': V(init)}))
            I.pins.append([f, ('l', cell)])

            def body(c, x):
                r = []
                o = I.get(c, cell)
                for cur in sorted(o.fields['v'], key=repr):
                    for c2, v in I.call(c, f, [cur, x], {}, node):
                        r.append((I.put(c2, cell, Obj('env', None, {'v': V(v)})), 'next', None))
                return r
            for s2, k, _v in I.loop(s1, sg, node, body, fr, tag='reduce'):
                if k == 'next':
                    h = dict(s2.heap)
                    v = h.pop(cell).fields['v']
                    s3 = State(h, s2.facts, s2.bounds, s2.ev)
                    out.extend((s3, x) for x in sorted(v, key=repr))
            I.pins.pop()
    return out


@B('sum')
def _(I, st, args, kw, node):
    start = args[1] if len(args) > 1 else K(0)
    out = []
    if start[0] == 'l':
        for s, segs in I.iterate(st, args[0], node):
            k = I.get(s, start[1]).kind
            s, acc = alloc(I, s, node, 'sum', k, I.get(s, start[1]).segs)
            loc = acc[1]
            I.pins.append([acc])

            def fn(c, x):
                r = []
                for c2, sg in I.iterate(c, x, node):
                    o = I.get(c2, loc)
                    r.append(I.put(c2, loc, o.with_(segs=o.segs + tuple(sg))))
                return r
            out.extend((s2, acc) for s2 in each(I, s, segs, node, fn, 'sum'))
            I.pins.pop()
        return out
    for s, segs in I.iterate(st, args[0], node):
        tot = start
        for x in segs:
            if tot is None:
                break
            if x[0] == 'i':
                a = next(iter(x[1])) if len(x[1]) == 1 else None
                tot = lin_add(tot, a) if a is not None and as_lin(a) is not None and a[0] in 'ks' else None
            elif len(x[1]) == 1 and next(iter(x[1]))[0] == 'k':
                lat = x[3] if x[3][0] == 'k' else ('s', x[3] if x[3][0] in NUMTAGS else ('count', x[3]))
                tot = lin_add(tot, lin_scale(lat, next(iter(x[1]))[2]))
            else:
                tot = lin_add(tot, S('sum', I.gvnset(s, x[1]), x[3]))
        out.append((s, tot if tot is not None else S('sum', I.gvn(s, args[0]))))
    return out


def minmax(ismax):
    def f(I, st, args, kw, node):
        if len(args) >= 2:
            cur = [(st, args[0])]
            for b in args[1:]:
                nxt = []
                for s, a in cur:
                    for s2, r in I.rich(s, '>=' if ismax else '<=', a, b, node):
                        for s3, t in I.truth(s2, r):
                            nxt.append((s3, a if t else b))
                cur = nxt
            return cur
        return [(st, S('max' if ismax else 'min', I.gvn(st, args[0])))]
    return f


FUNCS['max'] = minmax(True)
FUNCS['min'] = minmax(False)


def anyall(isany):
    def f(I, st, args, kw, node):
        out = []
        for s, segs in I.iterate(st, args[0], node):
            cur = [s]
            for i, x in enumerate(segs):
                nxt = []
                for c in cur:
                    if x[0] == 'i':
                        for c1, a in I.pick(c, x[1], ('aa', i)):
                            for c2, b in I.truth(c1, a):
                                if b == isany:
                                    out.append((c2, K(isany)))
                                else:
                                    nxt.append(c2)
                        continue
                    lat = x[3] if x[3][0] == 'k' else ('s', x[3] if x[3][0] in NUMTAGS else ('count', x[3]))
                    # some element decides
                    c1 = I.assume_cmp(c, '>', lat, K(0), True)
                    if c1 is not None:
                        for c2, a in I.pick(c1, x[1], ('wit', I.uid(node) if node is not None else 0, i)):
                            for c3, b in I.truth(c2, a):
                                if b == isany:
                                    out.append((c3, K(isany)))
                        # none does: holds for all (named els) and for the current names
                        c2 = c1
                        for a in sorted(x[1], key=repr):
                            if c2 is None:
                                break
                            if a[0] == 's':
                                e = a[1] if a[1][0] in BOOLEXPR else ('t', a[1])
                                c2 = I.assume(c2, e, not isany)
                            elif a[0] == 'k':
                                if bool(a[2]) == isany:
                                    c2 = None
                            elif a[0] not in ('pe', 'pair'):
                                rs = [c4 for c4, b in I.truth(c2, a) if b != isany]
                                c2 = rs[0] if rs else None
                        if c2 is not None:
                            nxt.append(c2)
                    if x[2] != 'n':
                        c1 = I.assume_cmp(c, '==', lat, K(0), True)
                        if c1 is not None:
                            nxt.append(c1)
                cur = I.dedupe(nxt)
            out.extend((c, K(not isany)) for c in cur)
        return out
    return f


FUNCS['any'] = anyall(True)
FUNCS['all'] = anyall(False)


# -- list methods
def LM(*names):
    return B(*['list.' + n for n in names])


@LM('append')
def _(I, st, args, kw, node):
    a, x = args
    o = I.get(st, a[1])
    return [(I.write(st, a[1], o.with_(segs=o.segs + (('i', V(x)),)), node, 'append', x), NONE)]


@LM('extend')
def _(I, st, args, kw, node):
    out = []
    a = args[0]
    for s, sg in I.iterate(st, args[1], node):
        o = I.get(s, a[1])
        out.append((I.write(s, a[1], o.with_(segs=o.segs + tuple(sg)), node, 'extend', args[1]), NONE))
    return out


@LM('insert')
def _(I, st, args, kw, node):
    a, i, x = args
    o = I.get(st, a[1])
    if i == K(0):
        segs = (('i', V(x)),) + o.segs
    else:
        segs = (('r', seg_vals(o.segs) | V(x), 'n', lexpr(lin_add(I.length(st, a), K(1)))),)
    return [(I.write(st, a[1], o.with_(segs=segs), node, 'insert', x), NONE)]


@LM('pop')
def _(I, st, args, kw, node):
    a = args[0]
    o = I.get(st, a[1])
    i = args[1] if len(args) > 1 else K(-1)
    out = []
    for s, v in seq_index(I, st, a[1], o, i, node):
        for s2 in delitem(I, s, a[1], I.get(s, a[1]), i, node):
            out.append((s2, v))
    return out


@LM('remove')
def _(I, st, args, kw, node):
    a, x = args
    o = I.get(st, a[1])
    I.raise_name(st, 'ValueError', node, implicit=True)
    if not o.segs:
        return []
    return [(I.write(st, a[1], o.with_(segs=(('r', seg_vals(o.segs), '?', ('opq', 'rm', lexpr(I.length(st, a)))),)), node, 'remove', x), NONE)]


@LM('clear')
def _(I, st, args, kw, node):
    a = args[0]
    o = I.get(st, a[1])
    return [(I.write(st, a[1], o.with_(segs=()), node, 'clear'), NONE)]


@LM('reverse')
def _(I, st, args, kw, node):
    a = args[0]
    o = I.get(st, a[1])
    return [(I.write(st, a[1], o.with_(segs=tuple(reversed(o.segs))), node, 'reverse'), NONE)]


@LM('sort')
def _(I, st, args, kw, node):
    a = args[0]
    o = I.get(st, a[1])
    return [(I.write(st, a[1], o, node, 'sort'), NONE)]


@LM('copy')
def _(I, st, args, kw, node):
    return [alloc(I, st, node, 'copy', 'list', I.get(st, args[0][1]).segs)]


@B('list.index', 'tuple.index', 'pvec.index')
def _(I, st, args, kw, node):
    I.raise_name(st, 'ValueError', node, implicit=True)
    return [(st, S('n', ('index', I.gvn(st, args[0]), I.gvn(st, args[1]))))]


@B('list.count', 'tuple.count', 'pvec.count')
def _(I, st, args, kw, node):
    return [(st, S('n', ('occ', I.gvn(st, args[0]), I.gvn(st, args[1]))))]


# -- dict methods
@B('dict.get')
def _(I, st, args, kw, node):
    d = args[2] if len(args) > 2 else NONE
    hashcheck(I, st, args[1], node)
    return [(s, d if v is MISS else v) for s, v in dict_lookup(I, st, args[0][1], args[1], node)]


@B('dict.pop')
def _(I, st, args, kw, node):
    out = []
    for s, v in dict_lookup(I, st, args[0][1], args[1], node):
        if v is MISS:
            if len(args) > 2:
                out.append((s, args[2]))
            else:
                I.raise_name(s, 'KeyError', node, implicit=True)
        else:
            out.append((dict_del(I, s, args[0][1], args[1], node), v))
    return out


@B('dict.setdefault')
def _(I, st, args, kw, node):
    out = []
    d = args[2] if len(args) > 2 else NONE
    for s, v in dict_lookup(I, st, args[0][1], args[1], node):
        if v is MISS:
            out.append((dict_set(I, s, args[0][1], args[1], d, node), d))
        else:
            out.append((s, v))
    return out


@B('dict.update')
def _(I, st, args, kw, node):
    loc = args[0][1]
    outs = [st]
    if len(args) > 1:
        outs = []
        m = args[1]
        v = I.view(st, m)
        if v[0] == 'l' and I.get(st, v[1]).kind in ('list', 'tuple', 'iter'):
            for s, segs in I.iterate(st, v, node):
                outs.extend(each(I, s, segs, node, lambda c, x: [dict_set(I, c2, loc, k, w, node) for c2, (k, w) in I.unpack(c, x, 2, node)], 'upd'))
        else:
            for s, kvs, segs in I.mapping_items(st, m, node):
                for k, val in sorted(kvs.items(), key=repr):
                    o = I.get(s, loc)
                    if ABSENT in val:
                        kv = dict(o.kvs)
                        kv[k] = kv.get(k, V(ABSENT)) | (val - V(ABSENT))
                        s = I.write(s, loc, o.with_(kvs=kv), node, 'update', None)
                    else:
                        if len(val) == 1:
                            s = dict_set(I, s, loc, k, next(iter(val)), node)
                        else:
                            kv = dict(o.kvs)
                            kv[k] = val
                            s = I.write(s, loc, o.with_(kvs=kv), node, 'update', None)
                if segs:
                    o = I.get(s, loc)
                    s = I.write(s, loc, o.with_(segs=o.segs + tuple(segs)), node, 'update', None)
                elif not kvs:
                    pass
                outs.append(s)
    res = []
    for s in outs:
        for k, v in kw.items():
            s = dict_set(I, s, loc, K(k), v, node)
        res.append((s, NONE))
    return res


@B('dict.copy')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    return [alloc(I, st, node, 'copy', 'dict', o.segs, dict(o.kvs))]


@B('dict.clear')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    return [(I.write(st, args[0][1], o.with_(segs=(), kvs={}), node, 'clear'), NONE)]


def dview(which):
    def f(I, st, args, kw, node):
        loc = args[0][1]
        o = I.get(st, loc)
        segs = []
        for k, v in sorted(o.kvs.items(), key=repr):
            vv = v - V(ABSENT)
            el = V(k) if which == 'keys' else vv if which == 'values' else V(('pair', V(k), vv))
            if ABSENT in v:
                segs.append(('r', el, '?', ('opq', 'maybe', loc, k)))
            else:
                segs.append(('i', el))
        for s in o.segs:
            el = s[1] if which == 'keys' else s[2] if which == 'values' else V(('pair', s[1], s[2]))
            segs.append(('i', el) if s[0] == 'di' else ('r', el, s[3], s[4]))
        return [alloc(I, st, node, 'd' + which, 'view', segs)]
    return f


for _w in ('keys', 'values', 'items'):
    FUNCS['dict.' + _w] = dview(_w)


# -- set methods
@B('set.add')
def _(I, st, args, kw, node):
    a, x = args
    o = I.get(st, a[1])
    if any(s[0] == 'i' and s[1] == V(x) for s in o.segs):
        return [(st, NONE)]
    return [(I.write(st, a[1], o.with_(segs=o.segs + (('i', V(x)),)), node, 'add', x), NONE)]


@B('set.discard', 'set.remove')
def _(I, st, args, kw, node):
    a, x = args
    o = I.get(st, a[1])
    segs = []
    for s in o.segs:
        if s[0] == 'i' and len(s[1]) == 1:
            r = key_eq(I, st, next(iter(s[1])), x)
            if r is True:
                continue
            if r is False:
                segs.append(s)
                continue
        segs.append(('r', s[1], '?', ('opq', 'disc', a[1])))
    return [(I.write(st, a[1], o.with_(segs=tuple(segs)), node, 'discard', x), NONE)]


@B('set.update')
def _(I, st, args, kw, node):
    out = []
    for s, sg in I.iterate(st, args[1], node):
        o = I.get(s, args[0][1])
        out.append((I.write(s, args[0][1], o.with_(segs=o.segs + tuple(sg)), node, 'update', args[1]), NONE))
    return out


@B('set.clear')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    return [(I.write(st, args[0][1], o.with_(segs=()), node, 'clear'), NONE)]


@B('set.copy', 'frozenset.copy')
def _(I, st, args, kw, node):
    return [alloc(I, st, node, 'copy', 'set', I.get(st, args[0][1]).segs)]


for _m, _o in (('union', '|'), ('difference', '-'), ('intersection', '&'), ('symmetric_difference', '^')):
    FUNCS['set.' + _m] = FUNCS['frozenset.' + _m] = (lambda op: lambda I, st, args, kw, node: set_op(I, st, op, args[0], args[1], node))(_o)


# -- the C vector, as an abstract persistent sequence (its implementation is the subject of cabs)
@B('pvec.evolver')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    return [I.alloc(st, node, 'pvecev', Obj('pvecev', None, {'base': V(args[0]), 'dirty': V(FALSE)}, o.segs))]


@B('pvec.extend', 'pvec.__add__')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    out = []
    for s, sg in I.iterate(st, args[1], node):
        out.append(alloc(I, s, node, 'pvext', 'pvec', o.segs + tuple(sg)) if sg else (s, args[0]))
    return out


@B('pvec.append')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    return [alloc(I, st, node, 'pvapp', 'pvec', o.segs + (('i', V(args[1])),))]


@B('pvec.set')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    I.raise_name(st, 'IndexError', node, implicit=True)
    h = I.hooks.get('store')
    if h:
        h(I, st, args[0][1], o, args[1], args[2], node)
    return [alloc(I, st, node, 'pvset', 'pvec', weak_set(I, st, args[0][1], o, args[1], args[2]))]


@B('pvec.delete', 'pvec.remove', 'pvec.mset')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    return [alloc(I, st, node, 'pvdel', 'pvec', (('r', seg_vals(o.segs), '?', ('opq', 'pvdel', lexpr(I.length(st, args[0])))),))]


@B('pvec.tolist', 'pvec._totuple')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    return [alloc(I, st, node, 'tolist', 'list', o.segs)]


@B('pvec.transform')
def _(I, st, args, kw, node):
    return I.method_from(st, 'pyrsistent._transformations', 'transform', args, node)


@B('pvecev.set', 'pvecev.__setitem__')
def _(I, st, args, kw, node):
    return [(s, args[0]) for s in setitem(I, st, args[0][1], I.get(st, args[0][1]), args[1], args[2], node)]


@B('pvecev.append')
def _(I, st, args, kw, node):
    o = I.get(st, args[0][1])
    f = dict(o.fields, dirty=V(TRUE))
    return [(I.write(st, args[0][1], o.with_(segs=o.segs + (('i', V(args[1])),), fields=f), node, 'append', args[1]), args[0])]


@B('pvecev.extend')
def _(I, st, args, kw, node):
    out = []
    for s, sg in I.iterate(st, args[1], node):
        o = I.get(s, args[0][1])
        f = dict(o.fields)
        if sg:
            f['dirty'] = V(TRUE) if nonempty(sg) else o.fields['dirty'] | V(TRUE)
        out.append((I.write(s, args[0][1], o.with_(segs=o.segs + tuple(sg), fields=f), node, 'extend', args[1]), args[0]))
    return out


@B('pvecev.delete', 'pvecev.__delitem__')
def _(I, st, args, kw, node):
    return [(s, args[0]) for s in delitem(I, st, args[0][1], I.get(st, args[0][1]), args[1], node)]


@B('pvecev.is_dirty')
def _(I, st, args, kw, node):
    loc = args[0][1]
    o = I.get(st, loc)
    out = []
    for d in sorted(o.fields['dirty'], key=repr):
        s = st if len(o.fields['dirty']) == 1 or o.summ else I.put(st, loc, o.setf('dirty', V(d)))
        out.append((s, d))
    return out


@B('pvecev.persistent')
def _(I, st, args, kw, node):
    loc = args[0][1]
    out = []
    for s, d in FUNCS['pvecev.is_dirty'](I, st, args, kw, node):
        o = I.get(s, loc)
        if d == FALSE:
            out.extend((s, b) for b in sorted(o.fields['base'], key=repr))
        else:
            s2, v = alloc(I, s, node, 'pvpers', 'pvec', o.segs)
            s2 = I.put(s2, loc, I.get(s2, loc).with_(fields={'base': V(v), 'dirty': V(FALSE)}))
            out.append((s2, v))
    return out
