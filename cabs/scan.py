"""Runs the abstract interpreter on every function Python can call, from every kind of state of the object it is called on."""
import os
from .load import Program, ref, text
from .interp import Machine, St, Obj, Gap, Infeasible, NULL, INF, REST, sym, isint

TYPES = {'PVectorType': 'PVector', 'PVectorEvolverType': 'PVectorEvolver', 'PVectorIterType': 'PVectorIter'}
SLOTS = {       # slot: (arguments after self, kind of result)
    'tp_dealloc': ('', 'void'), 'tp_repr': ('', 'obj'), 'tp_str': ('', 'obj'), 'tp_hash': ('', 'hash'), 'tp_iter': ('', 'obj'), 'tp_iternext': ('', 'next'),
    'tp_traverse': ('VA', 'visit'), 'tp_clear': ('', 'int'), 'tp_call': ('TK', 'obj'), 'tp_finalize': ('', 'void'),
    'sq_length': ('', 'len'), 'sq_concat': ('O', 'obj'), 'sq_repeat': ('i', 'obj'), 'sq_item': ('i', 'obj'), 'sq_contains': ('O', 'tri'),
    'sq_ass_item': ('iO', 'int'), 'sq_inplace_concat': ('O', 'obj'), 'sq_inplace_repeat': ('i', 'obj'),
    'mp_length': ('', 'len'), 'mp_subscript': ('O', 'obj'), 'mp_ass_subscript': ('OX', 'int'),
    'nb_add': ('O', 'obj'), 'nb_multiply': ('O', 'obj'), 'nb_bool': ('', 'tri'),
}
METH = {'METH_VARARGS': 1, 'METH_KEYWORDS': 2, 'METH_NOARGS': 4, 'METH_O': 8}


def flags(n):
    """the value of a constant expression"""
    k = n['kind']
    if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr'):
        return flags(n['inner'][0])
    if k == 'IntegerLiteral':
        return int(n['value'])
    if k == 'BinaryOperator':
        a, b = flags(n['inner'][0]), flags(n['inner'][1])
        return {'|': lambda: a | b, '<<': lambda: a << b, '+': lambda: a + b}.get(n['opcode'], lambda: 0)()
    return 0


def entries(P):
    """[(function, type, arguments, result, where it is offered)]"""
    out = []

    def put(f, kind, args, res, label):
        if f in P.functions:
            out.append((f, kind, args, res, label))
    for t, kind in TYPES.items():
        tab = P.table(t)
        for s, n in tab.items():
            if s == 'tp_richcompare':
                put(ref(n), kind, 'C', 'obj', '%s.%s' % (t, s))
            elif s in SLOTS:
                put(ref(n), kind, *SLOTS[s], '%s.%s' % (t, s))
        for s in ('tp_as_sequence', 'tp_as_mapping', 'tp_as_number'):
            name = tab.get(s) and ref(tab[s])
            for s2, n in (P.table(name) if name else {}).items():
                if s2 in SLOTS:
                    put(ref(n), kind, *SLOTS[s2], '%s.%s' % (t, s2))
        name = tab.get('tp_methods') and ref(tab['tp_methods'])
        for row in (P.rows(name) if name else []):
            if len(row) >= 3 and text(row[0]):
                fl = flags(row[2])
                a = 'O' if fl & 8 else 'N' if fl & 4 else 'TK' if fl & 2 else 'T'
                put(ref(row[1]), kind, a, 'obj', '%s.%s' % (kind, text(row[0])))
    for row in P.rows('PyrsistentMethods'):
        if len(row) >= 3 and text(row[0]):
            put(ref(row[1]), None, 'T', 'obj', 'module.%s' % text(row[0]))
    return out


def selfs(kind):
    """descriptions of the object a function is called on"""
    if kind == 'PVector':
        return [('vector', d) for d in (1, 2)]
    if kind == 'PVectorEvolver':
        return [('evolver', d, raw) for d in (1, 2) for raw in (None, (0, 1), (1, 0), (1, 1))]
    if kind == 'PVectorIter':
        return [('iterator', 1, True), ('iterator', 1, False), ('iterator', 2, True)]
    return [None]


def deeper(kind):
    if kind == 'PVector':
        return [('vector', 3)]
    if kind == 'PVectorEvolver':
        return [('evolver', 3, raw) for raw in (None, (0, 1), (1, 0), (1, 1))]
    return []


def build(M, st, desc):
    if desc is None:
        return NULL
    if desc[0] == 'vector':
        return ('obj', M.vector(st, desc[1], 'the vector'))
    if desc[0] == 'evolver':
        v = M.vector(st, desc[1], 'the original vector')
        st.h[v].ent = 1
        i = st.new(Obj('PVectorEvolver', 'the evolver', True))
        o = st.h[i]
        o.tracked = True
        o.f['originalVector'] = ('obj', v)
        o.f['newVector'] = ('obj', v)
        if desc[2]:
            o.f['newVector'] = ('obj', M.vector(st, 0, 'the new vector of the evolver', raw=(v,) + desc[2]))
        l = st.new(Obj('list', 'the list of appended elements', True, ent=1))
        o.f['appendList'] = ('obj', l)
        return ('obj', i)
    if desc[0] == 'iterator':
        i = st.new(Obj('PVectorIter', 'the iterator', True))
        o = st.h[i]
        o.tracked = True
        o.f['it_index'] = sym('it_index', 0)
        o.f['it_seq'] = NULL
        if desc[2]:
            v = M.vector(st, desc[1], 'the vector of the iterator')
            st.h[v].ent = 1
            o.f['it_seq'] = ('obj', v)
        return ('obj', i)


def variants(kind, args):
    """descriptions of the arguments"""
    if args == 'C':
        return [('same', op) for op in range(6)] + [(w, op) for w in ('other', 'foreign', 'reversed') for op in (0, 2, 3)]
    if 'X' in args:
        return ['value', 'delete']
    if 'K' in args:
        return ['plain', 'keywords']
    return ['plain']


def scan(only=None, limit=2, budget=60000, prog=None, havoc=True):
    P = prog or Program()
    R = {'found': {}, 'entries': 0, 'states': 0, 'paths': 0, 'gaps': {}, 'reach': set(), 'count': {}, 'functions': len(P.functions)}
    for f, kind, args, res, label in entries(P):
        if only and f not in only and label not in only:
            continue
        R['entries'] += 1
        for desc in selfs(kind):
            for var in variants(kind, args):
                n = run(P, R, f, desc, args, var, res, label, limit, budget, 0)
                if havoc and desc and desc[0] in ('evolver', 'iterator') and res != 'void':
                    for k in range(1, min(n, 6) + 1):
                        run(P, R, f, desc, args, var, res, label, limit, budget, k)
    return R


def run(P, R, f, desc, args, var, res, label, limit, budget, havoc, deadline=None):
    M = Machine(P, limit, budget)
    M.deadline = deadline
    M.entry = f
    M.havoc = havoc
    st = St()
    self = build(M, st, desc)
    vals = [self]
    if args == 'C':
        if var[0] == 'same':
            vals.append(self)
        elif var[0] == 'other':
            vals.append(('obj', M.vector(st, 1, 'the other vector')))
        else:
            w = ('obj', st.new(Obj('py', 'the other object', True)))
            vals = [self, w] if var[0] == 'foreign' else [w, self]
        vals.append(var[1])
    else:
        for a in args:
            if a == 'O':
                vals.append(('obj', st.new(Obj('py', 'an argument', True))))
            elif a == 'X':
                vals.append(NULL if var == 'delete' else ('obj', st.new(Obj('py', 'the value', True))))
            elif a == 'T':
                vals.append(('obj', st.new(Obj('tuple', 'the arguments', True))))
            elif a == 'K':
                vals.append(('obj', st.new(Obj('py', 'the keyword arguments', True))) if var == 'keywords' else NULL)
            elif a == 'i':
                vals.append(sym('position'))
            elif a == 'V':
                vals.append(('fnptr', 'visit'))
            elif a == 'A':
                vals.append(('opaque',))
            elif a == 'N':
                vals.append(NULL)
    M.args = [v[1] for v in vals if isinstance(v, tuple) and v[0] == 'obj']
    if label.endswith('tp_dealloc'):
        o = st.h[self[1]]
        o.state, o.conc, o.rc = 'dying', True, 0
    R['states'] += 1
    outs = []
    try:
        outs = M.call_source(f, vals, st, P.functions[f])
    except Gap as e:
        k = '%s: %s' % (f, e)
        R['gaps'][k] = R['gaps'].get(k, 0) + 1
    except Infeasible:
        pass
    for v, s in outs:
        R['paths'] += 1
        finish(M, P, f, self, v, s, res, label)
    if M.lost:
        k = '%s: %s' % (f, sorted(M.lost)[0])
        R['gaps'][k] = R['gaps'].get(k, 0) + 1
    for k, v in M.found.items():
        R['found'].setdefault(k, v)
    R['reach'] |= M.reach
    for k, v in M.count.items():
        R['count'][k] = R['count'].get(k, 0) + v
    return max([s.cb for _, s in outs] or [0])


def finish(M, P, f, self, v, st, res, label):
    node = P.functions[f]
    err = st.err and st.err[0]
    M.count['paths'] += 1
    # C16
    if res in ('obj', 'next'):
        if v == NULL and not err and res == 'obj':
            M.report('C16', 'no exception', st, node, 'NULL is returned without an exception', fn=f)
        if v != NULL and err:
            M.report('C16', 'result with exception', st, node, 'a result is returned while an exception is set', fn=f)
    elif res in ('hash', 'int', 'tri'):
        if isinstance(v, int):
            if v == -1 and not err:
                M.report('C16', 'no exception', st, node, '-1 is returned without an exception', fn=f)
            if v != -1 and err:
                M.report('C16', 'result with exception', st, node, 'success is returned while an exception is set', fn=f)
        elif err and isint(v):
            M.report('C16', 'result with exception', st, node, 'success is returned while an exception is set', fn=f)
    elif res in ('len', 'visit', 'void') and err:
        M.report('C16', 'result with exception', st, node, 'an exception is left set', fn=f)
    ret = v if res in ('obj', 'next') else None
    if ret is not None and not (isinstance(ret, tuple) and ret[0] in ('obj', 'null', 'glob')):
        return
    # C14
    if res == 'visit':
        traversal(M, P, f, self, v, st)
        for i, o in st.h.items():
            if M.delta(st, i):
                M.report('C14', 'traverse', st, node, 'the reference count of %s is changed while the collector runs' % o.what, fn=f)
        return
    M.balance(st, ret, node)
    if label.endswith('tp_dealloc') and st.h[self[1]].state != 'gone':
        M.report('C14', 'not freed', st, node, '%s is not freed' % st.h[self[1]].what, fn=f)
    # what user code can reach afterwards
    raw = M.raw_vectors(st)
    for i, o in st.h.items():
        if o.state != 'ok' or o.kind not in ('PVector', 'PVectorEvolver', 'PVectorIter'):
            continue
        if not o.pre:
            if i in raw:
                if o.tracked:
                    M.report('C17', 'raw tracked', st, node, '%s, whose nodes belong to another vector, is known to the collector' % o.what, fn=f)
            elif not o.tracked:
                M.report('C17', 'never tracked', st, node, '%s is handed out but the collector does not know of it' % o.what, fn=f)
        elif o.tracked is False and i not in raw:
            M.report('C17', 'never tracked', st, node, '%s is handed out but the collector does not know of it' % o.what, fn=f)
        elif o.tracked and i in raw:
            M.report('C17', 'raw tracked', st, node, '%s, whose nodes belong to another vector, is known to the collector' % o.what, fn=f)
        if o.kind == 'PVector' and i not in raw:
            d = dirty_below(st, i)
            if d:
                M.report('C03', 'dirty escapes', st, node, '%s keeps a node (%s) that is still marked as owned by the evolver: later updates of an evolver can change it in place'
                         % (o.what, d), fn=f)


def kids(st, o):
    vs = list(o.ov.values())
    if o.base not in (None, 'garbage'):
        g = st.g[o.base]
        vs += [v for x, v in g.mats.items() if x not in o.ov]
        if REST not in o.ov and g.rep:
            vs.append(g.rep)
    return [v[1] for v in vs if isinstance(v, tuple) and v[0] == 'obj']


def dirty_below(st, i):
    work = [v[1] for v in (st.h[i].f.get('root'), st.h[i].f.get('tail')) if isinstance(v, tuple) and v[0] == 'obj']
    while work:
        k = work.pop()
        o = st.h.get(k)
        if o is None or o.kind != 'VNode':
            continue
        rc = o.f.get('refCount')
        if rc and rc[0] == 'rc' and rc[3]:
            return o.what
        work += kids(st, o)
    return None


def traversal(M, P, f, self, v, st):
    node = P.functions[f]
    if st.visits.get('stop'):
        if v == 0:
            M.report('C17', 'result ignored', st, node, 'the result of visiting an object is not passed on', fn=f)
        return
    if v != 0:
        return
    o = st.h[self[1]]
    want = {}

    def leaf_or_tree(i, level, evolver):
        """what is below the node i; None in want: must not be visited"""
        n = st.h[i]
        rc = n.f['refCount']
        if rc[1] == 0:
            owned = rc[3] if evolver else (rc[2] == 1 and not rc[3])
        elif evolver:
            owned = False
        else:
            lo, hi = st.rcb[rc[1]]
            owned = True if lo == hi == 1 else False if lo > 1 else None
        g = st.g.get(n.base)
        below = [(x, st.h[x]) for x in kids(st, n)]
        if owned is None:
            n_visits = deep(i)
            if n_visits:
                M.report('C17', 'shared', st, node, '%s is visited without making sure that only the visited vector refers to it' % n.what, fn=f)
            else:
                M.report('C17', 'not visited', st, node, 'what %s holds is never visited' % n.what, fn=f)
            return
        if not owned:
            if deep(i):
                M.report('C17', 'shared', st, node, 'what %s holds is visited though other vectors may own it too' % n.what, fn=f)
            return
        if g is not None and g.rep is None and not below:
            M.report('C17', 'not visited', st, node, 'what %s holds is never visited' % n.what, fn=f)
            return
        for x, c in below:
            if c.kind == 'VNode':
                leaf_or_tree(x, level - 1, evolver)
            else:
                want[x] = want.get(x, 0) + 1

    def deep(i):
        n = 0
        for x in kids(st, st.h[i]):
            if st.h[x].kind == 'VNode':
                n += deep(x)
            else:
                n += st.visits.get(x, 0)
        return n
    if o.kind == 'PVector':
        for fl in ('tail', 'root'):
            leaf_or_tree(o.f[fl][1], 0, False)
    elif o.kind == 'PVectorEvolver':
        a, b = o.f['originalVector'], o.f['newVector']
        want[a[1]] = 1
        want[o.f['appendList'][1]] = 1
        if a != b:
            for fl in ('tail', 'root'):
                leaf_or_tree(st.h[b[1]].f[fl][1], 0, True)
    elif o.kind == 'PVectorIter':
        if o.f['it_seq'] != NULL:
            want[o.f['it_seq'][1]] = 1
    for x in set(want) | {k for k in st.visits if k != 'stop'}:
        w, g = want.get(x, 0), st.visits.get(x, 0)
        if g > w:
            M.report('C17', 'visited too often', st, node, '%s is visited %d times, %d references are owned' % (st.h[x].what, g, w), fn=f)
        elif g < w:
            M.report('C17', 'not visited', st, node, '%s is not visited' % st.h[x].what, fn=f)
