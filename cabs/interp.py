"""Abstract interpretation of the C extension: ownership of references, pending exceptions, writes to shared storage, index ranges.

The heap is abstract: the slots of a node are a base group (what a node that existed before holds, one representative for all slots that
were not looked at) and the slots that were. Integers are linear expressions with intervals. A loop over all slots of a node is
interpreted once per known slot and once for the representative. Functions of the source are entered at each call, functions of the
Python API have summaries. Paths that end in the same abstract state are merged."""
import time
from .load import Program, ref, text

INF = float('inf')
BF = 32
CACHE = 1024


class Infeasible(Exception):
    pass


class Gap(Exception):
    """a construct outside the model"""


# ------------------------------------------------------------------ integers
def lin(c, terms):
    t = tuple(sorted(((a, k) for a, k in terms.items() if k), key=repr))
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    return ('n', c, t) if t else c


def parts(e):
    if isinstance(e, int):
        return e, {}
    if e[0] == 'n':
        return e[1], dict(e[2])
    return 0, {e: 1}


def isint(e):
    return isinstance(e, int) or isinstance(e, tuple) and e and e[0] in ('n', 's', 'op')


def add(a, b, k=1):
    ca, ta = parts(a)
    cb, tb = parts(b)
    for x, n in tb.items():
        ta[x] = ta.get(x, 0) + k * n
    return lin(ca + k * cb, ta)


def mul(a, k):
    c, t = parts(a)
    return lin(c * k, {x: n * k for x, n in t.items()})


def sym(name, lo=-INF, hi=INF):
    return ('s', name, lo, hi)


def single(e):
    """e as one atom if it is one"""
    c, t = parts(e)
    if c == 0 and len(t) == 1 and list(t.values()) == [1]:
        return next(iter(t))
    return None


NULL = ('null',)
REST = ('s', '*rest', 0, BF - 1)


class Obj:
    __slots__ = ('kind', 'f', 'rc', 'rc0', 'ent', 'conc', 'pre', 'tracked', 'state', 'what', 'base', 'ov', 'node', 'flags')

    def __init__(self, kind, what, pre, rc=0, rc0=0, ent=0, conc=False, node=None):
        self.kind, self.what, self.pre, self.rc, self.rc0, self.ent, self.conc = kind, what, pre, rc, rc0, ent, conc
        self.f = {}
        self.tracked = None
        self.state = 'ok'           # ok | dying | dead (a node whose count is zero) | gone
        self.base = None            # of a node: group id, None (all NULL) or 'garbage'
        self.ov = {}
        self.node = node            # where it was made
        self.flags = frozenset()

    def copy(self):
        o = Obj.__new__(Obj)
        for a in Obj.__slots__:
            setattr(o, a, getattr(self, a))
        o.f, o.ov = dict(self.f), dict(self.ov)
        return o

    def key(self):
        if self.state == 'gone':
            return (self.kind, self.pre)
        return (self.kind, self.rc, self.ent, self.conc, self.tracked, self.state, self.base, frozenset(self.f.items()), frozenset(self.ov.items()), self.flags)


class Group:
    """what the slots of a node hold that existed before"""
    __slots__ = ('level', 'dirty', 'mats', 'rep', 'tailof', 'what')

    def __init__(self, level, dirty, tailof, what):
        self.level, self.dirty, self.tailof, self.what = level, dirty, tailof, what
        self.mats, self.rep = {}, None      # rep: None (not looked at), NULL or ('obj', id)

    def copy(self):
        g = Group(self.level, self.dirty, self.tailof, self.what)
        g.mats, g.rep = dict(self.mats), self.rep
        return g

    def key(self):
        return (self.level, self.dirty, frozenset(self.mats.items()), self.rep)


class St:
    __slots__ = ('h', 'g', 'v', 'b', 'ne', 'rcb', 'err', 'glob', 'grc', 'n', 'visits', 'stack', 'cb', 'err_n')

    def __init__(self):
        self.h, self.g, self.v, self.b, self.ne, self.rcb, self.glob, self.grc, self.visits = {}, {}, {}, {}, {}, {}, {}, {}, {}
        self.err, self.n, self.stack, self.cb, self.err_n = None, 0, (), 0, 0

    def copy(self):
        s = St.__new__(St)
        for a in ('h', 'g', 'v', 'b', 'ne', 'rcb', 'glob', 'grc', 'visits'):
            setattr(s, a, dict(getattr(self, a)))
        s.err, s.n, s.stack, s.cb, s.err_n = self.err, self.n, self.stack, self.cb, self.err_n
        return s

    def key(self):
        r = lambda d: frozenset(d.items())
        return (r({i: o.key() for i, o in self.h.items()}), r({i: o.key() for i, o in self.g.items()}), r(self.v), r(self.b), r(self.ne), r(self.rcb),
                self.err, r(self.glob), r(self.grc), r(self.visits))

    def w(self, i):
        """object i, for writing"""
        o = self.h[i] = self.h[i].copy()
        return o

    def wg(self, i):
        o = self.g[i] = self.g[i].copy()
        return o

    def new(self, o):
        self.n += 1
        self.h[self.n] = o
        return self.n


# names of functions of the Python API: (result, may fail, may run user code)
API = {
    'PyObject_Repr': ('new', 1, 1), 'PyObject_Str': ('new', 1, 1), 'PyUnicode_FromFormat': ('new', 1, 0), 'PyUnicode_FromString': ('new', 1, 0),
    'PyList_AsTuple': ('new', 1, 0), 'PySequence_Tuple': ('new', 1, 1), 'PySequence_List': ('new', 1, 1),
    'PyObject_RichCompare': ('new', 1, 1), 'PyImport_ImportModule': ('new', 1, 1), 'PyObject_GetAttrString': ('new', 1, 1), 'PyObject_GetAttr': ('new', 1, 1),
    'PyObject_CallFunctionObjArgs': ('new', 1, 1), 'PyObject_CallObject': ('new', 1, 1), 'PyObject_Call': ('new', 1, 1),
    'PyObject_CallMethod': ('new', 1, 1), 'PyObject_CallFunction': ('new', 1, 1), 'PyObject_CallOneArg': ('new', 1, 1), 'PyObject_CallNoArgs': ('new', 1, 1),
    'PyLong_FromSsize_t': ('new', 0, 0), 'PyLong_FromLong': ('new', 0, 0), 'PyBool_FromLong': ('new', 0, 0), 'PyTuple_New': ('tuple', 0, 0), 'PyList_New': ('list', 0, 0),
    'Py_BuildValue': ('new', 1, 0), 'PyTuple_Pack': ('tuple', 0, 0), 'PyNumber_Index': ('new', 1, 1),
    'PyObject_IsTrue': ('tri', 1, 1), 'PyObject_RichCompareBool': ('tri', 1, 1), 'PyObject_Hash': ('int', 1, 1), 'PySequence_Contains': ('tri', 1, 1),
    'PyNumber_AsSsize_t': ('int', 1, 1), 'PyLong_AsSsize_t': ('int', 1, 0), 'PySlice_Unpack': ('zero', 1, 1), 'PyList_Append': ('zero', 1, 0), 'PyList_Insert': ('zero', 1, 0),
    'PyList_SetSlice': ('zero', 1, 1), 'PyList_Extend': ('zero', 1, 1), 'PyList_Sort': ('zero', 1, 1), 'PyList_Reverse': ('zero', 0, 0),
    'PyIter_Next': ('next', 1, 1), 'PyList_SetItem': ('zero', 1, 1),
    'PyIndex_Check': ('bool', 0, 0), 'PyObject_TypeCheck': ('bool', 0, 0), 'Py_IS_TYPE': ('bool', 0, 0), 'PyType_IsSubtype': ('bool', 0, 0), 'PyIter_Check': ('bool', 0, 0),
    'PyTuple_Size': ('size', 0, 0), 'PyList_Size': ('size', 0, 0), 'PyTuple_GET_SIZE': ('size', 0, 0), 'PyList_GET_SIZE': ('size', 0, 0), 'Py_SIZE': ('size', 0, 0), 'PyObject_Size': ('int', 1, 1),
    'PyObject_ClearWeakRefs': ('void', 0, 1), 'PyObject_Length': ('int', 1, 1), 'PySequence_Size': ('int', 1, 1),
    '_PyTrash_cond': ('0', 0, 0), '_PyTrash_end': ('void', 0, 0), '_PyThreadState_UncheckedGet': ('opaque', 0, 0),
    'PySlice_AdjustIndices': ('sizeint', 0, 0), 'printf': ('void', 0, 0), 'fprintf': ('void', 0, 0), '_PyType_HasFeature': ('bool', 0, 0), 'PyType_HasFeature': ('bool', 0, 0),
    'PyObject_GC_IsTracked': ('bool', 0, 0), 'PyType_Ready': ('zero', 1, 0), 'PyModule_Create2': ('new', 1, 0), 'PyModule_AddObject': ('zero', 1, 0),
}


class Machine:
    def __init__(self, prog, limit=2, budget=60000):
        self.P = prog
        self.limit = limit
        self.budget = budget
        self.found = {}             # (property, rule, function) -> message
        self.count = {'calls': 0, 'paths': 0, 'index checks': 0, 'writes': 0, 'callbacks': 0, 'api calls': 0, 'merged': 0, 'visits': 0, 'error events': 0}
        self.gaps = {}
        self.entry = None
        self.steps = 0
        self.reach = set()
        self.touched = {}
        self.deadline = None
        self.lost = set()           # paths given up
        self.havoc = 0              # the callback (counted along a path) that changes the object the function was called on
        self.args = ()

    # -------------------------------------------------------------- findings
    def report(self, prop, rule, st, node, msg, fn=None):
        fn = fn or (st.stack[-1] if st.stack else self.entry)
        if self.havoc and prop != 'C15':
            if (prop, rule) not in (('C16', 'null'), ('C18', 'list')) and (prop != 'C14' or rule not in ('use after release', 'over-release', 'double free', 'missing reference', 'dangling')):
                return
            prop, rule, msg = 'C15', 'changed by user code', 'after user code changed the object the function was called on: ' + msg
        line = (node or {}).get('_line')
        self.found.setdefault((prop, rule, fn), (line or self.P.functions.get(fn, {}).get('_line'), msg + (' (in %s)' % self.entry if fn != self.entry else '')))

    # -------------------------------------------------------------- intervals
    def norm(self, t):
        if t[0][1] < 0:
            return tuple((a, -k) for a, k in t), -1
        return t, 1

    def atom_range(self, st, a):
        lo, hi = -INF, INF
        if a[0] == 's':
            lo, hi = a[2], a[3]
        elif a[0] == 'op':
            op, x, y = a[1:]
            if op == '&' and isinstance(y, int) and y >= 0:
                lo, hi = 0, y
            elif op == '>>' and isinstance(y, int):
                l, h = self.range(st, x)
                lo = l if l == -INF else int(l) >> y
                hi = h if h == INF else int(h) >> y
            elif op == '/' and isinstance(y, int) and y > 0:
                l, h = self.range(st, x)
                lo = 0 if l >= 0 else -INF
                hi = h // y if h != INF and h >= 0 else INF
            elif op == '%' and isinstance(y, int) and y > 0:
                lo, hi = (0 if self.range(st, x)[0] >= 0 else 1 - y), y - 1
            elif op == '*':
                if self.range(st, x)[0] >= 0 and self.range(st, y)[0] >= 0:
                    lo = 0
        b = st.b.get(((a, 1),))
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def range(self, st, e):
        c, t = parts(e)
        if not t:
            return c, c
        lo = hi = 0
        for a, k in t.items():
            l, h = self.atom_range(st, a)
            if k < 0:
                l, h = h, l
            lo += l * k
            hi += h * k
        n, s = self.norm(tuple(sorted(t.items(), key=repr)))
        b = st.b.get(n)
        if b:
            l, h = (b if s > 0 else (-b[1], -b[0]))
            lo, hi = max(lo, l), min(hi, h)
        return lo + c, hi + c

    def narrow(self, st, e, lo, hi):
        """assume lo <= e <= hi; False if impossible"""
        c, t = parts(e)
        if not t:
            return lo <= c <= hi
        l, h = self.range(st, e)
        if max(l, lo) > min(h, hi):
            return False
        n, s = self.norm(tuple(sorted(t.items(), key=repr)))
        lo, hi = lo - c, hi - c
        if s < 0:
            lo, hi = -hi, -lo
        ol, oh = st.b.get(n, (-INF, INF))
        st.b[n] = (max(ol, lo), min(oh, hi))
        l, h = self.range(st, e)
        if l == h and st.ne:
            d = add(e, -l)
            if st.ne.get(d) or st.ne.get(mul(d, -1)):
                return False
        return l <= h

    def compare(self, st, op, a, b):
        """[(bool, state)] of an integer comparison"""
        d = add(a, b, -1)
        if not isinstance(d, int):
            self.symbolic = True
        if op in ('>', '>='):
            d = mul(d, -1)
            op = {'>': '<', '>=': '<='}[op]
        lo, hi = self.range(st, d)
        if op in ('<', '<='):
            lim = -1 if op == '<' else 0
            if hi <= lim:
                return [(True, st)]
            if lo > lim:
                return [(False, st)]
            s2 = st.copy()
            out = []
            if self.narrow(st, d, -INF, lim):
                out.append((True, st))
            if self.narrow(s2, d, lim + 1, INF):
                out.append((False, s2))
            return out
        neg = op == '!='
        if lo == hi == 0:
            return [(not neg, st)]
        if lo > 0 or hi < 0:
            return [(neg, st)]
        k = d
        if st.ne.get(k) or st.ne.get(mul(d, -1)):
            return [(neg, st)]
        s2 = st.copy()
        out = []
        if self.narrow(st, d, 0, 0):
            out.append((not neg, st))
        s2.ne[k] = True
        if lo == 0:
            self.narrow(s2, d, 1, INF)
        elif hi == 0:
            self.narrow(s2, d, -INF, -1)
        out.append((neg, s2))
        return out

    def arith(self, st, op, a, b):
        if op == '+':
            return add(a, b)
        if op == '-':
            return add(a, b, -1)
        ca, cb = isinstance(a, int), isinstance(b, int)
        if ca and cb:
            if op in ('/', '%') and b == 0:
                raise Infeasible
            return {'*': lambda: a * b, '/': lambda: int(a / b), '%': lambda: a - b * int(a / b), '<<': lambda: a << b, '>>': lambda: a >> b,
                    '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
        if op == '*' and (ca or cb):
            return mul(b, a) if ca else mul(a, b)
        if op == '<<' and cb:
            c, t = parts(a)
            if c == 0 and len(t) == 1:
                (x, k), = t.items()
                if x[0] == 'op' and x[1] == '>>' and x[3] == b and k == 1:
                    return add(x[2], self.arith(st, '&', x[2], (1 << b) - 1), -1)
            return mul(a, 1 << b)
        if op == '&' and ca:
            a, b, ca, cb = b, a, cb, ca
        if op == '&' and cb and b >= 0 and (b & (b + 1)) == 0:
            lo, hi = self.range(st, a)
            if lo >= 0 and hi <= b:
                return a
        if op == '%' and cb and b > 0 and (b & (b - 1)) == 0 and self.range(st, a)[0] >= 0:
            return self.arith(st, '&', a, b - 1)
        if op == '/' and cb and b > 0 and (b & (b - 1)) == 0 and self.range(st, a)[0] >= 0:
            return self.arith(st, '>>', a, b.bit_length() - 1)
        if op == '>>' and cb and b == 0:
            return a
        return ('op', op, a, b)

    # -------------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.budget or self.deadline and self.steps % 500 == 0 and time.time() > self.deadline:
            raise Gap('too many steps')

    def merge(self, outs):
        if len(outs) < 2:
            return outs
        seen, r = set(), []
        for s, c in outs:
            k = (s.key(), c)
            if k in seen:
                self.count['merged'] += 1
                continue
            seen.add(k)
            r.append((s, c))
        return r

    def exec(self, n, st):
        """[(state, control)], control: None, 'break', 'continue', ('return', value)"""
        self.tick()
        k = n['kind']
        f = getattr(self, 'x_' + k, None)
        if f:
            return f(n, st)
        return [(s, None) for v, s in self.ev(n, st)]

    def x_CompoundStmt(self, n, st):
        cur, done = [st], []
        inner = list(n.get('inner', ()))
        labels = {c['declId']: i for i, c in enumerate(inner) if c['kind'] == 'LabelStmt' and 'declId' in c}
        jumps = {}
        for j, c in enumerate(inner):
            nxt = [(s, None) for s in jumps.pop(j, ())] if c['kind'] == 'LabelStmt' else []
            cur = cur + [s for s, _ in nxt]
            if not cur:
                continue
            nxt = []
            for s in cur:
                for s2, ctl in self.guard(self.exec, c, s):
                    if ctl is None:
                        nxt.append((s2, None))
                    elif isinstance(ctl, tuple) and ctl[0] == 'goto' and labels.get(ctl[1], -1) > j:
                        jumps.setdefault(labels[ctl[1]], []).append(s2)
                    elif isinstance(ctl, tuple) and ctl[0] == 'goto' and ctl[1] in labels:
                        self.lost.add('backward goto')
                    else:
                        done.append((s2, ctl))
            cur = [s for s, _ in self.merge(nxt)]
            if not cur and not jumps:
                break
        return [(s, None) for s in cur] + done

    def guard(self, f, *a):
        try:
            return f(*a)
        except Infeasible:
            return []
        except Gap as e:
            if 'too many' in str(e):
                raise
            self.lost.add(str(e))
            return []

    def x_GotoStmt(self, n, st):
        return [(st, ('goto', n.get('targetLabelDeclId')))]

    def x_LabelStmt(self, n, st):
        return self.exec(n['inner'][0], st)

    def x_NullStmt(self, n, st):
        return [(st, None)]

    def x_DeclStmt(self, n, st):
        cur = [st]
        for d in n.get('inner', ()):
            if d['kind'] != 'VarDecl':
                continue
            nxt = []
            for s in cur:
                key = ('v', len(s.stack), d['id'])
                if d.get('inner') and d.get('init'):
                    if d['inner'][-1]['kind'] == 'InitListExpr':
                        s.v[key] = ('aggr',)
                        nxt.append(s)
                        continue
                    for v, s2 in self.ev(d['inner'][-1], s):
                        s2.v[key] = v
                        nxt.append(s2)
                else:
                    s.v[key] = ('uninit',)
                    nxt.append(s)
            cur = nxt
        return [(s, None) for s in cur]

    def x_IfStmt(self, n, st):
        inner = n['inner']
        out = []
        for b, s in self.cond(inner[0], st):
            if b:
                out += self.guard(self.exec, inner[1], s)
            elif len(inner) > 2:
                out += self.guard(self.exec, inner[2], s)
            else:
                out.append((s, None))
        return out

    def x_ReturnStmt(self, n, st):
        if not n.get('inner'):
            return [(st, ('return', None))]
        return [(s, ('return', v)) for v, s in self.ev(n['inner'][0], st)]

    def x_BreakStmt(self, n, st):
        return [(st, 'break')]

    def x_ContinueStmt(self, n, st):
        return [(st, 'continue')]

    def x_DoStmt(self, n, st):
        body, cond = n['inner'][0], n['inner'][1]
        out = []
        cur = [st]
        for i in range(self.limit + 1):
            nxt = []
            for s in cur:
                for s2, ctl in self.guard(self.exec, body, s):
                    if ctl == 'break':
                        out.append((s2, None))
                    elif ctl in (None, 'continue'):
                        for b, s3 in self.cond(cond, s2):
                            (nxt if b else out).append(s3 if b else (s3, None))
                    else:
                        out.append((s2, ctl))
            cur = nxt
        return out

    def x_WhileStmt(self, n, st):
        return self.loop(n, [st], n['inner'][0], n['inner'][1], None)

    def x_ForStmt(self, n, st):
        init, _, cond, inc, body = (list(n['inner']) + [{}] * 5)[:5]
        cur = [st]
        if init.get('kind'):
            cur = [s for s, c in self.exec(init, st)]
        return self.loop(n, cur, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)

    def strip(self, n):
        while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr'):
            n = n['inner'][0]
        return n

    def sweep(self, n, st, cond, body, inc):
        """(variable, limit) if the loop runs over all slots of a node"""
        if cond is None:
            return None
        c = self.strip(cond)
        if c['kind'] == 'BinaryOperator' and c['opcode'] == '&&':
            r = self.sweep(n, st, c['inner'][0], body, inc)
            return r and (r[0], r[1], r[2] + [c['inner'][1]])
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '!=', '<=', '>', '>='):
            return None
        a, b = self.strip(c['inner'][0]), c['inner'][1]
        op = c['opcode']
        if op in ('>', '>='):
            a, b, op = self.strip(c['inner'][1]), c['inner'][0], {'>': '<', '>=': '<='}[op]
        if a['kind'] != 'DeclRefExpr':
            return None
        key = self.lv(a, st)[0][0]
        v = st.v.get(key)
        if not isinstance(v, int) or v != 0:
            return None
        if self.strip(b)['kind'] not in ('IntegerLiteral', 'BinaryOperator'):
            return None
        try:
            r = self.ev(b, st.copy())
        except (Gap, Infeasible):
            return None
        if len(r) != 1 or not isinstance(r[0][0], int):
            return None
        lim = r[0][0] + (op == '<=')
        return (key, lim, []) if 8 <= lim <= 64 else None

    def loop(self, n, cur, cond, body, inc):
        out = []
        for st in cur:
            sw = self.sweep(n, st, cond, body, inc)
            if sw:
                out += self.foreach(n, st, sw, body)
                continue
            work = [(st, 0)]
            while work:
                s, done = work.pop()
                self.tick()
                self.symbolic, self.pointer = False, False
                cs = self.cond(cond, s) if cond is not None else [(True, s)]
                symbolic, pointer = self.symbolic or cond is None, self.pointer
                for b, s2 in cs:
                    if not b:
                        out.append((s2, None))
                        continue
                    if done >= (self.limit if symbolic or pointer else 10):
                        if symbolic:    # the iterations that follow are like the ones seen
                            out += [(x, None) for x in self.skip(s2, cond, body, inc)]
                        continue
                    for s3, ctl in self.guard(self.exec, body, s2):
                        if ctl == 'break':
                            out.append((s3, None))
                        elif ctl in (None, 'continue'):
                            ss = [s3]
                            if inc is not None:
                                ss = [x for _, x in self.ev(inc, s3)]
                            work += [(x, done + 1) for x in ss]
                        else:
                            out.append((s3, ctl))
        return self.merge(out)

    def stepped(self, n, out):
        if n.get('kind') == 'UnaryOperator' and n['opcode'] in ('++', '--') or n.get('kind') == 'CompoundAssignOperator':
            x = self.strip(n['inner'][0])
            if x['kind'] == 'DeclRefExpr':
                out.append(x)
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                self.stepped(c, out)
        return out

    def skip(self, st, cond, body, inc):
        """states in which the loop has ended"""
        st = st.copy()
        for x in self.stepped(body, self.stepped(inc or {}, [])):
            l = self.lv(x, st)[0][0]
            if l[0] == 'v' and isint(st.v.get(l, ())):
                st.n += 1
                lo = self.range(st, st.v[l])[0]
                st.v[l] = sym('loop%d' % st.n, lo)
        if cond is None:
            return []
        return [s for b, s in self.cond(cond, st) if not b]

    def foreach(self, n, st, sw, body):
        key, lim, extra = sw
        keys = []
        for o in st.h.values():
            for k in o.ov:
                if k not in keys:
                    keys.append(k)
        for g in st.g.values():
            for k in g.mats:
                if k not in keys:
                    keys.append(k)
        keys.sort(key=repr)
        if lim > BF:
            self.report('C18', 'sweep', st, n, 'a loop over the slots of a node goes up to %d' % lim)
        cur, out = [st], []
        if lim < BF:
            self.report('C14', 'sweep', st, n, 'a loop over the slots of a node stops at %d: the others are not treated' % lim)
        cur = [(s, ()) for s in cur]
        for k in keys + [REST]:
            nxt = []
            for s0, done in cur:
                if k != REST and any(self.range(s0, add(k, e, -1)) == (0, 0) for e in done):
                    nxt.append((s0, done))
                    continue
                s = s0.copy()
                s.v[key] = k
                found, before = dict(self.found), self.touched
                self.touched = {k: {}}
                res, todo = [], [s]
                for c in extra:
                    more = []
                    for t in todo:
                        for b, t2 in self.cond(c, t):
                            (more.append(t2) if b else res.append((t2, 'break')))
                    todo = more
                for t in todo:
                    res += self.guard(self.exec, body, t)
                looked = list(self.touched[k])
                known, self.touched = any(self.touched[k].values()), before
                if k != REST and not known:     # not a slot of its own in the nodes this loop looks at
                    self.found = found
                    nxt.append((s0, done))
                    continue
                for s2, ctl in res:
                    if ctl == 'break' and looked and all(self.vacant_slot(s2, i, k) for i in looked):
                        nxt.append((s2, done + (k,)))       # the slots of a node are filled from the left: there is nothing beyond an empty one
                    elif ctl == 'break':
                        if k == REST:
                            self.broken(s0, s2, n)
                        out.append((s2, None))
                    elif ctl in (None, 'continue'):
                        nxt.append((s2, done + (k,)))
                    else:
                        out.append((s2, ctl))
            cur = self.merge(nxt)
        cur = [s for s, _ in cur]
        for s in cur:
            s.v[key] = lim
            out.append((s, None))
        return out

    def vacant_slot(self, st, i, k):
        o = st.h.get(i)
        if o is None or o.kind != 'VNode':
            return False
        if k in o.ov:
            return o.ov[k] == NULL
        if o.base is None:
            return True
        g = st.g.get(o.base)
        return g is not None and (g.rep == NULL if k == REST else g.mats.get(k) == NULL)

    def broken(self, old, st, n):
        """a loop over the slots of a node was left in a round that changed what the slot holds"""
        for g in st.g.values():
            if not g.rep or g.rep[0] != 'obj' or g.rep[1] not in st.h:
                continue
            i = g.rep[1]
            o, b = st.h[i], old.h.get(i)
            if o.kind != 'VNode' or not o.pre or o.state != 'ok':
                continue
            rc = o.f.get('refCount')
            was = b.f.get('refCount') if b else ('rc', 0, 1, True) if rc != ('rc', i, 0, False) and (rc[1] == 0 or not rc[1] == i) else ('rc', i, 0, False)
            if rc != was:
                self.report('C03' if was[3] != rc[3] else 'C14', 'sweep', st, n, 'a loop over the slots of a node ends after it treated one: the nodes in the others %s' %
                            ('stay marked as owned by the evolver' if was[3] != rc[3] else 'keep their reference counts'))

    def x_SwitchStmt(self, n, st):
        cond, body = n['inner'][0], n['inner'][-1]
        out = []
        stmts = body.get('inner', [])
        flat = []
        for s in stmts:
            labels = []
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                labels.append(s['inner'][0] if s['kind'] == 'CaseStmt' else None)
                s = s['inner'][-1]
            flat.append((labels, s))
        for v, s in self.ev(cond, st):
            todo = [s]
            for i, (labels, _) in enumerate(flat):
                for l in labels:
                    if l is None:
                        continue
                    nxt = []
                    for t in todo:
                        for c, t2 in self.ev(l, t):
                            for b, t3 in self.compare(t2, '==', v, c):
                                if b:
                                    out += self.run_from(flat, i, t3)
                                else:
                                    nxt.append(t3)
                    todo = nxt
            d = [i for i, (ls, _) in enumerate(flat) if None in ls]
            for t in todo:
                out += self.run_from(flat, d[0], t) if d else [(t, None)]
        return out

    def run_from(self, flat, i, st):
        cur, out = [st], []
        for _, x in flat[i:]:
            nxt = []
            for s in cur:
                for s2, ctl in self.guard(self.exec, x, s):
                    if ctl == 'break':
                        out.append((s2, None))
                    elif ctl is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, ctl))
            cur = nxt
        return out + [(s, None) for s in cur]

    # -------------------------------------------------------------- conditions
    def cond(self, n, st):
        """[(bool, state)]"""
        m = self.strip(n) if n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr') else n
        if m['kind'] == 'UnaryOperator' and m['opcode'] == '!':
            return [(not b, s) for b, s in self.cond(m['inner'][0], st)]
        if m['kind'] == 'BinaryOperator' and m['opcode'] in ('&&', '||'):
            out = []
            for b, s in self.cond(m['inner'][0], st):
                if b == (m['opcode'] == '||'):
                    out.append((b, s))
                else:
                    out += self.cond(m['inner'][1], s)
            return out
        if m['kind'] == 'CallExpr' and ref(m['inner'][0]) == '__builtin_expect':
            return self.cond(m['inner'][1], st)
        out = []
        for v, s in self.ev(m, st):
            out += self.truth(v, s)
        return out

    def truth(self, v, st):
        if isinstance(v, tuple) and v[0] in ('null', 'obj'):
            self.pointer = True
        if v == NULL:
            return [(False, st)]
        if isinstance(v, bool) or isinstance(v, int):
            return [(bool(v), st)]
        if isinstance(v, tuple) and v[0] in ('obj', 'glob', 'ptr', 'fn', 'str', 'arr', 'typeof', 'opaque', 'fnptr'):
            return [(True, st)]
        if isinstance(v, tuple) and v[0] == 'rc':
            return [(b, s) for b, s in self.rc_cmp(st, v, '!=', 0)]
        if v == ('uninit',):
            raise Gap('uninitialised value')
        if isint(v):
            return self.compare(st, '!=', v, 0)
        raise Gap('truth of %r' % (v,))

    # -------------------------------------------------------------- expressions
    def ev(self, n, st):
        """[(value, state)]"""
        f = getattr(self, 'e_' + n['kind'], None)
        if f is None:
            raise Gap(n['kind'])
        return f(n, st)

    def e_IntegerLiteral(self, n, st):
        return [(int(n['value']), st)]

    def e_CharacterLiteral(self, n, st):
        return [(int(n['value']), st)]

    def e_StringLiteral(self, n, st):
        return [(('str', n['value']), st)]

    def e_PredefinedExpr(self, n, st):
        return [(('str', ''), st)]

    def e_ParenExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    e_ConstantExpr = e_ParenExpr

    def e_StmtExpr(self, n, st):
        return [(0, s) for s, c in self.exec(n['inner'][0], st) if c is None]

    def e_OffsetOfExpr(self, n, st):
        return [(0, st)]

    def e_ImplicitValueInitExpr(self, n, st):
        return [(0, st)]

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        t = (n.get('argType') or n['inner'][0]['type'])['qualType']
        return [(self.size(t), st)]

    def size(self, t):
        if t.endswith(']'):
            base, k = t[:-1].rsplit('[', 1)
            return int(k) * self.size(base.strip())
        if t.endswith('*'):
            return 8
        if t == 'VNode':
            return BF * 8 + 8
        return {'int': 4, 'unsigned int': 4, 'char': 1}.get(t, 8)

    def e_ImplicitCastExpr(self, n, st):
        k = n['castKind']
        if k == 'NullToPointer':
            return [(NULL, st)]
        if k == 'LValueToRValue':
            return [self.load(l, s, n) for l, s in self.lv(n['inner'][0], st) for _ in (0,)] if False else self.loads(n['inner'][0], st, n)
        if k == 'ArrayToPointerDecay':
            if n['inner'][0]['kind'] in ('StringLiteral', 'PredefinedExpr'):
                return self.ev(n['inner'][0], st)
            out = []
            for l, s in self.lv(n['inner'][0], st):
                if l[0] == 'fld' and l[2] == 'items':
                    out.append((('arr', l[1], 0), s))
                elif l[0] == 'gfld':
                    out.append((('garr', l[1], l[2]), s))
                else:
                    out.append((('ptr', l), s))
            return out
        if k in ('PointerToBoolean', 'IntegralToBoolean'):
            return [(1 if b else 0, s) for b, s in self.cond(n['inner'][0], st)]
        r = self.ev(n['inner'][0], st)
        if k == 'NullToPointer' or k == 'IntegralToPointer':
            return [(NULL if v == 0 else v, s) for v, s in r]
        return r

    def e_CStyleCastExpr(self, n, st):
        if n['castKind'] == 'ToVoid':
            return [(None, s) for v, s in self.ev(n['inner'][0], st)]
        return self.e_ImplicitCastExpr(n, st) if n['castKind'] in ('NullToPointer', 'IntegralToPointer', 'LValueToRValue', 'ArrayToPointerDecay') else self.ev(n['inner'][0], st)

    def loads(self, n, st, at):
        out = []
        for l, s in self.lv(n, st):
            out += self.load(l, s, at)
        return out

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'FunctionDecl':
            return [(('fn', d['name']), st)]
        if d['kind'] == 'EnumConstantDecl':
            return [(self.P.enums.get(d['name'], 0), st)]
        return self.loads(n, st, n)

    def e_MemberExpr(self, n, st):
        return self.loads(n, st, n)

    e_ArraySubscriptExpr = e_MemberExpr

    def e_ConditionalOperator(self, n, st):
        out = []
        for b, s in self.cond(n['inner'][0], st):
            out += self.guard(self.ev, n['inner'][1 if b else 2], s)
        return out

    def e_UnaryOperator(self, n, st):
        op, x = n['opcode'], n['inner'][0]
        if op == '&':
            if self.strip(x)['kind'] == 'DeclRefExpr' and self.strip(x)['referencedDecl']['kind'] == 'FunctionDecl':
                return [(('fn', self.strip(x)['referencedDecl']['name']), st)]
            out = []
            for l, s in self.lv(x, st):
                if l[0] == 'g':
                    out.append((('glob', l[1]), s))
                elif l[0] == 'slot':
                    out.append((('arr', l[1], l[2]), s))
                else:
                    out.append((('ptr', l), s))
            return out
        if op == '*':
            out = []
            for v, s in self.ev(x, st):
                if isinstance(v, tuple) and v[0] in ('fnptr', 'fn'):
                    out.append((v, s))
                elif isinstance(v, tuple) and v[0] == 'ptr':
                    out += self.load(v[1], s, n)
                elif isinstance(v, tuple) and v[0] == 'arr':
                    out += self.load(('slot', v[1], v[2]), s, n)
                else:
                    raise Gap('dereference')
            return out
        if op == '!':
            return [(0 if b else 1, s) for b, s in self.cond(x, st)]
        if op in ('++', '--'):
            out = []
            for l, s in self.lv(x, st):
                for v, s2 in self.load(l, s, n):
                    nv = self.step(v, 1 if op == '++' else -1)
                    for s3 in self.store(l, nv, s2, n):
                        out.append((v if n.get('isPostfix') else nv, s3))
            return out
        out = []
        for v, s in self.ev(x, st):
            if op == '-':
                out.append((mul(v, -1), s))
            elif op == '~':
                out.append(((~v) & 0xffffffff if isinstance(v, int) else ('op', '~', v, 0), s))
            elif op in ('+', '__extension__'):
                out.append((v, s))
            else:
                raise Gap(op)
        return out

    def step(self, v, k):
        if isinstance(v, tuple) and v[0] == 'rc':
            return ('rc', v[1], v[2] + k, v[3])
        if isinstance(v, tuple) and v[0] == 'arr':
            return ('arr', v[1], add(v[2], k))
        if v == ('uninit',) or v == ('garbage',):
            raise Gap('uninitialised value')
        if not isint(v):
            raise Gap('step')
        return add(v, k)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        out = []
        for b, s in self.ev(n['inner'][1], st):
            for l, s1 in self.lv(n['inner'][0], s):
                for a, s2 in self.load(l, s1, n):
                    v = self.binary(op, a, b, s2, n)
                    for s3 in self.store(l, v, s2, n):
                        out.append((v, s3))
        return out

    def binary(self, op, a, b, st, n):
        if isinstance(b, tuple) and b[0] == 'rc':
            a, b = b, a
        if isinstance(a, tuple) and a[0] == 'rc':
            if isinstance(b, int):
                b &= 0xffffffff
                if op == '|' and b == 0x80000000:
                    return ('rc', a[1], a[2], True)
                if op == '&' and b == 0x7fffffff:
                    return ('rc', a[1], a[2], False)
                if op == '&' and b == 0x80000000:
                    return 0x80000000 if a[3] else 0
                if op in ('+', '-'):
                    return ('rc', a[1], a[2] + (b if op == '+' else -b), a[3])
            raise Gap('reference count arithmetic')
        if isinstance(a, tuple) and a[0] == 'arr' and op in ('+', '-') and isint(b):
            return ('arr', a[1], add(a[2], b, 1 if op == '+' else -1))
        if not isint(a) or not isint(b):
            raise Gap('arithmetic on %r, %r' % (a, b))
        return self.arith(st, op, a, b)

    def rc_cmp(self, st, v, op, c):
        """[(bool, state)] of comparing a reference count (without the dirty bit) with a constant"""
        base, delta, dirty = v[1:]
        c &= 0xffffffff
        cd, c = bool(c & 0x80000000), c & 0x7fffffff
        if op in ('==', '!='):
            if cd != dirty:
                return [(op == '!=', st)]
        elif cd or dirty:
            raise Gap('order of dirty counts')
        f = {'==': lambda x: x == c, '!=': lambda x: x != c, '<': lambda x: x < c, '<=': lambda x: x <= c, '>': lambda x: x > c, '>=': lambda x: x >= c}[op]
        if base == 0:
            return [(f(delta), st)]
        lo, hi = st.rcb[base]
        # the entry value is in lo..hi: split at the values where the answer changes
        pieces, x = [], lo
        top = max(lo, c - delta + 2)
        while x <= top and x <= hi:
            pieces.append((x, x if x < top else hi, f(x + delta)))
            x += 1
        runs = []
        for p in pieces:
            if runs and runs[-1][2] == p[2]:
                runs[-1] = (runs[-1][0], p[1], p[2])
            else:
                runs.append(p)
        if len(runs) == 1:
            return [(runs[0][2], st)]
        out = []
        for l, h, b in runs:
            s = st.copy()
            s.rcb[base] = (l, h)
            out.append((b, s))
        return out

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        if op == '=':
            out = []
            for v, s in self.ev(n['inner'][1], st):
                for l, s1 in self.lv(n['inner'][0], s):
                    for s2 in self.store(l, v, s1, n):
                        out.append((v, s2))
            return out
        if op == ',':
            return [r for _, s in self.ev(n['inner'][0], st) for r in self.ev(n['inner'][1], s)]
        if op in ('&&', '||'):
            return [(1 if b else 0, s) for b, s in self.cond(n, st)]
        out = []
        for a, s in self.ev(n['inner'][0], st):
            for b, s2 in self.ev(n['inner'][1], s):
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    out += [(1 if t else 0, s3) for t, s3 in self.relate(op, a, b, s2)]
                else:
                    out.append((self.binary(op, a, b, s2, n), s2))
        return out

    def relate(self, op, a, b, st):
        if isinstance(b, tuple) and b[0] == 'rc' and not (isinstance(a, tuple) and a[0] == 'rc'):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if isinstance(a, tuple) and a[0] == 'rc':
            if isinstance(b, int):
                return self.rc_cmp(st, a, op, b)
            raise Gap('reference count compared')
        if isint(a) and isint(b):
            return self.compare(st, op, a, b)
        if op not in ('==', '!='):
            raise Gap('order of pointers')
        self.pointer = True
        if a == 0:
            a = NULL
        if b == 0:
            b = NULL
        if ('uninit',) in (a, b) or ('garbage',) in (a, b):
            raise Gap('uninitialised value compared')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] != 'typeof' and b[0] == 'typeof':
                a, b = b, a
            if a[0] == 'typeof' and b[0] == 'glob':
                k = st.h[a[1]].kind
                own = {'PVectorType': 'PVector', 'PVectorEvolverType': 'PVectorEvolver', 'PVectorIterType': 'PVectorIter'}
                if b[1] in own:
                    return [((own[b[1]] == k) == (op == '=='), st)]
                t = {'PyList_Type': 'list', 'PyTuple_Type': 'tuple'}.get(b[1])
                if k in ('PVector', 'PVectorEvolver', 'PVectorIter') or k in ('list', 'tuple') and t:
                    return [((t == k) == (op == '=='), st)]
                s2 = st.copy()
                return [(True, st), (False, s2)]
            if a[0] == 'typeof' or b[0] == 'typeof':
                s2 = st.copy()
                return [(True, st), (False, s2)]
            if 'opaque' in (a[0], b[0]) and a != b and NULL not in (a, b):
                s2 = st.copy()
                return [(True, st), (False, s2)]
            return [((a == b) == (op == '=='), st)]
        raise Gap('comparison of %r, %r' % (a, b))

    # -------------------------------------------------------------- places
    def lv(self, n, st):
        """[(place, state)]"""
        k = n['kind']
        if k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
            if k == 'ParenExpr' or n.get('castKind') in ('NoOp', 'LValueBitCast', 'BitCast'):
                return self.lv(n['inner'][0], st)
            raise Gap('place ' + str(n.get('castKind')))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            key = ('v', len(st.stack), d['id'])
            if key in st.v:
                return [(key, st)]
            return [(('g', d['name']), st)]
        if k == 'MemberExpr':
            out = []
            name = n['name']
            if n.get('isArrow'):
                for v, s in self.ev(n['inner'][0], st):
                    out.append((self.member(v, name, s, n), s))
            else:
                for l, s in self.lv(n['inner'][0], st):
                    if l[0] == 'g':
                        out.append((('gfld', l[1], name), s))
                    elif l[0] == 'fld' and l[2] == 'ob_base':
                        out.append((('fld', l[1], name), s))
                    elif l[0] == 'v':
                        out.append(((l, name), s) if False else (('v',) + l[1:] + (name,), s))
                    elif l[0] == 'opq':
                        out.append((l, s))
                    else:
                        raise Gap('member of ' + l[0])
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            for b, s in self.ev(n['inner'][0], st):
                for i, s2 in self.ev(n['inner'][1], s):
                    if not isinstance(b, tuple):
                        raise Gap('subscript')
                    if b[0] == 'arr':
                        out.append((('slot', b[1], add(b[2], i)), s2))
                    elif b[0] == 'garr':
                        out.append((('gslot', b[1], b[2], i), s2))
                    elif b == NULL:
                        raise Infeasible
                    else:
                        raise Gap('subscript of ' + b[0])
            return out
        if k == 'UnaryOperator' and n['opcode'] == '*':
            out = []
            for v, s in self.ev(n['inner'][0], st):
                if isinstance(v, tuple) and v[0] == 'ptr':
                    out.append((v[1], s))
                elif isinstance(v, tuple) and v[0] == 'arr':
                    out.append((('slot', v[1], v[2]), s))
                elif v == NULL:
                    raise Infeasible
                else:
                    raise Gap('dereference of %r' % (v,))
            return out
        if k == 'UnaryOperator' and n['opcode'] == '__extension__':
            return self.lv(n['inner'][0], st)
        raise Gap('place ' + k)

    def member(self, v, name, st, n):
        if v == NULL:
            raise Infeasible
        if isinstance(v, tuple):
            if v[0] == 'obj':
                o = st.h.get(v[1])
                if o is None or o.state == 'gone':
                    self.report('C14', 'use after release', st, n, '%s is used after it was released' % (o.what if o else 'an object'))
                    raise Infeasible
                self.stale(st, v, n)
                return ('fld', v[1], name)
            if v[0] == 'glob':
                return ('gfld', v[1], name)
            if v[0] == 'typeof':
                return ('tfld', v[1], name)
            if v[0] == 'ptr' and v[1][0] == 'fld':
                return v[1]
            if v[0] == 'opaque':
                return ('opq', name)
        raise Gap('member %s of %r' % (name, v))

    def stale(self, st, v, n):
        pass

    def load(self, l, st, n):
        """[(value, state)]"""
        k = l[0]
        if k == 'v':
            return [(st.v.get(l, ('uninit',)), st)]
        if k == 'g':
            return self.load_global(l[1], st, n)
        if k == 'gfld':
            if l[1] == 'nodeCache' and l[2] == 'size':
                return [(st.glob.setdefault('cache', sym('nodeCache.size', 0, CACHE)), st)]
            return [(('opaque',), st)]
        if k == 'gslot':
            self.cache_index(st, l, n)
            return [self.garbage_node(st, n)]
        if k == 'tfld':
            if l[2] == 'tp_iternext':
                return [(('fnptr', 'next', l[1]), st)]
            return [(('opaque',), st)]
        if k == 'opq':
            return [(('opaque',), st)]
        if k == 'fld':
            o = st.h[l[1]]
            if l[2] in ('ob_type',):
                return [(('typeof', l[1]), st)]
            if l[2] in ('ob_refcnt', 'ob_base'):
                return [(('opaque',), st)]
            if l[2] == 'ob_size':
                return [(sym('size%d' % l[1], 0), st)]
            if l[2] not in o.f:
                if o.kind in ('PVector', 'VNode', 'PVectorEvolver', 'PVectorIter'):
                    if o.pre:
                        return [(('opaque',), st)]
                    self.report('C17', 'uninitialised', st, n, 'the field %s of %s is read before it is set' % (l[2], o.what))
                    raise Infeasible
                return [(('opaque',), st)]
            return [(o.f[l[2]], st)]
        if k == 'slot':
            return self.load_slot(l, st, n)
        raise Gap('load ' + k)

    def load_global(self, name, st, n):
        if name in st.glob:
            return [(st.glob[name], st)]
        g = self.P.globals.get(name)
        if g is not None and '*' in g['type']['qualType']:
            t = g['type']['qualType']
            if 'PVector' in t:
                i = self.vector(st, 1, 'the vector in %s' % name, empty=True)
                st.glob[name] = ('obj', i)
                st.h[i].ent = 1
                return [(('obj', i), st)]
            s2 = st.copy()
            i = s2.new(Obj('py', 'the object in %s' % name, True, ent=1))
            s2.glob[name] = ('obj', i)
            st.glob[name] = NULL
            return [(NULL, st), (('obj', i), s2)]
        if name.startswith('PyExc_'):
            return [(('exc', name), st)]
        return [(('glob', name), st)]

    def cache_index(self, st, l, n):
        lo, hi = self.range(st, l[3])
        self.count['index checks'] += 1
        if lo < 0 or hi > CACHE - 1:
            self.report('C18', 'cache', st, n, 'the cache of free nodes is accessed at an index in %s..%s' % (lo, hi))

    def garbage_node(self, st, n):
        i = st.new(Obj('VNode', 'a node', False, rc=0, conc=True, node=n))
        st.h[i].base = 'garbage'
        st.h[i].f['refCount'] = ('garbage',)
        return (('obj', i), st)

    def slot_check(self, st, l, n):
        k = l[2]
        o = st.h.get(l[1])
        if o is None or o.state == 'gone':
            self.report('C14', 'use after release', st, n, '%s is used after it was released' % (o.what if o else 'a node'))
            raise Infeasible
        self.count['index checks'] += 1
        if k in self.touched:
            self.touched[k].setdefault(l[1], k in o.ov or o.base in st.g and k in st.g[o.base].mats)
        lo, hi = self.range(st, k)
        if lo < 0 or hi > BF - 1:
            self.report('C18', 'slot', st, n, 'a slot of a node is accessed at an index in %s..%s' % (lo, hi))

    def position_check(self, st, l, n):
        """a position that leads to a slot of a leaf must be known to be one of the vector's"""
        a = single(l[2]) if not isinstance(l[2], int) else None
        if not a or a[0] != 'op' or a[1] != '&' or a[3] != BF - 1 or isinstance(a[2], int):
            return
        pos = a[2]
        if not any(x[0] == 's' and not x[1].startswith('count') for x in parts(pos)[1]):
            return
        lo = self.range(st, pos)[0]
        ok = lo >= 0 and any(self.range(st, add(pos, o.f['count'], -1))[1] < 0 for o in st.h.values() if o.kind == 'PVector' and 'count' in o.f)
        self.count['index checks'] += 1
        if not ok:
            self.report('C18', 'position', st, n, 'an element is accessed at a position that was not compared with the length%s' % ('' if lo >= 0 else ' (it may be negative)'))

    def find_key(self, st, keys, k):
        """[(matching key or None, state)]"""
        if k in keys:
            return [(k, st)]
        if k == REST:
            return [(None, st)]
        out, cur = [], st
        vacant = self.vacant(st, k)
        for x in sorted(keys, key=repr):
            if x == REST:
                continue
            d = add(k, x, -1)
            if vacant and keys[x] != NULL and not isinstance(d, int):
                cur.ne[d] = True      # a slot in use is not the first free one
                continue
            lo, hi = self.range(cur, d)
            if lo > 0 or hi < 0 or cur.ne.get(d) or cur.ne.get(mul(d, -1)):
                continue
            if lo == hi == 0:
                return out + [(x, cur)]
            s2 = cur.copy()
            if self.narrow(s2, d, 0, 0):
                out.append((x, s2))
            cur.ne[d] = True
        return out + [(None, cur)]

    def vacant(self, st, k):
        """whether k is the first free slot of a tail or the slot a full tail goes to"""
        for o in st.h.values():
            if o.kind == 'PVector' and o.state != 'gone' and isint(o.f.get('count', ())):
                c = o.f['count']
                m = self.arith(st, '&', add(c, -1), BF - 1)
                if k == c and self.range(st, c)[1] < BF or k == add(m, 1) or k == self.arith(st, '&', self.arith(st, '>>', add(c, -1), 5), BF - 1):
                    return True
        return False

    def load_slot(self, l, st, n):
        self.slot_check(st, l, n)
        out = []
        o = st.h[l[1]]
        for k, s in self.find_key(st, o.ov, l[2]):
            o = s.h[l[1]]
            if k is not None:
                out.append((o.ov[k], s))
            elif o.base is None:
                out.append((NULL, s))
            elif o.base == 'garbage':
                self.report('C18', 'garbage', s, n, 'a slot of a node is read before it is set')
            else:
                out += self.group_get(s, o.base, l[2], n, l)
        return out

    def group_get(self, st, gid, k, n, l=None, writing=False):
        """[(value, state)] of a slot of a group"""
        out = []
        g = st.g[gid]
        if k == REST:
            if g.rep is None:
                return self.materialise(st, gid, None, n)
            return [(g.rep, st)]
        for x, s in self.find_key(st, g.mats, k):
            g = s.g[gid]
            if x is not None:
                out.append((g.mats[x], s))
            else:
                if g.level == 0 and not writing and l is not None:
                    self.position_check(s, ('slot', l[1], k), n)
                out += self.materialise(s, gid, k, n)
        return out

    def materialise(self, st, gid, k, n):
        """gives the slot k (None: the representative) of a group a value"""
        g = st.g[gid]
        out = []

        def put(s, v):
            w = s.wg(gid)
            if k is None:
                w.rep = v
            else:
                w.mats[k] = v
            out.append((v, s))
        rep = g.rep if k is not None else None
        what = '%s of %s' % ('a slot' if k is not None else 'the slots', g.what)
        if rep == NULL:
            put(st, NULL)
            return out
        if g.level == 0:
            if k is not None and g.tailof is not None:
                c = g.tailof
                if k == c or k == add(self.arith(st, '&', add(c, -1), BF - 1), 1) or self.range(st, add(k, c, -1))[0] >= 0 and self.range(st, c)[1] <= BF - 1:
                    put(st, NULL)
                    return out
            s2 = st.copy()
            i = st.new(Obj('py', 'the object in ' + what, True, ent=1))
            if rep:
                st.h[i].rc = st.h[rep[1]].rc
            put(st, ('obj', i))
            if k is None:
                put(s2, NULL)
            return out
        lookup = k is not None and k != REST and self.looked_up(k)
        if g.level == 1 and isinstance(k, tuple) and k[:2] == ('op', '&') and isinstance(k[2], tuple) and k[2][:2] == ('op', '>>') and k[2][3] == 5 and \
                any(o.kind == 'PVector' and o.state != 'gone' and isint(o.f.get('count', ())) and add(o.f['count'], -1) == k[2][2] for o in st.h.values()):
            put(st, NULL)       # where the tail goes once it is full
            return out
        kinds = [True, False] if g.dirty else [False]
        if rep:
            kinds = [st.h[rep[1]].f['refCount'][3]]
        for dirty in kinds:
            s = st.copy()
            i = self.node(s, g.level - 1, dirty, 'the node in ' + what, None)
            if rep:
                d = s.h[rep[1]].f['refCount'][2] - (1 if s.h[rep[1]].f['refCount'][1] == 0 else 0)
                rc = s.h[i].f['refCount']
                s.h[i].f['refCount'] = ('rc', rc[1], rc[2] + d, rc[3])
            put(s, ('obj', i))
        if not lookup:          # the nodes on the way to an element exist
            s = st.copy()
            put(s, NULL)
        return out

    def looked_up(self, k):
        """whether a slot is the one a position given by the caller leads to"""
        def syms(e):
            for x in parts(e)[1] if not isinstance(e, int) else ():
                if x[0] == 's':
                    yield x[1]
                elif x[0] == 'op':
                    yield from syms(x[2])
                    if not isinstance(x[3], int):
                        yield from syms(x[3])
        return isinstance(k, int) or any(not x.startswith('count') for x in syms(k))

    # -------------------------------------------------------------- what exists before
    def node(self, st, level, dirty, what, tailof):
        i = st.new(Obj('VNode', what, True, ent=1))
        o = st.h[i]
        if dirty:
            o.f['refCount'] = ('rc', 0, 1, True)
            o.conc = True
        else:
            st.rcb[i] = (1, INF)
            o.f['refCount'] = ('rc', i, 0, False)
        st.n += 1
        gid = st.n
        st.g[gid] = Group(level, dirty, tailof, what)
        o.base = gid
        return i

    def vector(self, st, depth, what, empty=False, raw=None):
        """raw: (vector, root is dirty, tail is dirty) for the vector an evolver works on"""
        i = st.new(Obj('PVector', what, True))
        o = st.h[i]
        o.tracked = True
        if raw:
            orig = st.h[raw[0]]
            o.f['count'] = orig.f['count']
            o.f['shift'] = orig.f['shift']
            depth = orig.f['shift'] // 5
            o.tracked = False
            o.conc, o.rc, o.rc0, o.ent = True, 1, 1, 1
            o.f['root'] = ('obj', self.node(st, depth, True, 'the dirty root of ' + what, None)) if raw[1] else orig.f['root']
            o.f['tail'] = ('obj', self.node(st, 0, True, 'the dirty tail of ' + what, o.f['count'])) if raw[2] else orig.f['tail']
            o.f['in_weakreflist'] = NULL
            return i
        o.f['count'] = 0 if empty else sym('count%d' % i, 0)
        o.f['shift'] = 5 * depth
        o.f['root'] = ('obj', self.node(st, depth, False, 'the root of ' + what, None))
        o.f['tail'] = ('obj', self.node(st, 0, False, 'the tail of ' + what, o.f['count']))
        o.f['in_weakreflist'] = ('opaque',)
        return i

    # -------------------------------------------------------------- stores
    def raw_vectors(self, st):
        r = set()
        for o in st.h.values():
            if o.kind == 'PVectorEvolver' and o.state != 'gone':
                a, b = o.f.get('originalVector'), o.f.get('newVector')
                if a != b and b and b[0] == 'obj':
                    r.add(b[1])
        return r

    def store(self, l, v, st, n):
        """[state]"""
        k = l[0]
        if v == 0 and k in ('fld', 'slot') and not (k == 'fld' and l[2] in ('count', 'shift', 'refCount', 'it_index')):
            v = NULL
        if k == 'v':
            st.v[l] = v
            return [st]
        if k == 'g':
            st.glob[l[1]] = v
            return [st]
        if k == 'gfld':
            if l[1] == 'nodeCache' and l[2] == 'size':
                st.glob['cache'] = v
            return [st]
        if k == 'gslot':
            self.cache_index(st, l, n)
            self.free_node(st, v, n)
            return [st]
        if k == 'fld':
            o = st.h.get(l[1])
            if o is None:
                return [st]
            if o.kind == 'PVector' and l[2] in ('count', 'shift', 'root', 'tail'):
                self.count['writes'] += 1
                if o.pre and l[1] not in self.raw_vectors(st) and not o.state == 'dying':
                    self.report('C03', 'vector', st, n, 'the %s of %s, which already exists, is changed' % (l[2], o.what))
            w = st.w(l[1])
            if o.kind == 'VNode' and l[2] == 'refCount':
                if v == ('garbage',):
                    raise Gap('garbage')
                if isinstance(v, int):
                    v = ('rc', 0, v & 0x7fffffff, bool(v & 0x80000000))
                old = o.f.get('refCount')
                if o.pre and v[0] == 'rc' and v[3] and not (old[0] == 'rc' and old[3]):
                    self.report('C03', 'dirty', st, n, '%s, which other vectors may share, is marked as owned by the evolver' % o.what)
                if v[0] == 'rc' and old and old[0] == 'rc' and o.pre and old[1] != 0 and v[1] == 0:
                    lo, hi = st.rcb[old[1]]
                    if lo != hi or lo + old[2] != v[2]:
                        self.report('C14', 'overwritten', st, n, 'the reference count of %s is overwritten' % o.what)
                if v[0] == 'rc' and v[1] == 0 and v[2] < 0:
                    self.report('C14', 'over-release', st, n, '%s is released more often than it is held' % o.what)
                    raise Infeasible
            w.f[l[2]] = v
            return [st]
        if k == 'slot':
            self.slot_check(st, l, n)
            o = st.h[l[1]]
            self.count['writes'] += 1
            rc = o.f.get('refCount')
            if o.pre and not (rc and rc[0] == 'rc' and rc[3]):
                self.report('C03', 'slot', st, n, 'a slot of %s, which other vectors may share, is changed' % o.what)
            out = []
            for x, s in self.find_key(st, o.ov, l[2]):
                if x is not None:
                    s.w(l[1]).ov[x] = v
                    out.append(s)
                elif o.base in (None, 'garbage'):
                    if l[2] == REST:
                        w = s.w(l[1])
                        w.base = self.group_of(s, v)
                        out.append(s)
                    else:
                        s.w(l[1]).ov[l[2]] = v
                        out.append(s)
                elif l[2] == REST:
                    s.w(l[1]).base = self.group_of(s, v)
                    out.append(s)
                else:
                    for y, s1 in self.find_key(s, s.g[o.base].mats, l[2]):
                        y = l[2] if y is None else y        # the same slot goes by one name
                        for _, s2 in self.group_get(s1, o.base, y, n, writing=True):
                            s2.w(l[1]).ov[y] = v
                            out.append(s2)
            return out
        if k in ('opq', 'tfld'):
            return [st]
        raise Gap('store ' + k)

    def group_of(self, st, v):
        if v == NULL:
            return None
        for gid, g in st.g.items():
            if g.rep == v:
                return gid
        raise Gap('slots filled with one value')

    def free_node(self, st, v, n):
        if not (isinstance(v, tuple) and v[0] == 'obj'):
            return
        o = st.h.get(v[1])
        if o is None or o.kind != 'VNode':
            return
        if o.state == 'gone':
            self.report('C14', 'double free', st, n, '%s is freed twice' % o.what)
            raise Infeasible
        rc = o.f.get('refCount')
        if o.pre and rc and rc[0] == 'rc' and rc[1] != 0 and st.rcb[rc[1]][1] + rc[2] > 0 and not rc[2] + st.rcb[rc[1]][1] == 0:
            self.report('C14', 'freed while shared', st, n, '%s is freed though others may refer to it' % o.what)
        w = st.w(v[1])
        w.state = 'gone'

    # -------------------------------------------------------------- references
    def incref(self, st, v, n):
        if v == NULL:
            raise Infeasible
        if v[0] == 'obj':
            o = st.h.get(v[1])
            if o is None or o.state == 'gone':
                self.report('C14', 'use after release', st, n, '%s is used after it was released' % (o.what if o else 'an object'))
                raise Infeasible
            if o.kind == 'VNode':
                raise Gap('a node is used as an object')
            self.stale(st, v, n)
            st.w(v[1]).rc += 1
        elif v[0] == 'glob':
            st.grc[v[1]] = st.grc.get(v[1], 0) + 1
        elif v == ('uninit',):
            self.report('C14', 'uninitialised', st, n, 'a pointer that was never set is used')
            raise Infeasible
        return [st]

    def decref(self, st, v, n):
        """[state]"""
        if v == NULL:
            raise Infeasible
        if v[0] == 'glob':
            st.grc[v[1]] = st.grc.get(v[1], 0) - 1
            return [st]
        if v == ('uninit',):
            self.report('C14', 'uninitialised', st, n, 'a pointer that was never set is released')
            raise Infeasible
        if v[0] != 'obj':
            return [st]
        o = st.h.get(v[1])
        if o is None or o.state == 'gone':
            self.report('C14', 'use after release', st, n, '%s is released after it is gone' % (o.what if o else 'an object'))
            raise Infeasible
        w = st.w(v[1])
        w.rc -= 1
        if w.conc:
            if w.rc < 0:
                self.report('C14', 'over-release', st, n, '%s is released more often than it is held' % w.what)
                raise Infeasible
            if w.rc > 0:
                return [st]
            f = {'PVector': 'PVectorType', 'PVectorEvolver': 'PVectorEvolverType', 'PVectorIter': 'PVectorIterType'}.get(w.kind)
            f = f and ref(self.P.table(f).get('tp_dealloc'))
            w.state = 'dying'
            if 'list iterator' not in w.flags:
                self.callback(st, n, 'the release of ' + w.what)
            if f in self.P.functions:
                out = []
                for r, s in self.call_source(f, [v], st, n):
                    if s.h[v[1]].state != 'gone':
                        self.report('C14', 'not freed', s, n, '%s is not freed when it is released' % w.what, fn=f)
                        s.w(v[1]).state = 'gone'
                    out.append(s)
                return out
            w = st.w(v[1])
            w.state = 'gone'
            return [st]
        self.callback(st, n, 'the release of ' + w.what)
        return [st]

    # -------------------------------------------------------------- accounting
    def cells(self, st, ignore=()):
        """{object: number of places that own a reference to it}"""
        r = {}

        def own(v):
            if isinstance(v, tuple) and v[0] == 'obj':
                r[v[1]] = r.get(v[1], 0) + 1
        raw = self.raw_vectors(st)
        for i, o in st.h.items():
            if o.state in ('gone', 'dying') or i in ignore:
                continue
            if o.kind == 'PVector':
                for f in ('root', 'tail'):
                    v = o.f.get(f)
                    if i in raw and isinstance(v, tuple) and v[0] == 'obj' and v[1] in st.h:
                        rc = st.h[v[1]].f.get('refCount')
                        if not (rc and rc[0] == 'rc' and rc[3]):
                            continue
                    own(v)
            elif o.kind == 'PVectorEvolver':
                own(o.f.get('originalVector'))
                if o.f.get('newVector') != o.f.get('originalVector'):
                    own(o.f.get('newVector'))
                own(o.f.get('appendList'))
            elif o.kind == 'PVectorIter':
                own(o.f.get('it_seq'))
            elif o.kind == 'VNode':
                rc = o.f.get('refCount')
                if rc and rc[0] == 'rc' and rc[1] == 0 and rc[2] == 0 and not rc[3]:
                    continue
                if rc and rc[0] == 'rc' and rc[1] != 0 and st.rcb[rc[1]][1] + rc[2] == 0:
                    continue
                for v in o.ov.values():
                    own(v)
                if o.base not in (None, 'garbage'):
                    g = st.g[o.base]
                    for k, v in g.mats.items():
                        if k not in o.ov:
                            own(v)
                    if REST not in o.ov and g.rep:
                        own(g.rep)
        for k, v in st.glob.items():
            own(v)
        return r

    def delta(self, st, i):
        """references to i acquired less those given up; None if not known"""
        o = st.h[i]
        if o.kind == 'VNode':
            rc = o.f.get('refCount')
            if not rc or rc[0] != 'rc':
                return None
            if rc[1] == 0:
                if o.pre and i in st.rcb:
                    return rc[2] - st.rcb[i][0]
                return rc[2] - (1 if o.pre else 0)
            return rc[2]
        return o.rc - o.rc0

    def balance(self, st, ret, node):
        cells = self.cells(st)
        for i, o in sorted(st.h.items()):
            c = cells.get(i, 0)
            back = 1 if ret == ('obj', i) else 0
            if o.state == 'gone':
                if c or back:
                    self.report('C14', 'dangling', st, node, '%s was released but is still referred to' % o.what)
                elif o.kind == 'VNode' and o.pre and self.delta(st, i) not in (None, -o.ent):
                    pass
                continue
            if o.state == 'dying':
                self.report('C14', 'not freed', st, node, '%s is not freed' % o.what)
                continue
            d = self.delta(st, i)
            if d is None:
                continue
            want = c + back - o.ent
            if d > want:
                self.report('C14', 'leak', st, node, '%d reference%s to %s %s lost' % (d - want, 's' if d - want > 1 else '', o.what, 'are' if d - want > 1 else 'is'), fn=self.entry)
            elif d < want:
                self.report('C14', 'missing reference', st, node, 'a reference to %s is handed out or kept that was not acquired, or one that others hold is given up' % o.what, fn=self.entry)
        for g, d in st.grc.items():
            back = 1 if ret == ('glob', g) else 0
            if d > back:
                self.report('C14', 'leak', st, node, 'a reference to %s is lost' % g, fn=self.entry)
            elif d < back:
                self.report('C14', 'missing reference', st, node, 'a reference to %s is handed out that was not acquired' % g, fn=self.entry)

    def callback(self, st, n, why):
        """user code may run here: what it can reach must be in order"""
        self.count['callbacks'] += 1
        if why != 'a garbage collection':
            st.cb += 1
        cells = self.cells(st)
        # objects user code can reach: what existed before, and what the collector knows of
        for i, o in st.h.items():
            c = cells.get(i, 0)
            if o.state == 'gone':
                if c and self.visible_holder(st, i):
                    self.report('C15', 'dangling', st, n, 'during %s an object user code can reach refers to %s, which is gone' % (why, o.what))
                continue
            d = self.delta(st, i)
            if d is None or o.state == 'dying':
                continue
            if d < c - o.ent and self.visible_holder(st, i):
                self.report('C15', 'not owned', st, n, 'during %s an object user code can reach refers to %s without owning the reference' % (why, o.what))
        for i, o in st.h.items():
            if o.tracked and o.state == 'ok' and not o.pre:
                for f, t in self.P.fields(o.kind):
                    if f != 'ob_base' and f not in o.f:
                        self.report('C15', 'uninitialised', st, n, 'during %s the collector can reach %s whose %s is not set' % (why, o.what, f))
        if self.havoc and st.cb == self.havoc and why != 'a garbage collection':
            self.change(st)

    def change(self, st):
        """user code changed the evolver or exhausted the iterator the function was called on"""
        for i in self.args:
            o = st.h.get(i)
            if o is None or o.state != 'ok' or o.kind not in ('PVectorEvolver', 'PVectorIter'):
                continue
            cells = self.cells(st)
            old = [v[1] for k, v in sorted(o.f.items()) if isinstance(v, tuple) and v[0] == 'obj']
            w = st.w(i)
            if o.kind == 'PVectorIter':
                if o.f.get('it_seq') == NULL:
                    continue
                w.f['it_seq'] = NULL
            else:
                v = self.vector(st, 1, 'the vector the evolver has now')
                st.h[v].ent = 1
                l = st.new(Obj('list', 'the list the evolver has now', True, ent=1))
                w.f.update(originalVector=('obj', v), newVector=('obj', v), appendList=('obj', l))
            for x in dict.fromkeys(old):
                self.drop(st, x)

    def drop(self, st, x):
        o = st.h.get(x)
        if o is None or o.state == 'gone' or o.ent < 1:
            return
        w = st.w(x)
        w.ent -= 1
        held = self.delta(st, x) if o.kind != 'VNode' else 0
        if o.conc and o.kind == 'PVector':      # the vector an evolver works on
            held -= 0
        if held > 0:
            return
        w.state = 'gone'

    def visible_holder(self, st, i):
        """whether an object user code can reach leads to i"""
        seen, work = set(), [k for k, o in st.h.items() if o.state == 'ok' and o.kind in ('PVector', 'PVectorEvolver', 'PVectorIter') and (o.pre or o.tracked)]
        raw = self.raw_vectors(st)
        work = [w for w in work if w not in raw]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            o = st.h[k]
            vs = list(o.f.values()) + list(o.ov.values())
            if o.kind == 'VNode' and o.base not in (None, 'garbage'):
                g = st.g[o.base]
                vs += [v for x, v in g.mats.items() if x not in o.ov] + ([g.rep] if g.rep else [])
            for v in vs:
                if isinstance(v, tuple) and v[0] == 'obj':
                    if v[1] == i:
                        return True
                    if v[1] in st.h and st.h[v[1]].state == 'ok':
                        work.append(v[1])
        return False

    # -------------------------------------------------------------- calls
    def e_CallExpr(self, n, st):
        self.tick()
        args = n['inner'][1:]
        name = ref(n['inner'][0])
        direct = name if name and (name in self.P.functions or name in self.P.decls) and self.strip(n['inner'][0])['referencedDecl']['kind'] == 'FunctionDecl' else None
        cur = [([], st)] if direct else [([f], s) for f, s in self.ev(n['inner'][0], st)]
        if direct in ('PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT', 'PyArg_ParseTupleAndKeywords'):
            return self.parse_tuple(n, args, st)
        for a in args:
            nxt = []
            for vs, s in cur:
                for v, s2 in self.ev(a, s):
                    nxt.append((vs + [v], s2))
            cur = nxt
        out = []
        for vs, s in cur:
            if direct:
                out += self.guard(self.call, direct, vs, s, n)
            else:
                out += self.guard(self.call_value, vs[0], vs[1:], s, n)
        return out

    def call_value(self, f, args, st, n):
        if f[0] == 'fn':
            return self.call(f[1], args, st, n)
        if f[0] == 'fnptr' and f[1] == 'next':
            return self.next_item(st, n, args[0])
        if f[0] == 'fnptr' and f[1] == 'visit':
            v = args[0]
            self.count['visits'] += 1
            if v != NULL and v[0] == 'obj':
                if st.h[v[1]].state == 'gone':
                    self.report('C17', 'gone', st, n, 'an object that is gone is visited')
                st.visits[v[1]] = st.visits.get(v[1], 0) + 1
            elif v == NULL:
                self.report('C17', 'null', st, n, 'NULL is visited')
            s2 = st.copy()
            s2.visits['stop'] = 1
            return [(0, st), (sym('visit', 1), s2)]
        raise Gap('call of %r' % (f,))

    def next_item(self, st, n, it):
        o = st.h.get(it[1]) if it[0] == 'obj' else None
        quiet = o is not None and 'list iterator' in o.flags
        if st.err and not quiet:
            self.pending(st, n, 'the next element is asked for')
        out = []
        if not quiet:
            self.callback(st, n, 'the iteration')
            s = st.copy()
            self.set_err(s, 'user')
            out.append((NULL, s))
            s = st.copy()
            self.set_err(s, 'stop')
            out.append((NULL, s))
        s = st.copy()
        out.append((NULL, s))
        i = st.new(Obj('py', 'an element of the iterable', False, rc=1, conc=False, node=n))
        out.append((('obj', i), st))
        return out

    def set_err(self, st, kind):
        st.err_n += 1
        st.err = (kind, st.err_n)

    def pending(self, st, n, what):
        if st.err and st.err[0] != 'stop':
            self.report('C16', 'pending', st, n, '%s while an exception is set' % what)

    def call(self, name, args, st, n):
        if name in self.P.functions:
            return self.call_source(name, args, st, n)
        return self.api(name, args, st, n)

    def call_source(self, name, args, st, n):
        f = self.P.functions[name]
        if len(st.stack) > 30:
            raise Gap('recursion')
        self.count['calls'] += 1
        self.reach.add(name)
        depth = len(st.stack) + 1
        st.stack = st.stack + (name,)
        for p, a in zip(f['_params'], args):
            st.v[('v', depth, p['id'])] = a
        out = []
        for s, ctl in self.guard(self.exec, f['_body'], st):
            s.stack = s.stack[:depth - 1]
            for k in [k for k in s.v if k[1] >= depth]:
                del s.v[k]
            c = s.glob.get('cache')
            if c is not None:
                lo, hi = self.range(s, c)
                if lo >= -1 and hi <= CACHE + 1 and name not in ('allocNode',):
                    s.glob['cache'] = sym('nodeCache.size', 0, CACHE)
                if lo < 0 or hi > CACHE:
                    self.report('C18', 'cache size', s, f, 'the size of the cache of free nodes is in %s..%s when %s returns' % (lo, hi, name), fn=name)
                s.glob['cache'] = sym('nodeCache.size', 0, CACHE)
                for k in [k for k in s.b if 'nodeCache.size' in repr(k)]:
                    del s.b[k]
                for k in [k for k in s.ne if 'nodeCache.size' in repr(k)]:
                    del s.ne[k]
            self.forget(s, ctl)
            out.append((s, ctl))
        return [(ctl[1] if ctl else None, s) for s, ctl in self.merge(out)]

    def forget(self, st, ctl):
        """drops facts about values nothing refers to any more"""
        live = set()

        def see(e):
            if isinstance(e, tuple):
                if e and e[0] == 's':
                    live.add(e)
                else:
                    for x in e:
                        see(x)
        see(tuple(st.v.values()))
        see(tuple(st.glob.values()))
        if ctl:
            see(ctl)
        for o in st.h.values():
            if o.state != 'gone':
                see(tuple(o.f.values()))
                see(tuple(o.ov))
        for g in st.g.values():
            see(tuple(g.mats))

        def dead(e):
            if isinstance(e, tuple):
                if e and e[0] == 's':
                    return e not in live
                return any(dead(x) for x in e)
            return False
        for k in [k for k in st.b if dead(k)]:
            del st.b[k]
        for k in [k for k in st.ne if dead(k)]:
            del st.ne[k]

    def parse_tuple(self, n, args, st):
        fmt, targets = None, []
        for a in args:
            m = self.strip(a)
            if m['kind'] == 'StringLiteral' and fmt is None:
                fmt = text(m)
            elif fmt is not None:
                targets.append(a)
        spec = (fmt or '').split(':')[0].split(';')[0]
        out = []
        s = st.copy()
        self.callback(s, n, 'the conversion of the arguments')
        self.set_err(s, 'user')
        out.append((0, s))
        items, opt = [], False
        i = 0
        while i < len(spec):
            c = spec[i]
            if c == '|':
                opt = True
            elif c == '$':
                pass
            elif c == 'O':
                if spec[i + 1:i + 2] in ('&', '!'):
                    items.append((spec[i:i + 2], opt))
                    i += 1
                else:
                    items.append(('O', opt))
            else:
                items.append((c, opt))
            i += 1
        for given in sorted({sum(1 for _, o in items if not o), len(items)}):
            s = st.copy()
            self.callback(s, n, 'the conversion of the arguments')
            t = list(targets)
            cur = [s]
            for j, (c, o) in enumerate(items):
                a = t.pop(0)
                if c in ('O&', 'O!'):
                    b = t.pop(0)
                    if c == 'O&':
                        a = b
                    else:
                        a = b
                if j >= given:
                    continue
                nxt = []
                for x in cur:
                    for v, x2 in self.ev(a, x):
                        if v[0] != 'ptr':
                            raise Gap('argument of PyArg_ParseTuple')
                        if c in ('O', 'O!'):
                            k = x2.new(Obj('py', 'an argument', True))
                            val = ('obj', k)
                        else:
                            x2.n += 1
                            val = sym('arg%d' % x2.n)
                        nxt += self.store(v[1], val, x2, n)
                cur = nxt
            out += [(1, x) for x in cur]
        return out

    def fresh(self, st, kind, what, n, rc=1):
        i = st.new(Obj(kind, what, False, rc=rc, conc=True, node=n))
        return ('obj', i)

    def api(self, name, args, st, n):
        self.count['api calls'] += 1
        m = getattr(self, 'a_' + name, None)
        if m:
            return m(args, st, n)
        d = self.P.decls.get(name)
        spec = API.get(name)
        if spec is None:
            t = d['type']['qualType'].split('(')[0].strip() if d else ''
            if t == 'PyObject *':
                spec = ('new', 1, 1)
            elif t == 'void':
                spec = ('void', 0, 0)
            else:
                raise Gap('function ' + name)
            self.gaps['unknown function ' + name] = self.gaps.get('unknown function ' + name, 0) + 1
        kind, fails, runs = spec
        for a in args:
            if a == NULL and name in ('PyObject_Repr', 'PyObject_RichCompare', 'PyObject_RichCompareBool', 'PyList_Append', 'PyList_AsTuple', 'PyObject_Hash', 'PyList_Size'):
                if st.err:
                    self.report('C16', 'null', st, n, 'the failure of a function goes unnoticed: the NULL it returned is passed to %s' % name)
                raise Infeasible
            if isinstance(a, tuple) and a[0] == 'obj':
                o = st.h.get(a[1])
                if o is None or o.state == 'gone':
                    self.report('C14', 'use after release', st, n, '%s is used after it was released' % (o.what if o else 'an object'))
                    raise Infeasible
                self.stale(st, a, n)
            if a == ('uninit',):
                self.report('C14', 'uninitialised', st, n, 'a variable that was never set is passed to %s' % name)
                raise Infeasible
        if fails or runs:
            self.pending(st, n, '%s is called' % name)
        if runs:
            self.callback(st, n, 'the call of ' + name)
        out = []
        if name in ('PyList_SetItem',):     # takes the reference over, also on failure
            if args[2][0] == 'obj':
                st.w(args[2][1]).rc -= 1
        if name == 'PyModule_AddObject' and args[2][0] == 'glob':
            st.grc[args[2][1]] = st.grc.get(args[2][1], 0) - 1
        if fails:
            s = st.copy()
            self.set_err(s, 'user')
            out.append((NULL if kind in ('new', 'next', 'list', 'tuple') else -1, s))
        if kind in ('new', 'list', 'tuple'):
            out.append((self.fresh(st, 'py' if kind == 'new' else kind, 'the result of ' + name, n), st))
        elif kind == 'next':
            s = st.copy()
            out.append((NULL, s))
            out.append((self.fresh(st, 'py', 'an element of the iterable', n), st))
        elif kind == 'tri':
            out += [(0, st.copy()), (1, st)]
        elif kind == 'bool':
            out += [(0, st.copy()), (1, st)]
        elif kind == 'zero':
            if name == 'PySlice_Unpack':
                for i, a in enumerate(args[1:4]):
                    if a[0] == 'ptr':
                        st.n += 1
                        self.store(a[1], sym('slice%d' % st.n), st, n)
            out.append((0, st))
        elif kind == 'int':
            st.n += 1
            v = sym('%s%d' % (name, st.n))
            out.append((v, st))
        elif kind == 'size':
            a = args[0]
            i = a[1] if a[0] == 'obj' else 0
            c = st.h[i].flags if a[0] == 'obj' else ()
            out.append((sym('size%s.%d' % (i, st.cb if a[0] == 'obj' and st.h[i].kind == 'list' else 0), 0), st))
        elif kind == 'sizeint':
            st.n += 1
            if name == 'PySlice_AdjustIndices':
                start = None
                for a in args[1:3]:
                    if a[0] == 'ptr':
                        st.n += 1
                        v = sym('slice%d' % st.n)
                        start = start or v
                        self.store(a[1], v, st, n)
                none = st.copy()
                out.append((0, none))
                if start is not None and isint(args[0]):
                    if not (self.narrow(st, start, 0, INF) and self.narrow(st, add(start, args[0], -1), -INF, -1) and self.narrow(st, args[0], 1, INF)):
                        return out
                v = sym('len%d' % st.n, 1)
                if isint(args[0]):
                    self.narrow(st, add(v, args[0], -1), -INF, 0)
                out.append((v, st))
                return out
            out.append((sym('len%d' % st.n, 0), st))
        elif kind == 'opaque':
            out.append((('opaque',), st))
        elif kind == '0':
            out.append((0, st))
        else:
            out.append((None, st))
        return out

    # the functions with effects of their own
    def a_Py_INCREF(self, a, st, n):
        if a[0] == NULL and st.err:
            self.report('C16', 'null', st, n, 'the failure of a function goes unnoticed: the NULL it returned is used')
            raise Infeasible
        return [(None, s) for s in self.incref(st, a[0], n)]

    def a_Py_XINCREF(self, a, st, n):
        return [(None, st)] if a[0] == NULL else [(None, s) for s in self.incref(st, a[0], n)]

    def a_Py_DECREF(self, a, st, n):
        return [(None, s) for s in self.decref(st, a[0], n)]

    def a_Py_XDECREF(self, a, st, n):
        return [(None, st)] if a[0] == NULL else [(None, s) for s in self.decref(st, a[0], n)]

    a_Py_IncRef, a_Py_DecRef = a_Py_XINCREF, a_Py_XDECREF

    def a_Py_NewRef(self, a, st, n):
        return [(a[0], s) for s in self.incref(st, a[0], n)]

    a__Py_NewRef = a_Py_NewRef

    def a_Py_XNewRef(self, a, st, n):
        return [(a[0], st)] if a[0] == NULL else self.a_Py_NewRef(a, st, n)

    a__Py_XNewRef = a_Py_XNewRef

    def a_Py_TYPE(self, a, st, n):
        if a[0] == NULL:
            raise Infeasible
        if a[0][0] != 'obj':
            return [(('opaque',), st)]
        return [(('typeof', a[0][1]), st)]

    def a_Py_IS_TYPE(self, a, st, n):
        if a[0][0] == 'obj' and a[1][0] == 'glob':
            return [(1 if t else 0, s) for t, s in self.relate('==', ('typeof', a[0][1]), a[1], st)]
        return [(0, st.copy()), (1, st)]

    def a_Py_REFCNT(self, a, st, n):
        st.n += 1
        return [(sym('refcnt%d' % st.n, 1), st)]

    def a_Py_SET_REFCNT(self, a, st, n):
        raise Gap('Py_SET_REFCNT')

    def a_memset(self, a, st, n):
        if a[0][0] != 'obj':
            raise Gap('memset')
        o = st.w(a[0][1])
        rc = o.f.get('refCount')
        if o.pre and not (rc and rc[0] == 'rc' and rc[3]):
            self.report('C03', 'slot', st, n, '%s, which other vectors may share, is cleared' % o.what)
        o.base, o.ov = None, {}
        o.f['refCount'] = ('rc', 0, 0, False)
        if isinstance(a[2], int) and a[2] > BF * 8 + 8:
            self.report('C18', 'memset', st, n, 'more than a node is cleared')
        return [(a[0], st)]

    def a_memcpy(self, a, st, n):
        d, s = a[0], a[1]
        if d[0] == 'ptr' and s[0] == 'ptr' and a[2] == 8:
            return [(d, s3) for v, s2 in self.load(s[1], st, n) for s3 in self.store(d[1], v, s2, n)]
        if d[0] != 'arr' or s[0] != 'arr' or d[2] != 0 or s[2] != 0:
            if d[0] == 'obj' and s[0] == 'obj' and st.h[d[1]].kind == 'VNode' == st.h[s[1]].kind:
                o = st.w(d[1])
                o.base, o.ov = st.h[s[1]].base, dict(st.h[s[1]].ov)
                rc = st.h[s[1]].f['refCount']
                o.f['refCount'] = rc
                return [(d, st)]
            raise Gap('memcpy')
        self.count['index checks'] += 1
        lo, hi = self.range(st, a[2])
        if hi > BF * 8:
            self.report('C18', 'memcpy', st, n, 'up to %s bytes are copied into a node' % hi)
        o = st.w(d[1])
        rc = o.f.get('refCount')
        if o.pre and not (rc and rc[0] == 'rc' and rc[3]):
            self.report('C03', 'slot', st, n, 'the slots of %s, which other vectors may share, are changed' % o.what)
        if o.base == 'garbage' and lo < BF * 8:
            self.report('C18', 'garbage', st, n, 'slots of a node are left unset')
        src = st.h[s[1]]
        o.base, o.ov = src.base, dict(src.ov)
        return [(d, st)]

    a___builtin___memcpy_chk = a_memmove = a_memcpy

    def a_PyMem_Malloc(self, a, st, n):
        return [self.garbage_node(st, n)]

    a_PyMem_RawMalloc = a_malloc = a_PyMem_Malloc

    def a_PyMem_Free(self, a, st, n):
        self.free_node(st, a[0], n)
        return [(None, st)]

    a_free = a_PyMem_RawFree = a_PyMem_Free

    def a__PyObject_GC_New(self, a, st, n):
        kind = {'PVectorType': 'PVector', 'PVectorEvolverType': 'PVectorEvolver', 'PVectorIterType': 'PVectorIter'}.get(a[0][1] if a[0][0] == 'glob' else None)
        if not kind:
            raise Gap('object of unknown type')
        what = {'PVector': 'a new vector', 'PVectorEvolver': 'a new evolver', 'PVectorIter': 'a new iterator'}[kind]
        v = self.fresh(st, kind, what, n)
        st.h[v[1]].tracked = False
        self.callback_gc(st, n)
        return [(v, st)]

    def callback_gc(self, st, n):
        """making an object may run the collector, and that finalizers"""
        self.callback(st, n, 'a garbage collection')

    def a_PyObject_GC_Track(self, a, st, n):
        o = st.w(a[0][1])
        if o.tracked:
            self.report('C17', 'tracked twice', st, n, '%s is given to the collector twice' % o.what)
        o.tracked = True
        for f, t in self.P.fields(o.kind):
            if f != 'ob_base' and f not in o.f:
                self.report('C17', 'tracked early', st, n, '%s is given to the collector before its %s is set' % (o.what, f))
        if a[0][1] in self.raw_vectors(st) and o.kind == 'PVector':
            for f in ('root', 'tail'):
                v = o.f.get(f)
                rc = st.h[v[1]].f.get('refCount') if v and v[0] == 'obj' else None
                if rc and rc[0] == 'rc' and rc[3]:
                    self.report('C17', 'tracked dirty', st, n, '%s is given to the collector while its %s is still marked as owned by the evolver' % (o.what, f))
        return [(None, st)]

    def a_PyObject_GC_UnTrack(self, a, st, n):
        st.w(a[0][1]).tracked = False
        return [(None, st)]

    def a_PyObject_GC_Del(self, a, st, n):
        o = st.w(a[0][1])
        if o.tracked:
            self.report('C17', 'not untracked', st, n, '%s is freed while the collector still has it' % o.what)
        o.state = 'gone'
        return [(None, st)]

    def a_PyErr_Occurred(self, a, st, n):
        return [(('opaque',) if st.err else NULL, st)]

    def a_PyErr_Clear(self, a, st, n):
        self.count['error events'] += 1
        if st.err and st.err[0] == 'user':
            self.report('C16', 'swallowed', st, n, 'an exception raised by called code is cleared')
        st.err = None
        return [(None, st)]

    def a_PyErr_ExceptionMatches(self, a, st, n):
        if not st.err:
            raise Infeasible
        e = a[0][1] if a[0][0] == 'exc' else None
        if e == 'PyExc_StopIteration':
            if st.err[0] == 'stop':
                return [(1, st)]
            return [(0, st)]
        s2 = st.copy()
        return [(0, st), (1, s2)]

    def own_error(self, a, st, n):
        self.count['error events'] += 1
        if st.err and st.err[0] == 'user':
            self.report('C16', 'replaced', st, n, 'an exception raised by called code is replaced by another one')
        self.set_err(st, 'own')
        return [(NULL, st)]

    a_PyErr_Format = a_PyErr_SetString = a_PyErr_SetObject = a_PyErr_SetNone = a_PyErr_NoMemory = a_PyErr_BadInternalCall = own_error

    def a_PyObject_GetIter(self, a, st, n):
        self.pending(st, n, 'PyObject_GetIter is called')
        islist = a[0][0] == 'obj' and st.h[a[0][1]].kind == 'list'
        out = []
        if not islist:
            self.callback(st, n, 'the call of PyObject_GetIter')
            s = st.copy()
            self.set_err(s, 'user')
            out.append((NULL, s))
        v = self.fresh(st, 'py', 'the iterator', n)
        if islist:
            st.h[v[1]].flags = frozenset(['list iterator'])
        out.append((v, st))
        return out

    def set_item(self, a, st, n):
        """the container takes the reference over"""
        v = a[2]
        if v[0] == 'obj':
            w = st.w(v[1])
            w.rc -= 1
            if w.conc and w.rc < 0:
                self.report('C14', 'over-release', st, n, 'a container is given a reference to %s that is not held' % w.what)
        elif v[0] == 'glob':
            st.grc[v[1]] = st.grc.get(v[1], 0) - 1
        return [(None, st)]

    a_PyList_SET_ITEM = a_PyTuple_SET_ITEM = set_item

    def a_PyTuple_SetItem(self, a, st, n):
        self.set_item(a, st, n)
        return [(0, st)]

    def borrowed(self, a, st, n):
        i = st.new(Obj('py', 'an item of a container', True))
        return [(('obj', i), st)]

    a_PyTuple_GetItem = a_PyTuple_GET_ITEM = borrowed

    def within(self, a, st):
        """whether the index is known to be one of the list's"""
        if a[0][0] != 'obj' or not isint(a[1]) or not st.h[a[0][1]].pre:
            return True
        i = a[0][1]
        size = sym('size%s.%d' % (i, st.cb if st.h[i].kind == 'list' else 0), 0)
        self.count['index checks'] += 1
        return self.range(st, a[1])[0] >= 0 and self.range(st, add(a[1], size, -1))[1] < 0

    def a_PyList_GET_ITEM(self, a, st, n):
        if not self.within(a, st):
            self.report('C18', 'list', st, n, 'an item of a list is accessed at a position that was not compared with the length it has then')
        return self.borrowed(a, st, n)

    def a_PyList_GetItem(self, a, st, n):
        out = []
        if not self.within(a, st):
            s = st.copy()
            self.set_err(s, 'user')
            out.append((NULL, s))
        return out + self.borrowed(a, st, n)

    def a___assert_fail(self, a, st, n):
        raise Infeasible

    def a__PyObject_CAST(self, a, st, n):
        return [(a[0], st)]

    def a__PyTrash_begin(self, a, st, n):
        return [(0, st)]
