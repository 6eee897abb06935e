"""Statements and expressions."""
import ast
from .model import *
from .program import AnalysisBroken, where
from .interp import Interp, Frame, ClassInfo, BUILTIN_NAMES, EXC_BASES

OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitXor: '^', ast.BitAnd: '&', ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '<<': 'lshift',
          '>>': 'rshift', '|': 'or', '^': 'xor', '&': 'and', '@': 'matmul'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
CDUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}


class Machine(Interp):
    # ================================================================ modules
    def exec_module(self, name):
        env = ('mod', name)
        if name in self.modstate:
            return env
        self.modstate[name] = 'running'
        m = self.prog.modules[name]
        st = State()
        st.heap[env] = Obj('env', None, {'__name__': V(K(name))}, own='global')
        self.base[env] = st.heap[env]
        fr = Frame(env, m, m.tree, None, self.ctx(0, m.tree), None, 0, ())
        saved = self.frames, self.sinks, self.handlers, self.pins
        self.frames, self.sinks, self.handlers, self.pins = [fr], [[]], (), []
        rec = self.hooks.get('rec', 3)
        self.hooks['rec'] = 16
        try:
            outs = [s for s, k, v in self.block(st, m.tree.body, fr) if k == 'next']
            raised = self.sinks[0]
        finally:
            self.frames, self.sinks, self.handlers, self.pins = saved
            self.hooks['rec'] = rec
        if not outs:
            raise AnalysisBroken('module %s: no normal completion of the module body (%r)' % (name, raised[:1]))
        s = outs[0]
        for o in outs[1:]:
            s = join_states(s, o)
        for l, o in s.heap.items():
            self.base[l] = o.with_(own='global') if o.own == 'fresh' else o
        self.modstate[name] = 'done'
        return env

    # ================================================================ statements
    def block(self, st, stmts, fr):
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for r in self.stmt(c, s, fr):
                    if r[1] == 'next':
                        nxt.append(r[0])
                    else:
                        outs.append(r)
            cur = self.dedupe(nxt)
            if not cur:
                break
            if len(cur) > 1 and self.is_coarse(fr.mod):
                g = {}
                for c in cur:
                    k = self.pkey(c, fr)
                    g[k] = join_states(g[k], c) if k in g else c
                cur = list(g.values())
        return outs + [(c, 'next', None) for c in cur]

    def stmt(self, st, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported statement %s at %s' % (type(s).__name__, where(s)))
        return m(st, s, fr)

    def s_Expr(self, st, s, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, 'next', None)]
        return [(s2, 'next', None) for s2, _ in self.ev(st, s.value, fr)]

    def s_Pass(self, st, s, fr):
        return [(st, 'next', None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Return(self, st, s, fr):
        if s.value is None:
            return [(st, 'ret', NONE)]
        return [(s2, 'ret', v) for s2, v in self.ev(st, s.value, fr)]

    def s_Break(self, st, s, fr):
        return [(st, 'brk', None)]

    def s_Continue(self, st, s, fr):
        return [(st, 'cont', None)]

    def s_Assign(self, st, s, fr):
        out = []
        for s2, v in self.ev(st, s.value, fr):
            cur = [s2]
            for t in s.targets:
                cur = [s4 for s3 in cur for s4 in self.assign(s3, t, v, fr)]
            out.extend((c, 'next', None) for c in cur)
        return out

    def s_AnnAssign(self, st, s, fr):
        if s.value is None:
            return [(st, 'next', None)]
        return [(s3, 'next', None) for s2, v in self.ev(st, s.value, fr) for s3 in self.assign(s2, s.target, v, fr)]

    def s_AugAssign(self, st, s, fr):
        t = s.target
        op = OPS[type(s.op)]
        out = []
        load = ast.copy_location(self.as_load(t), t)
        if isinstance(t, ast.Subscript):
            # evaluate base and index once
            for s1, b in self.ev(st, t.value, fr):
                for s2, i in self.ev_index(s1, t.slice, fr):
                    for s3, cur in self.getitem(s2, b, i, s):
                        for s4, v in self.ev(s3, s.value, fr):
                            for s5, r in self.binop(s4, op, cur, v, s, inplace=True):
                                out.extend((s6, 'next', None) for s6 in self.setitem(s5, b, i, r, s))
            return out
        if isinstance(t, ast.Attribute):
            for s1, b in self.ev(st, t.value, fr):
                for s3, cur in self.getattr_(s1, b, t.attr, s):
                    for s4, v in self.ev(s3, s.value, fr):
                        for s5, r in self.binop(s4, op, cur, v, s, inplace=True):
                            out.extend((s6, 'next', None) for s6 in self.setattr_(s5, b, t.attr, r, s))
            return out
        for s3, cur in self.ev(st, load, fr):
            for s4, v in self.ev(s3, s.value, fr):
                for s5, r in self.binop(s4, op, cur, v, s, inplace=True):
                    out.extend((s6, 'next', None) for s6 in self.assign(s5, t, r, fr))
        return out

    def as_load(self, t):
        l = getattr(t, '_load', None)
        if l is None:
            l = ast.Name(id=t.id, ctx=ast.Load()) if isinstance(t, ast.Name) else t
            l._mod, l._qual, l._infunc = t._mod, t._qual, t._infunc
            ast.copy_location(l, t)
            t._load = l
        return l

    def s_If(self, st, s, fr):
        out = []
        for s2, b in self.cond(st, s.test, fr):
            out.extend(self.block(s2, s.body if b else s.orelse, fr))
        return out

    def cond(self, st, e, fr):
        """[(state, bool)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for x in e.values:
                nxt = []
                for c in cur:
                    for s2, b in self.cond(c, x, fr):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(c, isand) for c in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s2, not b) for s2, b in self.cond(st, e.operand, fr)]
        out = []
        for s2, v in self.ev(st, e, fr):
            out.extend(self.truth(s2, v))
        return out

    def s_While(self, st, s, fr):
        if self.several:
            return self.peel(st, s, fr, self.several + 2)
        return self.while_loop(st, s, fr)

    def peel(self, st, s, fr, left):
        """iterations whose test is decided are gone through one by one, the remaining ones as a loop"""
        c = self.cond(st, s.test, fr) if left else []
        if len(c) != 1:
            return self.while_loop(st, s, fr)
        s1, b = c[0]
        if not b:
            return self.block(s1, s.orelse, fr) if s.orelse else [(s1, 'next', None)]
        out = []
        for s2, k, v in self.block(s1, s.body, fr):
            if k in ('next', 'cont'):
                out.extend(self.peel(s2, s, fr, left - 1))
            else:
                out.append((s2, 'next' if k == 'brk' else k, v))
        return out

    def while_loop(self, st, s, fr):
        L = ('L', self.uid(s), fr.ctx, 'while')
        self.stats['loops'] += 1
        st = self.drop_el(st, ('el', L), ('els', L), L)
        entry = st
        heads = {}
        outs, exits = [], []
        work = [(st, True)]
        rounds = 0
        self.inloop += 1
        while work:
            h, first = work.pop(0)
            rounds += 1
            if rounds > self.maxrounds:
                self.stats['loopcap'] = self.stats.get('loopcap', 0) + 1
                break
            for s1, b in self.cond(h, s.test, fr):
                if not b:
                    exits.append(self.exhausted(s1, ('none',), K(0)) if False else self.fix_labels(s1, L))
                    continue
                for s2, k, v in self.block(s1, s.body, fr):
                    if k in ('next', 'cont'):
                        s3 = self.backedge(s2, entry, h, L, first)
                        self.add_head(heads, work, s3, fr, rounds)
                    elif k == 'brk':
                        exits.append(self.fix_labels(s2, L))
                    else:
                        outs.append((self.fix_labels(s2, L), k, v))
        self.inloop -= 1
        res = []
        for e in self.dedupe(exits):
            if s.orelse:
                res.extend(self.block(e, s.orelse, fr))
            else:
                res.append((e, 'next', None))
        return outs + res

    def fix_labels(self, st, L):
        per, sub = ('per', L), ('sub', L)
        heap = None
        for l, o in st.heap.items():
            if any(s[0] in ('r', 'dr') and s[-1] in (per, sub) for s in o.segs):
                heap = heap or dict(st.heap)
                heap[l] = o.map_vals(lambda v: v, lambda x: ('opq', 'sub', L) if x in (per, sub) else x)
        return State(heap, st.facts, st.bounds, st.ev) if heap else st

    def s_For(self, st, s, fr):
        out = []
        for s1, it in self.ev(st, s.iter, fr):
            for s2, segs in self.iterate(s1, it, s.iter):
                def body(c, x):
                    res = []
                    for c2 in self.assign(c, s.target, x, fr):
                        res.extend(self.block(c2, s.body, fr))
                    return res
                for s3, k, v in self.loop(s2, segs, s, body, fr):
                    if k == 'next':
                        if s.orelse:
                            out.extend(self.block(s3, s.orelse, fr))
                        else:
                            out.append((s3, 'next', None))
                    elif k == 'brk':
                        out.append((s3, 'next', None))
                    else:
                        out.append((s3, k, v))
        return out

    def exc_type_names(self, st, t, fr):
        if t is None:
            return ['*']
        names = []
        for s2, v in self.ev(st, t, fr):
            for x in self.flat_types(s2, v):
                names.append(x[1] if x[0] in ('b', 'c') else '*')
            break
        return ['*' if n in ('Exception', 'BaseException') else n for n in names]

    def flat_types(self, st, v):
        if v[0] == 'l':
            return [y for s in self.get(st, v[1]).segs for x in s[1] for y in self.flat_types(st, x)]
        return [v]

    def s_Try(self, st, s, fr):
        hn = []
        for h in s.handlers:
            hn.append(self.exc_type_names(st, h.type, fr))
        sink = []
        self.sinks.append(sink)
        saved = self.handlers
        self.handlers = saved + tuple(n for ns in hn for n in ns)
        try:
            outs = self.block(st, s.body, fr)
        finally:
            self.sinks.pop()
            self.handlers = saved
        if s.finalbody:
            fsink = []
            self.sinks.append(fsink)
        res = []
        for r in outs:
            if r[1] == 'next' and s.orelse:
                res.extend(self.block(r[0], s.orelse, fr))
            else:
                res.append(r)
        for s2, e in sink:
            for h, ns in zip(s.handlers, hn):
                if any(self.exc_is(s2, e, n) for n in ns):
                    if h.name:
                        s2 = self.setvar(s2, fr, h.name, e)
                    old = fr.cur_exc
                    fr.cur_exc = e
                    res.extend(self.block(s2, h.body, fr))
                    fr.cur_exc = old
                    break
            else:
                self.raise_(s2, e)
        if s.finalbody:
            self.sinks.pop()
            r2 = []
            for s2, k, v in res:
                for s3, k3, v3 in self.block(s2, s.finalbody, fr):
                    r2.append((s3, k, v) if k3 == 'next' else (s3, k3, v3))
            for s2, e in fsink:
                for s3, k3, v3 in self.block(s2, s.finalbody, fr):
                    if k3 == 'next':
                        self.raise_(s3, e)
                    else:
                        r2.append((s3, k3, v3))
            res = r2
        return res

    def exc_is(self, st, e, name):
        if name == '*':
            return True
        ty = self.type_of(st, e) if e[0] == 'l' else None
        if ty is None:
            return False
        return name in self.mro_of(ty)

    def exc_matches(self, st, e, t):
        return self.exc_is(st, e, t[1])

    def s_Raise(self, st, s, fr):
        if s.exc is None:
            if fr.cur_exc is not None:
                self.raise_(st, fr.cur_exc)
            else:
                self.raise_name(st, 'Exception', s)
            return []
        for s2, v in self.ev(st, s.exc, fr):
            if v[0] in ('c', 'b'):
                for s3, e in self.call(s2, v, [], {}, s):
                    self.raise_(s3, e)
            elif v[0] == 's':
                s3, e = self.make_exc(s2, 'Exception', s)
                self.raise_(s3, e)
            else:
                self.raise_(s2, v)
        return []

    def s_Assert(self, st, s, fr):
        out = []
        for s2, b in self.cond(st, s.test, fr):
            if b:
                out.append((s2, 'next', None))
            else:
                self.raise_name(s2, 'AssertionError', s)
        return out

    def s_Delete(self, st, s, fr):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Subscript):
                    for s1, b in self.ev(c, t.value, fr):
                        for s2, i in self.ev_index(s1, t.slice, fr):
                            nxt.extend(self.delitem(s2, b, i, s))
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(c, t.value, fr):
                        nxt.extend(self.delattr_(s1, b, t.attr, s))
                elif isinstance(t, ast.Name):
                    o = self.get(c, fr.env)
                    f = dict(o.fields)
                    f.pop(t.id, None)
                    nxt.append(self.put(c, fr.env, o.with_(fields=f)))
                else:
                    nxt.append(c)
            cur = nxt
        return [(c, 'next', None) for c in cur]

    def delattr_(self, st, b, name, node, direct=False):
        if b[0] == 'l':
            o = self.get(st, b[1])
            if o.kind == 'inst' and not direct:
                r = self.class_lookup_set(st, o.cls, '__delattr__')
                if r and r[1] in self.classes:
                    return [s for s, _ in self.call(st, ('bm', sorted(r[0], key=repr)[0], b), [K(name)], {}, node)]
            if name not in o.fields:
                self.raise_name(st, 'AttributeError', node)
                return []
            f = dict(o.fields)
            f.pop(name)
            return [self.write(st, b[1], o.with_(fields=f), node, 'del attribute ' + name)]
        return [st]

    def s_Import(self, st, s, fr):
        for a in s.names:
            name = a.name if a.asname else a.name.split('.')[0]
            st = self.setvar(st, fr, a.asname or name, ('m', name))
        return [(st, 'next', None)]

    def s_ImportFrom(self, st, s, fr):
        mod = s.module or ''
        if s.level:
            parts = fr.mod.name.split('.')
            parts = parts[:len(parts) - (s.level - (1 if fr.mod.name == 'pyrsistent' else 0))]
            mod = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == '*':
                if mod in self.prog.modules:
                    env = self.exec_module(mod)
                    for k, v in self.get(st, env).fields.items():
                        if not k.startswith('_'):
                            st = self.setvars(st, fr, k, v)
                continue
            if mod in self.prog.modules and mod != '_collections_abc':
                env = self.exec_module(mod)
                v = self.get(st, env).fields.get(a.name)
                if v is None and mod + '.' + a.name in self.prog.modules:
                    v = V(('m', mod + '.' + a.name))
                if v is None:
                    if self.modstate.get(mod) == 'running':
                        v = V(S('glob', mod, a.name))
                    elif a.name in self.lenient:
                        v = V(S('glob', mod, a.name))
                    else:
                        raise AnalysisBroken('%s: cannot import %s from %s' % (where(s), a.name, mod))
                st = self.setvars(st, fr, a.asname or a.name, v)
            else:
                if mod == 'pyrsistent.typing':
                    st = self.setvar(st, fr, a.asname or a.name, S('glob', mod, a.name))
                    continue
                st = self.setvar(st, fr, a.asname or a.name, self.B.external(self, mod, a.name))
        return [(st, 'next', None)]

    def s_FunctionDef(self, st, s, fr):
        out = []
        for s1, f in self.make_function(st, s, fr):
            cur = [(s1, f)]
            for d in reversed(s.decorator_list):
                nxt = []
                for c, v in cur:
                    for c2, dv in self.ev(c, d, fr):
                        nxt.extend(self.call(c2, dv, [v], {}, d))
                cur = nxt
            out.extend((self.setvar(c, fr, s.name, v), 'next', None) for c, v in cur)
        return out

    s_AsyncFunctionDef = s_Pass

    def make_function(self, st, s, fr):
        """[(state, function atom)]"""
        a = s.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos[len(pos) - len(a.defaults):]] + \
            [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        nodes = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        envo = self.get(st, fr.env)
        envloc = fr.env
        if '$class' in envo.fields:
            (p,) = envo.fields['$parent']
            envloc = p[1]
        cid = None
        if '$class' in envo.fields:
            (c,) = envo.fields['$class']
            cid = c[1]
        out = []
        for s1, vals in self.evs(st, nodes, fr):
            dl = ('fd', s._nid, fr.ctx)
            for i, v in enumerate(vals):
                if v[0] == 'l':
                    o = self.get(s1, v[1])
                    if o.kind in ('list', 'dict', 'set') and o.own == 'fresh':
                        s1 = self.put(s1, v[1], o.with_(own='frozen'))
            s1 = self.put(s1, dl, Obj('env', None, {n: V(v) for n, v in zip(names, vals)}))
            out.append((s1, ('f', s._nid, envloc, cid if cid else fr.cid, dl)))
        return out

    def s_ClassDef(self, st, s, fr):
        out = []
        kwn = [k for k in s.keywords if k.arg]
        for s1, vals in self.evs(st, list(s.bases) + [k.value for k in kwn], fr):
            bases = vals[:len(s.bases)]
            kws = {k.arg: v for k, v in zip(kwn, vals[len(s.bases):])}
            cid = self.new_cid(s, fr)
            env = ('env', s._nid, fr.ctx)
            parent = fr.env
            po = self.get(s1, fr.env)
            if '$class' in po.fields:
                (p,) = po.fields['$parent']
                parent = p[1]
            s1 = self.put(s1, env, Obj('env', None, {'$parent': V(('env', parent)), '$class': V(('cid', cid))}))
            f2 = Frame(env, fr.mod, s, cid, self.ctx(fr.ctx, s), None, fr.depth + 1, fr.stack)
            self.frames.append(f2)
            try:
                outs = self.block(s1, s.body, f2)
            finally:
                self.frames.pop()
            for s2, k, _ in outs:
                if k != 'next':
                    continue
                fields = {n: v for n, v in self.get(s2, env).fields.items() if not n.startswith('$')}
                h = dict(s2.heap)
                del h[env]
                s2 = State(h, s2.facts, s2.bounds, s2.ev)
                for s3, c in self.build_class(s2, s, cid, bases, kws, fields, fr):
                    cur = [(s3, c)]
                    for d in reversed(s.decorator_list):
                        cur = [x for c1, v in cur for c2, dv in self.ev(c1, d, fr) for x in self.call(c2, dv, [v], {}, d)]
                    for s4, v in cur:
                        out.append((self.setvar(s4, fr, s.name, v), 'next', None))
        return out

    def new_cid(self, s, fr):
        base = s._mod.name.replace('pyrsistent.', '') + '.' + s._qual
        if fr.stack:
            base += '@%d' % fr.ctx
        return base

    def build_class(self, st, s, cid, bases, kws, fields, fr):
        meta = kws.get('metaclass')
        if meta is None:
            for b in bases:
                m = self.classes[b[1]].meta if b[0] == 'c' else None
                if m is not None and (meta is None or (m[0] == 'c' and meta[0] != 'c')):
                    meta = m
        meta = meta or ('b', 'type')
        st, d = self.alloc(st, s, 'cdict', Obj('dict', None, {}, (), {K(n): v for n, v in fields.items()}))
        st, b = self.alloc(st, s, 'cbases', Obj('tuple', None, {}, tuple(('i', V(x)) for x in bases)))
        self.pending_class = (cid, fr.mod, s)
        if meta[0] == 'c':
            new = self.class_lookup(st, meta[1], '__new__')
            if new is not None and new[0] != 'b':
                self.pins.append([d, b])
                r = self.call(st, new, [meta, K(s.name), b, d], {}, s)
                self.pins.pop()
                return r
        return self.type_new(st, meta, K(s.name), b, d, s)

    pending_class = None

    def type_new(self, st, meta, name, b, d, node):
        cid, mod, s = self.pending_class or (name[2], None, node)
        bo = self.get(st, b[1])
        bases = []
        for sg in bo.segs:
            if sg[0] == 'i':
                bases.append(sorted(sg[1], key=repr)[0])
        bases = [x for x in bases if x[0] in ('c', 'b')] or [('b', 'object')]
        do = self.get(st, d[1])
        ci = self.classes.get(cid)
        dl = ('cls', cid)
        ci2 = ClassInfo(cid, name[2] if name[0] == 'k' else cid, bases, dl, meta, mod, s)
        self.classes[cid] = ci2
        self.compute_mro(ci2)
        kv = dict(do.kvs)
        if K('__eq__') in kv and K('__hash__') not in kv:
            kv[K('__hash__')] = V(NONE)
        st = self.put(st, dl, Obj('dict', None, {}, do.segs, kv))
        return [(st, ('c', cid))]

    # ================================================================ variables
    def setvar(self, st, fr, name, v):
        return self.setvars(st, fr, name, V(v))

    def setvars(self, st, fr, name, vs):
        loc = fr.env
        if isinstance(fr.node, (ast.FunctionDef, ast.Lambda)) and name in self.nonlocals(fr.node):
            l = loc
            while True:
                o = self.get(st, l)
                p = o.fields.get('$parent')
                if not p:
                    break
                (p,) = p
                l = p[1]
                if name in self.get(st, l).fields:
                    loc = l
                    break
        o = self.get(st, loc)
        return self.put(st, loc, o.setf(name, vs))

    def nonlocals(self, fn):
        r = getattr(fn, '_nonlocals', None)
        if r is None:
            r = set()
            for n in ast.walk(fn):
                if isinstance(n, (ast.Nonlocal, ast.Global)):
                    r.update(n.names)
            fn._nonlocals = r
        return r

    def getvar(self, st, fr, name, node):
        loc = fr.env
        while True:
            o = self.get(st, loc)
            v = o.fields.get(name)
            if v:
                if len(v) == 1:
                    (x,) = v
                    if x == ABSENT:
                        return []
                    return [(st, x)]
                out = []
                for x in sorted(v, key=repr):
                    if x == ABSENT:
                        continue
                    out.append((self.put(st, loc, o.setf(name, V(x))), x))
                return out
            p = o.fields.get('$parent')
            if not p:
                break
            (p,) = p
            loc = p[1]
        # module of the function
        mo = ('mod', fr.mod.name)
        if loc != mo:
            o = self.get(st, mo)
            v = o.fields.get(name)
            if v:
                return [(st, x) for x in sorted(v, key=repr)]
        if fr.mod.name == '_collections_abc':
            return [(st, self.B.external(self, 'collections.abc', name) if self.B.is_abc(self, name) else ('b', name))]
        if name in BUILTIN_NAMES:
            return [(st, ('b', name))]
        if name == '__name__':
            return [(st, K(fr.mod.name))]
        if fr.mod.name == 'client':
            return [(st, S('decl', name))]
        return [(st, S('glob', fr.mod.name, name))]

    def assign(self, st, t, v, fr):
        """[state]"""
        if isinstance(t, ast.Name):
            return [self.setvar(st, fr, t.id, v)]
        if isinstance(t, ast.Attribute):
            return [s2 for s1, b in self.ev(st, t.value, fr) for s2 in self.setattr_(s1, b, t.attr, v, t)]
        if isinstance(t, ast.Subscript):
            return [s3 for s1, b in self.ev(st, t.value, fr) for s2, i in self.ev_index(s1, t.slice, fr)
                    for s3 in self.setitem(s2, b, i, v, t)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                out = []
                for s1, segs in self.iterate(st, v, t):
                    vals = seg_vals(segs)
                    cur = [s1]
                    for i, x in enumerate(t.elts):
                        if isinstance(x, ast.Starred):
                            nxt = []
                            for c in cur:
                                c, l = self.alloc(c, t, 'starred', Obj('list', None, {}, (('r', vals, '?', ('opq', 'star', self.uid(t))),)))
                                nxt.extend(self.assign(c, x.value, l, fr))
                            cur = nxt
                        else:
                            cur = [c3 for c in cur for c2, y in self.pick(c, vals, ('ix', K(i))) for c3 in self.assign(c2, x, y, fr)]
                    out.extend(cur)
                return out
            out = []
            for s1, items in self.unpack(st, v, len(t.elts), t):
                cur = [s1]
                for x, y in zip(t.elts, items):
                    cur = [c2 for c in cur for c2 in self.assign(c, x, y, fr)]
                out.extend(cur)
            return out
        raise AnalysisBroken('assignment target %s' % type(t).__name__)

    def unpack(self, st, v, n, node):
        """[(state, [atoms])]"""
        if v[0] == 's':
            w = self.view(st, v)
            if w == v:
                if self.handlers or self.implicit:
                    if st.facts.get(('unpackable', v[1], n)) is None and any(
                            h in ('*', 'ValueError', 'TypeError') for h in self.handlers):
                        self.raise_name(st, 'TypeError', node)
                return [(st, [S('idx', v[1], K(i)) for i in range(n)])]
        out = []
        for s1, segs in self.iterate(st, v, node):
            if all(s[0] == 'i' for s in segs):
                if len(segs) != n:
                    self.raise_name(s1, 'ValueError', node, implicit=True)
                    continue
                cur = [(s1, [])]
                for i, s in enumerate(segs):
                    cur = [(s3, l + [x]) for s2, l in cur for s3, x in self.pick(s2, s[1], ('ix', K(i)))]
                out.extend(cur)
            else:
                vals = seg_vals(segs)
                cur = [(s1, [])]
                for i in range(n):
                    cur = [(s3, l + [x]) for s2, l in cur for s3, x in self.pick(s2, vals, ('ix', K(i)))]
                out.extend(cur)
        return out

    # ================================================================ expressions
    def ev(self, st, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported expression %s at %s' % (type(e).__name__, where(e)))
        self.steps += 1
        if self.budget and self.steps > self.budget:
            from .interp import Budget
            raise Budget()
        r = m(st, e, fr)
        if len(r) > 1:
            r = self.dedupe_v(r)
        return r

    def evs(self, st, nodes, fr):
        """evaluate a list: [(state, [atoms])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for c, l in cur:
                self.pins.append(l)
                for c2, v in self.ev(c, n, fr):
                    nxt.append((c2, l + [v]))
                self.pins.pop()
            cur = nxt
        return cur

    def e_Constant(self, st, e, fr):
        if e.value is Ellipsis:
            return [(st, ('b', 'Ellipsis'))]
        return [(st, K(e.value))]

    def e_Name(self, st, e, fr):
        return self.getvar(st, fr, e.id, e)

    def e_Attribute(self, st, e, fr):
        return [r for s1, b in self.ev(st, e.value, fr) for r in self.getattr_(s1, b, e.attr, e)]

    def e_Subscript(self, st, e, fr):
        out = []
        for s1, b in self.ev(st, e.value, fr):
            self.pins.append([b])
            for s2, i in self.ev_index(s1, e.slice, fr):
                out.extend(self.getitem(s2, b, i, e))
            self.pins.pop()
        return out

    def ev_index(self, st, n, fr):
        return self.ev(st, n, fr)

    def e_Slice(self, st, e, fr):
        nodes = [x if x is not None else None for x in (e.lower, e.upper, e.step)]
        cur = [(st, [])]
        for n in nodes:
            if n is None:
                cur = [(c, l + [NONE]) for c, l in cur]
            else:
                cur = [(c2, l + [v]) for c, l in cur for c2, v in self.ev(c, n, fr)]
        out = []
        for c, (a, b, s) in cur:
            c, l = self.alloc(c, e, 'slice', Obj('slice', None, {'start': V(a), 'stop': V(b), 'step': V(s)}))
            out.append((c, l))
        return out

    def e_Call(self, st, e, fr):
        out = []
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if not e.args:
                f0 = fr
                return [(st, ('sup', f0.cid, f0.first))] if f0.cid else [(st, S('glob', 'super'))]
            for s1, (c, o) in self.evs(st, e.args, fr):
                if c[0] == 'c':
                    out.append((s1, ('sup', c[1], o)))
                else:
                    out.append((s1, S('glob', 'super')))
            return out
        for s1, f in self.ev(st, e.func, fr):
            self.pins.append([f])
            nodes, starn, dstarn = [], None, None
            names = []
            poss = []
            multi = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    starn = a.value
                    multi.append(a)
                else:
                    nodes.append(a)
                    poss.append(a)
            for k in e.keywords:
                if k.arg is None:
                    dstarn = k.value
            kws = [k for k in e.keywords if k.arg is not None]
            alln = nodes + [k.value for k in kws] + ([starn] if starn else []) + ([dstarn] if dstarn else [])
            for s2, vals in self.evs(s1, alln, fr):
                n = len(nodes)
                args = vals[:n]
                kw = {k.arg: v for k, v in zip(kws, vals[n:n + len(kws)])}
                i = n + len(kws)
                star = dstar = None
                if starn is not None:
                    star = vals[i]
                    i += 1
                if dstarn is not None:
                    dstar = vals[i]
                self.pins.append(vals)
                out.extend(self.call(s2, f, args, kw, e, star, dstar))
                self.pins.pop()
            self.pins.pop()
        return out

    def e_Lambda(self, st, e, fr):
        return self.make_function(st, e, fr)

    def e_IfExp(self, st, e, fr):
        out = []
        for s2, b in self.cond(st, e.test, fr):
            out.extend(self.ev(s2, e.body if b else e.orelse, fr))
        return out

    def e_BoolOp(self, st, e, fr):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for c in cur:
                for s2, v in self.ev(c, x, fr):
                    if last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, v if not (v[0] == 's' and v[1][0] in ('cmp', 'eq', 'is', 'isinst', 'typeis', 'not', 'hasattr', 'issub', 'in', 'callable')) else K(b)))
            cur = nxt
        return out

    def e_NamedExpr(self, st, e, fr):
        return [(s3, v) for s2, v in self.ev(st, e.value, fr) for s3 in self.assign(s2, e.target, v, fr)]

    def e_UnaryOp(self, st, e, fr):
        out = []
        for s2, v in self.ev(st, e.operand, fr):
            if isinstance(e.op, ast.Not):
                if v[0] == 's' and self.view(s2, v) == v:
                    x = v[1]
                    key = x if x[0] in ('cmp', 'eq', 'is', 'isinst', 'typeis', 'not', 'hasattr', 'issub', 'in', 'callable', 'and', 'or') else ('t', x)
                    f = self.fact(s2, key)
                    if f is None:
                        out.append((s2, S('not', key)))
                    else:
                        out.append((s2, K(not f)))
                else:
                    out.extend((s3, K(not b)) for s3, b in self.truth(s2, v))
            elif isinstance(e.op, ast.USub):
                if v[0] == 'k' and isinstance(v[2], (int, float)):
                    out.append((s2, K(-v[2])))
                else:
                    out.append((s2, lin_scale(v, -1) if v[0] == 's' else S('neg', self.gvn(s2, v))))
            elif isinstance(e.op, ast.UAdd):
                out.append((s2, v))
            else:
                out.append((s2, S('inv', self.gvn(s2, v))))
        return out

    def e_BinOp(self, st, e, fr):
        op = OPS[type(e.op)]
        return [r for s2, (a, b) in self.evs(st, [e.left, e.right], fr) for r in self.binop(s2, op, a, b, e)]

    def e_Compare(self, st, e, fr):
        cur = [(st, a, None) for st, a in self.ev(st, e.left, fr)]
        out = []
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            o = CMP[type(op)]
            last = i == len(e.ops) - 1
            nxt = []
            for s1, a, _ in cur:
                self.pins.append([a])
                for s2, b in self.ev(s1, right, fr):
                    for s3, r in self.compare(s2, o, a, b, e):
                        if last:
                            out.append((s3, r))
                        else:
                            for s4, t in self.truth(s3, r):
                                if t:
                                    nxt.append((s4, b, None))
                                else:
                                    out.append((s4, FALSE))
                self.pins.pop()
            cur = nxt
        return out

    def seq_lit(self, st, e, fr, kind):
        cur = [(st, ())]
        for x in e.elts:
            nxt = []
            for c, segs in cur:
                self.pins.append([a for s in segs for a in s[1]])
                if isinstance(x, ast.Starred):
                    for c2, v in self.ev(c, x.value, fr):
                        for c3, sg in self.iterate(c2, v, x):
                            nxt.append((c3, segs + tuple(sg)))
                else:
                    for c2, v in self.ev(c, x, fr):
                        nxt.append((c2, segs + (('i', V(v)),)))
                self.pins.pop()
            cur = nxt
        return [self.alloc(c, e, kind, Obj(kind, None, {}, segs)) for c, segs in cur]

    def e_List(self, st, e, fr):
        return self.seq_lit(st, e, fr, 'list')

    def e_Tuple(self, st, e, fr):
        return self.seq_lit(st, e, fr, 'tuple')

    def e_Set(self, st, e, fr):
        return self.seq_lit(st, e, fr, 'set')

    def e_Dict(self, st, e, fr):
        cur = [(st, {}, ())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for c, kvs, segs in cur:
                if k is None:
                    for c2, m in self.ev(c, v, fr):
                        for c3, kv2, sg in self.mapping_items(c2, m, e):
                            d = dict(kvs)
                            d.update(kv2)
                            nxt.append((c3, d, segs + tuple(sg)))
                    continue
                for c2, (kk, vv) in self.evs(c, [k, v], fr):
                    if kk[0] in ('k', 'c', 'b'):
                        d = dict(kvs)
                        d[kk] = V(vv)
                        nxt.append((c2, d, segs))
                    else:
                        nxt.append((c2, kvs, segs + (('di', V(kk), V(vv)),)))
            cur = nxt
        return [self.alloc(c, e, 'dict', Obj('dict', None, {}, segs, kvs)) for c, kvs, segs in cur]

    def e_JoinedStr(self, st, e, fr):
        cur = [(st, [])]
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                cur = [(c2, l + [x]) for c, l in cur for c2, x in self.ev(c, v.value, fr)]
        return [(c, S(('fmt',) + tuple(self.gvn(c, x) for x in l))) for c, l in cur]

    def comp(self, st, e, fr, kind):
        st, acc = self.alloc(st, e, 'comp-' + kind, Obj(kind, None, {}, (), {} if kind == 'dict' else None))
        aloc = acc[1]
        gens = e.generators
        # comprehension scope
        env = ('env', e._nid, fr.ctx)
        st = self.put(st, env, Obj('env', None, {'$parent': V(('env', fr.env if '$class' not in self.get(st, fr.env).fields else fr.env))}))
        f2 = Frame(env, fr.mod, fr.node, fr.cid, fr.ctx, fr.first, fr.depth, fr.stack)
        f2.acc = aloc

        def level(c, i):
            g = gens[i]
            res = []
            for c1, it in self.ev(c, g.iter, f2):
                self.pins.append([acc])
                for c2, segs in self.iterate(c1, it, g.iter):
                    def body(b, x):
                        r = []
                        for b2 in self.assign(b, g.target, x, f2):
                            cur = [b2]
                            for cnd in g.ifs:
                                nx = []
                                for b3 in cur:
                                    for b4, t in self.cond(b3, cnd, f2):
                                        if t:
                                            nx.append(b4)
                                        else:
                                            r.append((b4, 'next', None))
                                cur = nx
                            for b3 in cur:
                                if i + 1 < len(gens):
                                    r.extend((b4, 'next', None) for b4 in level(b3, i + 1))
                                elif kind == 'dict':
                                    for b4, (k, v) in self.evs(b3, [e.key, e.value], f2):
                                        r.append((self.B.dict_set(self, b4, aloc, k, v, e), 'next', None))
                                else:
                                    for b4, v in self.ev(b3, e.elt, f2):
                                        o = self.get(b4, aloc)
                                        r.append((self.put(b4, aloc, o.with_(segs=o.segs + (('i', V(v)),))), 'next', None))
                        return r
                    res.extend(s for s, k, v in self.loop(c2, segs, g.iter, body, f2, tag='comp'))
                self.pins.pop()
            return self.dedupe(res)
        self.frames.append(f2)
        try:
            outs = level(st, 0)
        finally:
            self.frames.pop()
        res = []
        for s in outs:
            h = dict(s.heap)
            h.pop(env, None)
            res.append((State(h, s.facts, s.bounds, s.ev), acc))
        return res

    def e_ListComp(self, st, e, fr):
        return self.comp(st, e, fr, 'list')

    def e_SetComp(self, st, e, fr):
        return self.comp(st, e, fr, 'set')

    def e_DictComp(self, st, e, fr):
        return self.comp(st, e, fr, 'dict')

    def e_GeneratorExp(self, st, e, fr):
        return self.comp(st, e, fr, 'iter')

    def e_Yield(self, st, e, fr):
        f = fr
        out = []
        vals = self.ev(st, e.value, fr) if e.value is not None else [(st, NONE)]
        for s1, v in vals:
            o = self.get(s1, f.acc)
            out.append((self.put(s1, f.acc, o.with_(segs=o.segs + (('i', V(v)),))), NONE))
        return out

    def e_YieldFrom(self, st, e, fr):
        out = []
        for s1, v in self.ev(st, e.value, fr):
            for s2, segs in self.iterate(s1, v, e):
                o = self.get(s2, fr.acc)
                out.append((self.put(s2, fr.acc, o.with_(segs=o.segs + tuple(segs))), NONE))
        return out

    def e_Starred(self, st, e, fr):
        return self.ev(st, e.value, fr)

    # ================================================================ operators
    def method(self, st, a, name, args, node, kw=None):
        return [r for s1, m in self.getattr_(st, a, name, node) for r in self.call(s1, m, list(args), kw or {}, node)]

    def special(self, st, a, name):
        """special method of an instance of an analysed class (bound) or None"""
        v = self.view(st, a)
        if v[0] == 'l':
            o = self.get(st, v[1])
            if o.kind == 'inst':
                r = self.class_lookup_set(st, o.cls, name)
                if r and r[1] in self.classes:
                    f = sorted(r[0], key=repr)[0]
                    if f == NONE:
                        return None
                    return ('bm', f, v)
        return None

    def binop(self, st, op, a, b, node, inplace=False):
        if a[0] == 'k' and b[0] == 'k':
            try:
                v = eval('x %s y' % op, {}, {'x': a[2], 'y': b[2]})
                if isinstance(v, (int, float, str, bool, tuple)) and len(repr(v)) < 200:
                    return [(st, K(v))]
            except Exception:
                pass
            if op == '%' and isinstance(a[2], str):
                return [(st, S('fmt', a))]
        if a[0] == 'k' and a[1] == 'str' and op == '%':
            return [(st, S('fmt', self.gvn(st, b)))]
        d = DUNDER[op]
        if inplace:
            m = self.special(st, a, '__i%s__' % d)
            if m:
                return self.call(st, m, [b], {}, node)
        m = self.special(st, a, '__%s__' % d)
        if m:
            out = []
            for s1, r in self.call(st, m, [b], {}, node):
                if r == NOTIMPL:
                    m2 = self.special(s1, b, '__r%s__' % d)
                    if m2:
                        out.extend(self.call(s1, m2, [a], {}, node))
                    else:
                        self.raise_name(s1, 'TypeError', node, implicit=True)
                else:
                    out.append((s1, r))
            return out
        r = self.B.binop(self, st, op, a, b, node, inplace)
        if r is not None:
            return r
        m = self.special(st, b, '__r%s__' % d)
        if m:
            return self.call(st, m, [a], {}, node)
        if a[0] in ('k', 's') and b[0] in ('k', 's'):
            num = lambda x: x[0] == 's' or isinstance(x[2], int)
            if op in '+-' and num(a) and num(b):
                return [(st, lin_add(a, b, 1 if op == '+' else -1))]
            if op == '*' and num(a) and num(b):
                if a[0] == 'k' and not isinstance(a[2], bool):
                    return [(st, lin_scale(b, a[2]))]
                if b[0] == 'k':
                    return [(st, lin_scale(a, b[2]))]
            return [(st, S('op', op, self.gvn(st, a), self.gvn(st, b)))]
        return [(st, S('op', op, self.gvn(st, a), self.gvn(st, b)))]

    def compare(self, st, op, a, b, node):
        if op in ('is', 'is not'):
            r = self.identical(st, a, b)
            neg = op == 'is not'
            if r is True or r is False:
                return [(st, K(r != neg))]
            return [(st, S('not', r) if neg else S(r))]
        if op in ('in', 'not in'):
            out = []
            for s1, r in self.contains_(st, b, a, node):
                if op == 'not in':
                    if r[0] == 'k':
                        r = K(not r[2])
                    else:
                        r = S('not', r[1] if r[1][0] in ('cmp', 'eq', 'is', 'isinst', 'typeis', 'not', 'hasattr', 'issub', 'in') else ('t', r[1]))
                out.append((s1, r))
            return out
        return self.rich(st, op, a, b, node)

    def identical(self, st, a, b):
        """True / False / fact expression"""
        if a == b:
            if a[0] == 'l' and self.get(st, a[1]).summ:
                return ('is', self.gvn(st, a), ('another', self.gvn(st, a)))
            return True
        va, vb = self.view(st, a), self.view(st, b)
        if va == vb and va[0] == 'l':
            return True
        ta, tb = a[0], b[0]
        if ta == 's' and a[1][0] == 'type' or tb == 's' and b[1][0] == 'type':
            if ta != 's' or a[1][0] != 'type':
                a, b, ta, tb = b, a, tb, ta
            if tb in ('b', 'c'):
                e = ('typeis', a[1][1], b)
                f = self.fact(st, e)
                if f is None:
                    # known to be an instance of something else
                    g = self.isinst_fact(st, a[1][1], b)
                    if g is False:
                        return False
                    for k, v in st.facts.items():
                        if v and k[0] == 'typeis' and k[1] == a[1][1] and k[2] != b:
                            return False
                return f if f is not None else e
        if ta == 'k' and tb == 'k':
            return a[2] is b[2] or (a[1] == b[1] and a[2] == b[2])
        concrete = ('k', 'c', 'b', 'f', 'm')
        if ta in concrete and tb in concrete:
            return False
        if ta == 'l' and tb == 'l':
            la, lb = a[1], b[1]
            if la[0] == 'h' or lb[0] == 'h' or la in self.base or lb in self.base:
                if la[0] == 'p' and lb in self.base or lb[0] == 'p' and la in self.base:
                    # a pre-existing object may be a module level singleton of its kind
                    oa, ob = self.get(st, la), self.get(st, lb)
                    if oa.kind == ob.kind and oa.cls == ob.cls and oa.kind != 'obj':
                        e = ('is', self.gvn(st, a), ('glob', lb if lb in self.base else la))
                        f = self.fact(st, e)
                        return f if f is not None else e
                    return False
                return False
            oa, ob = self.get(st, la), self.get(st, lb)
            if oa.kind != ob.kind:
                return False
            if oa.kind == 'inst' and oa.cls != ob.cls:
                return False
            e = self.mkeq('is', self.gvn(st, a), self.gvn(st, b))
            f = self.fact(st, e)
            return f if f is not None else e
        if ta == 'l' or tb == 'l':
            if tb == 'l':
                a, b, ta, tb = b, a, tb, ta
            o = self.get(st, a[1])
            if tb in concrete:
                return False
            # opaque value against an object: not the same unless it may be it
            if a[1][0] == 'h' or o.kind == 'obj':
                return False
            if a[1] in self.base:
                if o.kind == 'inst' and tb == 's':
                    r = self.isinst_fact(st, b[1], ('c', o.cls)) if o.cls in self.classes else None
                    e = ('is', b[1], ('glob', a[1]))
                    f = self.fact(st, e)
                    return f if f is not None else e
                return False
            e = self.mkeq('is', self.gvn(st, a), self.gvn(st, b))
            f = self.fact(st, e)
            return f if f is not None else e
        # opaque against constant / opaque
        ga, gb = self.gvn(st, a), self.gvn(st, b)
        e = self.mkeq('is', ga, gb)
        f = self.fact(st, e)
        if f is None and (ta in concrete or tb in concrete):
            c, s = (a, b) if ta in concrete else (b, a)
            if s[0] == 's' and s[1][0] in ('n', 'lin', 'len', 'cnt', 'slen') and c == NONE:
                return False
            if s[0] == 's' and c == NONE:
                for k, v in st.facts.items():
                    if v and k[0] in ('isinst', 'typeis') and k[1] == s[1] and k[2] != ('b', 'NoneType') and k[2] != ('b', 'object'):
                        return False
                    if v and k[0] == 't' and k[1] == s[1]:
                        return False
            if s[0] == 's' and tb != ta:
                # a different constant already
                for k, v in st.facts.items():
                    if v and k[0] == 'is' and s[1] in k[1:] and c not in k[1:] and any(
                            isinstance(x, tuple) and x[0] in concrete for x in k[1:]):
                        return False
        return f if f is not None else e

    def mkeq(self, tag, a, b):
        return (tag, a, b) if repr(a) <= repr(b) else (tag, b, a)

    def contains_(self, st, c, x, node):
        """x in c: [(state, atom)]"""
        v = self.view(st, c)
        if v[0] == 'l':
            o = self.get(st, v[1])
            if o.kind == 'inst':
                m = self.special(st, v, '__contains__')
                if m:
                    return [(s3, r) for s2, r0 in self.call(st, m, [x], {}, node) for s3, r in self.boolify(s2, r0)]
                out = []
                for s1, segs in self.iterate(st, v, node):
                    out.extend(self.B.seq_contains(self, s1, segs, x, node))
                return out
            if o.kind == 'dict':
                return self.B.dict_contains(self, st, v[1], x, node)
            if o.kind in ('list', 'tuple', 'set', 'frozenset', 'iter', 'view', 'pvec', 'pvecev'):
                return self.B.seq_contains(self, st, o.segs, x, node)
        if c[0] == 'k' and x[0] == 'k' and isinstance(c[2], str):
            return [(st, K(x[2] in c[2]))]
        return [(st, S('in', self.gvn(st, x), self.gvn(st, c)))]

    def boolify(self, st, r):
        if r[0] == 'k':
            return [(st, K(bool(r[2])))]
        if r[0] == 's':
            return [(st, r)]
        return [(s, K(b)) for s, b in self.truth(st, r)]

    def rich(self, st, op, a, b, node):
        a0, b0 = a, b
        m = self.special(st, a, CDUNDER[op])
        outs = []
        if op == '!=' and m is not None and m[0] in ('bm', 'b') and (m[1] if m[0] == 'bm' else m)[0] == 'b' and \
                str((m[1] if m[0] == 'bm' else m)[1]).endswith('.__ne__'):
            m = None            # the default: the negation of ==
        if m is None and op == '!=' and self.special(st, a, '__eq__'):
            for s1, r in self.rich(st, '==', a, b, node):
                outs.append((s1, K(not r[2]) if r[0] == 'k' else S('not', r[1] if r[0] == 's' and r[1][0] in ('cmp', 'eq', 'is', 'not') else ('t', self.gvn(s1, r)))))
            return outs
        if m is not None:
            res = self.call(st, m, [b], {}, node)
        elif a[0] == 'l' and self.get(st, a[1]).kind == 'inst':
            res = [(st, NOTIMPL)]
        else:
            res = [(st, None)]
        for s1, r in res:
            if r is not None and r != NOTIMPL:
                outs.append((s1, r))
                continue
            # reflected
            m2 = self.special(s1, b, CDUNDER[SWAP[op]])
            if m2 is not None and (r == NOTIMPL or a[0] != 's'):
                for s2, r2 in self.call(s1, m2, [a], {}, node):
                    if r2 == NOTIMPL:
                        outs.append((s2, self.default_cmp(s2, op, a, b, node)))
                    else:
                        outs.append((s2, r2))
                continue
            if r == NOTIMPL and b[0] != 's':
                if op in ('==', '!='):
                    outs.append((s1, self.default_cmp(s1, op, a, b, node)))
                else:
                    self.raise_name(s1, 'TypeError', node, implicit=True)
                continue
            if op in ('<', '>', '<=', '>=') and self.unordered(s1, a, b):
                self.raise_name(s1, 'TypeError', node, implicit=True)
                continue
            outs.extend(self.B.builtin_cmp(self, s1, op, a, b, node))
        return outs

    def unordered(self, st, a, b):
        def kind(x):
            if x[0] == 'k' and isinstance(x[2], (int, float)):
                return 'num'
            if x[0] == 's' and x[1][0] in ('n', 'lin', 'len', 'cnt', 'slen', 'count'):
                return 'num'
            if x[0] == 'l':
                k = self.get(st, x[1]).kind
                if k in ('list', 'dict', 'set', 'tuple', 'pvec', 'frozenset'):
                    return k
            return None
        p, q = kind(a), kind(b)
        return p is not None and q is not None and p != q and {p, q} != {'set', 'frozenset'}

    def default_cmp(self, st, op, a, b, node):
        r = self.identical(st, a, b)
        if r is True or r is False:
            return K(r == (op == '=='))
        return S(r) if op == '==' else S('not', r)

    # ---------------------------------------------------------------- items
    def getitem(self, st, b, i, node):
        if b[0] == 'c' or (b[0] == 'b' and self.B.is_class(b[1])):
            return [(st, b)]       # Generic[T] subscription
        v = self.view(st, b)
        if v[0] == 'l':
            o = self.get(st, v[1])
            if o.kind == 'inst':
                m = self.special(st, v, '__getitem__')
                if m:
                    return self.call(st, m, [i], {}, node)
                self.raise_name(st, 'TypeError', node, implicit=True)
                return []
            return self.B.getitem(self, st, v[1], o, i, node)
        if b[0] == 's':
            if self.leaf(b[1]):
                return []
            self.opt_raise(st, b, i, node)
            return [(st, S('idx', b[1], self.gvn(st, i)))]
        if b[0] == 'k':
            try:
                return [(st, K(b[2][i[2]]))]
            except Exception:
                return [(st, S('idx', b, self.gvn(st, i)))]
        return [(st, S('idx', self.gvn(st, b), self.gvn(st, i)))]

    def opt_raise(self, st, b, i, node):
        for n in ('KeyError', 'IndexError'):
            self.raise_name(st, n, node, implicit=True)

    def setitem(self, st, b, i, val, node):
        """[state]"""
        v = self.view(st, b)
        if v[0] == 'l':
            o = self.get(st, v[1])
            if o.kind == 'inst':
                m = self.special(st, v, '__setitem__')
                if m:
                    return [s for s, _ in self.call(st, m, [i, val], {}, node)]
                self.raise_name(st, 'TypeError', node, implicit=True)
                return []
            return self.B.setitem(self, st, v[1], o, i, val, node)
        if b[0] == 's' and self.userdata(b[1]):
            self.report('mutation', node, {'own': 'user', 'loc': None, 'what': 'item assignment', 'obj': None, 'expr': b[1]}, st)
        if b[0] == 's' and (self.implicit or self.handlers):
            self.opaque_raises(st, ('setitem', b[1]), node)
        return [st]

    def delitem(self, st, b, i, node):
        v = self.view(st, b)
        if v[0] == 'l':
            o = self.get(st, v[1])
            if o.kind == 'inst':
                m = self.special(st, v, '__delitem__')
                if m:
                    return [s for s, _ in self.call(st, m, [i], {}, node)]
                self.raise_name(st, 'TypeError', node, implicit=True)
                return []
            return self.B.delitem(self, st, v[1], o, i, node)
        if b[0] == 's' and self.userdata(b[1]):
            self.report('mutation', node, {'own': 'user', 'loc': None, 'what': 'item deletion', 'obj': None, 'expr': b[1]}, st)
        if b[0] == 's' and (self.implicit or self.handlers):
            self.opaque_raises(st, ('delitem', b[1]), node)
        return [st]
