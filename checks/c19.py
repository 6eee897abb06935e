"""C19: the C and Python vectors offer the same interface."""
import ast
import builtins
import os
from cabs.load import ref, text
from cabs import scan
from . import cq

TECHNIQUE = "comparison of the interface tables in clang's AST with the classes in the Python AST, and of the exception types the call graphs of both can raise"
EXPLANATION = ('The methods and operators of the Python vector, the abstract vector and the Python evolver are read from the syntax tree, those of the C types from '
               'their method tables and slots. The numbers of positional arguments the C functions accept are read from the flags and from the formats given to the argument parser that '
               'their arguments reach. The types of the exceptions the code itself raises are collected over the call graph of each method on both sides and compared with the declared ones.')
RULE = ('every public name of one implementation is offered by the other; every number of arguments the abstract method accepts is accepted by the C and the Python method; '
        'a method raises no type of exception itself but the declared ones and its call graph raises each declared one; both vectors are registered with the abstract class, which is registered as a Sequence and Hashable')
ASSUMPTIONS = ['what the methods return is not compared (C24 and C25 are not claimed)', 'keyword arguments, indices beyond the range of the machine and iteration over evolvers are outside the property',
               'exceptions raised by user code or implicitly by operations on lists are not part of the comparison']
MINIMUM = {'names compared': 40, 'exception types compared': 8}

SLOT = {'__len__': ('sq_length', 'mp_length'), '__getitem__': ('mp_subscript', 'sq_item'), '__add__': ('sq_concat', 'nb_add'), '__iadd__': ('sq_concat', 'nb_add', 'sq_inplace_concat'),
        '__mul__': ('sq_repeat', 'nb_multiply'), '__rmul__': ('sq_repeat', 'nb_multiply'), '__imul__': ('sq_repeat', 'nb_multiply'), '__hash__': ('tp_hash',),
        '__iter__': ('tp_iter', 'sq_item'), '__repr__': ('tp_repr',), '__str__': ('tp_str', 'tp_repr'), '__contains__': ('sq_contains', 'tp_iter', 'sq_item'),
        '__setitem__': ('mp_ass_subscript', 'sq_ass_item'), '__delitem__': ('mp_ass_subscript', 'sq_ass_item'), '__reversed__': ('sq_item',), '__call__': ('tp_call',), '__radd__': ('nb_add',)}
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    SLOT['__%s__' % _n] = ('tp_richcompare',)
IGNORED = {'__new__', '__init__', '__slots__', '__doc__', '__module__', '__class_getitem__', '__init_subclass__', '__weakref__', '__dict__', '__bool__', '__copy__', '__deepcopy__', '__subclasshook__', '__del__'}
INDEX = ({'IndexError', 'TypeError'}, {'IndexError'})
# method: (the types it may raise itself, those its call graph must raise in C)
DECLARED = {('vector', '__getitem__'): INDEX, ('vector', 'set'): INDEX, ('vector', 'mset'): ({'IndexError', 'TypeError'}, {'IndexError', 'TypeError'}), ('vector', 'delete'): INDEX,
            ('vector', 'index'): ({'ValueError', 'TypeError', 'IndexError'}, {'ValueError'}), ('vector', 'remove'): ({'ValueError', 'TypeError', 'IndexError'}, {'ValueError'}),
            ('vector', 'count'): ({'IndexError'}, set()),
            ('evolver', '__getitem__'): INDEX, ('evolver', '__setitem__'): INDEX, ('evolver', 'set'): INDEX, ('evolver', '__delitem__'): INDEX, ('evolver', 'delete'): INDEX}
OTHER = ({'IndexError', 'TypeError', 'MemoryError', 'OverflowError'}, set())


def jobs(tier):
    return ['names', 'arguments', 'exceptions', 'registration']


# ---------------------------------------------------------------- the Python side
class Py:
    def __init__(self):
        repo = os.environ.get('VERIF_REPO', '/repo')
        self.path = os.path.join(repo, 'pyrsistent', '_pvector.py')
        self.tree = ast.parse(open(self.path).read())
        self.classes = {}
        self.functions = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.functions[n.name] = n
        self.concrete, self.abstract, self.evolver = None, self.classes.get('PVector'), None
        # the concrete vector is the class that is registered with (or derived from) the abstract one
        for c in self.classes.values():
            if c is not self.abstract and 'append' in self.methods(c) and 'evolver' in self.methods(c):
                self.concrete = c
        if self.concrete:
            ev = self.methods(self.concrete)['evolver']
            names = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(ev) if isinstance(x, (ast.Name, ast.Attribute))} if isinstance(ev, ast.FunctionDef) else set()
            for n, c in self.classes.items():
                if n in names and c is not self.concrete and 'persistent' in self.methods(c):
                    self.evolver = c

    def methods(self, c, seen=()):
        """{name: definition} of a class, with those of the bases defined in the module"""
        out = {}
        for b in reversed(c.bases):
            b = b.value if isinstance(b, ast.Subscript) else b
            if isinstance(b, ast.Name) and b.id in self.classes and b.id not in seen:
                out.update(self.methods(self.classes[b.id], seen + (c.name,)))
        for n in c.body:
            self.member(n, out)
        return out

    def member(self, n, out):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out[n.name] = n
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    v = n.value
                    while isinstance(v, ast.Call) and v.args and len(v.args) == 1:
                        v = v.args[0]
                    out[t.id] = out.get(v.id) if isinstance(v, ast.Name) and v.id in out else n
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            out[n.target.id] = n
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body + n.orelse + getattr(n, 'finalbody', []):
                self.member(x, out)

    def public(self, c):
        out = {}
        for n, d in self.methods(c).items():
            if n in IGNORED or (n.startswith('_') and not (n.startswith('__') and n.endswith('__'))) or isinstance(d, ast.ClassDef):
                continue
            if n in SLOT or n == '__reduce__' or not n.startswith('__'):
                out[n] = d
        return out

    def raises(self, c, name):
        """{type: line} of the exceptions raised by the code reached from a method"""
        out, seen = {}, set()
        table = self.methods(c)

        def visit(d, table):
            if not isinstance(d, (ast.FunctionDef, ast.Lambda)) or id(d) in seen:
                return
            seen.add(id(d))
            for n in ast.walk(d):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    if isinstance(e, ast.Name) and (e.id in self.classes or isinstance(getattr(builtins, e.id, None), type)):
                        out.setdefault(self.builtin(e.id), n.lineno)
                elif isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Name) and f.id in self.functions:
                        visit(self.functions[f.id], table)
                    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and f.attr in table:
                        visit(table[f.attr], table)
                    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.classes:
                        t = self.methods(self.classes[f.value.id])
                        visit(t.get(f.attr), t)
                elif isinstance(n, (ast.Subscript, ast.Delete, ast.Compare)) and isinstance(getattr(n, 'value', None), ast.Name) and n.value.id == 'self':
                    for m in ('__getitem__', '__setitem__', '__delitem__'):
                        if (m, type(n.ctx)) in (('__getitem__', ast.Load), ('__setitem__', ast.Store), ('__delitem__', ast.Del)):
                            visit(table.get(m), table)
        visit(table.get(name), table)
        return out

    def builtin(self, n, depth=0):
        """the name, or that of the first builtin it derives from"""
        if n in self.classes and depth < 5:
            for b in self.classes[n].bases:
                if isinstance(b, ast.Name):
                    return self.builtin(b.id, depth + 1)
        return n


def counts(d, drop=1):
    """(least, most) number of positional arguments of a function definition, or None"""
    if not isinstance(d, ast.FunctionDef):
        return None
    a = d.args
    if any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in d.decorator_list):
        drop = 0
    n = len(a.posonlyargs) + len(a.args) - drop
    if n < 0:
        return None
    if any(x is None for x in a.kw_defaults):
        return None
    return n - len(a.defaults), (n + 2 if a.vararg else n), bool(a.vararg)


# ---------------------------------------------------------------- the C side
class C:
    def __init__(self):
        self.P = P = cq.program()
        self.types = {}
        for t, kind in (('PVectorType', 'vector'), ('PVectorEvolverType', 'evolver')):
            tab = P.table(t)
            if not tab:
                continue
            slots, methods = {}, {}
            for s, n in tab.items():
                if ref(n):
                    slots[s] = ref(n)
            for s in ('tp_as_sequence', 'tp_as_mapping', 'tp_as_number'):
                for s2, n in (P.table(slots[s]) if s in slots else {}).items():
                    if ref(n):
                        slots[s2] = ref(n)
            for row in (P.rows(slots['tp_methods']) if 'tp_methods' in slots else []):
                if len(row) >= 3 and text(row[0]):
                    methods[text(row[0])] = (ref(row[1]), scan.flags(row[2]))
            self.types[kind] = slots, methods

    def offers(self, kind, name):
        slots, methods = self.types[kind]
        return name in methods or any(s in slots for s in SLOT.get(name, ()))

    def functions(self, kind, name):
        slots, methods = self.types[kind]
        if name in methods:
            return [methods[name][0]]
        return [slots[s] for s in SLOT.get(name, ()) if s in slots]

    def counts(self, kind, name):
        """(least, most) or None if they are not known"""
        f, fl = self.types[kind][1][name]
        if fl & 8:
            return 1, 1
        if fl & 4:
            return 0, 0
        if fl & 0x80 or not fl & 1 or f not in self.P.functions:
            return None
        return self.parsed(f, 1, set())

    def parsed(self, f, k, seen):
        fn = self.P.functions.get(f)
        if fn is None or f in seen or k >= len(fn['_params']):
            return None
        seen.add(f)
        p = fn['_params'][k]['name']
        found = []
        for call, name, args in calls(fn['_body']):
            refs = [ref(a) for a in args]
            if name in ('PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords', '_PyArg_ParseTuple_SizeT', '_PyArg_ParseTupleAndKeywords_SizeT') and refs and refs[0] == p:
                fm = text(args[1] if 'Keywords' not in name else args[2])
                found.append(fmt(fm) if fm is not None else None)
            elif name == 'PyArg_UnpackTuple' and refs and refs[0] == p:
                v = [number(a) for a in args[2:4]]
                found.append((v[0], v[1]) if None not in v else None)
            elif name in ('PyTuple_Size', 'PyTuple_GET_SIZE', 'PySequence_Size', 'PyObject_Size', 'Py_SIZE') and p in refs:
                found.append(None)
            elif name in self.P.functions and p in refs:
                found.append(self.parsed(name, refs.index(p), seen))
        if not found or None in found:
            return None
        return max(x[0] for x in found), min(x[1] for x in found)

    def raises(self, kind, name):
        out, seen = {}, set()

        def visit(f):
            fn = self.P.functions.get(f)
            if fn is None or f in seen:
                return
            seen.add(f)
            for call, n, args in calls(fn['_body']):
                e = None
                if n in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_SetNone') and args:
                    e = ref(args[0])
                elif n == 'PyNumber_AsSsize_t' and len(args) > 1:
                    e = ref(args[1])
                elif n in ('PyErr_NoMemory', 'PyErr_BadInternalCall', 'PyErr_BadArgument'):
                    e = {'PyErr_NoMemory': 'PyExc_MemoryError', 'PyErr_BadInternalCall': 'PyExc_SystemError', 'PyErr_BadArgument': 'PyExc_TypeError'}[n]
                if e and e.startswith('PyExc_'):
                    out.setdefault(e[6:], (call.get('_line'), f))
                visit(n)
        for f in self.functions(kind, name):
            visit(f)
        return out


def calls(n):
    if n.get('kind') == 'CallExpr':
        i = n['inner']
        name = ref(i[0])
        if name:
            yield n, name, i[1:]
    for c in n.get('inner', ()):
        if isinstance(c, dict):
            yield from calls(c)


def number(n):
    while n and n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr'):
        n = n['inner'][0]
    return int(n['value']) if n and n['kind'] == 'IntegerLiteral' else None


def fmt(s):
    s = s.split(':')[0].split(';')[0]
    if '(' in s:
        return None
    least = n = 0
    optional = False
    for ch in s:
        if ch == '|':
            optional, least = True, n
        elif ch == '$':
            break
        elif ch.isalpha():
            n += 1
    return (least if optional else n), n


def analyse(name, tier):
    py, c = Py(), C()
    out, cov = [], {'names compared': 0, 'argument counts compared': 0, 'exception types compared': 0, 'registrations': 0}
    rel = 'pyrsistent/_pvector.py'
    if not py.concrete or not py.abstract or not py.evolver or 'vector' not in c.types or 'evolver' not in c.types:
        return {'violations': [], 'coverage': cov}
    pairs = [('vector', py.concrete), ('evolver', py.evolver)]

    def bad(rule, what, where, msg):
        out.append({'key': 'C19|%s|%s' % (rule, what), 'where': where, 'message': msg})
    if name == 'names':
        for kind, cls in pairs:
            pub = py.public(cls)
            wanted = dict(pub)
            if kind == 'vector':
                wanted.update({k: v for k, v in py.public(py.abstract).items() if k not in wanted})
            for n, d in wanted.items():
                cov['names compared'] += 1
                if not c.offers(kind, n):
                    bad('not offered in C', '%s.%s' % (kind, n), '%s:%s in %s' % (rel, d.lineno, cls.name), 'the C %s does not offer %s' % (kind, n))
                if n not in pub:
                    bad('not offered in Python', '%s.%s' % (kind, n), '%s:%s in %s' % (rel, cls.lineno, cls.name), 'the Python %s does not offer %s, which the abstract vector declares' % (kind, n))
            slots, methods = c.types[kind]
            for n in methods:
                cov['names compared'] += 1
                if not n.startswith('_') and n not in pub:
                    bad('not offered in Python', '%s.%s' % (kind, n), 'pvectorcmodule.c in %s' % methods[n][0], 'the Python %s does not offer %s, which the C one offers' % (kind, n))
            for n, ss in SLOT.items():
                if n in ('__getitem__', '__setitem__', '__delitem__', '__len__', '__add__', '__mul__', '__hash__', '__eq__') and any(s in slots for s in ss):
                    cov['names compared'] += 1
                    if n not in pub and not (kind == 'evolver' and n in ('__hash__', '__eq__')):
                        bad('not offered in Python', '%s.%s' % (kind, n), 'pvectorcmodule.c in %s' % [slots[s] for s in ss if s in slots][0], 'the Python %s does not offer %s, which the C one offers' % (kind, n))
    elif name == 'arguments':
        for kind, cls in pairs:
            for n, d in py.public(py.abstract if kind == 'vector' else cls).items():
                w = counts(d)
                if w is None or n.startswith('_'):
                    continue
                impl = [('Python', counts(py.methods(cls).get(n)), '%s:%s in %s' % (rel, cls.lineno, cls.name))] if kind == 'vector' else []
                if n in c.types[kind][1]:
                    impl.append(('C', c.counts(kind, n), 'pvectorcmodule.c in %s' % c.types[kind][1][n][0]))
                for side, g, where in impl:
                    if g is None:
                        continue
                    cov['argument counts compared'] += 1
                    star = side == 'Python' and g[2]
                    if g[0] > w[0] or (g[1] < w[1] and not star):
                        bad('arguments', '%s.%s' % (kind, n), where, '%s.%s() takes %s to %s arguments in %s, %s to %s are declared' % (kind, n, g[0], g[1], side, w[0], w[1]))
        for row in c.P.rows('PyrsistentMethods'):
            if len(row) >= 3 and text(row[0]) == 'pvector' and scan.flags(row[2]) & 1:
                g, w = c.parsed(ref(row[1]), 1, set()), counts(py.functions.get('python_pvector'), 0)
                if g and w:
                    cov['argument counts compared'] += 1
                    if g[0] > w[0] or g[1] < w[1]:
                        bad('arguments', 'pvector', 'pvectorcmodule.c in %s' % ref(row[1]), 'pvector() takes %s to %s arguments in C, %s to %s in Python' % (g[0], g[1], w[0], w[1]))
    elif name == 'exceptions':
        for kind, cls in pairs:
            for n in py.public(cls):
                may, must = DECLARED.get((kind, n), OTHER)
                got = c.raises(kind, n)
                for e, (line, f) in got.items():
                    cov['exception types compared'] += 1
                    if e not in may and e not in ('MemoryError', 'SystemError'):
                        bad('exception', '%s|%s|%s' % (kind, e, f), 'pvectorcmodule.c:%s in %s' % (line, f), '%s.%s() raises %s in C, the types declared are %s' % (kind, n, e, sorted(may) or 'none'))
                for e in must - set(got):
                    if c.functions(kind, n):
                        bad('no exception', '%s.%s|%s' % (kind, n, e), 'pvectorcmodule.c in %s' % c.functions(kind, n)[0], '%s.%s() in C does not raise %s for bad arguments' % (kind, n, e))
                for e, line in py.raises(cls, n).items():
                    cov['exception types compared'] += 1
                    if e not in may and e not in ('MemoryError', 'SystemError', 'NotImplementedError'):
                        bad('exception', '%s|%s|%s' % (kind, e, n), '%s:%s in %s.%s' % (rel, line, cls.name, n), '%s.%s() raises %s in Python, the types declared are %s' % (kind, n, e, sorted(may) or 'none'))
    elif name == 'registration':
        regs = {}
        for n in ast.walk(py.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'register' and isinstance(n.func.value, ast.Name) and n.args:
                regs.setdefault(n.func.value.id, []).append(n.args[0])
            elif isinstance(n, ast.ClassDef):
                for d in n.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == 'register' and isinstance(d.value, ast.Name):
                        regs.setdefault(d.value.id, []).append(ast.Name(id=n.name))
                for b in n.bases:
                    b = b.value if isinstance(b, ast.Subscript) else b
                    if isinstance(b, ast.Name):
                        regs.setdefault(b.id, []).append(ast.Name(id=n.name))
        cov['registrations'] = sum(map(len, regs.values()))
        args = regs.get(py.abstract.name, [])
        direct = [a for a in args if isinstance(a, ast.Name) and a.id == py.concrete.name]
        other = [a for a in args if not (isinstance(a, ast.Name) and a.id in py.classes)]
        computed = [a for a in args if not isinstance(a, ast.Name)]
        if not direct and len(other) < 2:
            bad('registration', 'Python', '%s:%s in %s' % (rel, py.concrete.lineno, py.concrete.name), 'the Python vector is not registered as a %s' % py.abstract.name)
        if not other:
            bad('registration', 'C', '%s:%s in %s' % (rel, py.abstract.lineno, py.abstract.name), 'the C vector is not registered as a %s' % py.abstract.name)
        for abc in ('Sequence', 'Hashable'):
            if not any(isinstance(a, ast.Name) and a.id == py.abstract.name for a in regs.get(abc, [])) and not any(abc in [getattr(b, 'id', None) for b in py.abstract.bases] for _ in '1'):
                bad('registration', abc, '%s:%s in %s' % (rel, py.abstract.lineno, py.abstract.name), 'vectors are not registered as %s' % abc)
    return {'violations': out, 'coverage': cov}
