"""Replaces the core of the map by its contract (spec_pmap.py), leaving everything else as it is in the tree."""
import ast
import os
from .program import AnalysisBroken


def private_names(tree):
    """the attribute names the map uses for its storage, read off the constructors"""
    cls = {n.name: n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)}
    pm = cls.get('PMap')
    if pm is None:
        raise AnalysisBroken('class PMap not found')
    names = {}
    new = next((n for n in pm.body if isinstance(n, ast.FunctionDef) and n.name == '__new__'), None)
    ev = next((n for n in pm.body if isinstance(n, ast.ClassDef)), None)
    ini = ev and next((n for n in ev.body if isinstance(n, ast.FunctionDef) and n.name == '__init__'), None)
    if new is None or ini is None:
        raise AnalysisBroken('constructors of PMap not found')
    pars = [a.arg for a in new.args.args][1:]
    for n in ast.walk(new):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.value.id in pars[:2]:
            names[('SIZE', 'BUCKETS')[pars.index(n.value.id)]] = n.targets[0].attr
    par = ini.args.args[1].arg
    for n in ast.walk(ini):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            v = n.value
            if isinstance(v, ast.Name) and v.id == par:
                names['ORIG'] = n.targets[0].attr
            elif isinstance(v, ast.Call):
                names['EBUCKETS'] = n.targets[0].attr
            else:
                names['ESIZE'] = n.targets[0].attr
    for k, d in (('SIZE', '_size'), ('BUCKETS', '_buckets'), ('ORIG', '_original_pmap'),
                 ('EBUCKETS', '_buckets_evolver'), ('ESIZE', '_size')):
        names.setdefault(k, d)
    return names, ev.name


def graft(tree):
    names, evname = private_names(tree)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec_pmap.py')) as f:
        spec = ast.parse(f.read())
    ast.increment_lineno(spec, 100000)
    for n in ast.walk(spec):
        if isinstance(n, ast.Attribute) and n.attr in names:
            n.attr = names[n.attr]

    def merge(real, sp):
        have = {n.name: i for i, n in enumerate(real) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for n in sp:
            name = evname if isinstance(n, ast.ClassDef) and n.name == '_Evolver' else getattr(n, 'name', None)
            if name is None:
                continue
            if isinstance(n, ast.ClassDef) and name in have:
                merge(real[have[name]].body, n.body)
            elif isinstance(n, ast.FunctionDef) and name in have:
                real[have[name]] = n
            elif isinstance(n, ast.FunctionDef):
                if name == '_turbo_mapping':
                    continue
                real.append(n)
    # inherited methods of PMap that are assigned, like  __call__ = ..., stay as they are
    store = next(n for n in spec.body if isinstance(n, ast.ClassDef) and n.name == '_SpecStore')
    hasturbo = any(isinstance(n, ast.FunctionDef) and n.name == '_turbo_mapping' for n in tree.body)
    merge(tree.body, spec.body[1:])
    i = next(i for i, n in enumerate(tree.body) if isinstance(n, ast.ClassDef))
    tree.body.insert(i, store)
    if not hasturbo:
        # the function called by pmap() for a non-empty argument was renamed or inlined
        fn = next((n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == 'pmap'), None)
        if fn is None:
            raise AnalysisBroken('pmap() not found')
        turbo = next(n for n in spec.body if isinstance(n, ast.FunctionDef) and n.name == '_turbo_mapping')
        fn.args = turbo.args
        fn.args.defaults = [ast.parse('()').body[0].value, ast.parse('0').body[0].value]
        for d in fn.args.defaults:
            ast.increment_lineno(d, 200000)
        fn.body = turbo.body
    return tree


def vector_names(tree):
    """the attribute names of the Python vector, read off its constructor"""
    pv = next((n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == 'PythonPVector'), None)
    if pv is None:
        raise AnalysisBroken('class PythonPVector not found')
    new = next((n for n in pv.body if isinstance(n, ast.FunctionDef) and n.name == '__new__'), None)
    names = {}
    if new is not None:
        pars = [a.arg for a in new.args.args][1:]
        for n in ast.walk(new):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
                if isinstance(n.value, ast.Name) and n.value.id in pars[:4]:
                    names[('COUNT', 'SHIFT', 'ROOT', 'TAIL')[pars.index(n.value.id)]] = n.targets[0].attr
                elif isinstance(n.value, ast.BinOp):
                    names['OFFSET'] = n.targets[0].attr
    for k in ('COUNT', 'SHIFT', 'ROOT', 'TAIL'):
        names.setdefault(k, '_' + k.lower())
    names.setdefault('OFFSET', '_tail_offset')
    return names
