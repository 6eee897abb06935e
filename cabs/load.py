"""The syntax tree of the C extension, as clang gives it for the current source."""
import json, os, subprocess, sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')


def include_dir():
    for d in (sysconfig.get_paths()['include'], '/usr/include/python3.12'):
        if os.path.exists(os.path.join(d, 'Python.h')):
            return d
    for py in ('/opt/venv/bin/python', 'python3'):
        try:
            d = subprocess.run([py, '-c', "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()
        except OSError:
            continue
        if os.path.exists(os.path.join(d, 'Python.h')):
            return d
    raise RuntimeError('Python.h not found')


class Program:
    def __init__(self, path=None):
        self.path = path or os.path.join(REPO, 'pvectorcmodule.c')
        p = subprocess.run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-I' + include_dir(), self.path], capture_output=True)
        if p.returncode:
            raise RuntimeError('clang: ' + p.stderr.decode()[:500])
        tree = json.loads(p.stdout)
        self.functions, self.globals, self.records, self.enums = {}, {}, {}, {}
        self.decls = {}             # prototypes of functions that have no body here
        self.typedefs = {}
        main = os.path.basename(self.path)
        cur = [None]

        def start(n):
            """file and line where a top level declaration starts (clang leaves out what did not change)"""
            for k in ('loc', 'range'):
                self.fill(n.get(k), cur)
            l = n.get('loc') or {}
            l = l.get('expansionLoc', l)
            n['_file'] = l['_at'][0] if l.get('_at') else None
        byid = {}
        for n in tree['inner']:
            start(n)
            k = n.get('kind')
            if k == 'RecordDecl':
                byid[n['id']] = n
                if n.get('completeDefinition'):
                    fs = [(c['name'], c['type']['qualType']) for c in n.get('inner', []) if c['kind'] == 'FieldDecl' and 'name' in c]
                    raw = [c.get('name') for c in n.get('inner', []) if c['kind'] == 'FieldDecl']
                    n['_fields'], n['_raw'] = fs, raw
                    if n.get('name'):
                        self.records[n['name']] = n
            elif k == 'TypedefDecl':
                for c in n.get('inner', []):
                    o = c.get('ownedTagDecl') or (c.get('inner') or [{}])[0].get('decl') or c.get('decl') or {}
                    if o.get('id') in byid and '_fields' in byid[o['id']]:
                        self.records[n['name']] = byid[o['id']]
                    elif o.get('name'):
                        self.typedefs[n['name']] = o['name']
            elif k == 'EnumDecl':
                v = 0
                for c in n.get('inner', []):
                    if c['kind'] == 'EnumConstantDecl':
                        for x in c.get('inner', []):
                            if x.get('value') is not None:
                                v = int(x['value'])
                        self.enums[c['name']] = v
                        v += 1
            elif k == 'FunctionDecl':
                body = [c for c in n.get('inner', []) if c['kind'] == 'CompoundStmt']
                self.decls.setdefault(n['name'], n)
                if body:
                    if n['_file'] and n['_file'].endswith(main):
                        n['_body'] = body[0]
                        n['_params'] = [c for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl']
                        self.lines(n, cur)
                        self.functions[n['name']] = n
                        continue
            elif k == 'VarDecl' and n['_file'] and n['_file'].endswith(main):
                if n.get('inner') or n['name'] not in self.globals:
                    self.globals[n['name']] = n
                self.lines(n, cur)
                continue
            self.skim(n, cur)

    def fill(self, loc, cur):
        if not isinstance(loc, dict):
            return
        for k in ('spellingLoc', 'expansionLoc', 'begin', 'end'):
            if k in loc:
                self.fill(loc[k], cur)
        if '_at' in loc:
            cur[0] = loc['_at']
        elif 'offset' in loc:
            if 'file' in loc:
                cur[0] = (loc['file'], loc.get('line', 0))
            elif 'line' in loc and cur[0]:
                cur[0] = (cur[0][0], loc['line'])
            loc['_at'] = cur[0]

    def lines(self, n, cur, inherited=None):
        """gives every node below n the line it is on in the main file"""
        for k in ('loc', 'range'):
            if k in n:
                self.fill(n[k], cur)
        b = (n.get('range') or {}).get('begin') or {}
        b = b.get('expansionLoc', b)
        n['_line'] = b['_at'][1] if b.get('_at') else inherited
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                self.lines(c, cur, n['_line'])

    def skim(self, n, cur):
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                for k in ('loc', 'range'):
                    self.fill(c.get(k), cur)
                self.skim(c, cur)

    def fields(self, rec):
        r = self.records.get(rec) or self.records.get(self.typedefs.get(rec, '')) or self.records.get(rec.replace('struct ', ''))
        return r['_fields'] if r else []

    def table(self, name):
        """{field: initializer} of a global structure"""
        g = self.globals.get(name)
        if not g:
            return {}
        t = g['type']['qualType'].replace('struct ', '')
        r = self.records.get(t) or self.records.get(self.typedefs.get(t, '')) or self.records.get('_' + t)
        if t == 'PyTypeObject':
            r = self.records.get('_typeobject') or r
        init = [c for c in g.get('inner', []) if c['kind'] == 'InitListExpr']
        if not r or not init:
            return {}
        return dict(zip(r['_raw'], init[0].get('inner', [])))

    def rows(self, name):
        """the rows of a table of structures, each a list of initializers"""
        g = self.globals.get(name)
        init = [c for c in (g or {}).get('inner', []) if c['kind'] == 'InitListExpr']
        out = []
        for r in init[0].get('inner', []) if init else []:
            if r['kind'] == 'InitListExpr':
                out.append(r.get('inner', []))
        return out


def ref(n):
    """the name an initializer refers to, through casts"""
    while n and n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'UnaryOperator', 'ConstantExpr'):
        n = n['inner'][0]
    return n['referencedDecl']['name'] if n and n['kind'] == 'DeclRefExpr' else None


def text(n):
    while n and n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr'):
        n = n['inner'][0]
    return json.loads(n['value']) if n and n['kind'] == 'StringLiteral' else None
