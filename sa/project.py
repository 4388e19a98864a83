"""Loading of the source tree under analysis: modules, classes, functions."""
import ast
import os


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.defs = {}
        self.cache = {}
        self.scan(self.tree.body)

    def scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.defs[a.asname or a.name] = ('from', n.module, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('expr', n.value)
                    elif isinstance(t, ast.Tuple):
                        for j, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ('item', n.value, j)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs[n.target.id] = ('expr', n.value)
            elif isinstance(n, ast.TypeAlias):
                self.defs[n.name.id] = ('expr', n.value)
            elif isinstance(n, ast.If):
                self.scan(n.body)
                self.scan(n.orelse)
            elif isinstance(n, ast.Try):
                self.scan(n.body)


class Func:
    def __init__(self, node, module, cls):
        self.node = node
        self.name = node.name
        self.module = module
        self.cls = cls
        self.qual = (cls.name + '.' if cls else '') + node.name
        decs = set()
        for d in node.decorator_list:
            if isinstance(d, ast.Name):
                decs.add(d.id)
            elif isinstance(d, ast.Attribute):
                decs.add(d.attr)
            elif isinstance(d, ast.Call):
                f = d.func
                decs.add(f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else '?')
        self.decs = decs
        self.static = 'staticmethod' in decs
        self.classm = 'classmethod' in decs
        self.abstract = 'abstractmethod' in decs
        self.prop = 'property' in decs or 'cached_property' in decs
        self.cached = bool(decs & {'cache', 'lru_cache', 'cached_property'})
        self.other_decs = decs - {'staticmethod', 'classmethod', 'abstractmethod', 'property', 'cached_property', 'cache',
                                  'lru_cache', 'overload', 'override', 'final'}
        self.local_fns = None

    def __repr__(self):
        return 'Func:' + self.qual

    def where(self):
        return '%s:%d (%s)' % (self.module.path, self.node.lineno, self.qual)

    @property
    def stub(self):
        """Body is only a docstring / ... / raise NotImplementedError."""
        body = [s for s in self.node.body
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
        if not body:
            return True
        if len(body) == 1 and isinstance(body[0], ast.Raise):
            e = body[0].exc
            e = e.func if isinstance(e, ast.Call) else e
            return isinstance(e, ast.Name) and e.id == 'NotImplementedError'
        return False


class Class:
    def __init__(self, node, module, project):
        self.node = node
        self.name = node.name
        self.module = module
        self.project = project
        self.methods = {}
        self.assigns = {}
        self.annots = {}
        self.cache = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                f = Func(n, module, self)
                if 'overload' in f.decs:
                    continue
                self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.annots[n.target.id] = n.annotation
                if n.value is not None:
                    self.assigns[n.target.id] = n.value
        self._mro = None

    def __repr__(self):
        return 'Class:' + self.name

    def bases(self):
        out = []
        for b in self.node.bases:
            while isinstance(b, ast.Subscript):
                b = b.value
            c = self.project.resolve_class(self.module, b)
            if c is not None:
                out.append(c)
        return out

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases()] + [self.bases()]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        """Method lookup along the MRO; `after` starts past that class (super)."""
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_assign(self, name):
        for c in self.mro():
            if name in c.assigns:
                return c, c.assigns[name]
            if name in c.methods:
                return None
        return None

    def find_annot(self, name):
        for c in self.mro():
            if name in c.annots:
                return c, c.annots[name]
        return None

    def isa(self, name):
        return any(c.name == name for c in self.mro())


class Project:
    def __init__(self, root, packages=(('vdaf_poc', 'poc/vdaf_poc'),), extra=()):
        self.root = root
        self.modules = {}
        self.classes = {}
        for pkg, rel in packages:
            d = os.path.join(root, rel)
            for f in sorted(os.listdir(d)):
                if f.endswith('.py'):
                    nm = pkg + '.' + f[:-3] if f != '__init__.py' else pkg
                    self.add(nm, os.path.join(d, f))
        for nm, path in extra:
            self.add(nm, path)

    def add(self, nm, path):
        m = Module(nm, path)
        self.modules[nm] = m
        for k, n in m.defs.items():
            if isinstance(n, ast.ClassDef):
                c = Class(n, m, self)
                m.cache[k] = c
                self.classes.setdefault(n.name, c)
        return m

    def resolve_class(self, module, node):
        """Class object for a Name/Attribute expression, or None."""
        if isinstance(node, ast.Subscript):
            return self.resolve_class(module, node.value)
        if isinstance(node, ast.Name):
            return self.class_named(module, node.id)
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            d = module.defs.get(node.value.id)
            m = None
            if isinstance(d, tuple) and d[0] == 'from':
                m = self.modules.get('%s.%s' % (d[1], d[2]))
            elif isinstance(d, tuple) and d[0] == 'import':
                m = self.modules.get(d[1])
            if m is not None:
                return self.class_named(m, node.attr)
        return None

    def class_named(self, module, name):
        d = module.defs.get(name)
        if isinstance(d, ast.ClassDef):
            return module.cache[name]
        if isinstance(d, tuple) and d[0] == 'from':
            m = self.modules.get(d[1])
            if m is not None:
                return self.class_named(m, d[2])
        if isinstance(d, tuple) and d[0] == 'expr':
            return self.resolve_class(module, d[1])
        return None

    def func(self, qual, modname=None):
        """Func by qualified name: 'Class.method', 'module:function' or 'function' (searched in all modules)."""
        if ':' in qual:
            mn, fn = qual.split(':')
            m = self.modules.get('spec.' + mn) or self.modules.get('vdaf_poc.' + mn)
            return self.mkfunc(m, fn) if m is not None and fn in m.defs else None
        if '.' in qual:
            c, m = qual.split('.')
            k = self.classes.get(c)
            return k.find(m) if k else None
        for nm, m in self.modules.items():
            if modname and nm != modname:
                continue
            d = m.defs.get(qual)
            if isinstance(d, ast.FunctionDef):
                return self.mkfunc(m, qual)
        return None

    def mkfunc(self, m, name):
        r = m.cache.get(name)
        if r is None:
            r = m.cache[name] = Func(m.defs[name], m, None)
        return r
