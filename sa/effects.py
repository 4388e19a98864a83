"""Call-graph lint: hidden inputs and state that outlives a call."""
import ast

GROW = {'append', 'extend', 'insert', 'add', 'update', 'sort', 'reverse', 'appendleft', 'subtract'}
SHRINK = {'pop', 'popitem', 'remove', 'clear', 'discard', 'popleft'}
HIDDEN_MODULES = {'random', 'secrets', 'time', 'uuid', 'socket', 'subprocess', 'tempfile', 'numpy.random'}
HIDDEN = {'os.urandom', 'os.environ', 'os.environb', 'os.getenv', 'os.getpid', 'os.getrandom', 'os.times', 'os.stat', 'os.listdir', 'sys.argv', 'sys.stdin', 'threading.get_ident',
          'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'Crypto.Random.get_random_bytes', 'os.cpu_count'}
HIDDEN_BUILTINS = {'open', 'input', 'id'}
CREATORS = {'__init__', '__new__', '__init_subclass__', '__post_init__', '__set_name__'}
MUTABLE_CALLS = {'list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'WeakKeyDictionary', 'deque', 'Counter', 'WeakValueDictionary'}


def walk_expr(n, skip=()):
    """Sub-expressions of n except those spelled like one of skip."""
    todo = [n]
    while todo:
        x = todo.pop()
        if skip and isinstance(x, ast.expr) and ast.dump(x) in skip:
            continue
        yield x
        todo.extend(ast.iter_child_nodes(x))


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)
    else:
        yield t


def base(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def mutable(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, 'attr', '')) in MUTABLE_CALLS


class Fn:
    """Assignments of one function with the conditions they stand under."""

    def __init__(self, f):
        self.f = f
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None and mutable(d):
                self.defaults[x.arg] = d
        self.first = self.params[0] if self.params and f.cls is not None and not f.static else None
        self.globals = {g for n in ast.walk(f.node) if isinstance(n, ast.Global) for g in n.names}
        self.defs = []           # (target node, value expression, tests it stands under, statement)
        self.calls = []          # (call node, tests)
        self.tests = []
        self.returns = []
        for s in f.node.body:
            self.stmt(s, ())
        self.local = {t.id for t, _, _, _ in self.defs if isinstance(t, ast.Name)} - self.globals
        self.local |= set(self.params)

    def stmt(self, s, tests):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in s.body:
                self.stmt(x, tests)
            return
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for e in targets(t):
                    self.defs.append((e, s.value, tests, s))
        elif isinstance(s, ast.AugAssign):
            self.defs.append((s.target, s.value, tests, s))
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.defs.append((s.target, s.value, tests, s))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            for e in targets(s.target):
                self.defs.append((e, s.iter, tests, s))
            tests = tests + (s.iter,)
        elif isinstance(s, (ast.If, ast.While)):
            self.tests.append(s)
            tests = tests + (s.test,)
        elif isinstance(s, ast.Assert):
            self.tests.append(s)
        elif isinstance(s, ast.With):
            for i in s.items:
                if i.optional_vars is not None:
                    for e in targets(i.optional_vars):
                        self.defs.append((e, i.context_expr, tests, s))
        elif isinstance(s, ast.Return) and s.value is not None:
            self.returns.append((s.value, tests))
        elif isinstance(s, ast.Match):
            tests = tests + (s.subject,)
        for n in self.heads(s):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.defs.append((x.target, x.value, tests, s))
                elif isinstance(x, ast.comprehension):
                    for e in targets(x.target):
                        self.defs.append((e, x.iter, tests, s))
                elif isinstance(x, ast.Call):
                    self.calls.append((x, tests))
                elif isinstance(x, (ast.Yield, ast.YieldFrom)) and x.value is not None:
                    self.returns.append((x.value, tests))
        for name in ('body', 'orelse', 'finalbody'):
            for x in getattr(s, name, []) or []:
                self.stmt(x, tests)
        for h in getattr(s, 'handlers', []):
            for x in h.body:
                self.stmt(x, tests)
        for c in getattr(s, 'cases', []):
            for x in c.body:
                self.stmt(x, tests)

    def heads(self, s):
        """Expressions evaluated by the statement itself."""
        for k, v in ast.iter_fields(s):
            if k in ('body', 'orelse', 'finalbody', 'handlers', 'cases'):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    yield x


class Effects:
    def __init__(self, p, skip=('test_utils',)):
        self.p = p
        self.funcs = []
        self.by_name = {}
        self.class_of = {}
        for m in p.modules.values():
            if not m.name.startswith('vdaf_poc') or m.name.split('.')[-1] in skip:
                continue
            for k, d in m.defs.items():
                if isinstance(d, ast.FunctionDef):
                    self.put(p.mkfunc(m, k))
                elif isinstance(d, ast.ClassDef):
                    c = m.cache[k]
                    for f in c.methods.values():
                        self.put(f)
        self.info = {}

    def put(self, f):
        self.funcs.append(f)
        self.by_name.setdefault(f.name, []).append(f)

    def fn(self, f):
        if f not in self.info:
            self.info[f] = Fn(f)
        return self.info[f]

    # ------------------------------------------------------------ call graph
    def reach(self, entries):
        """Functions an operation may run, each with one call path (names resolve to every method of that name)."""
        path = {}
        todo = []

        def add(f, how):
            if f not in path:
                path[f] = how
                todo.append(f)
        for f in entries:
            add(f, (f,))
        for f in self.funcs:
            if f.name.startswith('__') and f.name.endswith('__') and f.name not in CREATORS:
                add(f, (f,))
        while todo:
            f = todo.pop(0)
            for n in ast.walk(f.node):
                name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if name is None:
                    continue
                for g in self.by_name.get(name, ()):
                    if isinstance(n, ast.Name) and g.cls is not None:
                        continue
                    add(g, path[f] + (g,))
                c = self.p.class_named(f.module, name) if isinstance(n, ast.Name) else None
                if c is not None and '__init__' in c.methods:
                    add(c.methods['__init__'], path[f] + (c.methods['__init__'],))
        return path

    def where(self, f, n):
        return '%s:%d (%s)' % (f.module.path, n.lineno, f.qual)

    def dotted(self, f, n):
        """Dotted external name an expression refers to."""
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name) or n.id in self.fn(f).local:
            return None
        d = self.imports(f).get(n.id) or f.module.defs.get(n.id)
        if d is None:
            return n.id if not parts and n.id in HIDDEN_BUILTINS else None
        if isinstance(d, tuple) and d[0] == 'import':
            root = d[1]
        elif isinstance(d, tuple) and d[0] == 'from':
            root = '%s.%s' % (d[1], d[2])
        else:
            return None
        return '.'.join([root] + parts[::-1])

    def imports(self, f):
        out = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    out[a.asname or a.name] = ('from', n.module, a.name)
        return out

    # ------------------------------------------------------------ hidden inputs
    def hidden_source(self, f, n):
        if not isinstance(n, (ast.Name, ast.Attribute)):
            return None
        d = self.dotted(f, n)
        if d is None:
            return None
        if d in HIDDEN or d in HIDDEN_BUILTINS:
            return d
        for m in HIDDEN_MODULES:
            if d.startswith(m + '.'):
                return d
        return None

    def hidden(self, reached):
        """Functions whose result hidden inputs reach: {function: (source, node)}."""
        tainted = {}
        while True:
            n0 = len(tainted)
            for f in reached:
                if f not in tainted:
                    r = self.hidden_in(f, tainted)
                    if r is not None:
                        tainted[f] = r
            if len(tainted) == n0:
                return tainted

    def hidden_in(self, f, tainted):
        info = self.fn(f)
        bad = {}
        names = {g.name: g for g in tainted}

        def src(e):
            for x in walk_expr(e):
                d = self.hidden_source(f, x)
                if d:
                    return d, x
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in bad:
                    return bad[x.id]
                if isinstance(x, ast.Call):
                    nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
                    g = names.get(nm)
                    if g is not None and (g.cls is None) == isinstance(x.func, ast.Name):
                        return tainted[g][0], x
            return None
        while True:
            n0 = len(bad)
            for t, v, tests, s in info.defs:
                r = src(v)
                b = base(t)
                if r and b and b not in bad:
                    bad[b] = r
                    if not isinstance(t, ast.Name) and (b in info.params or b not in info.local):
                        return r
            for c, tests in info.calls:
                if isinstance(c.func, ast.Attribute) and c.func.attr in GROW:
                    b = base(c.func.value)
                    r = next((y for y in map(src, c.args) if y), None)
                    if r and b and b not in bad:
                        bad[b] = r
            if len(bad) == n0:
                break
        for e, tests in info.returns:
            r = src(e)
            if r:
                return r
            for t in tests:
                r = src(t)
                if r:
                    return r
        for s in info.tests:
            body = s.body if not isinstance(s, ast.Assert) else [s]
            if any(isinstance(x, (ast.Return, ast.Raise, ast.Assign, ast.AugAssign, ast.Break, ast.Continue, ast.Assert)) for y in body for x in ast.walk(y)):
                r = src(s.test)
                if r:
                    return r
        return None

    # ------------------------------------------------------------ state that outlives a call
    def transient(self, reached):
        """Classes instantiated while an operation runs."""
        out = set()
        for f in reached:
            if f.name in CREATORS:
                continue
            for c, _ in self.fn(f).calls:
                k = self.p.resolve_class(f.module, c.func)
                if k is not None:
                    out.add(k)
                if isinstance(c.func, ast.Name) and f.classm and c.func.id == self.fn(f).first:
                    out.add(f.cls)
                    out |= {k for k in self.p.classes.values() if f.cls in k.mro()}
                # a class held in an attribute, such as the XOF of a VDAF
                if isinstance(c.func, ast.Attribute):
                    for k in self.p.classes.values():
                        v = k.assigns.get(c.func.attr)
                        got = self.p.resolve_class(k.module, v) if isinstance(v, (ast.Name, ast.Attribute)) else None
                        if got is not None:
                            out.add(got)
        return out

    def root(self, f, n, transient):
        """('module' | 'class' | 'instance' | 'default', name) of a location that outlives the call, or None."""
        info = self.fn(f)
        if isinstance(n, ast.Name):
            if n.id in info.defaults:
                if any(isinstance(t, ast.Name) and t.id == n.id and not isinstance(s, ast.AugAssign) for t, _, _, s in info.defs):
                    return None
                return 'default', n.id
            if n.id in info.local:
                vs = [v for t, v, _, s in info.defs if isinstance(t, ast.Name) and t.id == n.id and isinstance(s, (ast.Assign, ast.AnnAssign))
                      and not isinstance(getattr(s, 'targets', [None])[0], (ast.Tuple, ast.List))]
                if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)) and n.id not in info.params and not (isinstance(vs[0], ast.Name) and vs[0].id == n.id):
                    return self.root(f, vs[0], transient)
                return None
            d = f.module.defs.get(n.id)
            if isinstance(d, tuple) and d[0] == 'from' and d[1] in self.p.modules:
                d = self.p.modules[d[1]].defs.get(d[2])
            if isinstance(d, tuple) and d[0] in ('expr', 'item') or n.id in info.globals:
                return 'module', n.id
            return None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            x = n.value.id
            k = self.p.class_named(f.module, x) if x not in info.local else None
            if k is not None:
                return 'class', n.attr
            if x == info.first and f.cls is not None:
                if f.classm:
                    return 'class', n.attr
                own = any(isinstance(t, ast.Attribute) and t.attr == n.attr and base(t) == self.fn(g).first
                          for c in f.cls.mro() for nm, g in c.methods.items() if nm in CREATORS for t, _, _, _ in self.fn(g).defs)
                if not own and f.cls.find_assign(n.attr) and mutable(f.cls.find_assign(n.attr)[1]):
                    return 'class', n.attr
                if f.cls not in transient:
                    return 'instance', n.attr
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == '__class__':
            return 'class', n.attr
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'type':
            return 'class', n.attr
        return None

    def needs(self, f, value, tests, key, kind, rootname):
        """Parameters the stored value depends on that the key does not determine."""
        info = self.fn(f)
        elts = set()
        covered = set()

        def key_parts(k, depth=0):
            elts.add(ast.dump(k))
            if isinstance(k, ast.Tuple):
                for e in k.elts:
                    key_parts(e, depth)
            elif isinstance(k, ast.Name):
                covered.add(k.id)
                if depth < 3:
                    for t, v, _, s in info.defs:
                        if isinstance(t, ast.Name) and t.id == k.id and isinstance(s, ast.Assign):
                            key_parts(v, depth + 1)
            elif isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id in ('bytes', 'tuple', 'frozenset', 'str') and len(k.args) == 1:
                key_parts(k.args[0], depth)
            elif isinstance(k, ast.BinOp) and isinstance(k.op, ast.Add):
                pass
        if key is not None:
            key_parts(key)
        if kind == 'instance' and info.first:
            covered.add(info.first)
        seen = set()
        todo = []

        def push(e):
            for x in walk_expr(e, elts):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr == rootname:
                    continue
                if isinstance(x, ast.Name) and x.id not in covered and x.id != rootname and x.id not in seen:
                    seen.add(x.id)
                    todo.append(x.id)
        push(value)
        for t in tests:
            push(t)
        while todo:
            x = todo.pop()
            for t, v, ts, s in info.defs:
                if base(t) == x:
                    push(v)
                    if isinstance(t, ast.Subscript):
                        push(t.slice)
                    for y in ts:
                        push(y)
            for c, ts in info.calls:
                if isinstance(c.func, ast.Attribute) and base(c.func) == x and c.func.attr in GROW:
                    for a in c.args:
                        push(a)
        out = [x for x in info.params if x in seen]
        if info.first in out and kind == 'class' and f.classm and key is None:
            out.remove(info.first)
        if info.first in out and f.cls is not None and kind in ('class', 'module') and not f.classm:
            # constants of a class without descendants are the same for every instance
            has_state = any(nm in CREATORS for c in f.cls.mro() for nm in c.methods)
            if not has_state and not any(f.cls in k.mro() for k in self.p.classes.values() if k is not f.cls):
                out.remove(info.first)
        if info.first in out and f.classm and kind in ('class', 'module'):
            if not any(f.cls in k.mro() for k in self.p.classes.values() if k is not f.cls):
                out.remove(info.first)
        return out

    def state(self, reached):
        """[(function, node, message)] for every write that lets a call influence a later one; number of writes looked at."""
        tr = self.transient(reached)
        out, n = [], 0
        for f in reached:
            info = self.fn(f)
            creator = f.name in CREATORS
            for t, v, tests, s in info.defs:
                x = t
                key = None
                while isinstance(x, ast.Subscript):
                    key = x.slice
                    x = x.value
                r = self.root(f, x, tr) if not (isinstance(x, ast.Name) and key is None and x.id not in info.globals) else None
                if isinstance(x, ast.Name) and key is None and isinstance(s, ast.AugAssign) and x.id in info.defaults:
                    r = ('default', x.id)
                if r is None or creator and r[0] == 'instance':
                    continue
                n += 1
                kind, name = r
                if isinstance(s, ast.AugAssign):
                    out.append((f, s, '%s state %s is updated from its earlier value' % (kind, name)))
                    continue
                need = self.needs(f, v, tests, key, kind, name)
                if need and not (creator and kind == 'instance'):
                    out.append((f, s, '%s state %s keeps a value that depends on %s%s' % (
                        kind, name, ', '.join(need), ', which its key does not determine' if key is not None else '')))
            for c, tests in info.calls:
                if not isinstance(c.func, ast.Attribute):
                    continue
                m = c.func.attr
                if m not in GROW and m != 'setdefault':
                    continue
                x = c.func.value
                key = None
                while isinstance(x, ast.Subscript):
                    key = x.slice
                    x = x.value
                r = self.root(f, x, tr)
                if r is None or creator and r[0] == 'instance':
                    continue
                if m == 'update' and r[0] == 'instance' and not mutable(self.assigned(f, r[1]) or ast.Constant(None)):
                    continue
                n += 1
                kind, name = r
                if m == 'setdefault' and len(c.args) == 2:
                    need = self.needs(f, c.args[1], tests, c.args[0], kind, name)
                    if need:
                        out.append((f, c, '%s state %s keeps a value that depends on %s, which its key does not determine' % (kind, name, ', '.join(need))))
                elif m != 'setdefault':
                    out.append((f, c, '%s state %s is modified (%s)' % (kind, name, m)))
        return out, n

    def assigned(self, f, name):
        for c in f.cls.mro() if f.cls else ():
            for nm, g in c.methods.items():
                if nm in CREATORS:
                    for t, v, _, _ in self.fn(g).defs:
                        if isinstance(t, ast.Attribute) and t.attr == name:
                            return v
        return None

    def shared_results(self, reached):
        """Writes into a list handed out by a function that remembers its results."""
        cached = {f.name: f for f in reached if f.cached}
        out = []
        for f in reached:
            info = self.fn(f)
            held = {}
            for t, v, _, s in info.defs:
                if isinstance(t, ast.Name) and isinstance(v, ast.Call) and isinstance(s, (ast.Assign, ast.AnnAssign)):
                    nm = v.func.id if isinstance(v.func, ast.Name) else v.func.attr if isinstance(v.func, ast.Attribute) else None
                    if nm in cached and cached[nm] is not f:
                        held[t.id] = nm
            if not held:
                continue
            for t, v, _, s in info.defs:
                b = base(t)
                if b in held and (isinstance(t, ast.Subscript) or isinstance(s, ast.AugAssign) and isinstance(t, ast.Name)):
                    out.append((f, s, 'the remembered result of %s is modified in place' % held[b]))
            for c, _ in info.calls:
                if isinstance(c.func, ast.Attribute) and c.func.attr in GROW | SHRINK and isinstance(c.func.value, ast.Name) and c.func.value.id in held:
                    out.append((f, c, 'the remembered result of %s is modified in place' % held[c.func.value.id]))
        return out
