"""Interprocedural value-flow front end.

Maps Python source to the normal forms of terms.py.  Nothing is executed: each
statement is a transfer function on an abstract state (environment, heap,
guard), branches are if-converted and joined, calls to functions of the
analysed tree are expanded context-sensitively, loops are summarised by solving
their recurrences (loops.py).
"""
import ast
import builtins
import math

from sa.project import Class, Func, Module
from sa.terms import *
from sa import terms as TM
from sa.loops import LoopMixin
from sa.builtins_ import BuiltinMixin


class Unsup(Exception):
    """A construct the analysis does not model."""


class Dead(Exception):
    """The current abstract path is infeasible or has left the function."""


class NeedSplit(Exception):
    def __init__(self, atom):
        self.atom = atom


UNBOUND = mk('unbound')
RAISE = mk('raise')


# ---------------------------------------------------------------- heap cells
class LCell:
    __slots__ = ('c', 'kind', 'ext')

    def __init__(self, c, kind='list', ext=None):
        self.c, self.kind, self.ext = c, kind, ext

    def same(self, o):
        return type(o) is LCell and self.c is o.c and self.kind == o.kind


class OCell:
    __slots__ = ('cls', 'attrs', 'base', 'ext')

    def __init__(self, cls, attrs, base=None, ext=None):
        self.cls, self.attrs, self.base, self.ext = cls, attrs, base, ext

    def same(self, o):
        return type(o) is OCell and self.cls is o.cls and self.base is o.base and \
            self.attrs.keys() == o.attrs.keys() and all(o.attrs[k] is v for k, v in self.attrs.items())


class XCell:
    """An XOF instance: key, and the position in its output stream."""
    __slots__ = ('key', 'mode', 'off', 'hist')

    def __init__(self, key, mode=None, off=ZERO, hist=()):
        self.key, self.mode, self.off, self.hist = key, mode, off, hist

    def same(self, o):
        return type(o) is XCell and self.key is o.key and self.mode == o.mode and self.off is o.off and self.hist == o.hist


class HCell:
    """Hash/cipher primitive: absorbed data and squeeze offset."""
    __slots__ = ('what', 'data', 'off')

    def __init__(self, what, data, off=ZERO):
        self.what, self.data, self.off = what, data, off

    def same(self, o):
        return type(o) is HCell and self.what is o.what and self.data is o.data and self.off is o.off


# ---------------------------------------------------------------- wrapped python-level values
class Py:
    n = 0

    def __repr__(self):
        return type(self).__name__

    @property
    def t(self):
        return mk('py', self)


class FnVal(Py):
    def __init__(self, func, selfv=None, closure=None, defcls=None):
        self.func, self.selfv, self.closure, self.defcls = func, selfv, closure, defcls

    def __repr__(self):
        return 'Fn:' + self.func.qual


class LambdaVal(Py):
    def __init__(self, node, env, frame):
        self.node, self.env, self.frame = node, env, frame

    def __repr__(self):
        return 'Lambda:%d' % self.node.lineno


class BuiltinVal(Py):
    def __init__(self, name, selfv=None, node=None):
        self.name, self.selfv, self.node = name, selfv, node

    def __repr__(self):
        return 'Builtin:' + self.name


class ModVal(Py):
    def __init__(self, mod):
        self.mod = mod

    def __repr__(self):
        return 'Mod:' + (self.mod if isinstance(self.mod, str) else self.mod.name)


class SuperVal(Py):
    def __init__(self, cls, after, selfv):
        self.cls, self.after, self.selfv = cls, after, selfv


class PartialVal(Py):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class NativeVal(Py):
    """A callable supplied by a check."""

    def __init__(self, fn):
        self.fn = fn


class DictVal(Py):
    def __init__(self, items):
        self.items = items


class Iter(Py):
    """Iterable with symbolic trip count."""

    def __init__(self, n, get, pure=True, desc='iter', segs=None):
        m = clipped(n)
        if m is not None:
            # x[k:] is walked as range(k, len(x)): an element exists only where nothing is clipped
            a, k, n = m
            g = get
            get = lambda i, x: TM.subst(g(i, x), {a: k})
        self.n, self.get, self.pure, self.desc, self.segs = n, get, pure, desc, segs


def clipped(n):
    """n = L - min(k, L): the clipping atom, k and max(0, L - k)."""
    if type(n) is not T or n.op != 'P' or n.args[0] != 'I':
        return None
    for m, c in n.args[1]:
        if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'min':
            a = m[0][0]
            rest = padd(n, patom(a))
            for k, L in (a.args, a.args[::-1]):
                if L is rest and k is not L:
                    return a, k, imax(ZERO, psub(L, k))
    return None


EXTERNAL = {}


def pyval(t):
    return t.args[0] if t.op == 'py' else None


class State:
    __slots__ = ('env', 'heap', 'guard', 'facts', 'lits')

    def __init__(self, env, heap, guard=TRUE, facts=(), lits=None):
        self.env, self.heap, self.guard, self.facts, self.lits = env, heap, guard, facts, lits or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.guard, self.facts, self.lits)

    def use(self):
        TM.FACTS[:] = self.facts

    def set(self, o):
        self.env, self.heap, self.guard, self.facts, self.lits = o.env, o.heap, o.guard, o.facts, o.lits

    def assume(self, c):
        """Record consequences of c being true (guard itself is kept separately)."""
        if c is TRUE:
            return
        lits = dict(self.lits)
        fs = list(self.facts)
        TM.FACTS[:] = fs
        for at, val in literals(c):
            lits[at] = val
            for f in lit_facts(at, val):
                if f.op == 'P' and f not in fs and not is_const(f):
                    fs.append(f)
        self.lits = lits
        self.facts = tuple(fs)
        TM.FACTS[:] = fs


class Frame:
    def __init__(self, func, module, cls):
        self.func, self.module, self.cls = func, module, cls
        self.exits = []       # (guard, kind, value, state, site)

    @property
    def name(self):
        return self.func.qual if self.func else '<harness>'


class Config:
    """What is treated as a primitive in a given analysis."""

    def __init__(self, opaque=(), may_raise=(), raw_xof=False, raw_field=False, hooks=None, unroll=16, dims=None, while_bound=0):
        self.while_bound = while_bound
        self.opaque = set(opaque)
        self.may_raise = set(may_raise)
        self.raw_xof = raw_xof
        self.raw_field = raw_field
        self.hooks = hooks or {}
        self.unroll = unroll
        self.ctor = {}


def seg_lengths(c):
    """Lengths of the segments of a concatenation with at least one comprehension; None for a single segment."""
    if c.op != 'S' or len(c.args[1]) < 2 or all(s.op == 'u' for s in c.args[1]):
        return None
    return [ONE if s.op == 'u' else seglen(s) for s in c.args[1]]


def find_ite(v):
    """Guard atom of a guarded non-boolean value."""
    if v.op == 'ite' and not is_bool(v):
        return v.args[0]
    return None


class Interp(LoopMixin, BuiltinMixin):
    def __init__(self, project, cfg=None):
        self.p = project
        self.cfg = cfg or Config()
        self.frames = []
        self.next_id = 1
        self.stats = {'functions': set(), 'calls': 0, 'loops': 0, 'branches': 0, 'opaque': set(), 'sites': set()}
        self.notes = []
        self.depth = 0
        self.raise_sites = {}
        self.loopvars = []
        self.globals_state = {}
        self.public = False

    # ------------------------------------------------------------ heap helpers
    def alloc(self, st, cell):
        i = self.next_id
        self.next_id += 1
        st.heap[i] = cell
        return mk('ref', i)

    def newlist(self, st, content, kind='list'):
        return self.alloc(st, LCell(content, kind))

    def cell(self, st, v):
        return st.heap.get(v.args[0]) if v.op == 'ref' else None

    def content(self, v, st):
        """Sequence content of a list/tuple/bytes value."""
        if v.op == 'ref':
            c = st.heap[v.args[0]]
            if type(c) is LCell:
                return c.c
            return v
        if v.op == 'ite':
            if is_bool(v):
                return v
            return mapleaves(lambda x: self.content(x, st), v)
        return wrap(v)

    def deep(self, v, st, seen=()):
        """Value with all heap references replaced by their content."""
        if v.op == 'ref':
            if v in seen:
                raise Unsup('cyclic object')
            c = st.heap[v.args[0]]
            if type(c) is LCell:
                return self.deep(c.c, st, seen + (v,))
            if type(c) is OCell:
                if c.base is not None and not c.attrs:
                    return c.base
                items = tuple((k, self.deep(x, st, seen + (v,))) for k, x in sorted(c.attrs.items()) if not (self.public and k[0] == '_'))
                if c.base is not None and not items:
                    return c.base
                if c.base is not None:
                    return mk('objx', c.cls.name if c.cls else '?', c.base, tuple(mk('kv', k, x) for k, x in items))
                return self.hoist_obj(c.cls.name if c.cls else '?', items)
            if type(c) is XCell:
                return mk('xofst', c.key, c.off)
            if type(c) is HCell:
                return mk('hashst', c.what, c.data, c.off)
            return v
        if v.op == 'ite':
            if is_bool(v):
                return v
            return mapleaves(lambda x: self.deep(x, st, seen), v)
        if v.op == 'S':
            if not has_ref(v):
                return v
            parts = []
            for s in v.args[1]:
                if s.op == 'u':
                    parts.append(mapleaves(lambda e: seq(v.args[0], [U(e)]), self.deep(s.args[0], st, seen))
                                 if not is_bool(s.args[0]) else seq(v.args[0], [s]))
                else:
                    parts.append(mk('S', v.args[0], (s,)))
            return cat(v.args[0], *parts)
        if v.op == 'py':
            o = v.args[0]
            if isinstance(o, Iter):
                return self.materialize(o, st)
        return v

    def hoist_obj(self, name, items):
        for k, x in items:
            if x.op == 'ite' and not is_bool(x):
                at = x.args[0]
                hi = tuple((q, TM._cof(y, at, True) if not is_bool(y) else y) for q, y in items)
                lo = tuple((q, TM._cof(y, at, False) if not is_bool(y) else y) for q, y in items)
                return ite(mk('ite', at, TRUE, FALSE), self.hoist_obj(name, hi), self.hoist_obj(name, lo))
        return mk('obj', name, tuple(mk('kv', k, x) for k, x in items))

    def listval(self, st, content):
        """Value for a list content: allocate a cell (guarded contents stay in one cell)."""
        return self.newlist(st, content)

    # ------------------------------------------------------------ guards
    def spine(self, t, lits):
        if t.op != 'ite' or not lits:
            return t
        a = t.args[0]
        if a in lits:
            return self.spine(t.args[1] if lits[a] else t.args[2], lits)
        hi, lo = self.spine(t.args[1], lits), self.spine(t.args[2], lits)
        if hi is t.args[1] and lo is t.args[2]:
            return t
        return ite(mk('ite', a, TRUE, FALSE), hi, lo)

    def simp(self, c, st):
        """Simplify a boolean under what the state knows."""
        c = self.spine(c, st.lits)
        if c.op != 'ite':
            return c
        st.use()
        dec = {}
        for at in atoms_of(c):
            if at.op in ('lt0', 'eq0') and at.args[0].op == 'P' and at.args[0].args[0] == 'I':
                r = lt0(at.args[0]) if at.op == 'lt0' else eq0(at.args[0])
                if r is TRUE:
                    dec[at] = True
                elif r is FALSE:
                    dec[at] = False
        return self.spine(c, dec)

    def prune(self, v, st):
        if v.op == 'ite' and st.lits:
            return self.spine(v, st.lits)
        return v

    def fork(self, st, c, f1, f2):
        """Evaluate f1 under c and f2 under not c, join states into st; returns the guarded value."""
        c = self.simp(c, st)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        self.stats['branches'] += 1
        self.note_split(c)
        s1, s2 = st.copy(), st.copy()
        r1 = r2 = None
        s1.guard = band(s1.guard, c)
        s1.assume(c)
        try:
            r1 = f1(s1)
        except Dead:
            s1 = None
        nc = bnot(c)
        s2.guard = band(s2.guard, nc)
        s2.assume(nc)
        try:
            r2 = f2(s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            st.set(s2)
            st.use()
            return r2
        if s2 is None:
            st.set(s1)
            st.use()
            return r1
        j = self.join(c, s1, s2)
        r = self.join_val(c, r1, r2, s1, s2, j)
        st.set(j)
        st.use()
        return r

    def join_val(self, c, a, b, s1, s2, j):
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if a.op == 'ref' and b.op == 'ref':
            ca, cb = s1.heap.get(a.args[0]), s2.heap.get(b.args[0])
            if type(ca) is LCell and type(cb) is LCell and ca.kind == cb.kind:
                return self.alloc(j, LCell(ite(c, ca.c, cb.c), ca.kind))
            if type(ca) is OCell and type(cb) is OCell and ca.cls is cb.cls and ca.base is cb.base \
                    and ca.attrs.keys() == cb.attrs.keys():
                return self.alloc(j, OCell(ca.cls, {k: self.join_val(c, ca.attrs[k], cb.attrs[k], s1, s2, j)
                                                    for k in ca.attrs}, ca.base))
        return ite(c, a, b)

    def join(self, c, s1, s2):
        j = State({}, {}, bor(s1.guard, s2.guard))
        l1 = s1.lits
        j.lits = {a: v for a, v in s2.lits.items() if l1.get(a) is v} if l1 is not s2.lits else l1
        if s1.facts == s2.facts:
            j.facts = s1.facts
        else:
            f1 = set(s1.facts)
            j.facts = tuple(f for f in s2.facts if f in f1)
        TM.FACTS[:] = j.facts
        for i in s1.heap.keys() | s2.heap.keys():
            a, b = s1.heap.get(i), s2.heap.get(i)
            if a is None or b is None or a is b or a.same(b):
                j.heap[i] = a or b
            elif type(a) is LCell and type(b) is LCell:
                j.heap[i] = LCell(ite(c, a.c, b.c), a.kind, a.ext)
            elif type(a) is OCell and type(b) is OCell:
                at = {}
                for k in a.attrs.keys() | b.attrs.keys():
                    at[k] = self.join_val(c, a.attrs.get(k, UNBOUND), b.attrs.get(k, UNBOUND), s1, s2, j)
                j.heap[i] = OCell(a.cls, at, a.base, a.ext)
            elif type(a) is XCell and type(b) is XCell and a.key is b.key and a.mode == b.mode and a.hist == b.hist:
                j.heap[i] = XCell(a.key, a.mode, ite(c, a.off, b.off), a.hist)
            elif type(a) is XCell and type(b) is XCell and a.key is b.key:
                j.heap[i] = XCell(mk('xofmix', a.key, ite(c, strc('a'), strc('b')), mk('hist', *map(hterm, a.hist)),
                                     mk('hist', *map(hterm, b.hist))))
            else:
                j.heap[i] = a
        for k in s1.env.keys() | s2.env.keys():
            a, b = s1.env.get(k), s2.env.get(k)
            if a is b:
                j.env[k] = a
            elif a is None or b is None:
                j.env[k] = ite(c, a or UNBOUND, b or UNBOUND)
            else:
                j.env[k] = self.join_val(c, a, b, s1, s2, j)
        return j

    # ------------------------------------------------------------ exits
    @property
    def frame(self):
        return self.frames[-1]

    def site(self, node):
        f = self.frame
        return '%s:%s (%s)' % (f.module.path if f.module else '?', getattr(node, 'lineno', '?'), f.name)

    def do_raise(self, st, node, exc='ValueError', cond=TRUE):
        """Exit by exception when cond; the state continues under not cond."""
        cond = self.simp(cond, st)
        if cond is FALSE:
            return
        g = band(st.guard, cond)
        if g is not FALSE:
            s = st.copy() if cond is TRUE else st.copy()
            s.guard = g
            self.frame.exits.append((g, 'raise', strc(exc), s, self.site(node)))
        if cond is TRUE:
            st.guard = FALSE
            raise Dead()
        nc = bnot(cond)
        st.guard = band(st.guard, nc)
        st.assume(nc)
        if st.guard is FALSE:
            raise Dead()

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st):
        """Returns the fall-through state or None."""
        for n in body:
            try:
                st.use()
                st = self.exec_stmt(n, st)
            except Dead:
                return None
            if st is None:
                return None
        return st

    def exec_stmt(self, n, st):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsup('statement %s at %s' % (type(n).__name__, self.site(n)))
        self.stats['sites'].add((self.frame.name, getattr(n, 'lineno', 0)))
        while True:
            s0 = st.copy()
            ne = len(self.frame.exits)
            try:
                return m(n, st)
            except NeedSplit as e:
                # re-run the statement separately under each value of the guard
                del self.frame.exits[ne:]
                st = s0
                if e.atom in st.lits:
                    raise Unsup('guard cannot be resolved at ' + self.site(n))
                a = self.simp(atom_bool(e.atom), st)
                if a is TRUE or a is FALSE:
                    st.lits = {**st.lits, e.atom: a is TRUE}
                    continue

                def run(s):
                    r = self.exec_stmt(n, s)
                    if r is None:
                        raise Dead()
                    if r is not s:
                        s.set(r)
                    return NONE
                self.fork(st, a, run, run)
                return st

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return st
        self.eval(n.value, st)
        return st

    def x_Pass(self, n, st):
        return st

    def x_Import(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split('.')[0]] = self.import_module(a.name if a.asname else a.name.split('.')[0])
        return st

    def x_ImportFrom(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name] = self.import_from(n.module, a.name)
        return st

    def x_Global(self, n, st):
        raise Unsup('global statement at ' + self.site(n))

    def x_Nonlocal(self, n, st):
        raise Unsup('nonlocal statement at ' + self.site(n))

    def x_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.del_item(t, st)
            else:
                raise Unsup('del at ' + self.site(n))
        return st

    def del_item(self, t, st):
        base = self.eval(t.value, st)
        c = self.content(base, st)
        if c.op not in ('S', 'ite'):
            raise Unsup('del of item')
        n = seqlen(c)
        if isinstance(t.slice, ast.Slice):
            lo = self.evali(t.slice.lower, st) if t.slice.lower else ZERO
            hi = self.evali(t.slice.upper, st) if t.slice.upper else None
            new = cat('list', slice_(c, ZERO, lo), slice_(c, hi, None) if hi is not None else seq('list', []))
        else:
            i = self.norm_index(self.evali(t.slice, st), n, st, t)
            new = cat('list', cut(c, ZERO, i), cut(c, padd(i, ONE), n))
        self.set_content(base, new, st, t.value)

    def x_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)
        return st

    def x_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st)
        return st

    def x_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st)
            cur = self.getattr_(obj, t.attr, st, t)
        else:
            cur = self.eval(ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t), st)
        rhs = self.eval(n.value, st)
        if cur.op == 'ref' and type(st.heap.get(cur.args[0])) is LCell and isinstance(n.op, ast.Add):
            c = st.heap[cur.args[0]]
            add = self.seq_of(rhs, st)
            self.write_cell(st, cur.args[0], LCell(cat('list', c.c, add), c.kind, c.ext), n)
            if not isinstance(t, ast.Name):
                # storing the same reference back is a no-op for the value
                self.assign(t, cur, st)
            return st
        c = self.cell(st, cur)
        d = self.DUNDER.get(type(n.op).__name__)
        if type(c) is OCell and c.cls is not None and d and c.cls.find('__i' + d[2:]):
            v = self.call_method(cur, '__i' + d[2:], [rhs], {}, st, n)
        else:
            v = self.binop(n.op, cur, rhs, st, n)
        self.assign(t, v, st)
        return st

    def write_cell(self, st, i, cell, node):
        st.heap[i] = cell

    def x_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        self.frame.exits.append((st.guard, 'ret', v, st, self.site(n)))
        return None

    def x_Raise(self, n, st):
        exc = 'Exception'
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            exc = e.id
        elif isinstance(e, ast.Attribute):
            exc = e.attr
        elif e is None:
            exc = st.env.get('__exc__', strc('Exception')).args[0]
        try:
            self.do_raise(st, n, exc)
        except Dead:
            pass
        return None

    def x_Assert(self, n, st):
        c = self.cond(n.test, st)
        self.do_raise(st, n, 'AssertionError', bnot(c))
        return st

    def x_If(self, n, st):
        c = self.cond(n.test, st)

        def br(body):
            def f(s):
                r = self.exec_block(body, s)
                if r is None:
                    raise Dead()
                if r is not s:
                    s.set(r)
                return NONE
            return f
        try:
            self.fork(st, c, br(n.body), br(n.orelse))
        except Dead:
            return None
        return st

    def x_Break(self, n, st):
        self.frame.exits.append((st.guard, 'break', NONE, st, self.site(n)))
        return None

    def x_Continue(self, n, st):
        self.frame.exits.append((st.guard, 'continue', NONE, st, self.site(n)))
        return None

    def x_FunctionDef(self, n, st):
        f = Func(n, self.frame.module, None)
        f.qual = self.frame.name + '.' + n.name
        st.env[n.name] = FnVal(f, closure=st.env, defcls=self.frame.cls).t
        return st

    def x_With(self, n, st):
        raise Unsup('with statement at ' + self.site(n))

    def x_Try(self, n, st):
        fr = self.frame
        saved = fr.exits
        fr.exits = []
        s0 = st.copy()
        end = self.exec_block(n.body, st)
        exits = fr.exits
        fr.exits = saved
        outs = []
        raises = []
        for e in exits:
            if e[1] == 'raise':
                raises.append(e)
            else:
                outs.append(e)
        if end is not None and n.orelse:
            fr.exits = []
            end = self.exec_block(n.orelse, end)
            outs += fr.exits
            fr.exits = saved
        falls = [(end.guard, end)] if end is not None else []
        # handlers
        for h in n.handlers:
            names = self.handler_names(h)
            take, rest = [], []
            for e in raises:
                k = exc_match(e[2].args[0], names)
                if k is True:
                    take.append(e)
                elif k is None:
                    at = atom_bool(mk('excis', e[0] if False else strc(e[4]), strc('/'.join(sorted(names)))))
                    take.append((band(e[0], at),) + e[1:])
                    rest.append((band(e[0], bnot(at)),) + e[1:])
                else:
                    rest.append(e)
            raises = rest
            if not take:
                continue
            g = FALSE
            hs = None
            for e in take:
                s = e[3].copy()
                if hs is None:
                    hs, g = s, e[0]
                else:
                    # join, later entries only where earlier ones do not apply
                    hs = self.join(g, hs, s)
                    g = bor(g, e[0])
            hs.guard = g
            hs.lits = s0.lits
            hs.facts = s0.facts
            if h.name:
                hs.env[h.name] = mk('excval')
            hs.env['__exc__'] = take[0][2]
            hs.assume(g)
            fr.exits = []
            r = self.exec_block(h.body, hs)
            outs += fr.exits
            fr.exits = saved
            if r is not None:
                falls.append((r.guard, r))
        outs += raises
        if n.finalbody:
            if any(not isinstance(x, (ast.Pass, ast.Expr)) for x in n.finalbody):
                raise Unsup('finally at ' + self.site(n))
        fr.exits = saved + outs
        if not falls:
            return None
        g, s = falls[0]
        for g2, s2 in falls[1:]:
            s = self.join(g, s, s2)
            g = bor(g, g2)
        s.guard = g
        return s

    def handler_names(self, h):
        if h.type is None:
            return {'BaseException'}
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '?') for t in ts}

    def x_For(self, n, st):
        itv = self.eval(n.iter, st)
        it = self.iter_of(itv, st)

        def body(s, elem):
            self.assign(n.target, elem, s)
            return self.exec_block(n.body, s)
        r = self.loop(it, body, st, n)
        if r is not None and n.orelse:
            r = self.exec_block(n.orelse, r)
        return r

    def x_While(self, n, st):
        return self.while_loop(n, st)

    def x_Match(self, n, st):
        """match on values/sequences without captures beyond names: desugared to if chain."""
        subj = self.eval(n.subject, st)

        def chain(cases):
            def f(s):
                if not cases:
                    return NONE
                c = cases[0]
                cond, binds = self.match_pat(c.pattern, subj, s)

                def yes(s2):
                    for k, v in binds:
                        s2.env[k] = v
                    if c.guard is not None:
                        g = self.cond(c.guard, s2)
                        return self.fork(s2, g, run, chain(cases[1:]))
                    return run(s2)

                def run(s2):
                    r = self.exec_block(c.body, s2)
                    if r is None:
                        raise Dead()
                    if r is not s2:
                        s2.set(r)
                    return NONE
                return self.fork(s, cond, yes, chain(cases[1:]))
            return f
        try:
            chain(n.cases)(st)
        except Dead:
            return None
        return st

    def match_pat(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            return eqv(self.deep(v, st), self.deep(self.eval(p.value, st), st)), []
        if isinstance(p, ast.MatchSingleton):
            return eqv(v, self.const(p.value)), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            c, b = self.match_pat(p.pattern, v, st)
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            c = FALSE
            for q in p.patterns:
                cq, b = self.match_pat(q, v, st)
                if b:
                    raise Unsup('match capture in alternative')
                c = bor(c, cq)
            return c, []
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            c = self.content(v, st)
            cond = eq0(psub(seqlen(c), pconst(len(p.patterns))))
            binds = []
            for j, q in enumerate(p.patterns):
                cq, b = self.match_pat(q, index(c, pconst(j)), st)
                cond = band(cond, cq)
                binds += b
            return cond, binds
        raise Unsup('match pattern at ' + self.site(p))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st)
            return self.setattr_(obj, t.attr, v, st, t)
        if isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            d = pyval(base)
            if isinstance(d, DictVal):
                raise Unsup('dict store')
            c = self.content(base, st)
            if c.op == 'py' or (c.op not in ('S', 'ite') and seq_kind(c) is None):
                raise Unsup('store into %s' % kind_of(c).__repr__())
            if isinstance(t.slice, ast.Slice):
                lo = self.evali(t.slice.lower, st) if t.slice.lower else ZERO
                hi = self.evali(t.slice.upper, st) if t.slice.upper else None
                vs = self.seq_of(v, st)
                pre = slice_(c, ZERO, lo)
                post = slice_(c, hi, None) if hi is not None else seq('list', [])
                new = cat('list', pre, vs, post)
            else:
                i = self.norm_index(self.evali(t.slice, st), seqlen(c), st, t)
                new = store(c, i, v)
            self.set_content(base, new, st, t.value)
            return
        raise Unsup('assignment target')

    def set_content(self, base, new, st, node):
        """Update a list in place: through its cell, or functionally through the target expression."""
        if base.op == 'ref':
            c = st.heap[base.args[0]]
            self.write_cell(st, base.args[0], LCell(new, c.kind, c.ext), node)
        elif base.op == 'ite' and not is_bool(base):
            raise NeedSplit(base.args[0])
        elif isinstance(node, (ast.Name, ast.Subscript, ast.Attribute)):
            self.assign(node, new, st)
        else:
            raise Unsup('update of temporary')

    def unpack(self, t, v, st):
        k = len(t.elts)
        stars = [j for j, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        p = pyval(v)
        if isinstance(p, Iter):
            v = self.materialize(p, st)
        at = find_ite(v)
        if at is not None and not all(x.op in ('S',) or seq_kind(x) for x in leaves(v)):
            raise NeedSplit(at)
        c = self.content(v, st)
        if c.op not in ('S', 'ite') and seq_kind(c) is None:
            kc = kind_of(c)
            if c is NONE or kc in ('int', 'bool', 'none', 'felt') or c.op in ('P',):
                self.do_raise(st, t, 'TypeError')
            r = mk('raises', strc('unpack'), c, k)
            self.do_raise(st, t, 'ValueError', atom_bool(r))
            for j, e in enumerate(t.elts):
                self.assign(e, item(c, j, 'any'), st)
            return
        n = seqlen(c)
        if stars:
            s = stars[0]
            after = k - s - 1
            self.do_raise(st, t, 'ValueError', lt0(psub(n, pconst(k - 1))))
            for j in range(s):
                self.assign(t.elts[j], index(c, pconst(j)), st)
            self.assign(t.elts[s], self.newlist(st, cut(c, pconst(s), psub(n, pconst(after)))), st)
            for j in range(after):
                self.assign(t.elts[s + 1 + j], index(c, padd(n, pconst(j - after))), st)
            return
        self.do_raise(st, t, 'ValueError', bnot(eq0(psub(n, pconst(k)))))
        c = self.prune(self.content(v, st), st)
        for j, e in enumerate(t.elts):
            self.assign(e, index(c, pconst(j)), st)

    def norm_index(self, i, n, st, node):
        """Python index to offset, raising IndexError when out of range."""
        if i.op == 'ite' or n.op == 'ite':
            oob = lift(lambda a, b: bor(lt0(padd(a, b)), bnot(lt0(psub(a, b)))), i, n)
            self.do_raise(st, node, 'IndexError', oob)
            return lift(lambda a, b: self._wrapneg(a, b), i, n)
        c = const_of(i)
        if c is not None and c >= 0:
            self.do_raise(st, node, 'IndexError', bnot(lt0(psub(i, n))))
            return i
        if c is not None and c < 0:
            self.do_raise(st, node, 'IndexError', lt0(padd(i, n)))
            return padd(i, n)
        if le(ZERO, i):
            self.do_raise(st, node, 'IndexError', bnot(lt0(psub(i, n))))
            return i
        if le(i, pconst(-1)):
            self.do_raise(st, node, 'IndexError', lt0(padd(i, n)))
            return padd(i, n)
        self.do_raise(st, node, 'IndexError', bor(bnot(lt0(psub(i, n))), lt0(padd(i, n))))
        return self._wrapneg(i, n)

    def _wrapneg(self, a, b):
        if le(ZERO, a):
            return a
        if le(a, pconst(-1)):
            return padd(a, b)
        return ite(lt0(a), padd(a, b), a)

    # ------------------------------------------------------------ expressions
    def cond(self, node, st):
        v = self.eval(node, st)
        return self.simp(self.truth_of(v, st), st)

    def truth_of(self, v, st):
        if v.op == 'ref':
            c = self.cell(st, v)
            if type(c) is LCell:
                return truth(c.c)
            return TRUE
        if v.op == 'ite' and not is_bool(v):
            return mapleaves(lambda x: self.truth_of(x, st), v)
        p = pyval(v)
        if isinstance(p, Iter):
            return bnot(eq0(p.n))
        return truth(v)

    def evali(self, node, st):
        v = self.eval(node, st)
        return num(v) if v.op != 'P' else v

    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsup('expression %s at %s' % (type(n).__name__, self.site(n)))
        return m(n, st)

    def const(self, c):
        if c is None:
            return NONE
        if c is True:
            return TRUE
        if c is False:
            return FALSE
        if type(c) is int:
            return pconst(c)
        if type(c) is bytes:
            return bytesc(c)
        if type(c) is str:
            return strc(c)
        if c is Ellipsis:
            return strc('...')
        return mk('const', repr(c))

    def e_Constant(self, n, st):
        return self.const(n.value)

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def lookup(self, name, st, node):
        v = st.env.get(name)
        if v is not None:
            v = self.prune(v, st)
            if v is UNBOUND:
                self.do_raise(st, node, 'UnboundLocalError')
            return v
        f = self.frame
        if f.func is not None and getattr(f, 'closure', None) and name in f.closure:
            return f.closure[name]
        if f.module is not None:
            r = self.module_name(f.module, name)
            if r is not None:
                return r
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            if isinstance(o, type) and issubclass(o, BaseException):
                return BuiltinVal('exc:' + name).t
            return BuiltinVal(name).t
        raise Unsup('name %s at %s' % (name, self.site(node)))

    def module_name(self, module, name):
        key_ = 'val:' + name
        r = module.cache.get(key_)
        if r is not None:
            return r
        d = module.defs.get(name)
        if d is None:
            if name == '__name__':
                return strc(module.name)
            return None
        if isinstance(d, ast.ClassDef):
            r = self.clsval(module.cache[name])
        elif isinstance(d, ast.FunctionDef):
            r = FnVal(self.p.mkfunc(module, name)).t
        elif d[0] == 'import':
            r = self.import_module(d[1])
        elif d[0] == 'from':
            r = self.import_from(d[1], d[2])
        elif d[0] == 'expr':
            r = self.eval_in_module(module, d[1])
        elif d[0] == 'item':
            v = self.eval_in_module(module, d[1])
            r = index(v, pconst(d[2]))
        module.cache[key_] = r
        return r

    def eval_in_module(self, module, node):
        self.frames.append(Frame(None, module, None))
        try:
            st = State({}, {})
            v = self.eval(node, st)
            return self.deep(v, st)
        except Unsup:
            return mk('modval', ast.unparse(node))
        finally:
            self.frames.pop()

    def import_module(self, name):
        m = self.p.modules.get(name)
        return ModVal(m if m is not None else name).t

    def import_from(self, mod, name):
        m = self.p.modules.get(mod)
        if m is not None:
            sub = self.p.modules.get(mod + '.' + name)
            if name in m.defs:
                r = self.module_name(m, name)
                if r is not None:
                    return r
            if sub is not None:
                return ModVal(sub).t
            raise Unsup('import %s.%s' % (mod, name))
        sub = self.p.modules.get('%s.%s' % (mod, name))
        if sub is not None:
            return ModVal(sub).t
        return BuiltinVal('%s.%s' % (mod, name)).t

    def clsval(self, c):
        return mk('cls', c.name)

    def cls_of(self, t):
        """Class for a class-valued term (concrete or symbolic)."""
        if t.op == 'cls':
            return self.p.classes.get(t.args[0])
        k = kind_of(t)
        if type(k) is tuple and k[0] == 'cls':
            return self.p.classes.get(k[1])
        return None

    def e_Tuple(self, n, st):
        return self.display('tuple', n.elts, st)

    def e_List(self, n, st):
        return self.newlist(st, self.display('list', n.elts, st))

    def e_Set(self, n, st):
        s = self.display('list', n.elts, st)
        return lift(lambda x: mk('set', x), self.deep(s, st))

    def display(self, kind, elts, st):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.append(retag(self.seq_of(self.eval(e.value, st), st), kind))
            else:
                v = self.eval(e, st)
                parts.append(mk('S', kind, (U(v),)) if v.op != 'ite' or is_bool(v) else seq(kind, [U(v)]))
        if not parts:
            return mk('S', kind, ())
        if len(parts) == 1:
            return parts[0]
        if all(p.op == 'S' and len(p.args[1]) == 1 and p.args[1][0].op == 'u' for p in parts) and kind == 'tuple':
            return mk('S', kind, tuple(p.args[1][0] for p in parts))
        return cat(kind, *parts)

    def e_Dict(self, n, st):
        items = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsup('dict unpacking')
            items[self.deep(self.eval(k, st), st)] = self.eval(v, st)
        return DictVal(items).t

    def e_JoinedStr(self, n, st):
        out = ''
        for v in n.values:
            x = self.eval(v, st)
            if x.op != 'str':
                return mk('strx')
            out += x.args[0]
        return strc(out)

    def e_FormattedValue(self, n, st):
        if n.format_spec is None or n.conversion != -1:
            return mk('strx')
        v, f = self.eval(n.value, st), self.eval(n.format_spec, st)
        return self.formatted(v, f)

    def formatted(self, v, f):
        k = const_of(v) if v.op == 'P' else None
        if k is None or f.op != 'str':
            return mk('strx')
        try:
            return strc(format(k, f.args[0]))
        except ValueError:
            return mk('strx')

    def e_Lambda(self, n, st):
        return LambdaVal(n, dict(st.env), self.frame).t

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        return self.fork(st, c, lambda s: self.eval(n.body, s), lambda s: self.eval(n.orelse, s))

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(k):
            def f(s):
                v = self.eval(n.values[k], s)
                if k == len(n.values) - 1:
                    return v
                c = self.simp(self.truth_of(v, s), s)
                if is_bool(v):
                    v = c
                if isand:
                    return self.fork(s, c, go(k + 1), lambda s2: FALSE if is_bool(v) else v)
                return self.fork(s, c, lambda s2: TRUE if is_bool(v) else v, go(k + 1))
            return f
        return go(0)(st)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return bnot(self.truth_of(v, st))
        if isinstance(n.op, ast.USub):
            return self.arith(lambda x: pneg(num(x)), v, st, '__neg__', n)
        if isinstance(n.op, ast.UAdd):
            return num(v)
        if isinstance(n.op, ast.Invert):
            return psub(pconst(-1), num(v))
        raise Unsup('unary op')

    def arith(self, f, v, st, name, node):
        c = self.cell(st, v)
        if type(c) is OCell and c.cls is not None and c.cls.find(name):
            return self.call_method(v, name, [], {}, st, node)
        return f(v)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(n.op, a, b, st, n)

    DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Pow': '__pow__', 'Div': '__truediv__',
              'Mod': '__mod__', 'FloorDiv': '__floordiv__', 'BitXor': '__xor__', 'BitAnd': '__and__', 'BitOr': '__or__'}

    def binop(self, op, a, b, st, node):
        o = type(op).__name__
        ca = self.cell(st, a)
        if type(ca) is OCell:
            d = self.DUNDER.get(o)
            if d and ca.cls is not None and ca.cls.find(d):
                return self.call_method(a, d, [b], {}, st, node)
            raise Unsup('operator on object')
        for x in (a, b):
            if x.op == 'ite' and not is_bool(x) and any(y.op in ('ref', 'none', 'unbound', 'py') for y in leaves(x)):
                raise NeedSplit(x.args[0])
        if a.op == 'str' or a.op == 'strx':
            if o == 'Add' and a.op == 'str' and b.op == 'str':
                return strc(a.args[0] + b.args[0])
            if o == 'Mult' and a.op == 'str' and const_of(b) is not None and abs(const_of(b)) < 4096:
                return strc(a.args[0] * const_of(b))
            return mk('strx')
        if b.op == 'str' and o == 'Mult' and const_of(a) is not None and abs(const_of(a)) < 4096:
            return strc(b.args[0] * const_of(a))
        sa, sb = self.is_seq(a, st), self.is_seq(b, st)
        if o == 'Add' and (sa or sb):
            x, y = self.content(a, st), self.content(b, st)
            k = sa or sb
            r = cat(k, x, y)
            return self.newlist(st, r) if k == 'list' else r
        if o == 'Mult' and (sa or sb):
            s, k = (a, b) if sa else (b, a)
            kind = sa or sb
            c = self.content(s, st)
            k = num(k)
            r = self.repeat(c, k, kind)
            return self.newlist(st, r) if kind == 'list' else r
        if sa or sb:
            raise Unsup('operator %s on sequences' % o)
        if a.op == 'set' or b.op == 'set':
            return mk('setop', o, a, b)
        if is_bool(a) and is_bool(b):
            if o == 'BitAnd':
                return band(a, b)
            if o == 'BitOr':
                return bor(a, b)
            if o == 'BitXor':
                return bxor(a, b)
        if a.op == 'py' and b.op == 'py' and o == 'BitOr':
            return a                             # union of types
        if a.op == 'py' or b.op == 'py':
            raise Unsup('operator on %r' % (a if a.op == 'py' else b))
        x, y = num(a), num(b)
        if o == 'Add':
            return padd(x, y)
        if o == 'Sub':
            return psub(x, y)
        if o == 'Mult':
            return pmul(x, y)
        if o == 'FloorDiv':
            self.do_raise(st, node, 'ZeroDivisionError', eq0(y))
            return fdiv(x, y)
        if o == 'Mod':
            self.do_raise(st, node, 'ZeroDivisionError', eq0(y))
            return mod(x, y)
        if o == 'LShift':
            return pmul(x, pow2(y))
        if o == 'RShift':
            return fdiv(x, pow2(y))
        if o == 'Pow':
            return lift(lambda p, q: ppow(p, q) if not (is_const(q) and cval(q) < 0) else unsup('negative power'), x, y)
        if o == 'BitXor':
            return ixor(x, y)
        if o == 'BitAnd':
            return iand(x, y)
        if o == 'BitOr':
            return ior(x, y)
        if o == 'Div':
            return lift(lambda p, q: patom(mk('truediv', p, q)), x, y)
        raise Unsup('operator ' + o)

    def repeat(self, c, k, kind):
        def f(c, k):
            v = fresh(ZERO, k)
            if not le(ZERO, k):
                k = imax(k, ZERO)
            return seqmap(v, k, c, kind)
        return lift(f, c, k)

    def is_seq(self, v, st):
        """'list' / 'bytes' / 'tuple' for sequence values."""
        if v.op == 'ref':
            c = st.heap[v.args[0]]
            if type(c) is LCell:
                return 'bytes' if c.kind == 'bytearray' else 'list'
            return None
        if v.op == 'ite':
            if is_bool(v):
                return None
            for x in leaves(v):
                k = self.is_seq(x, st)
                if k:
                    return k
            return None
        if v.op == 'S':
            return v.args[0]
        return seq_kind(v)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        r = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn, st)
            r = band(r, self.compare(op, left, right, st, n))
            left = right
        return r

    def compare(self, op, a, b, st, node):
        o = type(op).__name__
        if o in ('Is', 'IsNot', 'Eq', 'NotEq'):
            if o in ('Eq', 'NotEq'):
                ca = self.cell(st, a)
                if type(ca) is OCell and ca.cls is not None and ca.cls.find('__eq__'):
                    r = self.truth_of(self.call_method(a, '__eq__', [b], {}, st, node), st)
                    return r if o == 'Eq' else bnot(r)
            if a.op == 'ref' and b.op == 'ref' and a is b:
                r = TRUE
            else:
                if o in ('Is', 'IsNot') and NONE in (a, b):
                    z = a if b is NONE else b
                    if z.op == 'ref' or z.op == 'py':
                        r = FALSE
                    else:
                        r = mapleaves(lambda x: FALSE if x.op in ('ref', 'py') else eqv(x, NONE), z) \
                            if not is_bool(z) else FALSE
                else:
                    x, y = self.deep(a, st), self.deep(b, st)
                    r = eqv(x, y)
            return r if o in ('Eq', 'Is') else bnot(r)
        if o in ('In', 'NotIn'):
            r = self.member(a, b, st)
            return r if o == 'In' else bnot(r)
        x, y = self.deep(a, st), self.deep(b, st)
        if o == 'Lt':
            return ltv(x, y)
        if o == 'Gt':
            return ltv(y, x)
        if o == 'LtE':
            return bnot(ltv(y, x)) if self.total(x, y) else atom_bool(mk('lev', x, y))
        if o == 'GtE':
            return bnot(ltv(x, y)) if self.total(x, y) else atom_bool(mk('lev', y, x))
        raise Unsup('comparison ' + o)

    def total(self, x, y):
        return True

    def member(self, a, b, st):
        p = pyval(b)
        if isinstance(p, Iter):
            if p.desc and p.desc[0] == 'range':
                lo, hi, step = p.desc[1:]
                if step is ONE:
                    a = num(a)
                    return band(bnot(lt0(psub(a, lo))), lt0(psub(a, hi)))
            b = self.materialize(p, st)
        if isinstance(p, DictVal):
            return bor(*[eqv(self.deep(a, st), k) for k in p.items])
        x = self.deep(a, st)
        y = self.deep(b, st)

        def f(x, y):
            if y.op == 'set':
                y = y.args[0]
            y = wrap(y)
            if y.op == 'S' and all(s.op == 'u' for s in y.args[1]):
                return bor(*[eqv(x, s.args[0]) for s in y.args[1]])
            n = seqlen(y)
            if y.op == 'S' and n.op == 'P':
                v = fresh(ZERO, n)
                return TM.exists(v, n, eqv(x, index(y, patom(v))))
            return atom_bool(mk('member', x, y))
        if is_bool(x):
            return lift(lambda q: f(x, q), y)
        return lift(f, x, y)

    def e_Subscript(self, n, st):
        base = self.eval(n.value, st)
        p = pyval(base)
        if p is not None:
            if isinstance(p, (BuiltinVal, FnVal, ModVal)):
                return base                      # generic alias such as list[int], cast types
            if isinstance(p, DictVal):
                k = self.deep(self.eval(n.slice, st), st)
                if k in p.items:
                    return p.items[k]
                if all(const_of(q) is not None or q.op == 'str' for q in p.items) and (const_of(k) is not None or k.op == 'str'):
                    self.do_raise(st, n, 'KeyError')
                r = UNBOUND
                miss = TRUE
                for q, v in p.items.items():
                    e = eqv(k, q)
                    r = ite(e, v, r)
                    miss = band(miss, bnot(e))
                self.do_raise(st, n, 'KeyError', miss)
                return self.prune(r, st)
            if isinstance(p, Iter):
                base = self.materialize(p, st)
        if base.op == 'cls' or (type(kind_of(base)) is tuple and kind_of(base)[0] == 'cls'):
            return base
        if base.op == 'modval':
            return base
        c = self.content(base, st)
        if isinstance(n.slice, ast.Slice):
            return self.do_slice(c, n.slice, st, base, n)
        iv = self.eval(n.slice, st)
        if is_bool(iv):
            iv = num(iv)
        if c.op not in ('S', 'ite') and seq_kind(c) is None:
            if c is NONE or c.op == 'P':
                self.do_raise(st, n, 'TypeError')
            i = num(iv)
            k = const_of(i)
            r = mk('raises', strc('index'), c, i)
            self.do_raise(st, n, 'IndexError', atom_bool(r))
            return item(c, k, 'any') if k is not None else mk('idx', c, i, 'any')
        if c.op == 'ite' and any(x.op in ('none', 'P', 'unbound') for x in leaves(c)):
            raise NeedSplit(c.args[0])
        i = num(iv)
        if c.op == 'str' and const_of(i) is not None and -len(c.args[0]) <= const_of(i) < len(c.args[0]):
            return strc(c.args[0][const_of(i)])
        if c.op in ('str', 'strx'):
            return mk('strx')
        if kind_of(i) not in ('int', 'byte') and i.op == 'P' and i.args[0] != 'I':
            raise Unsup('field element used as index')
        i = self.norm_index(i, seqlen(c), st, n)
        return self.prune(index(self.prune(c, st), i), st)

    def do_slice(self, c, s, st, base, node):
        if c.op == 'strx':
            return c
        if c.op == 'str':
            ks = [const_of(self.evali(x, st)) if x is not None else None for x in (s.lower, s.upper, s.step)]
            if any(k is None and x is not None for k, x in zip(ks, (s.lower, s.upper, s.step))):
                return mk('strx')
            return strc(c.args[0][ks[0]:ks[1]:ks[2]])
        if s.step is not None:
            step = const_of(self.evali(s.step, st))
            if step == -1 and s.lower is None and s.upper is None:
                r = mapleaves(reverse_seq, c)
                return self.newlist(st, r) if self.is_seq(base, st) == 'list' else r
            if step is not None and step >= 1 or step is None:
                n = seqlen(c)
                lo = self.evali(s.lower, st) if s.lower else ZERO
                hi = self.evali(s.upper, st) if s.upper else None
                sub = slice_(c, lo, hi)
                k = self.evali(s.step, st)

                def f(sub, k):
                    L = seqlen(sub)
                    cnt = fdiv(padd(L, psub(k, ONE)), k)
                    if cnt.op == 'ite':
                        raise Unsup('guarded slice')
                    v = fresh(ZERO, cnt)
                    return seqmap(v, cnt, seq('list', [U(index(sub, pmul(patom(v), k)))]), sub.args[0] if sub.op == 'S' else 'list')
                r = lift(f, sub, k)
                return self.newlist(st, r) if self.is_seq(base, st) == 'list' else r
            raise Unsup('slice step at ' + self.site(node))
        lo = self.evali(s.lower, st) if s.lower is not None else ZERO
        if s.upper is not None:
            u = self.eval(s.upper, st)
            hi = None if u is NONE else num(u)
        else:
            hi = None
        if c.op not in ('S', 'ite') and seq_kind(c) is None:
            if c is NONE or c.op == 'P':
                self.do_raise(st, node, 'TypeError')
            return mk('oslice', c, lo, hi if hi is not None else NONE)
        r = self.prune(slice_(self.prune(c, st), lo, hi), st)
        return self.newlist(st, r) if self.is_seq(base, st) == 'list' else r

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Attribute(self, n, st):
        v = self.eval(n.value, st)
        return self.getattr_(v, n.attr, st, n)

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, st):
        return self.newlist(st, self.comp(n, st))

    def e_GeneratorExp(self, n, st):
        return self.newlist(st, self.comp(n, st))

    def e_SetComp(self, n, st):
        return lift(lambda x: mk('set', x), self.deep(self.comp(n, st), st))

    def e_DictComp(self, n, st):
        raise Unsup('dict comprehension')

    def comp(self, n, st):
        acc = '__acc%d_%d' % (n.lineno, n.col_offset)
        saved = {}
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        for k in names:
            saved[k] = st.env.get(k)
        st.env[acc] = self.newlist(st, seq('list', []))

        def level(k):
            def run(s):
                if k == len(n.generators):
                    v = self.eval(n.elt, s)
                    ref = s.env[acc]
                    c = s.heap[ref.args[0]]
                    self.write_cell(s, ref.args[0], LCell(append1(c.c, v), c.kind), n)
                    return s
                g = n.generators[k]
                it = self.iter_of(self.eval(g.iter, s), s)

                def body(s2, elem):
                    self.assign(g.target, elem, s2)
                    conds = TRUE
                    for i in g.ifs:
                        conds = band(conds, self.cond(i, s2))
                    if conds is TRUE:
                        return level(k + 1)(s2)

                    def yes(s3):
                        r = level(k + 1)(s3)
                        if r is None:
                            raise Dead()
                        if r is not s3:
                            s3.set(r)
                        return NONE
                    self.fork(s2, conds, yes, lambda s3: NONE)
                    return s2
                return self.loop(it, body, s, n)
            return run
        r = level(0)(st)
        if r is None:
            raise Dead()
        if r is not st:
            st.set(r)
        out = self.content(st.env.pop(acc), st)
        for k, v in saved.items():
            if v is None:
                st.env.pop(k, None)
            else:
                st.env[k] = v
        return out

    # ------------------------------------------------------------ iterables
    def iter_of(self, v, st):
        v = self.prune(v, st)
        if v.op == 'ite' and not is_bool(v):
            ls = leaves(v)
            if any(x.op in ('ref', 'py', 'none') for x in ls):
                raise NeedSplit(v.args[0])
            n = seqlen(v)
            if n.op == 'ite':
                raise NeedSplit(v.args[0])
            return Iter(n, lambda i, s: index(v, i))
        p = pyval(v)
        if isinstance(p, Iter):
            if p.n.op == 'ite':
                raise NeedSplit(p.n.args[0])
            return p
        if isinstance(p, DictVal):
            ks = list(p.items)
            return Iter(pconst(len(ks)), lambda i, s: ks[const_of(i)])
        if v.op == 'set':
            c = v.args[0]
            self.notes.append('iteration order of a set')
            return Iter(patom(mk('card', c)), lambda i, s: mk('setelem', c, i))
        c = self.prune(self.content(v, st), st)
        if c.op == 'ite':
            n = seqlen(c)
            if n.op == 'ite':
                raise NeedSplit(c.args[0])
            return Iter(n, lambda i, s: index(c, i))
        if c.op == 'S' or seq_kind(c):
            n = seqlen(c)
            if n.op == 'ite':
                raise NeedSplit(n.args[0])
            return Iter(n, lambda i, s: index(c, i), segs=seg_lengths(c))
        if v.op == 'ref':
            cell = st.heap[v.args[0]]
            raise Unsup('iteration over object')
        if v is NONE or v.op == 'P':
            self.do_raise(st, ast.Pass(), 'TypeError')
        return Iter(seqlen(c), lambda i, s: mk('idx', c, i, 'any'))

    def materialize(self, it, st):
        """Sequence (list content) of an iterable."""
        if isinstance(it, Iter) and it.pure:
            if it.n.op == 'ite':
                raise NeedSplit(it.n.args[0])
            k = const_of(it.n)
            if k is not None and k <= self.cfg.unroll:
                r = seq('list', [])
                for j in range(k):
                    r = append1(r, it.get(pconst(j), st))
                return r
            v = fresh(ZERO, it.n)
            return seqmap(v, it.n, append1(seq('list', []), self.deep(it.get(patom(v), st), st)))
        ref = self.newlist(st, seq('list', []))
        nm = '__mat%d' % ref.args[0]
        st.env[nm] = ref

        def body(s, elem):
            r = s.env[nm]
            c = s.heap[r.args[0]]
            s.heap[r.args[0]] = LCell(append1(c.c, elem))
            return s
        r = self.loop(it, body, st, None)
        if r is None:
            raise Dead()
        if r is not st:
            st.set(r)
        out = self.content(st.env.pop(nm), st)
        return out

    def seq_of(self, v, st):
        """List content of any iterable value."""
        p = pyval(v)
        if isinstance(p, Iter):
            return self.materialize(p, st)
        if isinstance(p, DictVal):
            return seq('list', [U(k) for k in p.items])
        if v.op == 'ite' and not is_bool(v):
            if any(x.op in ('py', 'none') for x in leaves(v)):
                raise NeedSplit(v.args[0])
        c = self.content(v, st)
        if c.op == 'S' or c.op == 'ite':
            return mapleaves(lambda x: retag(x, 'list'), c)
        if seq_kind(c):
            return retag(wrap(c), 'list')
        if c.op == 'set':
            raise Unsup('set order')
        k = kind_of(c)
        if k == 'any':
            return seq('list', [mk('sl', c, ZERO, seqlen(c))])
        raise Unsup('not iterable: %r' % (k,))

    # ------------------------------------------------------------ attributes
    def kind_from_ann(self, ann, module, cls=None):
        return self.annkind(ann, module)

    def annkind(self, a, module, depth=0):
        """Value kind described by a type annotation."""
        if a is None or depth > 8:
            return 'any'
        if isinstance(a, ast.Constant):
            if a.value is None:
                return 'none'
            if isinstance(a.value, str):
                try:
                    return self.annkind(ast.parse(a.value, mode='eval').body, module, depth + 1)
                except SyntaxError:
                    return 'any'
            return 'any'
        if isinstance(a, ast.Name):
            n = a.id
            if n in ('int', 'bytes', 'str', 'bool'):
                return n
            if n == 'None':
                return 'none'
            if n in ('list',):
                return ('list', 'any')
            c = self.p.class_named(module, n)
            if c is not None:
                if c.isa('Field'):
                    return 'felt'
                return ('obj', c.name)
            d = module.defs.get(n)
            if isinstance(d, tuple) and d[0] == 'expr':
                e = d[1]
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'TypeVar':
                    for kw in e.keywords:
                        if kw.arg == 'bound':
                            k = self.annkind(kw.value, module, depth + 1)
                            return k if k == 'felt' else 'any'
                    return 'any'
                return self.annkind(e, module, depth + 1)
            if isinstance(d, tuple) and d[0] == 'from':
                m = self.p.modules.get(d[1])
                if m is not None:
                    return self.annkind(ast.Name(d[2]), m, depth + 1)
            if n == 'F':
                return 'felt'
            return 'any'
        if isinstance(a, ast.Attribute):
            c = self.p.resolve_class(module, a)
            if c is not None:
                return 'felt' if c.isa('Field') else ('obj', c.name)
            return 'any'
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.annkind(a.left, module, depth + 1), self.annkind(a.right, module, depth + 1)
            if l == 'none':
                return ('opt', r)
            if r == 'none':
                return ('opt', l)
            return l if l == r else 'any'
        if isinstance(a, ast.Subscript):
            h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, 'attr', '')
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h in ('list', 'Sequence', 'List', 'Iterable'):
                return ('list', self.annkind(args[0], module, depth + 1))
            if h in ('tuple', 'Tuple'):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ('tuple', self.annkind(args[0], module, depth + 1))
                return ('tup', tuple(self.annkind(x, module, depth + 1) for x in args))
            if h == 'Optional':
                return ('opt', self.annkind(args[0], module, depth + 1))
            if h == 'type':
                x = args[0]
                if isinstance(x, ast.Name):
                    c = self.p.class_named(module, x.id)
                    if c is not None:
                        return ('cls', c.name)
                    return ('cls', 'Field')
                return 'any'
            if h in ('Annotated', 'Final', 'ClassVar'):
                return self.annkind(args[0], module, depth + 1)
            return self.annkind(a.value, module, depth + 1)
        return 'any'

    def class_attr(self, c, name, selfterm, st):
        """Class-level constant, or None."""
        r = c.find_assign(name)
        if r is None:
            return None
        owner, expr = r
        if owner.cache.get(name) is not None:
            return owner.cache[name]
        if name in owner.cache and st is not None:
            # objects built in the class body live in the heap of the flow
            self.frames.append(Frame(None, owner.module, owner))
            try:
                return self.eval(expr, State(ClassEnv(self, owner), st.heap, facts=st.facts, lits=st.lits))
            finally:
                self.frames.pop()
        self.frames.append(Frame(None, owner.module, owner))
        try:
            env = ClassEnv(self, owner)
            s2 = State(env, {})
            v = self.deep(self.eval(expr, s2), s2)
        finally:
            self.frames.pop()
        if any(type(x) is OCell for x in s2.heap.values()):
            owner.cache[name] = None
            if st is not None:
                return self.class_attr(c, name, selfterm, st)
            return v
        owner.cache[name] = v
        return v

    def getattr_(self, v, name, st, node):
        v = self.prune(v, st)
        at = find_ite(v)
        if at is not None:
            if any(x.op in ('ref', 'py', 'cls', 'none', 'unbound') for x in leaves(v)):
                raise NeedSplit(at)
        if v.op == 'ref':
            c = st.heap[v.args[0]]
            if type(c) is OCell:
                return self.obj_attr(v, c, name, st, node)
            if type(c) is LCell:
                return BuiltinVal('list.' + name, v, node.value if isinstance(node, ast.Attribute) else None).t
            if type(c) is XCell:
                if name in ('next', 'next_vec'):
                    return BuiltinVal('xof.' + name, v).t
                cls = self.cls_of(c.key.args[0])
                return self.class_member(c.key.args[0], cls, name, st, node, selfv=v)
            if type(c) is HCell:
                return BuiltinVal('hash.' + name, v).t
        p = pyval(v)
        if p is not None:
            if isinstance(p, ModVal):
                if isinstance(p.mod, Module):
                    r = self.module_name(p.mod, name)
                    if r is None:
                        raise Unsup('module attribute %s' % name)
                    return r
                return BuiltinVal(p.mod + '.' + name).t
            if isinstance(p, SuperVal):
                f = p.cls.find(name, after=p.after)
                if f is None:
                    if name == '__init__':
                        return BuiltinVal('noop').t
                    raise Unsup('super attribute ' + name)
                return FnVal(f, p.selfv).t
            if isinstance(p, BuiltinVal):
                return BuiltinVal(p.name + '.' + name, p.selfv).t
            if isinstance(p, Iter):
                return BuiltinVal('iter.' + name, v).t
            if isinstance(p, DictVal):
                return BuiltinVal('dict.' + name, v).t
            if isinstance(p, FnVal):
                return BuiltinVal('fn.' + name, v).t
            raise Unsup('attribute %s of %r' % (name, p))
        if v.op == 'cls' or self.cls_of(v) is not None:
            return self.class_member(v, self.cls_of(v), name, st, node)
        k = kind_of(v)
        if v.op == 'P' and v.args[0] != 'I' or k == 'felt' or (v.op == 'ite' and kind_of(v) == 'felt'):
            return self.felt_attr(v, name, st, node)
        if v is NONE:
            self.do_raise(st, node, 'AttributeError')
        if v.op == 'obj':
            for kv in v.args[1]:
                if kv.args[0] == name:
                    return kv.args[1]
        if type(k) is tuple and k[0] == 'obj' and k[1] in self.p.classes:
            c = OCell(self.p.classes[k[1]], {}, v)
            ref = self.alloc(st, c)
            return self.obj_attr(ref, c, name, st, node)
        return BuiltinVal(self.kname(v, st) + '.' + name, v, node.value if isinstance(node, ast.Attribute) else None).t

    def kname(self, v, st):
        k = self.is_seq(v, st)
        if k:
            return 'bytes' if k == 'bytes' else k
        k = kind_of(v)
        if k in ('int', 'byte', 'bool'):
            return 'int'
        if v.op in ('str', 'strx') or k == 'str':
            return 'str'
        if v.op == 'set':
            return 'set'
        return 'any'

    def felt_attr(self, v, name, st, node):
        f = self.field_tag(v)
        if name in ('int', 'inv'):
            return BuiltinVal('felt.' + name, v).t
        if name == 'val':
            return fint(v)
        if name == '__class__':
            return f if f is not None else unsup('field of value')
        if f is None:
            raise Unsup('attribute %s of field element of unknown field' % name)
        cls = self.cls_of(f)
        return self.class_member(f, cls, name, st, node, selfv=v)

    def field_tag(self, v):
        for x in leaves(v):
            x = num(x)
            if x.op == 'P' and x.args[0] != 'I':
                return x.args[0][1]
        return None

    def class_member(self, t, cls, name, st, node, selfv=None):
        """Attribute `name` looked up on class value t (selfv: instance for bound methods)."""
        if cls is None:
            raise Unsup('attribute %s of unknown class' % name)
        if name == '__name__':
            return strc(cls.name)
        f = cls.find(name)
        if f is not None and (cls.find_assign(name) is None):
            if f.classm:
                return FnVal(f, t, defcls=cls).t
            if f.static:
                return FnVal(f, None).t
            if selfv is not None:
                if f.prop:
                    return self.call_func(f, [selfv], {}, st, node)
                return FnVal(f, selfv).t
            return FnVal(f, None).t
        r = self.class_attr(cls, name, t, st)
        if r is not None and (t.op == 'cls' or cls.find_annot(name) is None or True):
            if t.op == 'sym' and not (t.op == 'cls'):
                # symbolic subclass: only trust constants of the declared bound for non-overridable helpers
                an = cls.find_annot(name)
                if an is not None:
                    k = self.annkind(an[1], an[0].module)
                    return wrap(mk('attr', t, name, k))
            return self.thaw(r, st)
        an = cls.find_annot(name)
        if an is not None:
            k = self.annkind(an[1], an[0].module)
            if k == 'int':
                return TM.attr_int(t, name)
            return wrap(mk('attr', t, name, k))
        raise Unsup('class attribute %s.%s' % (cls.name, name))

    def thaw(self, v, st):
        return v

    def obj_attr(self, ref, c, name, st, node):
        if name in c.attrs:
            v = self.prune(c.attrs[name], st)
            if v is UNBOUND:
                self.do_raise(st, node, 'AttributeError')
            return v
        if name == '__class__':
            return self.cls_term(c)
        if name == '__dict__':
            raise Unsup('__dict__')
        cls = c.cls
        if cls is None:
            raise Unsup('attribute %s of untyped object' % name)
        f = cls.find(name)
        if f is not None:
            if f.prop:
                return self.call_func(f, [ref], {}, st, node)
            if f.classm:
                return FnVal(f, self.cls_term(c), defcls=cls).t
            if f.static:
                return FnVal(f, None).t
            return FnVal(f, ref).t
        r = self.class_attr(cls, name, None, st)
        if r is not None:
            return r
        an = cls.find_annot(name)
        if c.base is not None:
            k = self.annkind(an[1], an[0].module) if an else 'any'
            return self.sym_attr(c.base, name, k, st)
        if an is None:
            self.do_raise(st, node, 'AttributeError')
        raise Unsup('attribute %s.%s' % (cls.name, name))

    def cls_term(self, c):
        b = c.base
        if b is not None and type(b.args[-1]) is tuple and b.args[-1][0] == 'cls':
            return b                             # instance of a symbolic class
        return self.clsval(c.cls)

    def sym_attr(self, base, name, k, st):
        if k == 'int':
            return TM.attr_int(base, name)
        if type(k) is tuple and k[0] == 'obj' and k[1] in self.p.classes:
            return self.alloc(st, OCell(self.p.classes[k[1]], {}, mk('attr', base, name, k)))
        return wrap(mk('attr', base, name, k))

    def setattr_(self, obj, name, v, st, node):
        if obj.op == 'ite' and not is_bool(obj):
            raise NeedSplit(obj.args[0])
        c = self.cell(st, obj)
        if type(c) is not OCell:
            raise Unsup('attribute store on %r at %s' % (obj.op, self.site(node)))
        at = dict(c.attrs)
        at[name] = v
        st.heap[obj.args[0]] = OCell(c.cls, at, c.base, c.ext)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fr = self.frame
            selfv = st.env.get(fr.selfname) if getattr(fr, 'selfname', None) else None
            cls = None
            if selfv is not None:
                c = self.cell(st, selfv)
                cls = c.cls if type(c) is OCell else self.cls_of(selfv)
            if cls is None:
                raise Unsup('super()')
            return SuperVal(cls, fr.func.cls, selfv).t
        f = self.eval(n.func, st)
        args, kw = [], {}
        star = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                sv = self.eval(a.value, st)
                c = self.seq_of(sv, st) if not isinstance(pyval(sv), Iter) else self.materialize(pyval(sv), st)
                k = const_of(seqlen(c)) if c.op == 'S' else None
                if k is None:
                    at = find_ite(c)
                    if at is not None:
                        raise NeedSplit(at)
                    star = c
                    args.append(mk('star', c))
                else:
                    args += [index(c, pconst(j)) for j in range(k)]
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            if k.arg is None:
                v = pyval(self.eval(k.value, st))
                if not isinstance(v, DictVal):
                    raise Unsup('** argument')
                for q, x in v.items.items():
                    kw[q.args[0]] = x
            else:
                kw[k.arg] = self.eval(k.value, st)
        return self.call(f, args, kw, st, n)

    def call(self, f, args, kw, st, node):
        f = self.prune(f, st)
        self.stats['calls'] += 1
        if f.op == 'ite' and not is_bool(f):
            raise NeedSplit(f.args[0])
        p = pyval(f)
        if isinstance(p, FnVal):
            a = ([p.selfv] if p.selfv is not None else []) + args
            return self.call_func(p.func, a, kw, st, node, closure=p.closure)
        if isinstance(p, LambdaVal):
            return self.call_lambda(p, args, kw, st, node)
        if isinstance(p, PartialVal):
            return self.call(p.f, list(p.args) + args, {**p.kw, **kw}, st, node)
        if isinstance(p, NativeVal):
            return p.fn(self, st, args)
        if isinstance(p, BuiltinVal):
            return self.call_builtin(p, args, kw, st, node)
        if f.op == 'cls' or self.cls_of(f) is not None:
            return self.construct(f, args, kw, st, node)
        c = self.cell(st, f)
        if type(c) is OCell and c.cls is not None and c.cls.find('__call__'):
            return self.call_method(f, '__call__', args, kw, st, node)
        if type(c) is OCell and c.cls is None:
            return self.opaque_call('call:%s' % 'obj', [f] + args, 'any', st, node)
        raise Unsup('call of %r at %s' % (f, self.site(node)))

    def call_method(self, obj, name, args, kw, st, node):
        f = self.getattr_(obj, name, st, node)
        return self.call(f, args, kw, st, node)

    def call_lambda(self, p, args, kw, st, node):
        a = p.node.args
        env = dict(p.env)
        names = [x.arg for x in a.args]
        for k, v in zip(names, args):
            env[k] = v
        env.update(kw)
        nd = len(a.defaults)
        for j, d in enumerate(a.defaults):
            nm = names[len(names) - nd + j]
            if nm not in env:
                env[nm] = self.eval(d, st)
        saved = st.env
        st.env = env
        self.frames.append(self.frames[-1] if p.frame is self.frames[-1] else p.frame)
        cur = self.frames[-2]
        if p.frame is not cur:
            # exceptions raised by the lambda body belong to the caller
            fr = Frame(p.frame.func, p.frame.module, p.frame.cls)
            fr.exits = cur.exits
            fr.selfname = getattr(p.frame, 'selfname', None)
            fr.closure = getattr(p.frame, 'closure', None)
            self.frames[-1] = fr
        try:
            return self.eval(p.node.body, st)
        finally:
            self.frames.pop()
            st.env = saved

    def construct(self, t, args, kw, st, node):
        cls = self.cls_of(t)
        if cls is None:
            raise Unsup('construct unknown class')
        h = self.cfg.ctor.get(cls.name)
        if h is not None:
            return h(self, st, t, args, kw, node)
        if cls.isa('Field') and not self.cfg.raw_field:
            return self.mkfelt(t, args[0] if args else kw['val'], st, node)
        if cls.isa('Xof') and not self.cfg.raw_xof:
            names = ['seed', 'dst', 'binder']
            vals = list(args) + [kw[k] for k in names[len(args):]]
            vals = [self.deep(v, st) for v in vals]
            key_ = self.lift_mk('xof', t, *vals)
            return self.alloc(st, XCell(key_))
        init = cls.find('__init__')
        ref = self.alloc(st, OCell(cls, {}, None if t.op == 'cls' else t))
        dc = None
        if init is not None:
            self.call_func(init, [ref] + args, kw, st, node)
        elif any(isinstance(d, (ast.Name, ast.Call, ast.Attribute)) and 'dataclass' in ast.dump(d)
                 for c in cls.mro() for d in c.node.decorator_list):
            fields = []
            for c in reversed(cls.mro()):
                for k in c.annots:
                    if k not in fields:
                        fields.append(k)
            at = {}
            for k, v in zip(fields, args):
                at[k] = v
            at.update(kw)
            for k in fields:
                if k not in at:
                    v = self.class_attr(cls, k, None, st)
                    if v is None:
                        raise Unsup('dataclass default')
                    at[k] = v
            st.heap[ref.args[0]] = OCell(cls, at)
        elif any('NamedTuple' in ast.dump(b) for b in cls.node.bases):
            fields = list(cls.annots)
            vals = list(args) + [kw[k] for k in fields[len(args):] if k in kw]
            return mk('S', 'tuple', tuple(U(v) for v in vals))
        elif args or kw:
            raise Unsup('constructor arguments of ' + cls.name)
        return ref

    def lift_mk(self, op, *args):
        idx = [k for k, a in enumerate(args) if type(a) is T and a.op == 'ite' and not is_bool(a)]
        if not idx:
            return mk(op, *args)

        def f(*xs):
            nn = list(args)
            for k, x in zip(idx, xs):
                nn[k] = x
            return mk(op, *nn)
        return lift(f, *[args[k] for k in idx])

    def mkfelt(self, fieldt, x, st, node):
        """field(x): raises outside (-MODULUS, MODULUS)."""
        x = num(x)
        if x.op == 'P' and x.args[0] != 'I':
            raise Unsup('field element of field element')
        m = self.modulus(fieldt, st)
        bad = lift(lambda a, b: bor(bnot(lt0(psub(a, b))), bnot(lt0(pneg(padd(a, b))))), x, m)
        self.do_raise(st, node, 'AssertionError', bad)
        return embed(self.prune(x, st), fieldt)

    def modulus(self, fieldt, st):
        return self.class_member(fieldt, self.cls_of(fieldt), 'MODULUS', st, None)

    # -------------------------------------------------- calls of analysed functions
    def bind(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        extra = []
        if any(x.op == 'star' for x in args):
            k = next(j for j, x in enumerate(args) if x.op == 'star')
            if a.vararg and k >= len(names):
                extra_seq = cat('tuple', *[x.args[0] if x.op == 'star' else seq('tuple', [U(x)]) for x in args[len(names):]])
                for nm, v in zip(names, args):
                    env[nm] = v
                env[a.vararg.arg] = retag(extra_seq, 'tuple')
                args = args[:len(names)]
                extra = None
            else:
                raise Unsup('star arguments')
        for nm, v in zip(names, args):
            env[nm] = v
        if extra is not None:
            if len(args) > len(names):
                if not a.vararg:
                    self.do_raise(st, node, 'TypeError')
                env[a.vararg.arg] = mk('S', 'tuple', tuple(U(x) for x in args[len(names):]))
            elif a.vararg:
                env[a.vararg.arg] = mk('S', 'tuple', ())
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k not in names and k not in kwo:
                if a.kwarg:
                    raise Unsup('**kwargs')
                self.do_raise(st, node, 'TypeError')
            if k in env:
                self.do_raise(st, node, 'TypeError')
            env[k] = v
        nd = len(a.defaults)
        for j, d in enumerate(a.defaults):
            nm = names[len(names) - nd + j]
            if nm not in env:
                env[nm] = self.default(f, d, st)
        for nm, d in zip(kwo, a.kw_defaults):
            if nm not in env and d is not None:
                env[nm] = self.default(f, d, st)
        for nm in names + kwo:
            if nm not in env:
                self.do_raise(st, node, 'TypeError')
        return env, names

    def default(self, f, d, st):
        self.frames.append(Frame(None, f.module, f.cls))
        try:
            s = State({}, st.heap, TRUE, st.facts, st.lits)
            v = self.eval(d, s)
        finally:
            self.frames.pop()
        if v.op == 'ref':
            # mutable default: one shared object for all calls
            k = ('default', f.qual, getattr(d, 'lineno', 0), getattr(d, 'col_offset', 0))
            g = self.globals_state.get(k)
            if g is None:
                self.globals_state[k] = v
                g = v
            self.notes.append('mutable default argument in %s' % f.qual)
            if g.args[0] not in st.heap:
                st.heap[g.args[0]] = st.heap[v.args[0]]
            return g
        return v

    def is_abstract(self, f):
        return f.abstract and f.stub or (f.stub and not f.node.name.startswith('__') and self.raises_ni(f))

    def raises_ni(self, f):
        return any(isinstance(s, ast.Raise) for s in f.node.body)

    def call_func(self, f, args, kw, st, node, closure=None):
        h = self.cfg.hooks.get(f.qual)
        if h is not None:
            r = h(self, st, f, args, kw, node)
            if r is not NotImplemented:
                return r
        if f.qual in self.cfg.opaque or f.name in self.cfg.opaque or self.is_abstract(f):
            return self.opaque_func(f, args, kw, st, node)
        if f.other_decs:
            raise Unsup('decorator %s on %s' % (sorted(f.other_decs), f.qual))
        if self.depth > 40:
            raise Unsup('recursion in ' + f.qual)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_fn(f.node)):
            return self.call_generator(f, args, kw, st, node)
        env, names = self.bind(f, args, kw, st, node)
        fr = Frame(f, f.module, f.cls)
        fr.closure = closure
        fr.selfname = names[0] if names and f.cls is not None and not f.static else None
        s = State(env, st.heap, TRUE, st.facts, st.lits)
        s.heap = dict(st.heap)
        self.stats['functions'].add('%s' % f.qual)
        self.depth += 1
        self.frames.append(fr)
        try:
            end = self.exec_block(f.node.body, s)
        finally:
            self.frames.pop()
            self.depth -= 1
        return self.finish_call(fr, end, st, node)

    def finish_call(self, fr, end, st, node):
        exits = fr.exits
        if end is not None:
            exits = exits + [(end.guard, 'ret', NONE, end, None)]
        rets = [e for e in exits if e[1] == 'ret' and e[0] is not FALSE]
        raises = [e for e in exits if e[1] == 'raise' and e[0] is not FALSE]
        g0 = st.guard
        for e in raises:
            g = band(g0, e[0])
            if g is not FALSE:
                s = e[3].copy()
                s.env = st.env
                s.guard = g
                self.frame.exits.append((g, 'raise', e[2], s, e[4]))
        if not rets:
            st.guard = FALSE
            raise Dead()
        g, val, s = rets[-1][0], rets[-1][2], rets[-1][3]
        base = s
        cur = State({}, s.heap, g, s.facts, s.lits)
        for e in reversed(rets[:-1]):
            s1 = State({}, e[3].heap, e[0], e[3].facts, e[3].lits)
            s1.env = {'__r': e[2]}
            cur.env = {'__r': val}
            cur = self.join(e[0], s1, cur)
            val = cur.env['__r']
            cur.env = {}
        st.heap = cur.heap
        ok = FALSE
        for e in rets:
            ok = bor(ok, e[0])
        rg = FALSE
        for e in raises:
            rg = bor(rg, e[0])
        st.facts = cur.facts if len(rets) == 1 else st.facts
        if rg is not FALSE:
            nr = bnot(rg)
            st.guard = band(g0, nr)
            st.assume(nr)
            if st.guard is FALSE:
                raise Dead()
        st.use()
        return self.prune(val, st)

    def call_generator(self, f, args, kw, st, node):
        """Generator functions: collected eagerly into a list (order of effects is the same as full iteration)."""
        import copy
        fn = copy.deepcopy(f.node)

        class Tr(ast.NodeTransformer):
            def visit_Expr(s, n):
                if isinstance(n.value, ast.Yield):
                    v = n.value.value or ast.Constant(None)
                    call = ast.Expr(ast.Call(ast.Attribute(ast.Name('__gen', ast.Load()), 'append', ast.Load()), [v], []))
                    return ast.fix_missing_locations(ast.copy_location(call, n))
                if isinstance(n.value, ast.YieldFrom):
                    call = ast.Expr(ast.Call(ast.Attribute(ast.Name('__gen', ast.Load()), 'extend', ast.Load()), [n.value.value], []))
                    return ast.fix_missing_locations(ast.copy_location(call, n))
                return n

            def visit_Return(s, n):
                return ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name('__gen', ast.Load())), n))
        fn = Tr().visit(fn)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_fn(fn)):
            raise Unsup('yield expression')
        first = fn.body[0]
        init = ast.fix_missing_locations(ast.copy_location(
            ast.Assign([ast.Name('__gen', ast.Store())], ast.List([], ast.Load())), first))
        ret = ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name('__gen', ast.Load())), fn.body[-1]))
        fn.body = [init] + fn.body + [ret]
        g = Func(fn, f.module, f.cls)
        g.qual = f.qual
        return self.call_func(g, args, kw, st, node)

    # -------------------------------------------------- opaque calls
    def opaque_func(self, f, args, kw, st, node):
        env, names = None, None
        a = f.node.args
        nm = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        for k in nm[len(args):]:
            if k in kw:
                vals.append(kw[k])
            else:
                nd = len(a.defaults)
                j = nm.index(k) - (len(nm) - nd)
                if 0 <= j < nd:
                    vals.append(self.default(f, a.defaults[j], st))
                else:
                    self.do_raise(st, node, 'TypeError')
        if len(vals) > len(nm):
            self.do_raise(st, node, 'TypeError')
        kind = self.annkind(f.node.returns, f.module)
        return self.opaque_call(f.qual, vals, kind, st, node)

    def opaque_call(self, name, args, kind, st, node):
        vals = [self.deep(v, st) for v in args]
        self.stats['opaque'].add(name)
        if name in self.cfg.may_raise:
            r = self.lift_bool(lambda *xs: atom_bool(mk('raises', strc(name), *xs)), vals)
            self.do_raise(st, node, 'Any', r)
            vals = [self.prune(v, st) for v in vals]
        return self.mkcall(name, vals, kind)

    def lift_bool(self, f, vals):
        idx = [k for k, a in enumerate(vals) if a.op == 'ite' and not is_bool(a)]

        def g(*xs):
            nn = list(vals)
            for k, x in zip(idx, xs):
                nn[k] = x
            return f(*nn)
        return lift(g, *[vals[k] for k in idx]) if idx else f(*vals)

    def mkcall(self, name, vals, kind):
        idx = [k for k, a in enumerate(vals) if a.op == 'ite' and not is_bool(a)]

        def g(*xs):
            nn = list(vals)
            for k, x in zip(idx, xs):
                nn[k] = x
            return wrap(mk('call', name, tuple(nn), kind))
        return lift(g, *[vals[k] for k in idx]) if idx else g()

    # ------------------------------------------------------------ entry point
    def run(self, qual, args, st, kw=None, selfv=None):
        """Outcome (decision diagram over ret(value)/raise) of a call from the harness."""
        f = self.p.func(qual) if isinstance(qual, str) else qual
        if f is None:
            raise MissingAnchor(qual)
        fr = Frame(None, f.module, None)
        self.frames.append(fr)
        try:
            s = st.copy()
            s.guard = TRUE
            try:
                v = self.call_func(f, ([selfv] if selfv is not None else []) + list(args), kw or {}, s, f.node)
                v = self.deep(v, s)
                ok = s.guard
            except Dead:
                v, ok = None, FALSE
        finally:
            self.frames.pop()
        out = RAISE
        if v is not None:
            out = ite(ok, mapleaves(lambda x: mk('ret', x), v) if not is_bool(v) else mk('ret', v), RAISE)
        o = Outcome(out, s, fr.exits, v, ok)
        return o


class Outcome:
    def __init__(self, term, st, exits, val, ok):
        self.term, self.st, self.exits, self.val, self.ok = term, st, exits, val, ok


class MissingAnchor(Exception):
    pass


class ClassEnv(dict):
    """Names visible in a class body."""

    def __init__(self, interp, cls):
        super().__init__()
        self.interp, self.cls = interp, cls

    def get(self, k, d=None):
        if k in self.cls.assigns:
            return self.interp.class_attr(self.cls, k, None, None)
        return d

    def __contains__(self, k):
        return k in self.cls.assigns


# ---------------------------------------------------------------- helpers
def hterm(h):
    return h


def walk_fn(node):
    """Nodes of a function body, not descending into nested functions."""
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


_ref_memo = {}


def has_ref(t):
    r = _ref_memo.get(t)
    if r is None:
        r = False
        if t.op == 'ref' or (t.op == 'py'):
            r = True
        elif t.op in ('S', 'u', 'ite', 'obj', 'kv'):
            r = any(has_ref(x) if type(x) is T else any(has_ref(y) for y in x) if type(x) is tuple else False for x in t.args)
        _ref_memo[t] = r
    return r


def retag(t, kind):
    if t.op == 'ite':
        return mapleaves(lambda x: retag(x, kind), t)
    if t.op == 'S' and t.args[0] != kind:
        if t.args[0] == 'bytes':
            # slices of byte strings are sequences of ints as well
            return mk('S', kind, t.args[1])
        return mk('S', kind, t.args[1])
    return t


def append1(c, v):
    if v.op == 'ite' and not is_bool(v) and has_ref(v):
        return mapleaves(lambda x: append1(c, x), v)
    if has_ref(v):
        return mapleaves(lambda s: mk('S', s.args[0], s.args[1] + (U(v),)), c)
    return cat('list', c, seq('list', [U(v)]) if v.op != 'ite' or is_bool(v) else
               mapleaves(lambda x: seq('list', [U(x)]), v))


def reverse_seq(s):
    s = wrap(s)
    out = []
    for x in reversed(s.args[1]):
        if x.op == 'u':
            out.append(x)
        elif x.op == 'sl' and x.args[0].op == 'tobytes':
            val, order, n = x.args[0].args
            other = tobytes(val, n, 'little' if order == 'big' else 'big')
            if x.args[1] is ZERO and x.args[2] is n:
                out += segs_of(other)
            else:
                out.append(mk('sl', mk('tobytes', val, 'little' if order == 'big' else 'big', n), psub(n, x.args[2]), psub(n, x.args[1])))
        elif x.op == 'sl':
            n = seglen(x)
            v = fresh(ZERO, n)
            b = seq('list', [U(elem(x.args[0], psub(psub(x.args[2], ONE), patom(v))))])
            out += segs_of(seqmap(v, n, b))
        elif x.op == 'map':
            n = x.args[1]
            v = fresh(ZERO, n)
            b = inst(x, psub(psub(n, ONE), patom(v)))
            r = seqmap(v, n, mapleaves(reverse_seq, b))
            if r.op != 'S':
                raise Unsup('reverse of guarded map')
            out += segs_of(r)
    return seq(s.args[0], out)


def exc_match(exc, names):
    """Does an exception class name match a handler?  True / False / None (unknown)."""
    if names & {'Exception', 'BaseException'}:
        return True
    if exc == 'Any' or exc == 'Exception':
        return None
    if exc in names:
        return True
    e = getattr(builtins, exc, None)
    if e is None:
        return None
    for n in names:
        c = getattr(builtins, n, None)
        if c is not None and isinstance(c, type) and issubclass(e, c):
            return True
    return False
