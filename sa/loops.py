"""Loop summarisation: recurrences of the loop-carried locations are solved in closed form."""
import ast

from sa.terms import *
from sa import terms as TM

_phi_uid = [0]


def new_phi(kind):
    _phi_uid[0] += 1
    return mk('phi', _phi_uid[0], kind)


def deep_kind(t):
    """Element-aware kind of a value."""
    if t.op == 'ite':
        if is_bool(t):
            return 'bool'
        for x in leaves(t):
            k = deep_kind(x)
            if k not in ('any', 'none') and not (type(k) is tuple and k[-1] in (None, 'any')):
                return k
        return deep_kind(leaves(t)[0])
    if t.op == 'P':
        return 'int' if t.args[0] == 'I' else 'felt'
    if t.op == 'S':
        k = t.args[0]
        if k == 'bytes':
            return 'bytes'
        if k == 'tuple' and all(s.op == 'u' for s in t.args[1]):
            return ('tup', tuple(deep_kind(s.args[0]) for s in t.args[1]))
        eks = set()
        for s in t.args[1]:
            ek = 'any'
            if s.op == 'u':
                ek = deep_kind(s.args[0])
            elif s.op == 'sl':
                ek = elem_kind(s.args[0])
            elif s.op == 'map':
                b = s.args[2]
                bk = deep_kind(b)
                ek = bk[1] if type(bk) is tuple and bk[0] in ('list',) else 'byte' if bk == 'bytes' else 'any'
            if ek not in ('any', None):
                eks.add(ek)
                if len(eks) > 1 or 'none' not in eks:
                    break
        ek = 'any' if not eks or 'none' in eks and len(eks) > 1 else eks.pop()
        return (k if k in ('list', 'tuple') else 'list', ek)
    k = kind_of(t)
    return k


def deep_field(t):
    if t.op == 'ite':
        for x in leaves(t):
            f = deep_field(x)
            if f is not None:
                return f
        return None
    if t.op == 'P':
        return t.args[0][1] if t.args[0] != 'I' else None
    if t.op == 'S':
        for s in t.args[1]:
            f = None
            if s.op == 'u':
                f = deep_field(s.args[0])
            elif s.op == 'sl':
                f = TM.field_of_base(s.args[0])
            elif s.op == 'map':
                f = deep_field(s.args[2])
            if f is not None:
                return f
        return None
    return None


# ---------------------------------------------------------------- shapes of loop-carried values
class Scal:
    def __init__(self, kind, field=None):
        self.kind = kind
        self.phi = new_phi(kind)
        if field is not None:
            FIELD[self.phi] = field

    def value(self):
        return wrap(self.phi)

    def phis(self):
        return [self.phi]

    def match(self, v):
        k = deep_kind(v)
        if k == self.kind or self.kind == 'any':
            return {self.phi: v}
        if self.kind == 'int' and k in ('bool', 'byte'):
            return {self.phi: num(v)}
        if self.kind == 'bool' and k != 'bool':
            return None
        if self.kind in ('int', 'felt') and k in ('int', 'felt', 'byte') and self.kind != k:
            return None
        if v.op in ('unsup',):
            return {self.phi: v}
        return None


class Tup:
    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts

    def value(self):
        return mk('S', self.kind, tuple(U(p.value()) for p in self.parts))

    def phis(self):
        return [x for p in self.parts for x in p.phis()]

    def match(self, v):
        out = {}
        n = len(self.parts)
        for x in leaves(v) if not is_bool(v) else [v]:
            if x.op != 'S' or const_of(seqlen(x)) != n:
                return None
        for j, p in enumerate(self.parts):
            m = p.match(index(v, pconst(j)))
            if m is None:
                return None
            out.update(m)
        return out


class SeqP:
    def __init__(self, kind, field):
        self.kind = kind
        self.phi = new_phi(kind)
        if field is not None:
            FIELD[self.phi] = field

    def value(self):
        return wrap(self.phi)

    def phis(self):
        return [self.phi]

    def match(self, v):
        for x in leaves(v):
            if x.op != 'S' and not seq_kind(x):
                return None
            k = deep_kind(x)
            if type(self.kind) is tuple and self.kind[-1] == 'none' and type(k) is tuple and k[-1] != 'none' and x is not v:
                return None
        return {self.phi: mapleaves(wrap, v)}


def shape_of(init, post, scalar=True):
    """Shape covering both the initial value and the value after one iteration."""
    from sa.interp import Unsup, UNBOUND
    if init is UNBOUND or init.op == 'unbound':
        return None
    ki, kp = deep_kind(init), deep_kind(post)
    li = leaves(init) if not is_bool(init) else [init]
    lp = leaves(post) if not is_bool(post) else [post]
    if any(x.op == 'unbound' for x in li):
        return None
    if all(x.op == 'S' for x in li + lp):
        n0 = const_of(seqlen(li[0])) if seqlen(li[0]).op == 'P' else None
        if scalar and n0 is not None and 0 < n0 <= 8 and li[0].args[0] != 'bytes' and \
                all(const_of(seqlen(x)) == n0 for x in li + lp):
            parts = [shape_of(index(init, pconst(j)), index(post, pconst(j))) for j in range(n0)]
            if all(p is not None for p in parts):
                return Tup(li[0].args[0], parts)
        if ki == 'bytes' or kp == 'bytes':
            return SeqP('bytes', None)
        k = ki
        if type(ki) is tuple and ki[0] == 'tup' or (type(ki) is tuple and ki[-1] in ('any', None)):
            k = kp
        if type(k) is tuple and k[0] == 'tup':
            ks = set(k[1])
            k = ('tuple', ks.pop() if len(ks) == 1 else 'any')
        if type(k) is tuple and k[-1] == 'none' and kp != ki:
            k = (k[0], 'any')
        return SeqP(k, deep_field(init) or deep_field(post))
    if ki == 'bool' and kp == 'bool':
        return Scal('bool')
    if ki in ('int', 'byte', 'bool') and kp in ('int', 'byte', 'bool'):
        return Scal('int')
    if ki == 'felt' or kp == 'felt':
        if ki == 'int' or kp == 'int':
            return Scal('any')
        return Scal('felt', deep_field(init) or deep_field(post))
    return Scal('any')


class Slot:
    def __init__(self, loc, init, shape):
        self.loc, self.init, self.shape = loc, init, shape


class LoopRec:
    pass


class LoopMixin:
    loop_log = None
    opaque_sol = False

    # ------------------------------------------------------------ locations
    def get_loc(self, st, loc):
        if loc[0] == 'env':
            return st.env.get(loc[1])
        if loc[0] == 'cell':
            return st.heap[loc[1]].c
        if loc[0] == 'attr':
            return st.heap[loc[1]].attrs.get(loc[2])
        if loc[0] == 'xoff':
            return st.heap[loc[1]].off
        if loc[0] == 'hdata':
            return st.heap[loc[1]].data
        if loc[0] == 'hoff':
            return st.heap[loc[1]].off

    def set_loc(self, st, loc, v, end=None):
        from sa.interp import LCell, OCell, XCell, HCell
        if loc[0] == 'env':
            st.env[loc[1]] = v
        elif loc[0] == 'cell':
            c = st.heap[loc[1]]
            st.heap[loc[1]] = LCell(v, c.kind, c.ext)
        elif loc[0] == 'attr':
            c = st.heap[loc[1]]
            at = dict(c.attrs)
            at[loc[2]] = v
            st.heap[loc[1]] = OCell(c.cls, at, c.base, c.ext)
        elif loc[0] == 'xoff':
            c = st.heap[loc[1]]
            st.heap[loc[1]] = XCell(c.key, loc[2], v, c.hist)
        elif loc[0] == 'hdata':
            c = st.heap[loc[1]]
            st.heap[loc[1]] = HCell(c.what, v, c.off)
        elif loc[0] == 'hoff':
            c = st.heap[loc[1]]
            st.heap[loc[1]] = HCell(c.what, c.data, v)

    def changed(self, a, b):
        """Locations that differ between entry state a and end state b."""
        from sa.interp import LCell, OCell, XCell, HCell, Unsup
        out = []
        for k, v in a.env.items():
            if b.env.get(k) is not v:
                out.append(('env', k))
        for i, c in a.heap.items():
            d = b.heap.get(i)
            if d is c or d is None or c.same(d):
                continue
            if type(c) is LCell:
                out.append(('cell', i))
            elif type(c) is OCell:
                for k in c.attrs.keys() | d.attrs.keys():
                    if c.attrs.get(k) is not d.attrs.get(k):
                        if k not in c.attrs:
                            raise Unsup('attribute created in loop')
                        out.append(('attr', i, k))
            elif type(c) is XCell:
                if c.key is not d.key:
                    raise Unsup('xof replaced in loop')
                if c.mode is None and d.hist == c.hist or c.mode == d.mode and c.hist == d.hist:
                    out.append(('xoff', i, d.mode))
                else:
                    raise Unsup('xof mode alternates in loop')
            elif type(c) is HCell:
                if c.data is not d.data:
                    out.append(('hdata', i))
                if c.off is not d.off:
                    out.append(('hoff', i))
        return out

    def switch_mode(self, st, a, b):
        """A stream read in one mode before the loop and in another one by every iteration: note the switch before the loop."""
        from sa.interp import XCell
        from sa.builtins_ import xof_hist
        hit = False
        for i, c in a.heap.items():
            d = b.heap.get(i)
            if type(c) is XCell and type(d) is XCell and c.key is d.key and c.mode is not None and d.mode != c.mode and \
                    d.hist == c.hist + xof_hist(c):
                st.heap[i] = XCell(c.key, d.mode, ZERO, d.hist)
                hit = True
        return hit

    # ------------------------------------------------------------ running bodies
    def run_split(self, f, s):
        from sa.interp import NeedSplit, Dead, Unsup
        s0 = s.copy()
        ne = len(self.frame.exits)
        try:
            return f(s)
        except Dead:
            return None
        except NeedSplit as e:
            del self.frame.exits[ne:]
            s = s0
            if e.atom in s.lits:
                raise Unsup('guard cannot be resolved')
            a = self.simp(atom_bool(e.atom), s)
            if a is TRUE or a is FALSE:
                s.lits = {**s.lits, e.atom: a is TRUE}
                return self.run_split(f, s)

            def run(x):
                r = self.run_split(f, x)
                if r is None:
                    raise Dead()
                if r is not x:
                    x.set(r)
                return NONE
            try:
                self.fork(s, a, run, run)
            except Dead:
                return None
            return s

    def join_many(self, states):
        states = [s for s in states if s is not None and s.guard is not FALSE]
        if not states:
            return None
        s = states[0]
        for t in states[1:]:
            s = self.join(s.guard, s, t)
        return s

    def run_body(self, f, s):
        """Returns (end state incl. continues, breaks, other exits)."""
        fr = self.frame
        saved = fr.exits
        fr.exits = []
        try:
            end = self.run_split(f, s)
            ex = fr.exits
        finally:
            fr.exits = saved
        cont = [e[3] for e in ex if e[1] == 'continue']
        for e in ex:
            if e[1] == 'continue':
                e[3].guard = e[0]
        end = self.join_many([end] + cont)
        brk = [e for e in ex if e[1] == 'break' and e[0] is not FALSE]
        oth = [e for e in ex if e[1] in ('ret', 'raise') and e[0] is not FALSE]
        return end, brk, oth

    def loop(self, it, body, st, node):
        from sa.interp import NeedSplit
        n = it.n
        if n.op == 'ite':
            raise NeedSplit(n.args[0])
        c = const_of(n)
        if c is not None and c <= self.cfg.unroll:
            brks = []
            s = st
            for k in range(max(c, 0)):
                end, brk, oth = self.run_body(lambda x: body(x, it.get(pconst(k), x)), s)
                self.frame.exits += oth
                for e in brk:
                    e[3].guard = e[0]
                    brks.append(e[3])
                s = end
                if s is None:
                    break
                s.use()
            return self.join_many([s] + brks)
        segs = self.pieces(it, node) if c is None else None
        if segs:
            return self.piecewise(it, segs, body, st, node)
        return self.split_loop(it, body, st, node)

    def split_loop(self, it, body, st, node):
        """Summary of a loop; where its body is not uniform, the index set is split at the bounds the body tests."""
        from sa.interp import Unsup
        cuts = []
        self.loopvars.append([None, cuts])
        s0 = st.copy()
        ne = len(self.frame.exits)
        err = None
        try:
            r = self.summarize(it.n, lambda s, v: body(s, it.get(patom(v), s)), st, node)
        except Unsup as e:
            r, err = None, e
        finally:
            self.loopvars.pop()
        if err is None and not self.opaque_sol:
            return r
        segs = self.index_sets(it.n, cuts, s0, node)
        if segs is None:
            if err is not None:
                raise err
            return r
        ex = self.frame.exits[ne:]
        del self.frame.exits[ne:]
        st.set(s0)
        st.use()
        try:
            return self.piecewise(it, segs, body, st, node)
        except Unsup:
            if err is not None:
                raise err
            del self.frame.exits[ne:]
            self.frame.exits += ex
            return r

    def index_sets(self, n, cuts, st, node):
        if not cuts or len(cuts) > 6:
            return None
        if isinstance(node, ast.For) and any(isinstance(x, ast.Break) for x in ast.walk(node)):
            return None
        st.use()
        order = []
        for c in cuts:
            if c is ZERO or c is n or not (le(ZERO, c) and le(c, n)) or same(c, n) or same(c, ZERO):
                continue
            k = 0
            for k in range(len(order) + 1):
                if k == len(order) or le(c, order[k]):
                    break
            if k and not le(order[k - 1], c):
                continue
            if (k and same(order[k - 1], c)) or (k < len(order) and same(order[k], c)):
                continue
            order.insert(k, c)
        if not order:
            return None
        pts = [ZERO] + order + [n]
        return [psub(b, a) for a, b in zip(pts, pts[1:])]

    def note_split(self, c):
        for v, cuts in self.loopvars:
            if v is None or v not in c.fv:
                continue
            for at in atoms_of(c):
                if at.op not in ('lt0', 'eq0') or v not in at.fv or at.args[0].op != 'P' or at.args[0].args[0] != 'I':
                    continue
                p = at.args[0]
                co = [(m, x) for m, x in p.args[1] if any(a is v for a, _ in m)]
                if len(co) != 1 or co[0][0] != ((v, 1),) or abs(co[0][1]) != 1:
                    continue
                k = co[0][1]
                b = psub(p, pmul(pconst(k), patom(v)))
                if v in b.fv or any(x.op in ('v', 'phi') for x in b.fv):
                    continue
                e = pneg(b) if k == 1 else b
                new = [e, padd(e, ONE)] if at.op == 'eq0' else [e] if k == 1 else [padd(e, ONE)]
                for x in new:
                    if x not in cuts:
                        cuts.append(x)

    def pieces(self, it, node):
        """Lengths of the segments of the sequence iterated over, when the loop may be run segment by segment."""
        ls = it.segs
        if not ls or len(ls) < 2 or len(ls) > 8 or any(x.op != 'P' for x in ls):
            return None
        if isinstance(node, ast.For) and any(isinstance(x, ast.Break) for x in ast.walk(node)):
            return None
        return ls

    def piecewise(self, it, segs, body, st, node):
        off = ZERO
        s = st
        for L in segs:
            c = const_of(L)
            if c is not None and c <= self.cfg.unroll:
                for k in range(c):
                    j = padd(off, pconst(k))
                    end, brk, oth = self.run_body(lambda x: body(x, it.get(j, x)), s)
                    self.frame.exits += oth
                    s = end
                    if s is None:
                        return None
                    s.use()
            else:
                o = off
                s = self.summarize(L, lambda x, v: body(x, it.get(padd(o, patom(v)), x)), s, node)
                if s is None:
                    return None
                s.use()
            off = padd(off, L)
        return s

    def while_loop(self, n, st):
        from sa.interp import Unsup, Dead
        if self.cfg.while_bound:
            return self.while_bounded(n, st)
        # unroll while the condition is statically decided
        brks = []
        s = st
        for k in range(max(64, 4 * self.cfg.unroll)):
            probe = s.copy()
            ne = len(self.frame.exits)
            c = self.cond(n.test, probe)
            del self.frame.exits[ne:]
            if c is FALSE:
                c = self.cond(n.test, s)
                if n.orelse:
                    s = self.exec_block(n.orelse, s)
                return self.join_many([s] + brks)
            if c is not TRUE or (isinstance(n.test, ast.Constant) and k > 16):
                break
            if isinstance(n.test, ast.Constant) and k == 0:
                r = self.while_true(n, s)
                if r is not NotImplemented:
                    return r
            s2 = s.copy()
            self.cond(n.test, s2)
            end, brk, oth = self.run_body(lambda x: self.exec_block(n.body, x), s2)
            if k == 0 and end is not None and self.cond(n.test, end.copy()) is not TRUE and \
                    self.cond(n.test, end.copy()) is not FALSE:
                break
            self.frame.exits += oth
            for e in brk:
                e[3].guard = e[0]
                brks.append(e[3])
            s = end
            if s is None:
                return self.join_many(brks)
        else:
            raise Unsup('while loop does not resolve')
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not brks:
            ne = len(self.frame.exits)
            try:
                return self.while_bounded(n, s.copy(), 12)
            except (Unsup, Dead):
                del self.frame.exits[ne:]
                s.use()
        if brks:
            raise Unsup('while loop with break after partial unrolling')
        if n.orelse:
            raise Unsup('while-else')
        return self.summarize(None, lambda x, v: self.exec_block(n.body, x), s, n, test=n.test)

    def while_bounded(self, n, st, bound=None):
        """All runs of at most cfg.while_bound iterations; flows set this bound only where longer runs cannot exist."""
        from sa.interp import Unsup
        outs = []
        s = st
        bound = bound or self.cfg.while_bound
        for k in range(bound + 1):
            s.use()
            c = self.simp(self.cond(n.test, s), s)
            if c is not TRUE:
                e = s.copy()
                e.guard = band(e.guard, bnot(c))
                e.assume(bnot(c))
                if n.orelse and e.guard is not FALSE:
                    e = self.exec_block(n.orelse, e)
                outs.append(e)
            if c is FALSE:
                return self.join_many(outs)
            if k == bound:
                raise Unsup('while loop exceeds its bound')
            s = s.copy()
            s.guard = band(s.guard, c)
            s.assume(c)
            s, brk, oth = self.run_body(lambda x: self.exec_block(n.body, x), s)
            self.frame.exits += oth
            for e in brk:
                e[3].guard = e[0]
                outs.append(e[3])
            if s is None:
                return self.join_many(outs)

    def while_true(self, n, st):
        """while True with a leading exit test: while not test."""
        b = n.body
        k = 0
        while k < len(b) and isinstance(b[k], ast.Expr) and isinstance(b[k].value, ast.Constant):
            k += 1
        if k < len(b) and isinstance(b[k], ast.If) and len(b[k].body) == 1 and isinstance(b[k].body[0], ast.Break):
            t = ast.copy_location(ast.UnaryOp(ast.Not(), b[k].test), b[k].test)
            w = ast.copy_location(ast.While(t, (b[k].orelse + b[k + 1:]) or [ast.Pass()], []), n)
            return self.while_loop(ast.fix_missing_locations(w), st)
        return NotImplemented

    # ------------------------------------------------------------ summarisation
    def summarize(self, n, bodyfn, st, node, test=None):
        from sa.interp import Unsup, UNBOUND, Dead, OCell
        self.stats['loops'] += 1
        st.use()
        v = fresh(ZERO, n)
        if self.loopvars and self.loopvars[-1][0] is None:
            self.loopvars[-1][0] = v
        self.opaque_sol = False
        slots = {}
        noscalar = set()
        C = TRUE
        for rnd in range(14):
            s = st.copy()
            s.guard = TRUE
            for sl_ in slots.values():
                self.set_loc(s, sl_.loc, sl_.shape.value())
            # aliases of a rebound list keep their own cell
            entry = s.copy()
            tst = []
            if test is not None:
                ne = len(self.frame.exits)
                C = self.cond(test, s)
                tst = self.frame.exits[ne:]
                del self.frame.exits[ne:]
                if C is FALSE:
                    return st
                s.guard = C
                s.assume(C)
            s.use()
            end, brk, oth = self.run_body(lambda x: bodyfn(x, v), s)
            if end is None:
                post = {}
                break
            if self.switch_mode(st, entry, end):
                continue
            drawn = [k for k in end.heap if type(k) is str and k not in st.heap]
            for k in drawn:
                # first draw of randomness inside the loop
                st.heap[k] = OCell(None, {'n': ZERO})
            if drawn:
                continue
            new = [l for l in self.changed(entry, end) if l not in slots]
            post = {}
            bad = []
            for l, sl_ in slots.items():
                val = self.deep(self.get_loc(end, l), end)
                m = sl_.shape.match(val)
                if m is None:
                    bad.append((l, val))
                else:
                    post.update(m)
            if not new and not bad:
                break
            for l in new:
                init = self.get_loc(st, l)
                pv = self.get_loc(end, l)
                if init is None:
                    raise Unsup('loop-carried location without initial value')
                init = self.deep(init, st)
                pv = self.deep(pv, end) if pv is not None else UNBOUND
                if init.op == 'unbound' or any(x.op == 'unbound' for x in leaves(init)):
                    continue
                if pv.op == 'unbound':
                    continue
                if l[0] == 'env' and (isinstance(l[1], str)) and init.op == 'py':
                    continue
                sh = shape_of(init, pv, l not in noscalar)
                if sh is None:
                    continue
                slots[l] = Slot(l, init, sh)
            rest = [l for l in new if l not in slots]
            if rest and len(rest) == len(new) and not bad:
                break
            for l, val in bad:
                if l in noscalar:
                    raise Unsup('loop-carried value changes shape')
                noscalar.add(l)
                sh = shape_of(slots[l].init, val, False)
                slots[l] = Slot(l, slots[l].init, sh)
        else:
            raise Unsup('loop-carried locations do not stabilise')
        # initial values of the individual phis
        inits = {}
        for sl_ in slots.values():
            m = sl_.shape.match(sl_.init)
            if m is None:
                raise Unsup('initial value does not match')
            inits.update(m)
        phis = [p for sl_ in slots.values() for p in sl_.shape.phis()]
        st.use()
        if end is None:
            sol = {p: inits[p] for p in phis}
            fin = dict(sol)
        else:
            sol = self.solve(v, phis, inits, post, node)
            if n is None:
                fin = sol
            else:
                # the values after the loop: as many iterations as there are, the last one included
                w = fresh(ZERO, padd(n, ONE))
                fin = self.solve(w, phis, inits, {p: subst(x, {v: patom(w)}) for p, x in post.items()}, node)
                fin = {p: subst(x, {w: n}) for p, x in fin.items()}
        self.opaque_sol = any(TM._has(x, ('wfold', 'fold', 'unsup')) for x in sol.values())
        rec = LoopRec()
        rec.func, rec.node, rec.n, rec.v = self.frame.name, node, n, v
        rec.slots, rec.inits, rec.post, rec.sol, rec.phis = slots, inits, post, sol, phis
        rec.end, rec.exits = end, oth
        rec.test = C
        if self.loop_log is not None:
            self.loop_log.append(rec)
        st.use()
        if n is None:
            n = self.while_count(subst(C, sol), v, node)
            if n.op == 'ite':
                from sa.interp import NeedSplit
                raise NeedSplit(n.args[0])
            w = fresh(ZERO, n)
            fin = {p: subst(x, {v: n}) for p, x in sol.items()}
            sol = {p: subst(x, {v: patom(w)}) for p, x in sol.items()}

            def cl(t):
                return subst(subst(t, {v: patom(w)}), sol)
            v2 = w
        else:
            def cl(t):
                return subst(t, sol)
            v2 = v
        rec.n, rec.v2 = n, v2
        for e in tst:
            # exits while evaluating the loop condition: also evaluated after the last iteration
            w = fresh(ZERO, padd(n, ONE))
            if self.resimp(subst(cl(e[0]), {v2: patom(w)}), w) is not FALSE:
                raise Unsup('exit in a loop condition')
        # ---- exits out of the loop
        E = []
        for g, kind, val, s2, site in oth + brk:
            gg = cl(g)
            # atoms of the loop index are re-decided under its bounds
            gg = self.resimp(gg, v2)
            if gg is not FALSE:
                E.append((gg, kind, val, s2, site))
        E = self.merge_exits(E, cl, v2)
        kinds = {e[1] for e in E}
        g0 = st.guard
        cont_guard = TRUE
        brkstates = []
        if E:
            tot = bor(*[e[0] for e in E])
            anyx = exists(v2, n, tot)
            anyx = self.simp(anyx, st)
            if kinds == {'raise'}:
                if anyx is not FALSE:
                    classes = {}
                    for e in E:
                        classes.setdefault(e[2], []).append(e)
                    for cls_, es in classes.items():
                        g = exists(v2, n, bor(*[e[0] for e in es]))
                        s2 = self.poison(st, slots)
                        s2.guard = band(g0, g)
                        if s2.guard is not FALSE:
                            self.frame.exits.append((s2.guard, 'raise', cls_, s2, es[0][4]))
            elif anyx is not FALSE:
                h, b = TM._close(v2, tot)
                ti = mk('firstidx', h, n, b)
                BOUNDS[ti] = (ZERO, n)
                t = patom(ti)
                for g, kind, val, s2, site in E:
                    gt = band(anyx, subst(g, {v2: t})) if len(E) > 1 else anyx
                    gt = self.simp(gt, st)
                    if gt is FALSE:
                        continue
                    ns = st.copy()
                    ns.guard = band(g0, gt)
                    ns.assume(gt)
                    if kind == 'raise':
                        ns2 = self.poison(st, slots)
                        ns2.guard = ns.guard
                        self.frame.exits.append((ns2.guard, 'raise', val, ns2, site))
                        continue
                    mp = lambda x: self.resub(cl(x), v2, t)
                    if kind == 'ret':
                        rv = mp(self.deep(val, s2))
                        self.frame.exits.append((ns.guard, 'ret', rv, ns, site))
                    else:
                        for l in slots:
                            self.set_loc(ns, l, mp(self.deep(self.get_loc(s2, l), s2)))
                        for k, x in s2.env.items():
                            if ns.env.get(k) is not x and ('env', k) not in slots:
                                ns.env[k] = mp(self.deep(x, s2))
                        brkstates.append(ns)
            cont_guard = bnot(anyx)
        if end is None:
            # at most one iteration
            cont_guard = band(cont_guard, eq0(n))
        st2 = st.copy()
        st2.guard = band(g0, cont_guard)
        if st2.guard is FALSE:
            return self.join_many(brkstates)
        st2.assume(cont_guard)
        st2.use()
        last = psub(n, ONE)
        for l, sl_ in slots.items():
            val = subst(sl_.shape.value(), fin)
            self.set_loc(st2, l, val)
        if end is not None:
            for k, x in end.env.items():
                if st.env.get(k) is x or ('env', k) in slots:
                    continue
                try:
                    d = self.deep(x, end)
                    y = self.resub(cl(d), v2, last)
                except (Unsup, Blowup):
                    y = unsup('value after loop')
                init = st.env.get(k, UNBOUND)
                z = eq0(n)
                st2.env[k] = ite(z, init, y) if z is not TRUE else init
        return self.join_many([st2] + brkstates)

    def merge_exits(self, E, cl, v):
        """Returns of the same index-independent value are one exit."""
        out, seen = [], {}
        for e in E:
            g, kind, val, s2, site = e
            if kind == 'ret':
                x = cl(self.deep(val, s2))
                if v not in x.fv:
                    if x in seen:
                        k = seen[x]
                        out[k] = (bor(out[k][0], g),) + out[k][1:]
                        continue
                    seen[x] = len(out)
            out.append(e)
        return out

    def resimp(self, g, v):
        return rebuild_all(g) if g.op == 'ite' else g

    def resub(self, t, v, x):
        return subst(t, {v: x})

    def poison(self, st, slots):
        s = st.copy()
        for l in slots:
            self.set_loc(s, l, unsup('value at exception'))
        return s

    def while_count(self, C, v, node):
        """Trip count of a loop running while C(v)."""
        if C.op == 'ite' and {C.args[1], C.args[2]} == {TRUE, FALSE} and C.args[0].op in ('lt0', 'eq0'):
            at, pos = C.args[0], C.args[1] is TRUE
            p = at.args[0]
            if p.op == 'P' and p.args[0] == 'I':
                a, b = {}, {}
                ok = True
                for m, c in p.args[1]:
                    if any(x is v for x, _ in m):
                        if sum(e if type(e) is int else 99 for x, e in m if x is v) != 1:
                            ok = False
                        mm = tuple((x, e) for x, e in m if x is not v)
                        a[mm] = c
                    else:
                        b[m] = c
                a, b = TM._pmk('I', a), TM._pmk('I', b)
                if ok and v not in b.fv and v not in a.fv and a is not ZERO:
                    if at.op == 'lt0':
                        if not pos:      # p >= 0  <=>  -p-1 < 0
                            a, b = pneg(a), psub(pneg(b), ONE)
                        # a*v + b < 0 with a > 0
                        if lt(ZERO, a):
                            return self.ceil_div(pneg(b), a)
                    elif not pos:
                        # a*v + b != 0
                        if lt(a, ZERO):
                            a, b = pneg(a), pneg(b)
                        if lt(ZERO, a) and le(b, ZERO):
                            return self.ceil_div(pneg(b), a)
        h, b = TM._close(v, bnot(C))
        t = mk('firstidx', h, NONE, b)
        BOUNDS[t] = (ZERO, None)
        return patom(t)

    def ceil_div(self, x, a):
        if const_of(a) == 1:
            q = x
        else:
            m = mod(x, a)
            q = ite(eq0(m), fdiv(x, a), padd(fdiv(x, a), ONE))
        if q.op == 'P' and not le(ZERO, q):
            q = imax(q, ZERO)
        return q

    # ------------------------------------------------------------ recurrence solving
    def solve(self, v, phis, inits, post, node):
        sol = {}
        pend = list(phis)
        post = dict(post)
        while pend:
            progress = False
            ps = set(pend)
            for p in list(pend):
                f = post[p]
                deps = (f.fv & ps) - {p}
                if deps:
                    continue
                x = self.closed(v, p, inits[p], f)
                if x is None:
                    x = self.foldof(v, [p], inits, post)[p]
                sol[p] = x
                pend.remove(p)
                ps.discard(p)
                for q in pend:
                    if p in post[q].fv:
                        post[q] = subst(post[q], {p: x})
                progress = True
            if not progress:
                # a strongly connected group: smallest closed-under-dependency set
                best = None
                for p in pend:
                    grp, todo = [], [p]
                    while todo:
                        q = todo.pop()
                        if q in grp:
                            continue
                        grp.append(q)
                        todo += [r for r in pend if r in post[q].fv]
                    if best is None or len(grp) < len(best):
                        best = grp
                xs = self.foldof(v, best, inits, post)
                for q in best:
                    sol[q] = xs[q]
                    pend.remove(q)
                for q in pend:
                    if post[q].fv & set(best):
                        post[q] = subst(post[q], {r: xs[r] for r in best})
        return sol

    def foldof(self, v, grp, inits, post):
        """Uninterpreted fold of a mutually recursive group; canonical up to group order."""
        def rank(p):
            anon = subst(post[p], {q: sym('~phi', kind_of(q)) for q in grp})
            return (key(inits[p]), key(subst(anon, {v: sym('~v', 'int')})))
        order = sorted(grp, key=rank)
        h = max([0] + [post[p].ht for p in order]) + 1
        mp = {}
        for j, q in enumerate(order):
            mp[q] = bp(h, j, kind_of(q), FIELD.get(q))
        bodies = [subst(subst(post[p], mp), {v: mk('bv', h)}) for p in order]
        out = {}
        for j, p in enumerate(order):
            out[p] = mkfold(h, patom(v), tuple(inits[q] for q in order), tuple(bodies), j, kind_of(p), FIELD.get(p))
        return out

    def closed(self, v, p, init, f):
        """Value at the start of iteration v of p' = f(p, v), p(0) = init; None if unknown."""
        k = kind_of(p)
        if p not in f.fv:
            # last assigned value
            fm = subst(f, {v: psub(patom(v), ONE)})
            if v not in f.fv and f is init:
                return init
            z = subst(fm, {v: ZERO})
            if z is init:
                return fm
            if init.op == 'P' and fm.op in ('P', 'ite') or True:
                return ite(eq0(patom(v)), init, fm)
        if k in ('int', 'felt'):
            return self.closed_num(v, p, init, f)
        if k == 'bool':
            return self.closed_bool(v, p, init, f)
        if k == 'bytes' or type(k) is tuple:
            return self.closed_seq(v, p, init, f)
        return None

    def closed_num(self, v, p, init, f):
        pa = wrap(p)

        def split(x):
            """x = a*p + b"""
            x = num(x)
            if x.op != 'P':
                return None
            a, b = {}, {}
            for m, c in x.args[1]:
                has = [e for y, e in m if y is p]
                if has:
                    if has != [1]:
                        return None
                    a[tuple((y, e) for y, e in m if y is not p)] = c
                else:
                    b[m] = c
            a, b = TM._pmk(x.args[0], a), TM._pmk(x.args[0], b)
            if p in a.fv or p in b.fv:
                return None
            return a, b
        if any(p in at.fv for at in atoms_of(f)):
            return None
        parts = {}
        for x in leaves(f):
            r = split(x)
            if r is None:
                return None
            parts[x] = r
        A = mapleaves(lambda x: parts[x][0], f)
        B = mapleaves(lambda x: parts[x][1], f)
        u = fresh(ZERO, patom(v))
        if all(is_const(x) and cval(x) == 1 for x in leaves(A)):
            return padd(init, psum(u, patom(v), subst(B, {v: patom(u)})))
        if all(x.args[1] == () for x in leaves(B)):
            return pmul(init, pprod(u, patom(v), subst(A, {v: patom(u)})))
        if A.op == 'P' and v not in A.fv:
            w = ppow(A, psub(psub(patom(v), ONE), patom(u)))
            return padd(pmul(ppow(A, patom(v)), init), psum(u, patom(v), pmul(w, subst(B, {v: patom(u)}))))
        return None

    def closed_bool(self, v, p, init, f):
        A, B = restrict(f, p, True), restrict(f, p, False)
        if p in A.fv or p in B.fv:
            return None
        u = fresh(ZERO, patom(v))
        sub = lambda t: subst(t, {v: patom(u)})
        if A is TRUE:
            return bor(init, exists(u, patom(v), sub(B)))
        if B is FALSE:
            return band(init, bnot(exists(u, patom(v), sub(bnot(A)))))
        return None

    def closed_seq(self, v, p, init, f):
        ls = leaves(f)
        kind = seq_kind(p) or 'list'
        guards = atoms_of(f)
        init = mapleaves(wrap, init)

        def at_u(t, u):
            return subst(t, {v: patom(u)})
        # --- append / prepend / unchanged, per leaf
        whole = mk('sl', p, ZERO, seqlen(p))

        def app(x):
            if x.op != 'S':
                return None
            ss = x.args[1]
            if ss and ss[0] is whole:
                return ('post', seq(kind, list(ss[1:])))
            if ss and ss[-1] is whole:
                return ('pre', seq(kind, list(ss[:-1])))
            return None
        parts = {x: app(x) for x in ls}
        if all(r is not None for r in parts.values()):
            sides = {r[0] for r in parts.values() if r[1].op != 'S' or r[1].args[1]}
            if not sides:
                return init
            if len(sides) == 1:
                side = sides.pop()
                tail = mapleaves(lambda x: parts[x][1], f)
                if p in tail.fv:
                    tail = self.tail_rec(v, p, init, tail, side)
                    if tail is None:
                        return None
                u = fresh(ZERO, patom(v))
                if side == 'post':
                    return cat(kind, init, seqmap(u, patom(v), at_u(tail, u), kind))
                t2 = subst(tail, {v: psub(psub(patom(v), ONE), patom(u))})
                return cat(kind, seqmap(u, patom(v), t2, kind), init)
        # --- consumption from the front (or the back)
        if len(ls) == 1 and not guards and f.op == 'S':
            ss = f.args[1]
            if len(ss) == 1 and ss[0].op == 'sl' and ss[0].args[0] is p:
                lo, hi = ss[0].args[1], ss[0].args[2]
                L = seqlen(p)
                if hi is L and p not in lo.fv:
                    u = fresh(ZERO, patom(v))
                    return mapleaves(lambda x: cut(x, psum(u, patom(v), at_u(lo, u)), seqlen(x)), init)
                if hi is L and lo.op == 'P':
                    # clipped consumption  min(k, len)
                    ats = [a for m, _ in lo.args[1] for a, _ in m]
                    if len(ats) == 1 and ats[0].op == 'min' and lo is patom(ats[0]):
                        ks = [a for a in ats[0].args if p not in a.fv]
                        if len(ks) == 1 and L in ats[0].args and le(ZERO, ks[0]) and v not in ks[0].fv:
                            return mapleaves(lambda x: slice_(x, pmul(patom(v), ks[0]), None), init)
                if lo is ZERO and p not in (psub(L, hi)).fv:
                    u = fresh(ZERO, patom(v))
                    d = psum(u, patom(v), at_u(psub(L, hi), u))
                    return mapleaves(lambda x: cut(x, ZERO, psub(seqlen(x), d)), init)
        # --- elementwise update
        if init.op == 'ite':
            rs = {x: self.closed_seq(v, p, x, f) for x in leaves(init)}
            return None if None in rs.values() else mapleaves(rs.get, init)
        r = self.pointwise(v, p, init, f, kind)
        if r is not None:
            return r
        r = self.block_store(v, p, init, f, kind)
        if r is not None:
            return r
        return None

    def tail_rec(self, v, p, init, tail, side):
        """Appended part depends on the sequence built so far: by length, or by its last element."""
        L = patom(mk('len', p)) if seqlen(p).op == 'P' and seqlen(p).args[1][0][0][0][0].op == 'len' else None
        if L is not None:
            la = mk('len', p)
            t2 = subst(tail, {la: sym('~len', 'int')})
            if p not in t2.fv:
                d = seqlen(tail)
                dd = subst(d, {la: sym('~len', 'int')}) if d.op == 'P' else None
                if dd is not None and p not in dd.fv and sym('~len', 'int') not in dd.fv:
                    u = fresh(ZERO, patom(v))
                    if init.op == 'ite':
                        return None
                    cl = padd(seqlen(init), psum(u, patom(v), subst(dd, {v: patom(u)})))
                    return subst(tail, {la: cl})
        if side == 'post' and tail.op == 'S' and len(tail.args[1]) == 1 and tail.args[1][0].op == 'u' and init.op == 'S' \
                and init.args[1]:
            # last-element recurrence
            lastp = index(wrap(p), psub(seqlen(p), ONE))
            e = tail.args[1][0].args[0]
            k = deep_kind(e)
            q = new_phi(k)
            if deep_field(e) is not None:
                FIELD[q] = deep_field(e)
            a = lastp
            if lastp.op == 'P' and len(lastp.args[1]) == 1:
                a = lastp.args[1][0][0][0][0]
            e2 = subst(e, {a: q})
            if p in e2.fv:
                return None
            y0 = index(init, psub(seqlen(init), ONE))
            y = self.closed(v, q, y0, e2)
            if y is None:
                y = self.foldof(v, [q], {q: y0}, {q: e2})[q]
            return seq('list', [U(subst(y, {v: padd(patom(v), ONE)}))]) if y.op != 'ite' else \
                mapleaves(lambda z: seq('list', [U(z)]), subst(y, {v: padd(patom(v), ONE)}))
        return None

    def pointwise(self, v, p, init, f, kind):
        """f = [e(p[i], i, v) for i in range(len p)]"""
        if f.op != 'S' or len(f.args[1]) != 1 or f.args[1][0].op != 'map' or init.op == 'ite':
            return None
        m = f.args[1][0]
        n = m.args[1]
        if p in n.fv and n is not seqlen(p):
            return None
        L0 = seqlen(init)
        if p not in n.fv and not same(n, L0):
            return None
        if not TM.is_unit_body(m):
            b = m.args[2]
            if b.op == 'ite':
                return None
            return None
        i = fresh(ZERO, L0)
        body = inst(m, patom(i))
        if body.op == 'ite':
            e = index(body, ZERO)
        else:
            e = body.args[1][0].args[0]
        own = elem(p, patom(i))
        atom, q = self.atom_for(own)
        if q is None:
            return None
        e2 = subst(e, {atom: q})
        if p in e2.fv:
            return None
        y0 = index(init, patom(i))
        y = self.closed(v, q, y0, e2)
        if y is None:
            return None
        return seqmap(i, L0, mapleaves(lambda z: seq(kind, [U(z)]), y) if not is_bool(y) else seq(kind, [U(y)]), kind)

    def atom_for(self, own):
        """(leaf atom, fresh phi standing for it) for an element value."""
        if own.op == 'P' and len(own.args[1]) == 1:
            a = own.args[1][0][0][0][0]
            q = new_phi('int' if own.args[0] == 'I' else 'felt')
            if own.args[0] != 'I':
                FIELD[q] = own.args[0][1]
            return a, q
        if own.op == 'ite' and is_bool(own):
            return own.args[0], new_phi('bool')
        if own.op == 'S' and len(own.args[1]) == 1 and own.args[1][0].op == 'sl':
            a = own.args[1][0].args[0]
            q = new_phi(kind_of(a))
            f = TM.field_of_base(a)
            if f is not None:
                FIELD[q] = f
            return a, q
        if own.op in ('idx',):
            return own, new_phi(kind_of(own))
        return None, None

    def block_store(self, v, p, init, f, kind):
        """f = p[:s] ++ new ++ p[s+w:]   with s = w*v + c: every block written once."""
        if init.op == 'ite':
            return None
        ls = leaves(f)
        L = seqlen(p)
        s0 = w0 = None
        news = {}
        for x in ls:
            if x.op != 'S':
                return None
            segs = list(x.args[1])
            pre = post = None
            if segs and segs[0].op == 'sl' and segs[0].args[0] is p and segs[0].args[1] is ZERO:
                pre = segs[0]
            if segs and segs[-1].op == 'sl' and segs[-1].args[0] is p and segs[-1].args[2] is L and (segs[-1] is not pre):
                post = segs[-1]
            if len(segs) == 1 and pre is not None and pre.args[2] is L:
                news[x] = None      # unchanged in this branch
                continue
            a = pre.args[2] if pre is not None else ZERO
            b = post.args[1] if post is not None else L
            mid = segs[(1 if pre is not None else 0):(len(segs) - 1 if post is not None else len(segs))]
            if s0 is None:
                s0, w0 = a, psub(b, a)
            elif s0 is not a or w0 is not psub(b, a):
                return None
            news[x] = seq(kind, mid)
        if s0 is None or p in s0.fv or p in w0.fv or v in w0.fv:
            return None
        c = subst(s0, {v: ZERO})
        step = psub(subst(s0, {v: padd(patom(v), ONE)}), s0)
        if step is not w0:
            if psub(ZERO, step) is w0:
                return self.block_store_down(v, p, init, f, kind, s0, w0, news)
            return None

        def new_of(x):
            r = news[x]
            if r is None:
                return cut(wrap(p), s0, padd(s0, w0))
            return r
        new = mapleaves(new_of, f)
        # reads of the own block see initial values; any other read is not handled
        new = self.own_reads(new, p, init, s0, w0)
        if new is None:
            return None
        u = fresh(ZERO, patom(v))
        L0 = seqlen(init)
        done = seqmap(u, patom(v), subst(new, {v: patom(u)}), kind)
        return cat(kind, cut(init, ZERO, c), done, cut(init, padd(c, pmul(w0, patom(v))), L0))

    def block_store_down(self, v, p, init, f, kind, s0, w0, news):
        if const_of(w0) != 1:
            return None
        new = mapleaves(lambda x: news[x] if news[x] is not None else cut(wrap(p), s0, padd(s0, w0)), f)
        new = self.own_reads(new, p, init, s0, w0)
        if new is None:
            return None
        u = fresh(ZERO, patom(v))
        c = subst(s0, {v: ZERO})
        L0 = seqlen(init)
        start = psub(padd(c, ONE), patom(v))
        done = seqmap(u, patom(v), subst(new, {v: psub(psub(patom(v), ONE), patom(u))}), kind)
        return cat(kind, cut(init, ZERO, start), done, cut(init, padd(c, ONE), L0))

    def own_reads(self, new, p, init, s0, w0):
        """Replace reads p[j] with s0 <= j < s0+w0 by init[j]."""
        bad = []

        def visit(t, mp):
            if type(t) is tuple:
                for y in t:
                    visit(y, mp)
                return
            if type(t) is not T or p not in t.fv:
                return
            if t.op == 'idx' and t.args[0] is p:
                j = t.args[1]
                if le(s0, j) and lt(j, padd(s0, w0)):
                    mp[t] = index(init, j)
                    return
                # elements not yet overwritten / already overwritten are not handled
                bad.append(t)
                return
            if t.op == 'sl' and t.args[0] is p:
                if le(s0, t.args[1]) and le(t.args[2], padd(s0, w0)):
                    return
                bad.append(t)
                return
            if t.op == 'len' and t.args[0] is p:
                mp[t] = seqlen(init)
                return
            for y in t.args:
                visit(y, mp)
        mp = {}
        visit(new, mp)
        if bad:
            return None
        if mp:
            new = subst(new, mp)
        if p in new.fv:
            new = subst(new, {p: init})
        return new
