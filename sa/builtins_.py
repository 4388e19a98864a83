"""Transfer functions of Python builtins and of the external libraries the tree uses."""
import ast

from sa.terms import *
from sa import terms as TM


def xof_hist(c):
    """What has been read from a stream in its present mode."""
    if c.mode is None or c.off is ZERO:
        return ()
    return (mk('h', c.mode[1] if c.mode != 'bytes' else strc('bytes'), c.off),)


class BuiltinMixin:
    def call_builtin(self, p, args, kw, st, node):
        from sa.interp import Unsup
        name = p.name
        if name.startswith('exc:'):
            return mk('excval')
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is None:
            parts = name.split('.')
            for k in range(1, len(parts)):
                m = getattr(self, 'b_' + '_'.join(parts[k:]), None) if k and parts[0] in EXT_MODS else None
                if m is not None:
                    break
        if m is None:
            raise Unsup('builtin %s at %s' % (name, self.site(node)))
        return m(p, args, kw, st, node)

    # ------------------------------------------------------------ basics
    def b_noop(self, p, args, kw, st, node):
        return NONE

    def b_print(self, p, args, kw, st, node):
        return NONE

    def b_len(self, p, args, kw, st, node):
        from sa.interp import Iter, DictVal, NeedSplit, pyval
        v = self.prune(args[0], st)
        q = pyval(v)
        if isinstance(q, Iter):
            return q.n
        if isinstance(q, DictVal):
            return pconst(len(q.items))
        if v.op == 'ite' and any(x.op in ('none', 'py') for x in leaves(v)):
            raise NeedSplit(v.args[0])
        c = self.prune(self.content(v, st), st)
        if c is NONE or c.op == 'P':
            self.do_raise(st, node, 'TypeError')
        return mapleaves(self.len1, c)

    def len1(self, c):
        if c.op == 'set':
            return self.card(c.args[0])
        return seqlen(c)

    def card(self, s):
        if s.op == 'S' and not s.args[1]:
            return ZERO
        if s.op == 'S' and len(s.args[1]) <= 4 and all(x.op == 'u' for x in s.args[1]):
            xs = [x.args[0] for x in s.args[1]]
            return padd(ZERO, *[num(bnot(bor(FALSE, *[eqv(x, y) for y in xs[:k]]))) for k, x in enumerate(xs)])
        if s.op == 'S' and len(s.args[1]) <= 64 and all(x.op == 'u' for x in s.args[1]):
            known = []
            for x in s.args[1]:
                es = [eqv(x.args[0], y) for y in known]
                if TRUE in es:
                    continue
                if any(e is not FALSE for e in es):
                    break
                known.append(x.args[0])
            else:
                return pconst(len(known))
        t = mk('card', s)
        BOUNDS[t] = (ZERO, padd(seqlen(s), ONE)) if seqlen(s).op == 'P' else (ZERO, None)
        return patom(t)

    def b_range(self, p, args, kw, st, node):
        from sa.interp import Iter, NeedSplit, Unsup
        a = [num(x) for x in args]
        for x in a:
            if x.op == 'ite':
                raise NeedSplit(x.args[0])
        lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
        c = const_of(step)
        d = psub(hi, lo)
        if c == 1:
            n = d
        elif c == -1:
            n = pneg(d)
        elif c is not None and c < 0:
            n = fdiv(padd(pneg(d), pconst(-c - 1)), pconst(-c))
        else:
            if c is None:
                self.do_raise(st, node, 'ValueError', eq0(step))
                if not lt(ZERO, step):
                    raise Unsup('range step of unknown sign')
            n = self.ceil_div(d, step)
            if n.op == 'ite':
                # ceil without case distinction when it occurs as a trip count
                n = self.prune(n, st)
                if n.op == 'ite':
                    raise NeedSplit(n.args[0])
        if n.op == 'ite':
            raise NeedSplit(n.args[0])
        if not le(ZERO, n):
            n = imax(n, ZERO)
        return Iter(n, lambda i, s: padd(lo, pmul(i, step)), desc=('range', lo, hi, step)).t

    def b_enumerate(self, p, args, kw, st, node):
        from sa.interp import Iter
        it = self.iter_of(args[0], st)
        start = num(args[1]) if len(args) > 1 else num(kw['start']) if 'start' in kw else ZERO
        return Iter(it.n, lambda i, s: mk('S', 'tuple', (U(padd(i, start)), U(it.get(i, s)))), segs=it.segs).t

    def b_zip(self, p, args, kw, st, node):
        from sa.interp import Iter, Unsup
        if len(args) == 1 and args[0].op == 'star':
            return self.transpose(args[0].args[0], st, node)
        if any(a.op == 'star' for a in args):
            raise Unsup('zip with star')
        its = [self.iter_of(a, st) for a in args]
        if not its:
            return Iter(ZERO, None).t
        n = its[0].n
        for it in its[1:]:
            n = imin(n, it.n)
        if 'strict' in kw and kw['strict'] is TRUE:
            bad = bor(*[bnot(eq0(psub(it.n, its[0].n))) for it in its[1:]])
            self.do_raise(st, node, 'ValueError', bad)
            n = its[0].n
        return Iter(n, lambda i, s: mk('S', 'tuple', tuple(U(it.get(i, s)) for it in its))).t

    def transpose(self, c, st, node):
        """zip(*rows) with a symbolic number of rows of fixed width."""
        from sa.interp import Iter, Unsup
        n = seqlen(c)
        if n.op != 'P':
            raise Unsup('transpose of guarded rows')
        def column(row, j):
            x = index(row, pconst(j))
            return mapleaves(lambda x: seq('list', [U(x)]), x) if not is_bool(x) else seq('list', [U(x)])

        if c.op == 'S' and len(c.args[1]) > 1 and all(s.op in ('u', 'map', 'sl') for s in c.args[1]):
            cols = None
            for s in c.args[1]:
                v = fresh(ZERO, seglen(s))
                row = self.content(s.args[0] if s.op == 'u' else index(seq('list', [s]), patom(v)), st)
                w = seqlen(row)
                k = const_of(w) if w.op == 'P' else None
                if k is None or cols is not None and len(cols) != k:
                    raise Unsup('transpose of rows of varying length')
                cols = cols or [[] for _ in range(k)]
                for j in range(k):
                    cols[j].append(column(row, j) if s.op == 'u' else seqmap(v, seglen(s), column(row, j), 'list'))
            r = mk('S', 'list', tuple(U(cat('tuple', *x)) for x in cols))
            return Iter(pconst(len(cols)), lambda i, s: index(r, i)).t
        v = fresh(ZERO, n)
        row = index(c, patom(v))
        row = self.content(row, st)
        w = seqlen(row)
        k = const_of(w) if w.op == 'P' else None
        if k is not None:
            cols = [seqmap(v, n, column(row, j), 'tuple') for j in range(k)]
            r = mk('S', 'list', tuple(U(x) for x in cols))
            return Iter(pconst(k), lambda i, s: index(r, i)).t
        if w.op == 'P' and v not in w.fv:
            def get(i, s):
                b = index(row, i)
                return seqmap(v, n, seq('list', [U(b)]), 'tuple')
            return Iter(w, get).t
        raise Unsup('transpose of rows of varying length')

    def b_map(self, p, args, kw, st, node):
        from sa.interp import Iter
        f = args[0]
        its = [self.iter_of(a, st) for a in args[1:]]
        n = its[0].n
        for it in its[1:]:
            n = imin(n, it.n)
        nm = self.tmp('map')
        st.env[nm] = self.newlist(st, seq('list', []))

        def body(s, elems):
            v = self.call(f, list(elems), {}, s, node)
            self.tmp_append(s, nm, v)
            return s

        class Zi:
            pass
        it = Iter(n, lambda i, s: tuple(x.get(i, s) for x in its))
        self.run_loop(it, body, st, node)
        out = st.env.pop(nm)
        return out

    def b_filter(self, p, args, kw, st, node):
        from sa.interp import Iter
        f = args[0]
        it = self.iter_of(args[1], st)
        nm = self.tmp('filter')
        st.env[nm] = self.newlist(st, seq('list', []))

        def body(s, e):
            c = self.truth_of(e if f is NONE else self.call(f, [e], {}, s, node), s)

            def yes(s2):
                self.tmp_append(s2, nm, e)
                return NONE
            self.fork(s, c, yes, lambda s2: NONE)
            return s
        self.run_loop(it, body, st, node)
        return st.env.pop(nm)

    def tmp(self, what):
        self._tmp = getattr(self, '_tmp', 0) + 1
        return '__%s%d' % (what, self._tmp)

    def tmp_append(self, s, nm, v):
        from sa.interp import LCell, append1
        ref = s.env[nm]
        if ref.op == 'ref':
            c = s.heap[ref.args[0]]
            s.heap[ref.args[0]] = LCell(append1(c.c, v), c.kind)
        else:
            s.env[nm] = append1(ref, self.deep(v, s))

    def run_loop(self, it, body, st, node):
        from sa.interp import Dead
        r = self.loop(it, body, st, node)
        if r is None:
            raise Dead()
        if r is not st:
            st.set(r)
        st.use()

    # ------------------------------------------------------------ constructors
    def b_list(self, p, args, kw, st, node):
        if not args:
            return self.newlist(st, seq('list', []))
        return self.newlist(st, self.seq_of(args[0], st))

    def b_tuple(self, p, args, kw, st, node):
        from sa.interp import retag
        if not args:
            return mk('S', 'tuple', ())
        return retag(self.seq_of(args[0], st), 'tuple')

    def b_bytes(self, p, args, kw, st, node):
        return self.mkbytes(args, st, node)

    def b_bytearray(self, p, args, kw, st, node):
        return self.alloc(st, self.bytecell(self.mkbytes(args, st, node)))

    def bytecell(self, c):
        from sa.interp import LCell
        return LCell(c, 'bytearray')

    def mkbytes(self, args, st, node):
        from sa.interp import retag, Iter, pyval
        if not args:
            return seq('bytes', [])
        a = args[0]
        if not isinstance(pyval(a), Iter) and (a.op == 'P' or (kind_of(a) == 'int' and self.is_seq(a, st) is None)):
            a = num(a)
            self.do_raise(st, node, 'ValueError', lt0(a))
            v = fresh(ZERO, a)
            return lift(lambda n: seqmap(v, n, seq('bytes', [U(ZERO)]), 'bytes'), a)
        c = self.seq_of(a, st)
        # range check on elements unless they are known bytes
        bad = self.seq_exists(c, lambda e: self.not_byte(e), st)
        self.do_raise(st, node, 'ValueError', bad)
        return retag(self.prune(c, st), 'bytes')

    def not_byte(self, e):
        if e.op not in ('P', 'ite'):
            return FALSE
        return lift(lambda x: bor(lt0(x), bnot(lt0(psub(x, pconst(256))))) if x.op == 'P' and x.args[0] == 'I' else FALSE,
                    num(e))

    def seq_exists(self, c, pred, st):
        """Some element of the sequence satisfies pred."""
        if c.op == 'ite':
            return mapleaves(lambda x: self.seq_exists(x, pred, st), c)
        r = FALSE
        for s in segs_of(c):
            if s.op == 'u':
                r = bor(r, pred(s.args[0]))
            elif s.op == 'sl':
                if TM.elem_kind(s.args[0]) == 'byte' and pred == self.not_byte:
                    continue
                n = seglen(s)
                v = fresh(ZERO, n)
                r = bor(r, exists(v, n, pred(elem(s.args[0], padd(s.args[1], patom(v))))))
            elif s.op == 'map':
                n = s.args[1]
                v = fresh(ZERO, n)
                b = inst(s, patom(v))
                r = bor(r, exists(v, n, self.seq_exists(b, pred, st)))
            else:
                r = bor(r, atom_bool(mk('someel', s)))
        return r

    def b_int(self, p, args, kw, st, node):
        from sa.interp import Unsup
        if not args:
            return ZERO
        a = args[0]
        if is_bool(a):
            return num(a)
        if len(args) > 1 or 'base' in kw:
            b = const_of(num(args[1] if len(args) > 1 else kw['base']))
            if a.op == 'str' and b is not None:
                try:
                    return pconst(int(a.args[0], b))
                except ValueError:
                    self.do_raise(st, node, 'ValueError')
            if a.op == 'strx':
                raise Unsup('integer from an unknown string')
            return patom(mk('parseint', self.deep(a, st), *[num(x) for x in args[1:]]))

        def f(x):
            if x.op == 'P':
                if x.args[0] != 'I':
                    raise Unsup('int() of field element')
                ms = x.args[1]
                if len(ms) == 1 and ms[0][0] and ms[0][0][0][0].op == 'truediv':
                    return patom(mk('toint', x))
                return x
            if kind_of(x) in ('int', 'byte', 'any', 'bool'):
                return num(x)
            return patom(mk('toint', x))
        return mapleaves(f, self.deep(a, st))

    def b_bool(self, p, args, kw, st, node):
        return self.truth_of(args[0], st) if args else FALSE

    def b_str(self, p, args, kw, st, node):
        return mk('strx')

    b_repr = b_hex = b_str

    def b_bin(self, p, args, kw, st, node):
        return self.formatted(args[0], strc('#b'))

    def b_format(self, p, args, kw, st, node):
        return self.formatted(args[0], args[1]) if len(args) == 2 else mk('strx')

    def b_set(self, p, args, kw, st, node):
        if not args:
            return mk('set', seq('list', []))
        s = self.seq_of(args[0], st)
        return lift(lambda x: mk('set', x), self.deep(s, st))

    b_frozenset = b_set

    def b_dict(self, p, args, kw, st, node):
        from sa.interp import DictVal, Unsup
        if args:
            raise Unsup('dict()')
        return DictVal({strc(k): v for k, v in kw.items()}).t

    # ------------------------------------------------------------ folds
    def b_sum(self, p, args, kw, st, node):
        init = args[1] if len(args) > 1 else kw.get('start', ZERO)
        it = self.iter_of(args[0], st)
        nm = self.tmp('sum')
        st.env[nm] = init

        def body(s, e):
            s.env[nm] = self.binop(ast.Add(), s.env[nm], e, s, node)
            return s
        self.run_loop(it, body, st, node)
        return st.env.pop(nm)

    def b_math_prod(self, p, args, kw, st, node):
        init = kw.get('start', ONE)
        it = self.iter_of(args[0], st)
        nm = self.tmp('prod')
        st.env[nm] = init

        def body(s, e):
            s.env[nm] = self.binop(ast.Mult(), s.env[nm], e, s, node)
            return s
        self.run_loop(it, body, st, node)
        return st.env.pop(nm)

    def b_functools_reduce(self, p, args, kw, st, node):
        from sa.interp import Iter
        f = args[0]
        it = self.iter_of(args[1], st)
        nm = self.tmp('red')
        if len(args) > 2:
            st.env[nm] = args[2]
        else:
            self.do_raise(st, node, 'TypeError', eq0(it.n))
            st.env[nm] = it.get(ZERO, st)
            old = it
            it = Iter(psub(old.n, ONE), lambda i, s: old.get(padd(i, ONE), s))

        def body(s, e):
            s.env[nm] = self.call(f, [s.env[nm], e], {}, s, node)
            return s
        self.run_loop(it, body, st, node)
        return st.env.pop(nm)

    def b_any(self, p, args, kw, st, node):
        c = self.deep(self.seq_of(args[0], st), st)
        return self.seq_exists(c, lambda e: truth(e), st)

    def b_all(self, p, args, kw, st, node):
        c = self.deep(self.seq_of(args[0], st), st)
        return bnot(self.seq_exists(c, lambda e: bnot(truth(e)), st))

    def b_min(self, p, args, kw, st, node):
        return self.minmax(args, kw, st, node, imin, 'min')

    def b_max(self, p, args, kw, st, node):
        return self.minmax(args, kw, st, node, imax, 'max')

    def minmax(self, args, kw, st, node, f, nm):
        from sa.interp import Unsup
        if kw.keys() - {'default'}:
            raise Unsup('min/max key')
        if len(args) == 1:
            it = self.iter_of(args[0], st)
            k = const_of(it.n)
            if k is None or k > 16:
                c = self.deep(self.seq_of(args[0], st), st)
                return lift(lambda x: patom(mk('seq' + nm, x)), c)
            if k == 0:
                if 'default' in kw:
                    return kw['default']
                self.do_raise(st, node, 'ValueError')
            args = [it.get(pconst(j), st) for j in range(k)]
        r = num(args[0])
        for a in args[1:]:
            r = f(r, num(a))
        return r

    def b_abs(self, p, args, kw, st, node):
        x = num(args[0])
        return lift(lambda y: y if le(ZERO, y) else pneg(y) if le(y, ZERO) else ite(lt0(y), pneg(y), y), x)

    def b_divmod(self, p, args, kw, st, node):
        x, y = num(args[0]), num(args[1])
        self.do_raise(st, node, 'ZeroDivisionError', eq0(y))
        return mk('S', 'tuple', (U(fdiv(x, y)), U(mod(x, y))))

    def b_pow(self, p, args, kw, st, node):
        if len(args) == 2:
            return self.binop(ast.Pow(), args[0], args[1], st, node)
        x, n, m = num(args[0]), num(args[1]), num(args[2])
        if const_of(n) == -1 and TM._is_modulus(m):
            # modulus of a prime field (an obligation of P19)
            self.do_raise(st, node, 'ValueError', eq0(mod(x, m)))
            n = psub(m, pconst(2))
        if not (le(ZERO, n) and le(pconst(2), m)):
            from sa.interp import Unsup
            raise Unsup('modular power outside the modelled range')
        return TM.powmod(x, n, m)

    def b_sorted(self, p, args, kw, st, node):
        from sa.interp import Unsup
        if kw:
            raise Unsup('sorted with key')
        v = args[0]
        if v.op == 'set':
            return self.newlist(st, wrap(mk('call', 'sortedset', (v.args[0],), deep_list_kind(v.args[0]))))
        c = self.deep(self.seq_of(v, st), st)
        TM.CALL_LEN['sorted'] = lambda t: seqlen(t.args[1][0])
        return self.newlist(st, lift(lambda x: wrap(mk('call', 'sorted', (x,), deep_list_kind(x))), c))

    def b_reversed(self, p, args, kw, st, node):
        from sa.interp import Iter
        it = self.iter_of(args[0], st)
        return Iter(it.n, lambda i, s: it.get(psub(psub(it.n, ONE), i), s)).t

    def b_iter(self, p, args, kw, st, node):
        return args[0]

    def b_isinstance(self, p, args, kw, st, node):
        from sa.interp import OCell, LCell, BuiltinVal, Unsup, pyval
        v, c = args
        if c.op == 'S':
            return bor(*[self.b_isinstance(p, [v, s.args[0]], kw, st, node) for s in c.args[1]])
        if v.op == 'ite' and not is_bool(v):
            return mapleaves(lambda x: self.b_isinstance(p, [x, c], kw, st, node), v)
        b = pyval(c)
        if isinstance(b, BuiltinVal):
            n = b.name
            k = self.kname(v, st) if v.op != 'ref' else ('list' if type(st.heap[v.args[0]]) is LCell else 'obj')
            if is_bool(v):
                return TRUE if n in ('int', 'bool') else FALSE
            if v is NONE:
                return FALSE
            if k == 'any':
                return atom_bool(mk('isinst', v, strc(n)))
            return TRUE if k == n else FALSE
        cls = self.cls_of(c)
        cell = self.cell(st, v)
        if type(cell) is OCell and cell.cls is not None:
            if cell.cls.isa(cls.name):
                return TRUE
            if cell.base is None:
                return FALSE
            return atom_bool(mk('isinst', cell.base, c))
        if cls is not None and cls.isa('Field'):
            if v.op == 'P':
                return TRUE if v.args[0] != 'I' else FALSE
        if v.op in ('P', 'S', 'none') or is_bool(v):
            return FALSE
        if v.op == 'obj':
            cc = self.p.classes.get(v.args[0])
            return TRUE if cc is not None and cc.isa(cls.name) else FALSE
        k = kind_of(v)
        if type(k) is tuple and k[0] == 'obj' and k[1] in self.p.classes and self.p.classes[k[1]].isa(cls.name):
            return TRUE
        return atom_bool(mk('isinst', v, c))

    def b_type(self, p, args, kw, st, node):
        from sa.interp import OCell, Unsup
        c = self.cell(st, args[0])
        if type(c) is OCell and c.cls is not None:
            return self.cls_term(c)
        f = self.field_tag(args[0])
        if f is not None:
            return f
        raise Unsup('type()')

    def b_hasattr(self, p, args, kw, st, node):
        from sa.interp import Unsup
        raise Unsup('hasattr')

    def b_id(self, p, args, kw, st, node):
        from sa.interp import Unsup
        raise Unsup('id()')

    # ------------------------------------------------------------ int methods
    def b_int_to_bytes(self, p, args, kw, st, node):
        x = p.selfv
        if x is None:
            x, args = args[0], args[1:]
        n = num(args[0] if args else kw.get('length', ONE))
        order = args[1] if len(args) > 1 else kw.get('byteorder', strc('big'))
        x = num(x)
        self.do_raise(st, node, 'OverflowError', lift(lambda a, b: bor(lt0(a), bnot(lt0(psub(a, pow2(pmul(pconst(8), b)))))), x, n))
        return tobytes(self.prune(x, st), n, order.args[0])

    b_any_to_bytes = b_int_to_bytes

    def b_int_from_bytes(self, p, args, kw, st, node):
        b = self.content(args[0] if args else kw['bytes'], st)
        order = args[1] if len(args) > 1 else kw.get('byteorder', strc('big'))
        from sa.interp import retag
        return frombytes(retag(b, 'bytes'), order.args[0])

    def b_int_bit_length(self, p, args, kw, st, node):
        return bitlen(num(p.selfv if p.selfv is not None else args[0]))

    b_any_bit_length = b_int_bit_length

    def b_int_bit_count(self, p, args, kw, st, node):
        return patom(mk('popcount', num(p.selfv)))

    # ------------------------------------------------------------ sequence methods
    def b_bytes_join(self, p, args, kw, st, node):
        sep = p.selfv
        c = self.deep(self.seq_of(args[0], st), st)
        if sep.op == 'S' and not sep.args[1]:
            return self.flatten(c, 'bytes', st)
        from sa.interp import Unsup
        raise Unsup('join with separator')

    def flatten(self, c, kind, st):
        """Concatenation of a sequence of sequences."""
        from sa.interp import retag, Unsup
        if c.op == 'ite':
            return mapleaves(lambda x: self.flatten(x, kind, st), c)
        parts = []
        for s in segs_of(c):
            if s.op == 'u':
                parts.append(retag(self.content(s.args[0], st), kind))
            elif s.op == 'sl':
                n = seglen(s)
                v = fresh(ZERO, n)
                e = elem(s.args[0], padd(s.args[1], patom(v)))
                if e.op != 'S' and not seq_kind(e):
                    raise Unsup('flatten of non-sequences')
                parts.append(seqmap(v, n, retag(wrap(e), kind), kind))
            elif s.op == 'map':
                n = s.args[1]
                v = fresh(ZERO, n)
                parts.append(seqmap(v, n, self.flatten(inst(s, patom(v)), kind, st), kind))
            else:
                raise Unsup('flatten')
        return cat(kind, *parts) if parts else mk('S', kind, ())

    def b_bytes_fromhex(self, p, args, kw, st, node):
        return bytesc(bytes.fromhex(args[0].args[0]))

    def b_bytes_hex(self, p, args, kw, st, node):
        return mk('strx')

    def b_str_format(self, p, args, kw, st, node):
        return mk('strx')

    b_str_join = b_str_lower = b_str_upper = b_str_format

    def b_str_encode(self, p, args, kw, st, node):
        if p.selfv.op == 'str':
            return bytesc(p.selfv.args[0].encode())
        from sa.interp import Unsup
        raise Unsup('encode of unknown string')

    # list methods: p.selfv is a ref or a pure sequence; p.node the target expression
    def upd(self, p, new, st):
        from sa.interp import NeedSplit, Unsup
        self.set_content(p.selfv, new, st, p.node)
        return NONE

    def b_list_append(self, p, args, kw, st, node):
        from sa.interp import append1
        v = args[0]
        if p.selfv.op != 'ref':
            v = self.deep(v, st)
        return self.upd(p, append1(self.content(p.selfv, st), v), st)

    def b_list_extend(self, p, args, kw, st, node):
        return self.upd(p, cat('list', self.content(p.selfv, st), self.seq_of(args[0], st)), st)

    def b_list_insert(self, p, args, kw, st, node):
        from sa.interp import Unsup
        c = self.content(p.selfv, st)
        i = const_of(num(args[0]))
        if i == 0:
            return self.upd(p, cat('list', seq('list', [U(args[1])]), c), st)
        raise Unsup('insert')

    def b_list_pop(self, p, args, kw, st, node):
        c = self.content(p.selfv, st)
        n = seqlen(c)
        i = num(args[0]) if args else pconst(-1)
        i = self.norm_index(i, n, st, node)
        v = index(c, i)
        self.upd(p, lift(lambda cc, ii: cat('list', cut(cc, ZERO, ii), cut(cc, padd(ii, ONE), seqlen(cc))), c, i), st)
        return v

    def b_list_clear(self, p, args, kw, st, node):
        return self.upd(p, seq('list', []), st)

    def b_list_reverse(self, p, args, kw, st, node):
        from sa.interp import reverse_seq
        return self.upd(p, mapleaves(reverse_seq, self.content(p.selfv, st)), st)

    def b_list_copy(self, p, args, kw, st, node):
        return self.newlist(st, self.content(p.selfv, st))

    def b_list_sort(self, p, args, kw, st, node):
        r = self.b_sorted(p, [p.selfv], kw, st, node)
        return self.upd(p, self.content(r, st), st)

    def b_list_count(self, p, args, kw, st, node):
        c = self.deep(self.content(p.selfv, st), st)
        x = self.deep(args[0], st)

        def cnt(c):
            r = ZERO
            for s in segs_of(c):
                if s.op == 'u':
                    r = padd(r, num(eqv(s.args[0], x)))
                elif s.op == 'sl':
                    n = seglen(s)
                    v = fresh(ZERO, n)
                    r = padd(r, psum(v, n, num(eqv(elem(s.args[0], padd(s.args[1], patom(v))), x))))
                elif s.op == 'map' and TM.is_unit_body(s):
                    v = fresh(ZERO, s.args[1])
                    r = padd(r, psum(v, s.args[1], num(eqv(index(inst(s, patom(v)), ZERO), x))))
                else:
                    r = padd(r, patom(mk('count', s, x)))
            return r
        return mapleaves(cnt, c)

    b_bytes_count = b_tuple_count = b_list_count

    def b_list_index(self, p, args, kw, st, node):
        c = self.deep(self.content(p.selfv, st), st)
        x = self.deep(args[0], st)
        self.do_raise(st, node, 'ValueError', bnot(self.member(args[0], p.selfv, st)))
        return lift(lambda cc, xx: patom(mk('indexof', cc, xx)), c, x)

    b_tuple_index = b_list_index

    def b_bytes_startswith(self, p, args, kw, st, node):
        c, a = self.content(p.selfv, st), self.content(args[0], st)
        return band(bnot(lt0(psub(seqlen(c), seqlen(a)))), eqv(slice_(c, ZERO, seqlen(a)), a))

    def b_bytes_append(self, p, args, kw, st, node):
        self.do_raise(st, node, 'ValueError', self.not_byte(args[0]))
        return self.upd(p, cat('bytes', self.content(p.selfv, st), seq('bytes', [U(num(args[0]))])), st)

    # ------------------------------------------------------------ dict
    def b_dict_get(self, p, args, kw, st, node):
        from sa.interp import pyval
        d = pyval(p.selfv)
        k = self.deep(args[0], st)
        dflt = args[1] if len(args) > 1 else NONE
        r = dflt
        for q, v in d.items.items():
            r = ite(eqv(k, q), v, r)
        return r

    def b_dict_items(self, p, args, kw, st, node):
        from sa.interp import pyval
        d = pyval(p.selfv)
        return mk('S', 'tuple', tuple(U(mk('S', 'tuple', (U(k), U(v)))) for k, v in d.items.items()))

    def b_dict_keys(self, p, args, kw, st, node):
        from sa.interp import pyval
        return mk('S', 'tuple', tuple(U(k) for k in pyval(p.selfv).items))

    def b_dict_values(self, p, args, kw, st, node):
        from sa.interp import pyval
        return mk('S', 'tuple', tuple(U(v) for v in pyval(p.selfv).items.values()))

    # ------------------------------------------------------------ field elements
    def b_felt_int(self, p, args, kw, st, node):
        return fint(p.selfv)

    def b_felt_inv(self, p, args, kw, st, node):
        return finv(p.selfv)

    # ------------------------------------------------------------ xofs
    def b_xof_next(self, p, args, kw, st, node):
        from sa.interp import XCell
        n = num(args[0] if args else kw['length'])
        c = st.heap[p.selfv.args[0]]
        if c.mode != 'bytes':
            hist = c.hist + xof_hist(c)
            c = XCell(c.key, 'bytes', ZERO, hist)
        off = c.off
        st.heap[p.selfv.args[0]] = XCell(c.key, c.mode, padd(off, n), c.hist)
        return lift(lambda key_, o, m: seq('bytes', sl(mk('xbytes', key_, c.hist), o, padd(o, m))), c.key, off, n)

    def b_xof_next_vec(self, p, args, kw, st, node):
        from sa.interp import XCell, NeedSplit
        f = args[0] if args else kw['field']
        n = num(args[1] if len(args) > 1 else kw['length'])
        if f.op == 'ite':
            raise NeedSplit(f.args[0])
        c = st.heap[p.selfv.args[0]]
        if c.mode != ('vec', f):
            c = XCell(c.key, ('vec', f), ZERO, c.hist + xof_hist(c))
        off = c.off
        st.heap[p.selfv.args[0]] = XCell(c.key, c.mode, padd(off, n), c.hist)
        r = lift(lambda key_, o, m: seq('list', sl(mk('xvec', key_, c.hist, f), o, padd(o, m))), c.key, off, n)
        return self.newlist(st, r)

    # ------------------------------------------------------------ hash / cipher primitives
    def b_TurboSHAKE128_new(self, p, args, kw, st, node):
        from sa.interp import HCell
        dom = kw.get('domain', args[0] if args else pconst(31))
        data = self.content(kw['data'], st) if 'data' in kw else seq('bytes', [])
        return self.alloc(st, HCell(mk('turboshake128', num(dom)), data))

    def b_hash_update(self, p, args, kw, st, node):
        from sa.interp import HCell
        c = st.heap[p.selfv.args[0]]
        st.heap[p.selfv.args[0]] = HCell(c.what, cat('bytes', c.data, self.content(args[0], st)), c.off)
        return p.selfv

    def b_hash_read(self, p, args, kw, st, node):
        from sa.interp import HCell
        c = st.heap[p.selfv.args[0]]
        n = num(args[0])
        st.heap[p.selfv.args[0]] = HCell(c.what, c.data, padd(c.off, n))
        return lift(lambda d, o, m: seq('bytes', sl(mk('hashout', c.what, d, 'bytes'), o, padd(o, m))), c.data, c.off, n)

    def b_AES_new(self, p, args, kw, st, node):
        from sa.interp import HCell
        mode = args[1] if len(args) > 1 else kw.get('mode', NONE)
        if mode.op == 'py':
            mode = strc(getattr(mode.args[0], 'name', '?'))
        return self.alloc(st, HCell(mk('aes', self.deep(args[0], st), mode), seq('bytes', [])))

    def b_hash_encrypt(self, p, args, kw, st, node):
        c = st.heap[p.selfv.args[0]]
        TM.CALL_LEN['AES'] = lambda t: seqlen(t.args[1][1])
        return self.mkcall('AES', [c.what, self.content(args[0], st)], 'bytes')

    # ------------------------------------------------------------ randomness
    def bump(self, st, what='rng'):
        """Number of earlier draws of this kind."""
        from sa.interp import OCell
        c = st.heap.get(what)
        k = c.attrs['n'] if c is not None else ZERO
        st.heap[what] = OCell(None, {'n': padd(k, ONE)})
        return k

    def b_os_urandom(self, p, args, kw, st, node):
        n = num(args[0])
        k = self.bump(st, 'rng' + key(n))
        return lift(lambda m, kk: seq('bytes', sl(self.randbase(kk, m), ZERO, m)), n, k)

    def randbase(self, k, m):
        t = mk('rand', k, m, 'bytes')
        LEN[t] = m
        return t

    def b_random_randrange(self, p, args, kw, st, node):
        k = self.bump(st)
        lo, hi = (ZERO, num(args[0])) if len(args) == 1 else (num(args[0]), num(args[1]))
        t = mk('rand', k, lo, hi, 'int')
        if hi.op == 'P':
            BOUNDS[t] = (lo, hi)
        return patom(t)

    # ------------------------------------------------------------ math, itertools, typing, copy
    def b_typing_cast(self, p, args, kw, st, node):
        return args[1]

    def b_copy_deepcopy(self, p, args, kw, st, node):
        return self.copyval(args[0], st, True)

    def b_copy_copy(self, p, args, kw, st, node):
        return self.copyval(args[0], st, False)

    def copyval(self, v, st, deep):
        from sa.interp import LCell, OCell
        c = self.cell(st, v)
        if type(c) is LCell:
            return self.alloc(st, LCell(self.deep(c.c, st) if deep else c.c, c.kind))
        if type(c) is OCell:
            at = {k: self.copyval(x, st, True) if deep else x for k, x in c.attrs.items()}
            return self.alloc(st, OCell(c.cls, at, c.base))
        return v

    def b_math_ceil(self, p, args, kw, st, node):
        return mapleaves(lambda x: ceil_t(x), num(args[0]))

    def b_math_floor(self, p, args, kw, st, node):
        def f(x):
            at = one_atom(x)
            if at is not None and at.op == 'truediv':
                return patom(mk('floor', x))
            return patom(mk('floor', x)) if at is not None and at.op in ('log2',) else x
        return mapleaves(f, num(args[0]))

    def b_math_log2(self, p, args, kw, st, node):
        def f(x):
            k = log2_of(x)
            if k is not None:
                return k
            return patom(mk('log2', x))
        return mapleaves(f, num(args[0]))

    def b_math_sqrt(self, p, args, kw, st, node):
        return patom(mk('sqrt', num(args[0])))

    b_math_isqrt = b_math_sqrt

    def b_itertools_chain(self, p, args, kw, st, node):
        return self.newlist(st, cat('list', *[self.seq_of(a, st) for a in args]))

    def b_itertools_chain_from_iterable(self, p, args, kw, st, node):
        return self.newlist(st, self.flatten(self.deep(self.seq_of(args[0], st), st), 'list', st))

    def b_itertools_repeat(self, p, args, kw, st, node):
        from sa.interp import Iter
        return Iter(num(args[1]), lambda i, s: args[0]).t

    def b_itertools_batched(self, p, args, kw, st, node):
        from sa.interp import Iter, NeedSplit, retag
        c = self.deep(self.seq_of(args[0], st), st)
        k = num(args[1])
        if c.op == 'ite' or k.op == 'ite':
            raise NeedSplit((c if c.op == 'ite' else k).args[0])
        n = seqlen(c)
        self.do_raise(st, node, 'ValueError', lt0(psub(k, ONE)))
        rem = mod(n, k)
        cnt = fdiv(padd(n, psub(k, ONE)), k) if rem is not ZERO else fdiv(n, k)
        full = fdiv(n, k)
        segs = [full, ONE] if rem is not ZERO and full.op == 'P' and psub(cnt, full) is ONE else None
        return Iter(cnt, lambda i, s: retag(slice_(c, pmul(i, k), pmul(padd(i, ONE), k)), 'tuple'), segs=segs).t

    def b_itertools_islice(self, p, args, kw, st, node):
        c = self.deep(self.seq_of(args[0], st), st)
        if len(args) == 2:
            return self.newlist(st, slice_(c, ZERO, num(args[1])))
        return self.newlist(st, slice_(c, num(args[1]), num(args[2])))

    def b_itertools_accumulate(self, p, args, kw, st, node):
        from sa.interp import Unsup
        raise Unsup('accumulate')

    def b_itertools_pairwise(self, p, args, kw, st, node):
        from sa.interp import Iter
        it = self.iter_of(args[0], st)
        n = imax(psub(it.n, ONE), ZERO)
        return Iter(n, lambda i, s: mk('S', 'tuple', (U(it.get(i, s)), U(it.get(padd(i, ONE), s))))).t

    def b_operator_xor(self, p, args, kw, st, node):
        return self.binop(ast.BitXor(), args[0], args[1], st, node)

    def b_operator_add(self, p, args, kw, st, node):
        return self.binop(ast.Add(), args[0], args[1], st, node)

    def b_operator_sub(self, p, args, kw, st, node):
        return self.binop(ast.Sub(), args[0], args[1], st, node)

    def b_operator_mul(self, p, args, kw, st, node):
        return self.binop(ast.Mult(), args[0], args[1], st, node)

    def b_operator_neg(self, p, args, kw, st, node):
        return pneg(num(args[0]))

    def b_secrets_token_bytes(self, p, args, kw, st, node):
        return self.b_os_urandom(p, args, kw, st, node)

    def b_functools_partial(self, p, args, kw, st, node):
        from sa.interp import PartialVal
        return PartialVal(args[0], args[1:], kw).t

    def b_hmac_compare_digest(self, p, args, kw, st, node):
        return eqv(self.deep(args[0], st), self.deep(args[1], st))

    b_secrets_compare_digest = b_hmac_compare_digest


EXT_MODS = {'Cryptodome'}


def one_atom(x):
    if x.op == 'P' and len(x.args[1]) == 1 and len(x.args[1][0][0]) == 1 and x.args[1][0][0][0][1] == 1 and x.args[1][0][1] == 1:
        return x.args[1][0][0][0][0]
    return None


def ceil_t(x):
    at = one_atom(x)
    if at is not None and at.op in ('truediv', 'log2'):
        return patom(mk('ceil', x))
    if any(a.op in ('truediv', 'log2', 'sqrt') for m, _ in x.args[1] for a, _ in m):
        return patom(mk('ceil', x))
    return x


def deep_list_kind(s):
    from sa.loops import deep_kind
    k = deep_kind(s)
    if type(k) is tuple and k[0] in ('list', 'tuple'):
        return ('list', k[1])
    if type(k) is tuple and k[0] == 'tup':
        ks = set(k[1])
        return ('list', ks.pop() if len(ks) == 1 else 'any')
    return ('list', 'any')
