"""Deciding equality of two guarded value-flow terms.

equal(a, b, ctx) walks both decision diagrams simultaneously, drops branches the
bounds prover refutes, and compares the leaves segment by segment / element by
element under the accumulated guard literals.
"""
import functools
import inspect
import math

from sa.terms import *
from sa import terms as TM
from sa import witness as WT
from sa.witness import subterms

HOLDS, VIOLATION, UNDECIDED = 'holds', 'violation', 'undecided'

WEAK = {'unsup', 'fold', 'wfold', 'firstidx', 'slice', 'oslice', 'someel', 'filt', 'modval', 'xofmix', 'setelem', 'last', 'first', 'strx',
        'truediv', 'ceil', 'floor', 'log2', 'unbound', 'py', 'ref', 'count', 'indexof', 'toint', 'excis'}


class Budget(Exception):
    pass


def scoped(f):
    """Run a function under the facts of its context, and restore the facts of the caller."""
    k = list(inspect.signature(f).parameters).index('ctx')

    @functools.wraps(f)
    def g(*a, **kw):
        saved = tuple(TM.FACTS)
        ctx = a[k] if k < len(a) else kw.get('ctx')
        if ctx is not None:
            TM.FACTS[:] = ctx.facts
        try:
            return f(*a, **kw)
        finally:
            TM.FACTS[:] = saved
    return g


class Ctx:
    __slots__ = ('lits', 'facts', 'done', 'mp')

    def __init__(self, lits=None, facts=(), done=frozenset()):
        self.lits = lits or {}
        self.facts = facts
        self.done = done
        self.mp = None

    def without(self, at):
        own = {TM.tight(f) for f in lit_facts(at, self.lits[at])} if at in self.lits else ()
        return Ctx({k: x for k, x in self.lits.items() if k is not at}, tuple(f for f in self.facts if f not in own), self.done)

    def use(self):
        TM.FACTS[:] = self.facts

    def add(self, at, val):
        """Context extended by a literal; None when the prover refutes it."""
        self.use()
        d = decide(at)
        if d is not None and d != val:
            return None
        lits = dict(self.lits)
        lits[at] = val
        fs = list(self.facts)
        for f in lit_facts(at, val):
            f = TM.tight(f)
            if f.op == 'P' and not is_const(f) and f not in fs:
                fs.append(f)
        return Ctx(lits, tuple(fs), self.done)

    def assume(self, c):
        """Contexts for c being true (list, one per path)."""
        out = []
        for ctx, leaf in paths(c, self):
            if leaf is TRUE:
                out.append(ctx)
        return out


def decide(at):
    """Truth value of an atom under TM.FACTS, or None."""
    if at.op == 'lt0' and at.args[0].op == 'P' and at.args[0].args[0] == 'I':
        p = at.args[0]
        if le0(padd(p, ONE)):
            return True
        if le0(pneg(p)):
            return False
    elif at.op == 'eq0' and at.args[0].op == 'P' and at.args[0].args[0] == 'I':
        p = at.args[0]
        if le0(padd(p, ONE)) or le0(psub(ONE, p)):
            return False
        if le0(p) and le0(pneg(p)):
            return True
    return None


def contrary(at, val):
    """Do the facts refute this value of the atom?"""
    if at.op == 'lt0' and at.args[0].op == 'P' and at.args[0].args[0] == 'I':
        p = at.args[0]
        return le0(pneg(p)) if val else le0(padd(p, ONE))
    d = decide(at)
    return d is not None and d != val


@scoped
def paths(t, ctx):
    """Feasible (ctx, leaf) pairs of a diagram."""
    if t.op != 'ite':
        return [(ctx, t)]
    at = t.args[0]
    v = ctx.lits.get(at)
    if v is None:
        ctx.use()
        v = decide(at)
    if v is not None:
        return paths(t.args[1] if v else t.args[2], ctx)
    out = []
    for val, sub in ((True, t.args[1]), (False, t.args[2])):
        c2 = ctx.add(at, val)
        if c2 is not None:
            out += paths(sub, c2)
    return out


class Diff:
    """A pair of sub-terms found to differ, with the guard literals leading to it."""

    def __init__(self, a, b, ctx, where, weak=False):
        self.a, self.b, self.ctx, self.where, self.weak = a, b, ctx, where, weak


class Comparer:
    def __init__(self, budget=200000):
        self.n = 0
        self.budget = budget
        self.compared = 0

    def tick(self):
        self.n += 1
        if self.n > self.budget:
            raise Budget()

    def equal(self, a, b, ctx=None):
        """None when equal on every feasible path, else the first Diff (strong ones preferred)."""
        ctx = ctx or Ctx()
        saved = list(TM.FACTS)
        try:
            return self.eq(a, b, ctx, ())
        finally:
            TM.FACTS[:] = saved

    # ------------------------------------------------------------
    def eq(self, a, b, ctx, where):
        self.tick()
        if a is b:
            return None
        top = TM._top
        if a.op == 'ite' or b.op == 'ite':
            at = self.pick(a, b)
            v = ctx.lits.get(at)
            if v is None:
                ctx.use()
                v = decide(at)
                if v is None:
                    v = self.decide_exists(at, ctx)
            if v is not None:
                return self.eq(TM._cof(a, at, v), TM._cof(b, at, v), ctx, where)
            weak = None
            for val in (True, False):
                c2 = ctx.add(at, val)
                if c2 is None:
                    continue
                d = self.eq(TM._cof(a, at, val), TM._cof(b, at, val), c2, where)
                if d is not None:
                    if not d.weak:
                        return d
                    weak = weak or d
            return weak
        self.compared += 1
        return self.leaf(a, b, ctx, where)

    def pick(self, a, b):
        if a.op != 'ite':
            return b.args[0]
        if b.op != 'ite':
            return a.args[0]
        x, y = a.args[0], b.args[0]
        if x is y:
            return x
        return x if key(x) <= key(y) else y

    def decide_exists(self, at, ctx):
        """exists-atoms implied by other exists-atoms of the context."""
        if at.op != 'exists':
            return None
        for o, val in ctx.lits.items():
            if o.op == 'exists':
                if val is False and self.implies(at, o, ctx):
                    return False
                if val is True and self.implies(o, at, ctx):
                    return True
        # exists v<n. body is false if the body is refutable outright
        h, n, body = at.args
        v = fresh(ZERO, n)
        b = subst(body, {mk('bv', h): patom(v)})
        if self.unsat(b, ctx, v, n):
            return False
        cases = self.residues((b,), v, n, ctx)
        if cases and all(self.unsat(b2, c2) for c2, (b2,), _ in cases):
            return False
        return None

    def residues(self, terms, v, n, ctx):
        """Case distinction on the residue of an index whose quotient and remainder by a constant occur in the terms."""
        c = 1
        for t in subterms(terms):
            if t.op in ('mod', 'fdiv') and v in TM.atoms_in(t.args[0]):
                k = const_of(t.args[1])
                if k is not None and 1 < k <= 64:
                    c = c * k // math.gcd(c, k)
        if c == 1 or c > 64:
            return None
        out = []
        for k in range(c):
            i = padd(pmul(pconst(c), patom(fresh(ZERO, None))), pconst(k))
            f = TM.tight(padd(psub(i, n), ONE))
            if is_const(f) and const_of(f) > 0:
                continue
            c2 = Ctx(ctx.lits, ctx.facts if is_const(f) else ctx.facts + (f,), ctx.done)
            c2.use()
            out.append((c2, [subst(t, {v: i}) for t in terms], i))
        return out

    def elems(self, p, q, v, n, ctx, where):
        """Compare two elements at an arbitrary index v < n."""
        d = self.elem(p, q, patom(v), n, ctx, where)
        if d is None:
            return None
        cases = self.residues((p, q), v, n, ctx)
        if not cases:
            return d
        for c2, (p2, q2), i in cases:
            d = self.elem(p2, q2, i, n, c2, where)
            if d is not None:
                return d
        return None

    def elem(self, p, q, i, n, ctx, where):
        for c2 in self.inst_exists(ctx, i, n):
            d = self.eq(p, q, c2, where)
            if d is not None:
                return d
        return None

    def implies(self, x, y, ctx):
        """exists x  =>  exists y  by equal ranges and bodies."""
        hx, nx, bx = x.args
        hy, ny, by = y.args
        ctx.use()
        if not (nx is ny or same(nx, ny) or le(nx, ny)):
            return False
        v = fresh(ZERO, nx)
        p = subst(bx, {mk('bv', hx): patom(v)})
        q = subst(by, {mk('bv', hy): patom(v)})
        return self.unsat(band(p, bnot(q)), ctx, v, nx)

    def unsat(self, c, ctx, v=None, n=None):
        c = rebuild_all(c) if c.op == 'ite' else c
        for c2, leaf in paths(c, ctx):
            if leaf is not FALSE:
                if not self.equal_contradiction(c2):
                    return False
        return True

    def equal_contradiction(self, ctx):
        return self.infeasible(ctx, deep=False)

    def inst_exists(self, ctx, i, n):
        """Literals of negated exists-atoms instantiated at index i (0 <= i < n)."""
        out = [ctx]
        ctx.use()
        for o, val in list(ctx.lits.items()):
            if o.op == 'exists' and val is False:
                h, m, body = o.args
                if m is n or same(m, n) or le(n, m):
                    b = subst(body, {mk('bv', h): i})
                    nxt = []
                    for c in out:
                        nxt += c.assume(bnot(b))
                    out = nxt[:8] or out
        return out

    # ------------------------------------------------------------
    def norm(self, t, ctx):
        """Rebuild under the facts of the context, with solved equalities substituted."""
        mp = self.solved(ctx)
        return rebuild_all(subst(t, mp) if mp else t)

    def solved(self, ctx):
        ctx.use()
        if ctx.mp is None:
            ctx.mp = self.solve(ctx)
            ctx.use()
        return ctx.mp

    def solve(self, ctx):
        mp = {}
        for at, val in ctx.lits.items():
            if at.op == 'eq0' and val and at.args[0].op == 'P':
                s = solve_eq(subst(at.args[0], mp) if mp else at.args[0])
                if s is not None and s[0] not in mp:
                    mp = {k: subst(x, {s[0]: s[1]}) for k, x in mp.items()}
                    mp[s[0]] = s[1]
            elif at.op == 'isnone' and val:
                mp[at.args[0]] = NONE
            elif at.op == 'eqv' and val:
                x, y = at.args
                r = self.orient(x, y)
                if r:
                    mp[r[0]] = r[1]
        fs = set(ctx.facts)
        for f in ctx.facts:
            if f.op == 'P' and pneg(f) in fs:
                s = solve_eq(subst(f, mp) if mp else f)
                if s is not None and s[0] not in mp:
                    mp = {k: subst(x, {s[0]: s[1]}) for k, x in mp.items()}
                    mp[s[0]] = s[1]
        return mp

    def rewritten(self, ctx):
        """Refute the context by rewriting its literals with its own equalities."""
        mp = self.solved(ctx)
        if not mp or not any(at.fv & k.fv for at in ctx.lits if at.op not in ('lt0', 'eq0', 'eqv', 'isnone') for k in mp):
            return False
        out = [Ctx({}, ctx.facts, ctx.done)]
        for at, val in sorted(ctx.lits.items(), key=lambda x: (x[0].op in ('lt0', 'eq0', 'eqv'), key(x[0]))):
            x = self.norm(atom_bool(at), ctx.without(at))
            if not val:
                x = bnot(x)
            out = [c2 for c in out for c2 in c.assume(x)]
            if not out:
                return True
            if len(out) > 8:
                return False
        return False

    def rows(self, ctx, ring):
        """Reduced rows of the linear system that the true equations of a field with folded constants form, by leading monomial."""
        k = TM._modulus(ring)
        out = {}
        for at, val in ctx.lits.items():
            if val and at.op == 'eq0' and at.args[0].op == 'P' and at.args[0].args[0] == ring:
                d = self.reduced(dict(at.args[0].args[1]), out, k)
                if d:
                    m = min(d, key=lambda m: (m == (), repr([(key(a), TM._ser(e)) for a, e in m])))
                    i = pow(d[m], -1, k)
                    d = {x: c * i % k for x, c in d.items()}
                    for x in out:
                        c = out[x].get(m, 0)
                        if c:
                            out[x] = {y: z for y, z in ((y, (out[x].get(y, 0) - c * d.get(y, 0)) % k) for y in set(out[x]) | set(d)) if z}
                    out[m] = d
        return out, k

    def reduced(self, d, rows, k):
        for m, r in rows.items():
            c = d.get(m, 0) % k
            if c:
                d = {y: (d.get(y, 0) - c * r.get(y, 0)) % k for y in set(d) | set(r)}
        return {y: z for y, z in d.items() if z % k}

    def equal_by_rows(self, p, q, ctx):
        if p.op != 'P' or q.op != 'P' or p.args[0] != q.args[0] or not TM.FOLD or TM._modulus(p.args[0]) is None:
            return False
        rows, k = self.rows(ctx, p.args[0])
        return not self.reduced(dict(psub(p, q).args[1]), rows, k)

    def refuted_by_rows(self, ctx):
        if not TM.FOLD:
            return False
        for ring in {at.args[0].args[0] for at in ctx.lits if at.op == 'eq0' and at.args[0].op == 'P' and TM._modulus(at.args[0].args[0]) is not None}:
            rows, k = self.rows(ctx, ring)
            if () in rows and set(rows[()]) == {()}:
                return True
            for at, val in ctx.lits.items():
                if not val and at.op == 'eq0' and at.args[0].op == 'P' and at.args[0].args[0] == ring and not self.reduced(dict(at.args[0].args[1]), rows, k):
                    return True
        return False

    def orient(self, x, y):
        for p, q in ((x, y), (y, x)):
            if p.op in ('sym', 'item', 'idx', 'call', 'attr') and not TM._occurs(p, q):
                return p, q
            if p.op == 'S' and len(p.args[1]) == 1 and p.args[1][0].op == 'sl' and p.args[1][0].args[1] is ZERO:
                b = p.args[1][0].args[0]
                if b.op in ('sym', 'item', 'idx', 'call', 'attr') and p.args[1][0].args[2] is seqlen(b) and not TM._occurs(b, q):
                    return b, q
        return None

    def leaf(self, a, b, ctx, where):
        if a is b:
            return None
        a2, b2 = self.norm(a, ctx), self.norm(b, ctx)
        if a2.op == 'ite' or b2.op == 'ite':
            if (a2, b2) != (a, b):
                return self.eq(a2, b2, ctx, where)
        a, b = a2, b2
        if a is b or TM.FOLD and self.equal_by_rows(a, b, ctx):
            return None
        d = self.shape(a, b, ctx, where)
        if d is None:
            return None
        if self.infeasible(ctx):
            return None
        c2 = self.tighten(ctx)
        if len(c2.facts) > len(ctx.facts):
            return self.eq(a, b, c2, where)
        more = self.instances(ctx, (a, b))
        if more is not None:
            w = None
            for c2 in more:
                e = self.eq(a, b, c2, where)
                if e is not None:
                    if not e.weak:
                        return e
                    w = w or e
            return w
        c = self.boundary((a, b) + tuple(x for x in ctx.lits if x.op in ('lt0', 'eq0', 'eqv')), ctx)
        if c is not None:
            w = None
            for x in (c, bnot(c)):
                for c2 in ctx.assume(x):
                    e = self.eq(a, b, c2, where)
                    if e is not None:
                        if not e.weak:
                            return e
                        w = w or e
            return w
        if not d.weak:
            d.weak = weak(d.a) or weak(d.b) or any(weak(x) for x in ctx.lits) or WT.agree(d.a, d.b, d.ctx.lits, d.ctx.facts) or \
                WT.same_byte(d.a, d.b, d.ctx.lits)
        return d

    def boundary(self, terms, ctx):
        """Condition that tells which piece of a concatenation an index falls into, for an element access not yet resolved."""
        ctx.use()
        for t in sorted((t for t in subterms(terms) if t.op == 'idx' and t.args[0].op == 'S' and len(t.args[0].args[1]) > 1
                         and type(t.args[1]) is T and t.args[1].op == 'P'), key=key):
            off = ZERO
            for s in t.args[0].args[1][:-1]:
                off = padd(off, seglen(s))
                if any(x.op == 'bv' for y in (t.args[1], off) for x in y.fv):
                    break
                c = lt0(psub(t.args[1], off))
                if c.op == 'ite' and c.args[0] not in ctx.lits and c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE):
                    return c
        return None

    def infeasible(self, ctx, deep=True):
        """Refute the context: its literals against each other and against instances of its exists-atoms."""
        ctx = self.tighten(ctx)
        ctx.use()
        for at, val in ctx.lits.items():
            d = contrary(at, val)
            if d:
                return True
        for at, val in ctx.lits.items():
            if at.op == 'eqv' or at.op in ('lt0', 'eq0') and at.args[0].op == 'P':
                if self.norm_lit(at, ctx) is (not val):
                    return True
        if self.rewritten(ctx) or self.refuted_by_rows(ctx):
            return True
        if not deep:
            return False
        pos = [at for at, val in ctx.lits.items() if at.op == 'exists' and val]
        if pos and self.refuted(ctx, 0):
            return True
        for at, val in list(ctx.lits.items()):
            if at.op == 'eqv' and val is False:
                rest = ctx.without(at)
                if self.eq(at.args[0], at.args[1], rest, ()) is None:
                    return True
        return False

    def refuted(self, ctx, rounds):
        """Witnesses of the true exists-atoms against instances of the false ones."""
        self.tick()
        out = [ctx]
        for at, val in list(ctx.lits.items()):
            if at.op == 'exists' and val and (at, None) not in ctx.done:
                h, n, body = at.args
                nxt = []
                for c in out:
                    v = fresh(ZERO, n)
                    c.use()
                    b = rebuild_all(subst(body, {mk('bv', h): patom(v)}))
                    nxt += Ctx(c.lits, c.facts, c.done | {(at, None)}).assume(b)
                out = nxt
                if len(out) > 16:
                    return False
        for c in out:
            if self.infeasible(c, deep=False):
                continue
            c3 = self.instances(c, [x for x in c.lits if not (x.op == 'exists' and not c.lits[x])])
            if c3 is None:
                if c is ctx or rounds >= 3 or not self.refuted(c, rounds + 1):
                    return False
                continue
            for c4 in c3:
                if self.infeasible(c4, deep=False):
                    continue
                if rounds >= 3 or not self.refuted(c4, rounds + 1):
                    return False
        return True

    def tighten(self, ctx):
        """Integer disequalities at the end of a range shrink the range."""
        ne = [at.args[0] for at, val in ctx.lits.items() if at.op == 'eq0' and not val and at.args[0].op == 'P' and at.args[0].args[0] == 'I']
        eqs = [at for at, val in ctx.lits.items() if at.op == 'eq0' and val and at.args[0].op == 'P' and at.args[0].args[0] == 'I'
               and any(a.op in ('mod', 'fdiv') for a in TM.atoms_in(at.args[0]))]
        if not ne and not eqs:
            return ctx
        facts = list(ctx.facts)
        for at in eqs:
            ctx.without(at).use()
            p = rebuild_all(at.args[0])
            if p is not at.args[0] and p.op == 'P' and not is_const(p) and TM.atoms_in(p) <= {
                    b for a in TM.atoms_in(at.args[0]) for b in ({a} | (TM.atoms_in(a.args[0]) if a.op in ('mod', 'fdiv') else set()))}:
                facts += [f for f in (TM.tight(p), TM.tight(pneg(p))) if f not in facts]
        TM.FACTS[:] = facts
        for _ in range(4):
            k = len(facts)
            for p in ne:
                for q in (p, pneg(p)):
                    f = TM.tight(padd(q, ONE))
                    if f not in facts and le0(q):
                        facts.append(f)
                        TM.FACTS[:] = facts
            if len(facts) == k:
                break
        return Ctx(ctx.lits, tuple(facts), ctx.done)

    def instances(self, ctx, terms):
        """Contexts with the negated exists-atoms instantiated at the indices occurring in the terms; None when there is nothing new."""
        new = []
        ctx.use()
        for o, val in ctx.lits.items():
            if o.op == 'exists' and val is False:
                h, m, body = o.args
                bv = mk('bv', h)
                for i in ematch(body, bv, terms):
                    if (o, i) not in ctx.done:
                        new.append((o, i, m, subst(body, {bv: i})))
        if not new:
            return None
        out = [Ctx(ctx.lits, ctx.facts, ctx.done | {(o, i) for o, i, _, _ in new})]
        for c in [bor(bor(lt0(i), bnot(lt0(psub(i, m)))), bnot(body)) for o, i, m, body in new[:12]]:
            nxt = []
            for x in out:
                x.use()
                nxt += x.assume(rebuild_all(c) if c.op == 'ite' else c)
            out = nxt
            if len(out) > 16:
                break
        return out

    def norm_lit(self, at, ctx):
        rest = ctx.without(at)
        x = self.norm(atom_bool(at), rest)
        ls = {l for _, l in paths(x, rest)} if x.op == 'ite' and x.args[0] is not at else {x}
        if ls == {TRUE}:
            return True
        if ls == {FALSE}:
            return False
        return None

    # ------------------------------------------------------------
    def shape(self, a, b, ctx, where):
        fail = Diff(a, b, ctx, where)
        if a.op == 'ret' and b.op == 'ret':
            return self.eq(a.args[0], b.args[0], ctx, where + ('return value',))
        if a.op in ('S',) or b.op in ('S',):
            return self.seqs(wrap(a), wrap(b), ctx, where)
        if a.op == 'P' and b.op == 'P':
            return self.polys(a, b, ctx, where)
        if a.op == 'P' or b.op == 'P':
            x, y = num(a), num(b)
            if x.op == 'P' and y.op == 'P' and (x is not a or y is not b):
                return self.polys(x, y, ctx, where)
            return fail
        if a.op == b.op and a.op not in ('sym', 'v', 'phi', 'true', 'false', 'none', 'raise', 'str', 'cls', 'bv') and a.op not in TM.BINDERS:
            return self.args(a, b, ctx, where, fail)
        if a.op == b.op and a.op in TM.BINDERS:
            return self.binder(a, b, ctx, where, fail)
        return fail

    def args(self, a, b, ctx, where, fail):
        if len(a.args) != len(b.args):
            return fail
        nm = a.args[0] if a.args and type(a.args[0]) is str else a.op
        for j, (x, y) in enumerate(zip(a.args, b.args)):
            d = self.arg(x, y, ctx, where + ('%s/%d' % (nm, j),))
            if d is False:
                return fail
            if d is not None:
                return d
        return None

    def arg(self, x, y, ctx, where):
        if x is y:
            return None
        if type(x) is T and type(y) is T:
            return self.eq(x, y, ctx, where)
        if type(x) is tuple and type(y) is tuple:
            if len(x) != len(y):
                return False
            for k, (p, q) in enumerate(zip(x, y)):
                d = self.arg(p, q, ctx, where + (str(k),))
                if d is not None:
                    return d
            return None
        return None if x == y else False

    def binder(self, a, b, ctx, where, fail):
        if a.op in ('map',):
            return self.maps(a, b, ctx, where)
        if len(a.args) != len(b.args):
            return fail
        v = fresh(ZERO, None)
        for t in (a, b):
            for x in t.args:
                if type(x) is T and x.op == 'P' and x.args[0] == 'I':
                    BOUNDS[v] = (ZERO, x)
                    break
        for x, y in zip(a.args[1:], b.args[1:]):
            x = subst(x, {mk('bv', a.args[0]): patom(v)}) if type(x) is T else x
            y = subst(y, {mk('bv', b.args[0]): patom(v)}) if type(y) is T else y
            d = self.arg(x, y, ctx, where)
            if d is False:
                return fail
            if d is not None:
                d.weak = d.weak or a.op not in ('sum', 'prod', 'exists')
                return d
        return None

    # -------------------------------------------------- numbers
    def polys(self, a, b, ctx, where):
        ctx.use()
        if a.args[0] != b.args[0]:
            if a.args[0] != 'I' and b.args[0] != 'I':
                d = self.eq(a.args[0][1], b.args[0][1], ctx, where + ('field',)) if a.args[0][1] is not None and b.args[0][1] is not None else None
                if d is not None:
                    return d
            return Diff(a, b, ctx, where)
        d = psub(a, b)
        if d is ZERO or (d.op == 'P' and not d.args[1]):
            return None
        if d.op == 'ite':
            return self.eq(d, pconst(0, a.args[0]), ctx, where)
        if d.args[0] == 'I':
            if le0(d) and le0(pneg(d)):
                return None
            if is_const(d):
                return Diff(a, b, ctx, where)
        # pair up atoms of a and b that differ only up to the context
        mp = {}
        ats = [x for m, _ in d.args[1] for x, _ in m]
        pos = uniq([x for m, c in d.args[1] if c > 0 for x, _ in m])
        neg = uniq([x for m, c in d.args[1] if c < 0 for x, _ in m])
        for x in pos:
            for y in neg:
                if x is not y and x.op == y.op and x not in mp and y not in mp and x.op not in ('sym', 'v', 'phi') and \
                        self.eq_atoms(x, y, ctx, where):
                    mp[x] = mp.get(y, patom(y, d.args[0] if kind_of(y) == 'felt' else 'I'))
                    break
        if mp:
            d2 = subst(d, mp)
            if d2.op == 'P' and not d2.args[1]:
                return None
            if d2 is not d:
                d = d2
        r = self.sums(d, ctx, where)
        if r is True:
            return None
        ind = [x for x in ats if x.op == 'b2i']
        if ind:
            d3 = subst(d, {x: ite(x.args[0], ONE, ZERO) for x in ind})
            if d3.op == 'ite':
                return self.eq(d3, pconst(0, a.args[0]), ctx, where)
        # report the atom pair that differs when there is exactly one on each side
        if len(pos) == 1 and len(neg) == 1 and pos[0].op == neg[0].op and pos[0].op not in ('sym', 'v', 'phi'):
            e = self.atoms_diff(pos[0], neg[0], ctx, where)
            if e is not None:
                return e
        return Diff(a, b, ctx, where)

    def atoms_diff(self, x, y, ctx, where):
        if x.op in TM.BINDERS:
            return self.binder(x, y, ctx, where, Diff(x, y, ctx, where))
        return self.args(x, y, ctx, where, Diff(x, y, ctx, where))

    def eq_atoms(self, x, y, ctx, where):
        return self.atoms_diff(x, y, ctx, where) is None

    def sums(self, d, ctx, where):
        """Group linear sum-atoms over the same range and compare the combined body with zero."""
        groups = {}
        rest = []
        for m, c in d.args[1]:
            ss = [(x, e) for x, e in m if x.op == 'sum' and e == 1]
            if len(ss) == 1:
                s = ss[0][0]
                others = tuple((x, e) for x, e in m if x is not s)
                groups.setdefault(s.args[2], []).append((s, TM._pmk(d.args[0], {others: c})))
            else:
                rest.append((m, c))
        if not groups or rest:
            return False
        for n, items in groups.items():
            v = fresh(ZERO, n)
            tot = pconst(0, d.args[0])
            for s, co in items:
                tot = padd(tot, pmul(co, subst(s.args[3], {mk('bv', s.args[0]): patom(v)})))
            if self.elems(tot, pconst(0, d.args[0]), v, n, ctx, where) is not None:
                return False
        return True

    # -------------------------------------------------- sequences
    def seqs(self, a, b, ctx, where):
        fail = Diff(a, b, ctx, where)
        if a.op == 'ite' or b.op == 'ite':
            return self.eq(a, b, ctx, where)
        if a.op != 'S' or b.op != 'S':
            return fail
        if a.args[0] != b.args[0] and a.args[1] and b.args[1] and not ({a.args[0], b.args[0]} <= {'list', 'bytes'} and False):
            if {a.args[0], b.args[0]} == {'list', 'tuple'} and where and where[0] == '~':
                pass
            else:
                return fail
        ctx.use()
        xs, ys = list(a.args[1]), list(b.args[1])
        # strip equal prefix and suffix
        while xs and ys:
            if xs[0] is ys[0]:
                xs.pop(0)
                ys.pop(0)
                continue
            if xs[-1] is ys[-1]:
                xs.pop()
                ys.pop()
                continue
            break
        if not xs and not ys:
            return None
        la, lb = TM.seqlen(mk('S', a.args[0], tuple(xs))), TM.seqlen(mk('S', b.args[0], tuple(ys)))
        d = self.eq(la, lb, ctx, where + ('length',))
        if d is not None:
            d.a, d.b = a, b
            d.where = where + ('length',)
            return d
        # segment by segment
        k = 0
        first = None
        while xs and ys:
            x, y = xs[0], ys[0]
            if x is y:
                xs.pop(0), ys.pop(0)
                k += 1
                continue
            if x.op == 'u' and y.op == 'u':
                d = self.eq(x.args[0], y.args[0], ctx, where + ('[%d]' % k,))
                if d is not None:
                    return d
                xs.pop(0), ys.pop(0)
                k += 1
                continue
            ctx.use()
            lx, ly = seglen(x), seglen(y)
            if lx is ly or (lx.op == 'P' and ly.op == 'P' and same(lx, ly)):
                if x.op == 'map' and y.op == 'map':
                    d = self.maps(x, y, ctx, where + ('[%d..]' % k,))
                    if d is None:
                        xs.pop(0), ys.pop(0)
                        k += 1
                        continue
                    first = d
                elif x.op == 'sl' and y.op == 'sl' and x.args[0].op == y.args[0].op == 'bslice' and x.args[1] is ZERO and y.args[1] is ZERO:
                    d = self.bslices(x.args[0], y.args[0], ctx, where + ('[%d..]' % k,))
                    if d is None:
                        xs.pop(0), ys.pop(0)
                        k += 1
                        continue
                    return d
                elif x.op == 'sl' and y.op == 'sl' and x.args[0].op == y.args[0].op and x.args[0].op not in ('sym', 'phi'):
                    if self.eq(x.args[1], y.args[1], ctx, where) is None:
                        d = self.args(x.args[0], y.args[0], ctx, where + ('[%d..]' % k,), Diff(x, y, ctx, where))
                        if d is None:
                            xs.pop(0), ys.pop(0)
                            k += 1
                            continue
                        first = d
                if first is None or x.op != 'map' or y.op != 'map':
                    d = self.blocks(x, y, a.args[0], ctx, where + ('[%d..]' % k,))
                    if d is None:
                        xs.pop(0), ys.pop(0)
                        k += 1
                        continue
                    if d is not False and first is None:
                        first = d
                d = self.pointwise(seq(a.args[0], [x]), seq(b.args[0], [y]), lx, ctx, where)
                if d is None:
                    xs.pop(0), ys.pop(0)
                    k += 1
                    continue
                return first or d
            if lx.op == 'P' and ly.op == 'P':
                if x.op != 'u' and le(ly, lx):
                    xs, ys = self.align(xs, ys, ly, a.args[0])
                elif y.op != 'u' and le(lx, ly):
                    ys, xs = self.align(ys, xs, lx, a.args[0])
                else:
                    break
                if xs is None:
                    return Diff(a, b, ctx, where, weak=True)
                continue
            break
        if not xs and not ys:
            return None
        ra, rb = seq(a.args[0], xs), seq(b.args[0], ys)
        d = self.pointwise(ra, rb, seqlen(ra), ctx, where)
        if d is not None and first is not None:
            return first
        return d

    def bslices(self, x, y, ctx, where):
        """Pieces of equal length of block sequences, each starting within its first block."""
        d = self.eq(x.args[1], y.args[1], ctx, where + ('offset',))
        if d is not None:
            return d
        p, q = x.args[0].args[1][0], y.args[0].args[1][0]
        v = fresh(ZERO, p.args[1])
        ctx.use()
        return self.eq(TM.inst(p, patom(v)), TM.inst(q, patom(v)), ctx, where + ('block',))

    def align(self, xs, ys, n, kind):
        """Cut the first segment of xs after n elements (the length of the first segment of ys)."""
        s = seq(kind, [xs[0]])
        p, q = slice_(s, ZERO, n), slice_(s, n, seqlen(s))
        if p.op != 'S' or q.op != 'S' or len(p.args[1]) != 1 or p.args[1][0] is xs[0]:
            return None, None
        self.tick()
        return list(p.args[1]) + list(q.args[1]) + xs[1:], ys

    def blocks(self, x, y, kind, ctx, where):
        """A comprehension against a segment cut into pieces of the same length."""
        if y.op == 'map' and x.op != 'map':
            x, y, flip = y, x, True
        elif x.op == 'map':
            flip = False
        else:
            return False
        h, n, body = x.args
        if is_unit_body(x):
            return False
        v = fresh(ZERO, n)
        p = subst(body, {mk('bv', h): patom(v)})
        L = seqlen(p)
        if L.op != 'P' or v in L.fv:
            return False
        for c2 in self.inst_exists(ctx, patom(v), n):
            c2.use()
            q = slice_(seq(kind, [y]), pmul(L, patom(v)), pmul(L, padd(patom(v), ONE)))
            if q.op == 'slice':
                return False
            d = self.eq(q, p, c2, where + ('[i]',)) if flip else self.eq(p, q, c2, where + ('[i]',))
            if d is not None:
                return d
        return None

    def pointwise(self, a, b, n, ctx, where):
        """Element at an arbitrary index."""
        self.tick()
        c = const_of(n)
        if n.op != 'P':
            return Diff(a, b, ctx, where, weak=True)
        if c is not None and c <= 64:
            for j in range(c):
                d = self.eq(index(a, pconst(j)), index(b, pconst(j)), ctx, where + ('[%d]' % j,))
                if d is not None:
                    return d
            return None
        v = fresh(ZERO, n)
        ctx.use()
        x, y = index(a, patom(v)), index(b, patom(v))
        if x.op == 'idx' and y.op == 'idx' and x.args[0].op == 'S' and y.args[0].op == 'S':
            return Diff(a, b, ctx, where, weak=True)
        return self.elems(x, y, v, n, ctx, where + ('[i]',))

    def maps(self, x, y, ctx, where):
        hx, nx, bx = x.args
        hy, ny, by = y.args
        d = self.eq(nx, ny, ctx, where + ('count',))
        if d is not None:
            return d
        v = fresh(ZERO, nx)
        p = subst(bx, {mk('bv', hx): patom(v)})
        q = subst(by, {mk('bv', hy): patom(v)})
        return self.elems(p, q, v, nx, ctx, where + ('[i]',))


for _n in ('decide_exists', 'residues', 'elems', 'elem', 'implies', 'unsat', 'inst_exists', 'norm', 'solved', 'solve', 'rewritten', 'eq', 'leaf',
           'boundary', 'infeasible', 'refuted', 'tighten', 'instances', 'norm_lit', 'shape', 'args', 'binder', 'polys', 'sums', 'seqs', 'blocks',
           'pointwise', 'maps'):
    setattr(Comparer, _n, scoped(getattr(Comparer, _n)))

MATCHABLE = {'len', 'frombytes', 'idx', 'item', 'call', 'tobytes', 'fint', 'attr', 'slice', 'sl'}


def ematch(body, bv, terms):
    """Index expressions at which a subterm of the body (a pattern in bv) becomes a subterm of the terms."""
    pats = [t for t in subterms([body]) if t.op in MATCHABLE and bv in t.fv]
    if not pats:
        return []
    top = [t for t in pats if t.op != 'sl'] or pats
    goal = {}
    for t in subterms(terms):
        if t.op in MATCHABLE:
            goal.setdefault(t.op, []).append(t)
    out = []
    for p in top:
        for g in goal.get(p.op, ()):
            i = unify(p, g, bv)
            if i is not None and i not in out and not any(x.op == 'bv' for x in i.fv):
                q = subst(p, {bv: i})
                if q is g or (q.op == 'P' and len(q.args[1]) == 1 and q.args[1][0] == (((g, 1),), 1)):
                    out.append(i)
    return sorted(out, key=key)[:8]


def unify(p, g, bv):
    if p is g:
        return None
    if type(p) is tuple and type(g) is tuple:
        if len(p) != len(g):
            return None
        for x, y in zip(p, g):
            r = unify(x, y, bv)
            if r is not None:
                return r
        return None
    if type(p) is not T or type(g) is not T or bv not in p.fv:
        return None
    if p is bv:
        return num(g)
    if p.op == 'P' and g.op == 'P' and p.args[0] == 'I' and g.args[0] == 'I':
        co, rest = {}, {}
        for m, c in p.args[1]:
            d = dict(m)
            if bv in d:
                if d[bv] != 1:
                    return None
                co[tuple(ae for ae in m if ae[0] is not bv)] = c
            elif any(bv in a.fv for a in d):
                return None
            else:
                rest[m] = c
        if not co:
            return None
        q, r = TM._split_div(psub(g, TM._pmk('I', rest)), TM._pmk('I', co))
        return q if r is ZERO else None
    if p.op != g.op:
        return None
    return unify(p.args, g.args, bv)


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


_weak_memo = {}


def weak(t):
    """Does the term involve a construct the normal form does not decide?"""
    if type(t) is tuple:
        return any(weak(x) for x in t)
    if type(t) is not T:
        return False
    r = _weak_memo.get(t)
    if r is None:
        r = t.op in WEAK or any(weak(x) for x in t.args)
        _weak_memo[t] = r
    return r
