"""Normal-form value domain.

Every value the analysis computes is an interned term.  Constructors keep terms
in normal form, so that equal behaviour yields (mostly) identical terms and
`equal` in compare.py only has to bridge what is left.

Scalars     P(ring, monomials)   polynomial over Z ('I') or over a field
                                 (('F', field)), with integer coefficients
Booleans    ite(atom, t, f)      reduced ordered decision diagrams, leaves
                                 TRUE/FALSE; the same node type is used for
                                 guarded (gated-phi) values
Sequences   S(kind, segments)    segments: u(e) | sl(base, lo, hi) |
                                 map(h, n, body)   (n-fold concatenation)
"""
import hashlib
import itertools
import sys

sys.setrecursionlimit(20000)


class Blowup(Exception):
    """The normal form grew beyond the analysis budget."""


class T:
    __slots__ = ('op', 'args', '_hash', '_key', 'fv', 'ht', '_memo')

    def __hash__(self):
        return self._hash

    def __repr__(self):
        from sa.show import show
        return show(self)


_table = {}
EMPTY = frozenset()


def _walk(args, fv, ht):
    for a in args:
        if type(a) is T:
            fv |= a.fv
            if a.ht > ht:
                ht = a.ht
        elif type(a) is tuple:
            fv, ht = _walk(a, fv, ht)
    return fv, ht


LEAVES = ('v', 'phi', 'sym', 'bv')


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._hash = hash(k)
        t._key = None
        t._memo = None
        fv, ht = _walk(args, EMPTY, 0)
        if op in LEAVES:
            fv = fv | {t}
        if op in BINDERS:
            ht = max(ht, args[0])
        t.fv = fv
        t.ht = ht
        _table[k] = t
    return t


BINDERS = {'map', 'sum', 'prod', 'exists', 'first', 'last', 'fold', 'wfold', 'filt', 'firstidx'}


def _ser(a):
    if type(a) is T:
        return key(a)
    if type(a) is tuple:
        return '(' + ','.join(_ser(x) for x in a) + ')'
    return type(a).__name__[0] + repr(a)


def key(t):
    """Deterministic structural digest, used for ordering."""
    if t._key is None:
        t._key = hashlib.sha1((t.op + ':' + ','.join(_ser(a) for a in t.args)).encode()).hexdigest()
    return t._key


# ---------------------------------------------------------------- leaves
TRUE = mk('true')
FALSE = mk('false')
NONE = mk('none')
_uid = itertools.count(1)
BOUNDS = {}     # leaf term -> (lo poly inclusive | None, hi poly exclusive | None)
LEN = {}        # leaf/base term -> declared length poly


def fresh(lo=None, hi=None, kind='int'):
    v = mk('v', next(_uid), kind)
    if lo is not None or hi is not None:
        BOUNDS[v] = (lo, inhabited(hi) if lo is ZERO else hi)
    return v


def inhabited(n):
    """Upper bound of an index into a non-empty range of length n = max(0, x)."""
    if n is not None and n.op == 'P' and len(n.args[1]) == 1 and n.args[1][0][1] == 1 and len(n.args[1][0][0]) == 1:
        a, e = n.args[1][0][0][0]
        if e == 1 and a.op == 'max' and len(a.args) == 2 and ZERO in a.args:
            return a.args[1] if a.args[0] is ZERO else a.args[0]
    return n


def sym(name, kind, lo=None, hi=None, length=None):
    s = mk('sym', name, kind)
    if lo is not None or hi is not None:
        BOUNDS[s] = (as_int(lo) if lo is not None else None, as_int(hi) if hi is not None else None)
    if length is not None:
        LEN[s] = length
    return s


def unsup(why):
    return mk('unsup', why)


def strc(s):
    return mk('str', s)


def as_int(x):
    if type(x) is int:
        return pconst(x)
    return x


# ---------------------------------------------------------------- kinds
def kind_of(t):
    """Static kind: 'int','bool','bytes','str','none','felt',('list',k),..."""
    op = t.op
    if op == 'P':
        return 'int' if t.args[0] == 'I' else 'felt'
    if op in ('true', 'false'):
        return 'bool'
    if op == 'none':
        return 'none'
    if op == 'str':
        return 'str'
    if op == 'S':
        k = t.args[0]
        return 'bytes' if k == 'bytes' else (k, None)
    if op == 'ite':
        a, b = t.args[1], t.args[2]
        ka = kind_of(a)
        if ka in ('none', 'any'):
            return kind_of(b)
        return ka
    if op in ('sym', 'v', 'phi', 'attr', 'call', 'idx', 'item', 'fcall', 'rec', 'last', 'fold', 'wfold', 'acc', 'rand', 'first'):
        return t.args[-1]
    if op in ('xbytes',):
        return 'bytes'
    if op in ('tobytes',):
        return 'bytes'
    if op in ('xvec',):
        return ('list', 'felt')
    if op in INT_OPS:
        return 'int'
    if op in BOOL_OPS:
        return 'bool'
    if op in ('fint', 'frombytes'):
        return 'int'
    if op in ('sum', 'prod'):
        return 'int' if t.args[1] == 'I' else 'felt'
    if op == 'cls':
        return ('cls', t.args[0])
    if op == 'set':
        return 'set'
    if op in ('slice', 'bslice'):
        return kind_of(t.args[0])
    return 'any'


INT_OPS = {'fdiv', 'mod', 'pow2', 'ipow', 'len', 'bitlen', 'ixor', 'iand', 'ior', 'min', 'max', 'b2i', 'log2', 'bits', 'bitrev', 'firstidx', 'card', 'powmod'}
BOOL_OPS = {'lt0', 'eq0', 'eqv', 'ltv', 'isnone', 'member', 'exists', 'raises', 'isinst', 'truth'}


def is_bool(t):
    while t.op == 'ite':
        t = t.args[1]
    return t.op in ('true', 'false')


# ---------------------------------------------------------------- ite / BDD
_ite_memo = {}
_ite_budget = [0]


def _top(t):
    return t.args[0] if t.op == 'ite' else None


def _cof(t, atom, val):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def node(atom, hi, lo):
    if hi is lo:
        return hi
    return mk('ite', atom, hi, lo)


def ite(c, a, b):
    """if-then-else; c is a boolean diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.op != 'ite':
        c = atom_bool(c)
        if c in (TRUE, FALSE):
            return ite(c, a, b)
    tops = [x.args[0] for x in (c, a, b) if x.op == 'ite']
    at = min(tops, key=key)
    hi = ite(_cof(c, at, True), _cof(a, at, True), _cof(b, at, True))
    lo = ite(_cof(c, at, False), _cof(a, at, False), _cof(b, at, False))
    r = merge_leaves(at, hi, lo)
    _ite_memo[k] = r
    return r


def merge_leaves(at, hi, lo):
    if hi is lo:
        return hi
    # equality test made redundant by substitution: x == e ? A : B with B[x:=e] = A
    if at.op == 'eq0' and hi.op != 'ite' and lo.op != 'ite' and not is_bool(hi):
        s = solve_eq(at.args[0])
        if s is not None:
            x, e = s
            if x.fv and (x.fv <= lo.fv or x.fv <= hi.fv):
                if subst(lo, {x: e}) is subst(hi, {x: e}):
                    # the two sides agree whenever the test holds
                    if subst(lo, {x: e}) is hi or True:
                        return lo
    # lists/tuples of the same shape differing in boolean components only
    if hi.op == 'S' and lo.op == 'S' and hi.args[0] == lo.args[0]:
        m = _merge_bool_units(at, hi, lo)
        if m is not None:
            return m
    return mk('ite', at, hi, lo)


def _merge_bool_units(at, hi, lo):
    a, b = hi.args[1], lo.args[1]
    if len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        if x is y:
            out.append(x)
        elif x.op == 'u' and y.op == 'u' and is_bool(x.args[0]) and is_bool(y.args[0]):
            out.append(mk('u', ite(mk('ite', at, TRUE, FALSE), x.args[0], y.args[0])))
        elif x.op == 'u' and y.op == 'u' and x.args[0].op == 'S' and y.args[0].op == 'S' \
                and x.args[0].args[0] == y.args[0].args[0]:
            m = _merge_bool_units(at, x.args[0], y.args[0])
            if m is None:
                return None
            out.append(mk('u', m))
        else:
            return None
    return mk('S', hi.args[0], tuple(out))


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def bxor(a, b):
    return ite(a, bnot(b), b)


def leaves(t, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if t.op == 'ite':
        leaves(t.args[1], out, seen)
        leaves(t.args[2], out, seen)
    else:
        out.append(t)
    return out


def atoms_of(t, out=None, seen=None):
    """Atoms tested in the diagram part of t."""
    if out is None:
        out, seen = set(), set()
    if t.op == 'ite' and t not in seen:
        seen.add(t)
        out.add(t.args[0])
        atoms_of(t.args[1], out, seen)
        atoms_of(t.args[2], out, seen)
    return out


def lift(f, *xs):
    """Apply f to guarded values, case-splitting on their guards."""
    tops = [x.args[0] for x in xs if type(x) is T and x.op == 'ite' and not is_bool(x)]
    if not tops:
        return f(*xs)
    at = min(tops, key=key)
    _ite_budget[0] += 1
    if _ite_budget[0] > 400000:
        raise Blowup('guarded value too large')

    def co(x, v):
        return _cof(x, at, v) if type(x) is T else x
    hi = lift(f, *[co(x, True) for x in xs])
    lo = lift(f, *[co(x, False) for x in xs])
    return ite(mk('ite', at, TRUE, FALSE), hi, lo)


def mapleaves(f, t):
    if t.op == 'ite':
        return ite(mk('ite', t.args[0], TRUE, FALSE), mapleaves(f, t.args[1]), mapleaves(f, t.args[2]))
    return f(t)


# ---------------------------------------------------------------- polynomials
FOLD = {}       # field class -> modulus: constants of these fields are reduced


def _modulus(ring):
    return FOLD.get(ring[1]) if FOLD and ring != 'I' else None


def _pmk(ring, d):
    k = _modulus(ring)
    if k is not None:
        d = {m: c % k for m, c in d.items()}
    ms = tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda mc: tuple((key(a), _ser(e)) for a, e in mc[0])))
    return mk('P', ring, ms)


_CONST = {}


def pconst(c, ring='I'):
    r = _CONST.get((c, ring))
    if r is None:
        r = _CONST[(c, ring)] = _pmk(ring, {(): int(c)})
    return r


ZERO = pconst(0)
ONE = pconst(1)


def patom(a, ring='I'):
    return mk('P', ring, ((((a, 1),), 1),))


def is_const(p):
    return p.op == 'P' and (p.args[1] == () or (len(p.args[1]) == 1 and p.args[1][0][0] == ()))


def cval(p):
    return p.args[1][0][1] if p.args[1] else 0


def const_of(t):
    """Python int if t is an integer constant, else None."""
    if t.op == 'P' and is_const(t):
        return cval(t)
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    return None


def _ring(a, b):
    ra, rb = a.args[0], b.args[0]
    if ra == rb:
        return ra
    if ra == 'I' or rb == 'I':
        if a.args[1] == () or b.args[1] == () or True:
            return rb if ra == 'I' else ra
    fa, fb = ra[1], rb[1]
    if fa is None:
        return rb
    if fb is None:
        return ra
    return ('F', mk('fieldmix', fa, fb))


def num(t):
    """Coerce a scalar term to polynomial form."""
    if t.op == 'P':
        return t
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if t.op == 'ite':
        if is_bool(t):
            b = _bit_test(t.args[0])
            if b is not None and t.args[1] in (TRUE, FALSE) and t.args[2] in (TRUE, FALSE):
                return psub(ONE, b) if t.args[1] is TRUE else b
            if t.args[1] is FALSE and t.args[2] is TRUE:
                return psub(ONE, patom(mk('b2i', bnot(t))))
            return patom(mk('b2i', t))
        return mapleaves(num, t)
    k = kind_of(t)
    if k == 'felt':
        return patom(t, ('F', field_of(t)))
    if k == 'bool':
        return num(atom_bool(t))
    return patom(t)


def _bit_test(at):
    """b if the atom is b == 0 for a value b in {0, 1}."""
    if at.op != 'eq0' or at.args[0].args[0] != 'I' or len(at.args[0].args[1]) != 1:
        return None
    m, c = at.args[0].args[1][0]
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    if a.op == 'mod' and const_of(a.args[1]) == 2 or a.op in ('fdiv', 'idx') and lt(at.args[0], pconst(2)) and le(ZERO, at.args[0]):
        return at.args[0]
    return None


def field_of(t):
    """Field tag of a field-element atom."""
    if t in FIELD:
        return FIELD[t]
    if t.op == 'idx':
        return field_of_base(t.args[0])
    if t.op in ('sum', 'prod'):
        r = t.args[1]
        return r[1] if r != 'I' else None
    return field_of_base(t)


FIELD = {}


def field_of_base(b):
    if b.op == 'xvec':
        return b.args[2]
    if b in FIELD:
        return FIELD[b]
    if b.op == 'call' and b.args[0] in CALL_FIELD:
        f = CALL_FIELD[b.args[0]]
        return f(b) if callable(f) else f
    if b.op == 'item':
        f = ITEM_FIELD.get(base_root(b))
        return f(b) if callable(f) else f
    if b.op == 'idx':
        return field_of_base(b.args[0])
    return None


CALL_FIELD = {}


_SUM, _PROD, _SCALED = {}, {}, {}


def _plain(p):
    """No atom whose normal form depends on the facts in force."""
    return not any(a.op in ('fdiv', 'mod', 'pow2') for m, _ in p.args[1] for a, _ in m)


def _padd(a, b):
    r = _SUM.get((a, b))
    if r is not None:
        return r
    k = (a, b)
    if a.op != 'P':
        a = num(a)
    if b.op != 'P':
        b = num(b)
    if a.op == 'ite' or b.op == 'ite':
        return padd(a, b)
    d = dict(a.args[1])
    for m, c in b.args[1]:
        d[m] = d.get(m, 0) + c
    r = _pmk(_ring(a, b), d)
    if _plain(r):
        _SUM[k] = r
        return r
    return _divmod_join(r)


def padd(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = lift(_padd, r, x)
    return r


def _pscale(a, k):
    r = _SCALED.get((a, k))
    if r is not None:
        return r
    b = num(a)
    if b.op == 'ite':
        return pscale(b, k)
    r = _pmk(b.args[0], {m: c * k for m, c in b.args[1]})
    if a.op == 'P':
        _SCALED[(a, k)] = r
    return r


def pscale(a, k):
    return lift(lambda x: _pscale(x, k), a)


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


def _exp_add(e1, e2):
    if type(e1) is int and type(e2) is int:
        return e1 + e2
    r = padd(as_int(e1), as_int(e2))
    c = const_of(r)
    return c if c is not None else r


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = _exp_add(d[a], e) if a in d else e
    # merge powers of two
    p2 = [a for a in d if a.op == 'pow2']
    if p2 and (len(p2) > 1 or d[p2[0]] != 1):
        tot = ZERO
        for a in p2:
            tot = padd(tot, pmul(a.args[0], as_int(d.pop(a))))
        r = pow2(tot)
        return None, d, r
    out = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: (key(ae[0]), _ser(ae[1]))))
    return out, None, None


def _pmul(a, b):
    r = _PROD.get((a, b))
    if r is not None:
        return r
    k = (a, b)
    if a.op != 'P':
        a = num(a)
    if b.op != 'P':
        b = num(b)
    if a.op == 'ite' or b.op == 'ite':
        return pmul(a, b)
    ring = _ring(a, b)
    if len(a.args[1]) * len(b.args[1]) > 3000:
        raise Blowup('polynomial too large')
    d = {}
    extra = None
    for m1, c1 in a.args[1]:
        for m2, c2 in b.args[1]:
            m, dd, r = _mono_mul(m1, m2)
            if m is not None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                rest = _pmk(ring, {tuple(sorted(dd.items(), key=lambda ae: key(ae[0]))): c1 * c2})
                t = pmul(rest, r)
                extra = t if extra is None else padd(extra, t)
    res = _pmk(ring, d)
    if extra is None and _plain(res):
        _PROD[k] = res
        return res
    res = _divmod_join(res)
    if extra is not None:
        res = padd(res, extra)
    return res


def pmul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = lift(_pmul, r, x)
    return r


def _divmod_join(p):
    """y * (x // y)  ->  x - x % y"""
    if p.args[0] != 'I':
        return p
    for m, c in p.args[1]:
        for a, e in m:
            if a.op == 'fdiv' and e == 1:
                x, y = a.args
                if len(y.args[1]) != 1:
                    rest = None
                    if is_const(y):
                        rest = y
                    if rest is None:
                        continue
                mm = tuple((b, f) for b, f in m if b is not a)
                q, r = _split_div(_pmk('I', {mm: c}), y)
                if r is ZERO and q is not ZERO:
                    d = dict(p.args[1])
                    del d[m]
                    return _padd(_pmk('I', d), _pmul(q, psub(x, mod(x, y))))
            # y * ((x // y) % z)  ->  x % (y*z) - x % y
            if a.op == 'mod' and e == 1 and is_const(a.args[1]):
                z = a.args[0].args[1]
                if len(z) == 1 and z[0][1] == 1 and len(z[0][0]) == 1 and z[0][0][0][1] == 1 and z[0][0][0][0].op == 'fdiv':
                    x, y = z[0][0][0][0].args
                    if is_const(y) and cval(y) > 1 and c % cval(y) == 0:
                        d = dict(p.args[1])
                        del d[m]
                        mm = tuple((b, f) for b, f in m if b is not a)
                        return _padd(_pmk('I', d), _pmul(_pmk('I', {mm: c // cval(y)}), psub(mod(x, pmul(y, a.args[1])), mod(x, y))))
    return p


def fdiv_raw(x, y):
    return patom(mk('fdiv', x, y))


def ppow(a, e):
    """a ** e for int or term exponent."""
    if type(e) is int:
        if e >= 0 and e <= 64:
            def f(x):
                x = num(x)
                if x.op == 'ite':
                    return ppow(x, e)
                if len(x.args[1]) <= 1 or e <= 4:
                    r = pconst(1, x.args[0])
                    for _ in range(e):
                        r = pmul(r, x)
                    return r
                return patom(mk('ipow', x, pconst(e)), x.args[0])
            return lift(f, a)
        return lift(lambda x: _ppow_sym(num(x), pconst(e)), a)
    return lift(lambda x, y: ppow(x, const_of(y)) if const_of(y) is not None and const_of(y) >= 0 and const_of(y) <= 64
                else _ppow_sym(num(x), num(y)), a, e)


def _ppow_sym(x, e):
    if FOLD and x.op == 'P' and is_const(x) and is_const(e) and cval(e) >= 0:
        k = _modulus(x.args[0])
        if k is not None:
            return pconst(pow(cval(x), cval(e), k), x.args[0])
    if x.op == 'P' and x.args[0] == 'I' and is_const(x):
        if cval(x) == 2:
            return pow2(e)
        if is_const(e) and cval(e) >= 0 and cval(e) < 5000:
            return pconst(cval(x) ** cval(e))
        if cval(x) in (0, 1):
            return x if cval(x) == 1 else ite(eq0(e), ONE, ZERO)
    # x**(a + c) = x**a * x**c ; monomials distribute
    if len(x.args[1]) == 1 and x.args[1][0][1] == 1:
        m = x.args[1][0][0]
        d = {}
        for a, k in m:
            ee = pmul(as_int(k), e)
            c = const_of(ee)
            d[a] = c if c is not None else ee
        out = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda ae: (key(ae[0]), _ser(ae[1]))))
        return _pmk(x.args[0], {out: 1})
    return patom(mk('ipow', x, e), x.args[0])


def finv(a):
    """Multiplicative inverse in a field."""
    def f(x):
        x = num(x)
        if x.op == 'ite':
            return finv(x)
        if x.args[0] == 'I':
            x = mk('P', ('F', None), x.args[1])
        if is_const(x) and cval(x) in (1, -1):
            return x
        k = _modulus(x.args[0])
        if k is not None and len(x.args[1]) <= 1:
            c = pow(cval(x), k - 2, k)
            if is_const(x):
                return pconst(c, x.args[0])
            x = _pmk(x.args[0], {x.args[1][0][0]: 1})
            return pmul(pconst(c, x.args[0]), finv(x))
        if len(x.args[1]) == 1 and x.args[1][0][1] in (1, -1) and x.args[1][0][0]:
            m, c = x.args[1][0]
            out = tuple((at, (-e if type(e) is int else pneg(e))) for at, e in m)
            out = tuple(sorted(out, key=lambda ae: (key(ae[0]), _ser(ae[1]))))
            return _pmk(x.args[0], {out: c})
        return patom(mk('inv', x), x.args[0])
    return lift(f, a)


def embed(x, field):
    """Image of an integer in a field."""
    def f(p, fl):
        p = num(p)
        if p.op == 'ite':
            return embed(p, fl)
        fi = [a for m, _ in p.args[1] for a, e in m if a.op == 'fint' and a.args[0].args[0] == ('F', fl) and type(e) is int and e > 0]
        if not fi:
            return _pmk(('F', fl), dict(p.args[1])) if FOLD else mk('P', ('F', fl), p.args[1])
        # the image of the representative of a field element is the element
        r = pconst(0, ('F', fl))
        for m, c in p.args[1]:
            t = mk('P', ('F', fl), ((tuple((a, e) for a, e in m if a not in fi), c),))
            for a, e in m:
                if a in fi:
                    t = pmul(t, ppow(a.args[0], pconst(e)))
            r = padd(r, t)
        return r
    return lift(f, x, field)


def pow2(e):
    def f(x):
        x = num(x)
        if x.op == 'ite':
            return pow2(x)
        c = dict(x.args[1]).get((), 0)
        if is_const(x):
            if 0 <= c < 5000:
                return pconst(2 ** c)
            return patom(mk('pow2', x))
        if 0 < c < 5000 and all(k > 0 for m, k in x.args[1] if m):
            return _pscale(patom(mk('pow2', _padd(x, pconst(-c)))), 2 ** c)
        return patom(mk('pow2', x))
    return lift(f, e)


# ---- integer division and modulus -------------------------------------------------
def _split_div(p, q):
    """p = q*a + r with q a monomial polynomial or constant: collect divisible terms."""
    if len(q.args[1]) != 1:
        # try exact structural equality p = k*q
        if p.args[1] and len(p.args[1]) == len(q.args[1]):
            m0, c0 = q.args[1][0]
            cp = dict(p.args[1]).get(m0)
            if cp is not None and cp % c0 == 0:
                k = cp // c0
                if _pscale(q, k) is p:
                    return pconst(k), ZERO
        return _pdivide(p, q)
    mq, cq = q.args[1][0]
    dq = dict(mq)
    quo, rem = {}, {}
    for m, c in p.args[1]:
        dm = dict(m)
        ok = all(type(e) is int and a in dm and type(dm[a]) is int and dm[a] >= e for a, e in dq.items())
        if ok:
            k, r = divmod(c, cq)
            mm = {a: (e - dq.get(a, 0) if type(e) is int else e) for a, e in dm.items()}
            mm = tuple(sorted(((a, e) for a, e in mm.items() if e != 0), key=lambda ae: (key(ae[0]), _ser(ae[1]))))
            if k:
                quo[mm] = quo.get(mm, 0) + k
            if r:
                rem[m] = rem.get(m, 0) + r
        else:
            rem[m] = c
    return _pmk('I', quo), _pmk('I', rem)


def _deg(m):
    return sum(e for _, e in m)


def _pdivide(p, q):
    """Polynomial division by a sum: p = q*a + r, by the leading monomial of q."""
    if any(type(e) is not int for m, _ in q.args[1] for _, e in m):
        return ZERO, p
    mq, cq = max(q.args[1], key=lambda mc: (_deg(mc[0]), [key(a) for a, _ in mc[0]]))
    dq = dict(mq)
    quo, rem = ZERO, p
    for _ in range(12):
        for m, c in sorted((mc for mc in rem.args[1] if all(type(e) is int for _, e in mc[0])), key=lambda mc: -_deg(mc[0])):
            dm = dict(m)
            if c % cq == 0 and all(dm.get(a, 0) >= e for a, e in dq.items()):
                mm = {a: e - dq.get(a, 0) for a, e in dm.items()}
                mm = tuple(sorted(((a, e) for a, e in mm.items() if e), key=lambda ae: (key(ae[0]), _ser(ae[1]))))
                t = _pmk('I', {mm: c // cq})
                quo = _padd(quo, t)
                rem = _padd(rem, _pscale(_pmul(t, q), -1))
                if rem.op != 'P':
                    return ZERO, p
                break
        else:
            return quo, rem
    return ZERO, p


def fdiv(a, b):
    def f(p, q):
        p, q = num(p), num(q)
        if p.op == 'ite' or q.op == 'ite':
            return fdiv(p, q)
        if is_const(q):
            cq = cval(q)
            if cq == 1:
                return p
            if cq == 0:
                return unsup('division by zero')
            if is_const(p):
                return pconst(cval(p) // cq)
        quo, rem = _split_div(p, q)
        if rem is ZERO:
            return quo
        # 0 <= rem < q ?
        if le(ZERO, rem) and lt(rem, q):
            return quo
        if is_const(rem) and cval(rem) < 0 and le(pneg(rem), q):
            return psub(quo, ONE)
        # floor(-x / q) = -(1 + floor((x-1)/q))   (q > 0)
        if rem.args[1] and _leadneg(rem) and lt(ZERO, q):
            inner = psub(pneg(rem), ONE)
            return psub(quo, padd(ONE, fdiv(inner, q)))
        # (x // c1) // c2 = x // (c1*c2)
        if len(rem.args[1]) == 1 and rem.args[1][0][1] == 1 and len(rem.args[1][0][0]) == 1 \
                and rem.args[1][0][0][0][0].op == 'fdiv' and rem.args[1][0][0][0][1] == 1:
            x, c1 = rem.args[1][0][0][0][0].args
            return padd(quo, fdiv(x, pmul(c1, q)))
        r = bit_extract_div(rem, q)
        if r is not None:
            return padd(quo, r)
        if is_const(rem) and log2_of(rem) is not None and log2_of(q) is not None and le(log2_of(q), log2_of(rem)):
            return padd(quo, pow2(psub(log2_of(rem), log2_of(q))))
        return padd(quo, patom(mk('fdiv', rem, q)))
    return lift(f, a, b)


def _leadneg(p):
    """Sign convention for x and -x-1 style duals: all non-constant coefficients negative-led."""
    for m, c in p.args[1]:
        if m != ():
            return c < 0
    return False


def bit_extract_div(rem, q):
    """(sum_r b_r 2^r) // 2^k for a 'bits' atom."""
    if len(rem.args[1]) == 1 and rem.args[1][0][1] == 1 and len(rem.args[1][0][0]) == 1:
        a, e = rem.args[1][0][0][0]
        if e == 1 and a.op == 'bits':
            k = log2_of(q)
            if k is not None:
                base, off, w = a.args
                if le(w, k):
                    return ZERO
                if le(k, w):
                    return bits(base, padd(off, k), psub(w, k))
    return None


def log2_of(q):
    """k if q is syntactically 2**k."""
    q = num(q)
    if is_const(q):
        c = cval(q)
        if c > 0 and c & (c - 1) == 0:
            return pconst(c.bit_length() - 1)
        return None
    if len(q.args[1]) == 1:
        m, c = q.args[1][0]
        if len(m) == 1 and m[0][0].op == 'pow2' and m[0][1] == 1 and c > 0 and c & (c - 1) == 0:
            return padd(m[0][0].args[0], pconst(c.bit_length() - 1))
    return None


def bits(base, off, w):
    """Integer whose bit r (0 <= r < w) is base[off+r]."""
    c = const_of(w)
    if c == 0:
        return ZERO
    return patom(mk('bits', base, off, w))


def mod(a, b):
    def f(p, q):
        p, q = num(p), num(q)
        if p.op == 'ite' or q.op == 'ite':
            return mod(p, q)
        if is_const(q):
            cq = cval(q)
            if cq == 1:
                return ZERO
            if cq == 0:
                return unsup('mod by zero')
            if is_const(p):
                return pconst(cval(p) % cq)
        quo, rem = _split_div(p, q)
        if rem is ZERO:
            return ZERO
        if le(ZERO, rem) and lt(rem, q):
            return rem
        if is_const(rem) and cval(rem) < 0 and le(pneg(rem), q):
            return padd(rem, q)
        if quo is not ZERO and le(ZERO, p) and lt(p, q):
            return p
        if FACTS and not is_const(q) and lt(rem, ZERO) and le(ZERO, padd(rem, q)):
            return padd(rem, q)
        if len(rem.args[1]) == 1 and rem.args[1][0][1] == 1 and len(rem.args[1][0][0]) == 1:
            at, e = rem.args[1][0][0][0]
            if e == 1 and at.op == 'mod':
                x, m = at.args
                # (x mod m) mod q = x mod q when q | m
                if _split_div(m, q)[1] is ZERO:
                    return mod(x, q)
            if e == 1 and at.op == 'bits':
                k = log2_of(q)
                if k is not None:
                    base, off, w = at.args
                    if le(w, k):
                        return rem
                    if le(k, w):
                        if const_of(k) == 1:
                            return num(index(base, off))
                        return bits(base, off, k)
        if _is_modulus(q):
            r = _strip_mod(rem, q)
            if r is not None:
                return mod(r, q)
        return patom(mk('mod', rem, q))
    return lift(f, a, b)


def _is_modulus(q):
    if is_const(q):
        return cval(q) > 1 << 31 and log2_of(q) is None
    if len(q.args[1]) == 1 and q.args[1][0][1] == 1 and len(q.args[1][0][0]) == 1:
        at, e = q.args[1][0][0][0]
        return e == 1 and at.op == 'attr' and at.args[1] == 'MODULUS'
    return False


def _strip_mod(p, q):
    """p with residues modulo q inside its monomials replaced by what they are residues of; None if there are none."""
    hit = {}
    for m, _ in p.args[1]:
        for at, _e in m:
            if at.op == 'mod' and at.args[1] is q:
                hit[at] = at.args[0]
    if not hit:
        return None
    out = ZERO
    for m, c in p.args[1]:
        x = pconst(c)
        for at, e in m:
            for _ in range(e):
                x = pmul(x, hit.get(at) or patom(at))
        out = padd(out, x)
    return out


def powmod(a, b, m):
    """pow(a, b, m) for b >= 0, m >= 2."""
    def f(a, b, m):
        a, b, m = num(a), num(b), num(m)
        if is_const(b) and cval(b) in (0, 1, 2):
            return mod((ONE, a, pmul(a, a))[cval(b)], m)
        if is_const(a) and is_const(b) and is_const(m) and cval(b) >= 0 and cval(m) > 0:
            return pconst(pow(cval(a), cval(b), cval(m)))
        a = mod(a, m)
        if a is ZERO and lt(ZERO, b):
            return ZERO
        if a is ONE:
            return ONE
        return patom(mk('powmod', a, b, m))
    return lift(f, a, b, m)


def imin(a, b):
    def f(x, y):
        x, y = num(x), num(y)
        if le(x, y):
            return x
        if le(y, x):
            return y
        l = sorted((x, y), key=key)
        return patom(mk('min', *l))
    return lift(f, a, b)


def imax(a, b):
    def f(x, y):
        x, y = num(x), num(y)
        if le(x, y):
            return y
        if le(y, x):
            return x
        l = sorted((x, y), key=key)
        return patom(mk('max', *l))
    return lift(f, a, b)


def bitlen(a):
    def f(x):
        x = num(x)
        if is_const(x):
            return pconst(cval(x).bit_length())
        y = padd(x, ONE)
        if _is_modulus(y):
            return patom(mk('bitlen', y))        # an odd number and its predecessor have the same bit length
        return patom(mk('bitlen', x))
    return lift(f, a)


def ixor(a, b):
    def parts(x):
        x = num(x)
        if len(x.args[1]) == 1 and x.args[1][0][1] == 1 and len(x.args[1][0][0]) == 1 \
                and x.args[1][0][0][0][0].op == 'ixor' and x.args[1][0][0][0][1] == 1:
            return list(x.args[1][0][0][0][0].args[0])
        if x is ZERO:
            return []
        return [x]

    def f(x, y):
        s = {}
        for p in parts(x) + parts(y):
            if p in s:
                del s[p]
            else:
                s[p] = True
        cs = [p for p in s if is_const(p)]
        c = 0
        for p in cs:
            c ^= cval(p)
            del s[p]
        if c:
            s[pconst(c)] = True
        l = sorted(s, key=key)
        if not l:
            return ZERO
        if len(l) == 1:
            return l[0]
        if len(l) == 2 and disjoint_bits(*l):
            return padd(*l)
        return patom(mk('ixor', tuple(l)))
    return lift(f, a, b)


def iand(a, b):
    def f(x, y):
        x, y = num(x), num(y)
        if is_const(x) and not is_const(y):
            x, y = y, x
        if is_const(x) and is_const(y):
            return pconst(cval(x) & cval(y))
        if x is y:
            return x
        if is_const(y):
            c = cval(y)
            if c == 0:
                return ZERO
            if c > 0 and c & (c + 1) == 0:
                return mod(x, pconst(c + 1))
            # high mask within a byte: x & 0xFE = x - x%2  for 0 <= x < 256
            if c > 0:
                low = (c & -c)
                top = c + low
                if top & (top - 1) == 0 and le(ZERO, x) and lt(x, pconst(top)):
                    return psub(x, mod(x, pconst(low)))
                if c < 1 << 16:
                    out, k = ZERO, 0
                    while c >> k:
                        if not c >> k & 1:
                            k += 1
                            continue
                        w = 0
                        while c >> (k + w) & 1:
                            w += 1
                        out = padd(out, pmul(pconst(1 << k), mod(fdiv(x, pconst(1 << k)), pconst(1 << w))))
                        k += w
                    return out
        # 2**k - 1 masks
        for u, w in ((x, y), (y, x)):
            k = log2_of(padd(w, ONE))
            if k is not None:
                return mod(u, padd(w, ONE))
        return patom(mk('iand', *sorted((x, y), key=key)))
    return lift(f, a, b)


def ior(a, b):
    def f(x, y):
        x, y = num(x), num(y)
        if is_const(x) and is_const(y):
            return pconst(cval(x) | cval(y))
        if x is ZERO:
            return y
        if y is ZERO:
            return x
        if x is y:
            return x
        if disjoint_bits(x, y):
            return padd(x, y)
        return patom(mk('ior', *sorted((x, y), key=key)))
    return lift(f, a, b)


def bit_mask(p):
    """Set of bit positions a non-negative integer can have set (an int mask), or None."""
    def whole(q):
        if is_const(q):
            return cval(q) if cval(q) >= 0 else None
        g = 0
        for _, c in q.args[1]:
            g |= abs(c)
        g &= -g
        q = _pmk('I', {m: c // g for m, c in q.args[1]})
        if not le(ZERO, q):
            return None
        u = _ub(q, 5)
        return None if u is None or u > 1 << 64 else ((1 << max(u, 0).bit_length()) - 1) * g
    if p.op != 'P' or p.args[0] != 'I':
        return None
    r = _bit_ranges(p)
    if r is not None:
        return r
    tot = 0
    for m, c in p.args[1]:
        x = whole(_pmk('I', {m: c}))
        if x is None or tot & x:
            return whole(p)
        tot |= x
    return tot


def _bit_ranges(p):
    """Mask of a sum of differences x % 2^b - x % 2^a (bits a..b-1 of x)."""
    by = {}
    for m, c in p.args[1]:
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a.op == 'mod' and log2_of(a.args[1]) is not None and is_const(a.args[1]):
            x, k = a.args[0], cval(a.args[1]).bit_length() - 1
        else:
            x = patom(a)
            if not le(ZERO, x):
                return None
            u = _ub(x, 4)
            if u is None:
                return None
            k = u.bit_length()
        by.setdefault((x, abs(c)), []).append((k, c > 0))
    tot = 0
    for (x, c), l in by.items():
        if c & (c - 1):
            return None
        l.sort(reverse=True)
        if [s for _, s in l] != [i % 2 == 0 for i in range(len(l))] or len({k for k, _ in l}) != len(l):
            return None
        if len(l) % 2:
            l.append((0, False))
        for (b, _), (a, _) in zip(l[::2], l[1::2]):
            r = ((1 << b) - (1 << a)) * c
            if tot & r:
                return None
            tot |= r
    return tot


def disjoint_bits(x, y):
    a = bit_mask(x)
    if a is None:
        return False
    b = bit_mask(y)
    return b is not None and not a & b


# ---------------------------------------------------------------- bounds prover
FACTS = []      # stack of (poly, op) meaning poly <= 0 ('le') ; managed by push_facts
_bmemo = {}


def _bounds_of_atom(a):
    """(lo, hi_inclusive) as polys or None."""
    if a in BOUNDS:
        lo, hi = BOUNDS[a]
        return lo, (padd(hi, pconst(-1)) if hi is not None else None)
    op = a.op
    if op == 'len':
        return ZERO, None
    if op == 'mod':
        if lt(ZERO, a.args[1]):
            return ZERO, padd(a.args[1], pconst(-1))
        return None, None
    if op == 'powmod':
        return ZERO, padd(a.args[2], pconst(-1))
    if op == 'pow2':
        return ONE, None
    if op == 'b2i':
        return ZERO, ONE
    if op == 'bits':
        return ZERO, psub(pow2(a.args[2]), ONE)
    if op == 'bitlen':
        return ZERO, None
    if op == 'fint':
        p = a.args[0]
        fl = p.args[0][1] if p.op == 'P' and p.args[0] != 'I' else None
        if fl is not None:
            return ZERO, padd(attr_int(fl, 'MODULUS'), pconst(-1))
        return ZERO, None
    if op == 'frombytes':
        return ZERO, psub(pow2(pmul(pconst(8), seqlen(a.args[1]))), ONE)
    if op == 'idx':
        if a.args[-1] == 'byte':
            return ZERO, pconst(255)
        return None, None
    if op == 'ixor':
        if all(le(ZERO, x) and le(x, pconst(255)) for x in a.args[0]):
            return ZERO, pconst(255)
        return None, None
    if op == 'fdiv':
        x, y = a.args
        if lt(ZERO, y) and le(ZERO, x):
            u = _ub(x, 4) if is_const(y) else None
            return ZERO, pconst(u // cval(y)) if u is not None else None
        return None, None
    if op == 'min':
        x, y = a.args
        lo = ZERO if le(ZERO, x) and le(ZERO, y) else None
        return lo, None
    if op == 'max':
        x, y = a.args
        if le(ZERO, x) or le(ZERO, y):
            return ZERO, None
        return None, None
    if op == 'sum':
        _, ring, n, body = a.args[0], a.args[1], a.args[2], a.args[3]
        if ring == 'I' and body.op == 'P' and all(c >= 0 for _, c in body.args[1]) \
                and all(_nonneg_atom(x) for m, _ in body.args[1] for x, e in m):
            return ZERO, None
        return None, None
    if op == 'attr':
        r = ATTR_BOUNDS.get(a.args[1])
        if r:
            return pconst(r[0]) if r[0] is not None else None, pconst(r[1]) if r[1] is not None else None
        return None, None
    if op == 'ior' or op == 'iand':
        if all(le(ZERO, x) for x in a.args):
            return ZERO, None
        return None, None
    if op == 'call' and a.args[-1] == 'int':
        return CALL_BOUNDS.get(a.args[0], (None, None))
    return None, None


ATTR_BOUNDS = {}
CALL_BOUNDS = {}


def attr_int(base, name):
    r = CLS_CONST.get((base, name))
    if r is not None:
        return r
    return patom(mk('attr', base, name, 'int'))


CLS_CONST = {}


def _nonneg_atom(a):
    lo, _ = _bounds_of_atom(a)
    if lo is None:
        return False
    c = const_of(lo)
    if c is not None:
        return c >= 0
    return _lb(lo, 6) is not None and _lb(lo, 6) >= 0


def _ub(p, depth):
    """Constant upper bound of p, or None."""
    if is_const(p):
        return cval(p)
    if depth <= 0:
        return None
    q = _pow2_order(p)
    if q is not None:
        return _ub(q, depth)
    # eliminate a variable that occurs linearly and has a symbolic (non-constant) bound
    cand = {}
    for m, c in p.args[1]:
        for a, e in m:
            cand.setdefault(a, []).append(e)
    order = sorted(cand, key=lambda a: (-1 if a.op in ('min', 'max') else 0 if a.op == 'v' else 1 if a.op in ('mod', 'fdiv', 'bits', 'fint') else 2, -a.args[0] if a.op == 'v' else 0, key(a)))
    for a in order:
        if any(e != 1 for e in cand[a]):
            continue
        q, r = {}, {}
        for m, c in p.args[1]:
            if any(x is a for x, _ in m):
                mm = tuple((x, e) for x, e in m if x is not a)
                q[mm] = q.get(mm, 0) + c
            else:
                r[m] = c
        q, r = _pmk('I', q), _pmk('I', r)
        if a.fv & q.fv and a in q.fv:
            continue
        if a.op == 'fdiv':
            x, y = a.args
            if lt(ZERO, y):
                # y*fdiv in [x-y+1, x]
                q1, rem = _split_div(q, y)
                if rem is ZERO and q1 is not ZERO:
                    s = _sign(q1, depth - 1)
                    if s == 1:
                        u = _ub(_padd(_pmul(q1, x), r), depth - 1)
                        if u is not None:
                            return u
                    elif s == -1:
                        u = _ub(_padd(_pmul(q1, _padd(_padd(x, _pscale(y, -1)), ONE)), r), depth - 1)
                        if u is not None:
                            return u
        if a.op == 'mod' and le0(pneg(a.args[0])) and _sign(q, depth - 1) == 1:
            # x % y <= x
            u = _ub(_padd(_pmul(q, a.args[0]), r), depth - 1)
            if u is not None and u <= 0:
                return u
        if a.op == 'min':
            s = _sign(q, depth - 1)
            us = [_ub(_padd(_pmul(q, z), r), depth - 1) for z in a.args] if s is not None else []
            if s == 1 and any(u is not None for u in us):
                return min(u for u in us if u is not None)
            if s == -1 and us and all(u is not None for u in us):
                return max(us)
        if a.op == 'max':
            s = _sign(q, depth - 1)
            us = [_ub(_padd(_pmul(q, z), r), depth - 1) for z in a.args] if s is not None else []
            if s == -1 and any(u is not None for u in us):
                return min(u for u in us if u is not None)
            if s == 1 and us and all(u is not None for u in us):
                return max(us)
        lo, hi = _bounds_of_atom(a)
        if a.op == 'pow2' and hi is None:
            hi = _pow2_top(a)
        if lo is None and hi is None:
            continue
        if not (_is_sym(lo) or _is_sym(hi)) and a.op != 'v':
            continue
        s = _sign(q, depth - 1)
        if s == 1 and hi is not None:
            return _ub(_padd(_pmul(q, hi), r), depth - 1)
        if s == -1 and lo is not None:
            return _ub(_padd(_pmul(q, lo), r), depth - 1)
        if s == 0:
            return _ub(r, depth - 1)
    # constant bounds per atom: shift every atom to its lower bound, then monomial-wise over non-negative atoms
    span = {}
    tot = 0
    poly = {}
    for m, c in p.args[1]:
        skip = False
        for a, e in m:
            if type(e) is not int or e < 0:
                if e.__class__ is not int and _nonneg_atom(a):
                    span[a] = (0, None)
                    skip = True
                    continue
                return None
            if a in span:
                continue
            l, h = _bounds_of_atom(a)
            l2 = const_of(l) if l is not None else None
            if l2 is None:
                l2 = _lb(l, depth - 1) if l is not None else None
                if l2 is None:
                    return None
            span[a] = (l2, const_of(h) if h is not None else None)
        if skip:
            if c > 0:
                return None
            continue
        poly[m] = c
    sh = {(): 0}
    for m, c in poly.items():
        terms = {(): c}
        for a, e in m:
            l = span[a][0]
            for _ in range(e):
                nxt = {}
                for k, x in terms.items():
                    k2 = tuple(sorted(k + (id(a),)))
                    nxt[k2] = nxt.get(k2, 0) + x
                    if l:
                        nxt[k] = nxt.get(k, 0) + x * l
                terms = nxt
        for k, x in terms.items():
            sh[k] = sh.get(k, 0) + x
    byid = {id(a): a for a in span}
    for k, x in sh.items():
        if x > 0:
            hi = 1
            for i in k:
                l, h = span[byid[i]]
                if h is None:
                    return None
                hi *= h - l
            tot += x * hi
    return tot + min(sh[()], 0)


def _pow2_top(a):
    """Upper bound of a power of two whose exponent grows with a bounded variable, or None."""
    e = a.args[0]
    if e.op == 'P':
        for m, c in e.args[1]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'v' and type(c) is int and c > 0:
                hi = _bounds_of_atom(m[0][0])[1]
                if hi is not None:
                    return pow2(_padd(e, _pscale(psub(hi, patom(m[0][0])), c)))
    return None


def _pow2_order(p):
    """An upper bound of p with one power of two less, when p has comparable ones."""
    ps = [(m[0][0], c) for m, c in p.args[1] if len(m) == 1 and m[0][0].op == 'pow2' and m[0][1] == 1]
    if len(ps) < 2:
        return None
    for a, c in ps:
        for b, d in ps:
            if a is b:
                continue
            k = const_of(_padd(a.args[0], _pscale(b.args[0], -1)))
            if k is not None:
                if 0 < k < 4096:
                    return _padd(p, _pmul(pconst(c), _padd(_pscale(patom(b), 2 ** k), _pscale(patom(a), -1))))
            elif c > 0 and c <= -d and le(a.args[0], b.args[0]):
                return _padd(p, _pmul(pconst(c), _padd(patom(b), _pscale(patom(a), -1))))
    return None


def _is_sym(b):
    return b is not None and not is_const(b)


def _lb(p, depth):
    u = _ub(_pscale(p, -1), depth)
    return None if u is None else -u


def _sign(q, depth):
    if is_const(q):
        c = cval(q)
        return (c > 0) - (c < 0)
    l = _lb(q, depth)
    if l is not None and l >= 0:
        return 1
    u = _ub(q, depth)
    if u is not None and u <= 0:
        return -1
    return None


_le_memo = {}


def _facts_key():
    return tuple(FACTS)


def le0(p):
    """Is p <= 0 for all admissible values (given current facts)?"""
    if p.op == 'ite':
        return all(le0(x) for x in leaves(p))
    if p.op != 'P':
        return False
    if is_const(p):
        return cval(p) <= 0
    k = (p, _facts_key())
    r = _le_memo.get(k)
    if r is not None:
        return r
    _le_memo[k] = False
    r = _le0(p)
    _le_memo[k] = r
    return r


def _le0(p):
    u = _ub(p, 7)
    if u is not None and u <= 0:
        return True
    for f in FACTS:
        if not (f.fv & p.fv):
            continue
        for k in _scales(p, f):
            d = _padd(p, _pscale(f, -k))
            if d.op != 'P':
                continue
            u = _ub(d, 7)
            if u is not None and u <= 0:
                return True
    facts = FACTS
    more = _product_facts(p)
    if more:
        facts = tuple(FACTS) + tuple(more)
        for f in more:
            u = _ub(_padd(p, _pscale(f, -1)), 7)
            if u is not None and u <= 0:
                return True
    if len(facts) > 1:
        rel = [f for f in facts if f.fv & p.fv][:12]
        for i, f in enumerate(rel):
            d = _padd(p, _pscale(f, -1))
            if d.op != 'P' or len(d.args[1]) > len(p.args[1]) + 1:
                continue
            for g in rel[i + 1:]:
                e = _padd(d, _pscale(g, -1))
                if e.op == 'P':
                    u = _ub(e, 5)
                    if u is not None and u <= 0:
                        return True
    q = _fdiv_order(p)
    if q is not None:
        return le0(q)
    for m, c in p.args[1]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'pow2' and type(c) is int:
            b = m[0][0].args[0]
            y = _bitlen_arg(b)
            if y is not None and c < 0:
                # y + 1 <= 2**bitlen(y)
                q = _padd(_padd(p, _pscale(patom(m[0][0]), -c)), _pscale(_padd(y, ONE), c))
                if le0(q):
                    return True
            if c > 0:
                hi = _pow2_top(m[0][0])
                if hi is not None and le0(_padd(p, _pscale(psub(hi, patom(m[0][0])), c))):
                    return True
    return len(FACTS) > 2 and _chain(p, 4)


def _chain(p, depth):
    """Does a short chain of facts, each cancelling a growing term, show p <= 0?"""
    u = _ub(p, 3)
    if u is not None and u <= 0:
        return True
    if depth == 0:
        return False
    for m, c in p.args[1]:
        if m == () or type(c) is not int or c <= 0:
            continue
        for f in FACTS:
            if f.op != 'P' or len(f.args[1]) > 3:
                continue
            co = dict(f.args[1])
            k = co.get(m)
            if k is None and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'pow2':
                for m2, k2 in co.items():
                    if len(m2) == 1 and m2[0][1] == 1 and m2[0][0].op == 'pow2' and type(k2) is int and k2 > 0:
                        g = const_of(_padd(m2[0][0].args[0], _pscale(m[0][0].args[0], -1)))
                        if g is not None and g >= 0 and _chain(_padd(p, _pscale(_padd(patom(m2[0][0]), _pscale(patom(m[0][0]), -1)), c)), depth - 1):
                            return True
            if type(k) is int and k > 0 and c % k == 0:
                q = _padd(p, _pscale(f, -(c // k)))
                if q.op == 'P' and len(q.args[1]) <= len(p.args[1]) and _chain(q, depth - 1):
                    return True
    return False


def _fdiv_order(p):
    """An upper bound of p without a pair x // k - y // k where x <= y."""
    fs = [(m[0][0], c) for m, c in p.args[1] if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fdiv' and type(c) is int]
    for a, c in fs:
        for b, d in fs:
            if c > 0 and d < 0 and a.args[1] is b.args[1] and le(ONE, a.args[1]) and le(a.args[0], b.args[0]):
                k = min(c, -d)
                return _padd(p, _pscale(_padd(patom(a), _pscale(patom(b), -1)), -k))
    return None


def _bitlen_arg(b):
    if b.op == 'P' and len(b.args[1]) == 1 and b.args[1][0][1] == 1 and len(b.args[1][0][0]) == 1:
        a, e = b.args[1][0][0][0]
        if e == 1 and a.op == 'bitlen':
            return a.args[0]
    return None


def _product_facts(p):
    """Facts multiplied by a non-negative factor of a product in p."""
    out = []
    for m, c in p.args[1]:
        if len(m) != 2 or any(e != 1 for _, e in m) or type(c) is not int or abs(c) > 64:
            continue
        for (a, _), (b, _) in (m, m[::-1]):
            if not _nonneg_atom(a):
                continue
            for f in FACTS:
                if b in f.fv and len(f.args[1]) <= 2 and f.op == 'P':
                    g = _pscale(_pmul(patom(a), f), abs(c))
                    if g not in out:
                        out.append(g)
    return out[:4]


def _scales(p, f):
    """Positive multiples of the fact worth adding to p."""
    out = [1]
    co = dict(p.args[1])
    for m, c in f.args[1]:
        x = co.get(m)
        if m and x is not None and x % c == 0 and 1 < x // c and x // c not in out:
            out.append(x // c)
    return out[:3]


def le(a, b):
    return le0(psub(a, b))


def lt(a, b):
    return le0(padd(psub(a, b), ONE))


def same(a, b):
    """a == b provable (syntactically or by facts)."""
    d = psub(a, b)
    if d is ZERO:
        return True
    if d.op == 'P' and is_const(d):
        return False
    return le0(d) and le0(pneg(d))


class facts:
    """Context manager adding facts derived from a boolean diagram being true."""

    def __init__(self, cond):
        self.cond = cond

    def __enter__(self):
        self.n = len(FACTS)
        for f in facts_of(self.cond):
            FACTS.append(f)

    def __exit__(self, *a):
        del FACTS[self.n:]


def facts_of(cond):
    """Linear facts (polys <= 0) implied by cond (literals on the only true path)."""
    out = []
    for at, val in literals(cond):
        out += lit_facts(at, val)
    return out


def lit_facts(at, val):
    if at.op == 'lt0':
        p = at.args[0]
        return [padd(p, ONE)] if val else [pneg(p)]
    if at.op == 'eq0' and val and at.args[0].op == 'P' and at.args[0].args[0] == 'I':
        p = at.args[0]
        return [p, pneg(p)]
    if at.op == 'eq0' and not val:
        p = at.args[0]
        if p.op == 'P' and p.args[0] == 'I':
            # p != 0 with known sign
            u = _ub(p, 5)
            if u is not None and u <= 0:
                return [padd(p, ONE)]
            l = _lb(p, 5)
            if l is not None and l >= 0:
                return [padd(pneg(p), ONE)]
    return []


def literals(c):
    """Literals implied by c being true (conjunctive part)."""
    out = []
    while c.op == 'ite':
        at, hi, lo = c.args
        if lo is FALSE:
            out.append((at, True))
            c = hi
        elif hi is FALSE:
            out.append((at, False))
            c = lo
        else:
            # disjunction: look for literals common to both branches
            h = literals(hi)
            l = set(literals(lo))
            out += [x for x in h if x in l]
            break
    return out


# ---------------------------------------------------------------- boolean atoms
def atom_bool(a):
    """Boolean diagram for a boolean-kinded atom term."""
    if a in (TRUE, FALSE) or a.op == 'ite':
        return a
    if a is NONE:
        return FALSE
    return mk('ite', a, TRUE, FALSE)


def _indicator_cases(p, test):
    """test(p) by cases for a polynomial in a few 0/1 indicators only."""
    ats = {a for m, _ in p.args[1] for a, _ in m}
    if not 2 <= len(ats) <= 6 or any(a.op != 'b2i' for a in ats):
        return None
    a = min(ats, key=key)
    return ite(a.args[0], test(subst(p, {a: ONE})), test(subst(p, {a: ZERO})))


def lt0(p):
    def f(p):
        p = num(p)
        if p.op == 'ite':
            return lt0(p)
        if is_const(p):
            return TRUE if cval(p) < 0 else FALSE
        if p.args[0] != 'I':
            return atom_bool(mk('ltv', p, ZERO))
        r = _indicator_cases(p, lt0)
        if r is not None:
            return r
        if le0(padd(p, ONE)):
            return TRUE
        if le0(pneg(p)):
            return FALSE
        # p < 0 with p >= -1 is p == -1 ; with p <= 0 is p != 0
        if le0(p):
            return bnot(eq0(p))
        if le0(psub(pconst(-1), p)):
            return eq0(padd(p, ONE))
        # x // y < k is x < y*k
        for m, c in p.args[1]:
            if c in (1, -1) and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fdiv' and lt(ZERO, m[0][0].args[1]):
                x, y = m[0][0].args
                r = _pmk('I', {m2: c2 for m2, c2 in p.args[1] if m2 is not m})
                if m[0][0] in atoms_in(r):
                    continue
                if c == 1:
                    return lt0(padd(x, pmul(y, r)))
                return bnot(lt0(psub(x, pmul(y, padd(r, ONE)))))
        # canonical polarity between p<0 and not(-p-1<0)
        q = padd(pneg(p), pconst(-1))
        g = _content(p)
        if g > 1:
            c = dict(p.args[1]).get((), 0)
            # divide by content of the non-constant part: g*x + c < 0 <=> x + ceil-ish
            d = {m: k // g for m, k in p.args[1] if m != ()}
            # g*X + c < 0  <=> X < -c/g <=> X <= ceil(-c/g)-1 <=> X + floor... 
            t = -((c) // g) if c % g == 0 else (-c) // g + 1
            # X < t  (t = ceil(-c/g))
            d[()] = -t
            return lt0(_pmk('I', d))
        if _canon_sign(p) <= _canon_sign(q):
            return mk('ite', mk('lt0', p), TRUE, FALSE)
        return mk('ite', mk('lt0', q), FALSE, TRUE)
    return lift(f, p)


def tight(p):
    """The fact p <= 0 with the content of its variable part divided out (integers)."""
    if p.op != 'P' or p.args[0] != 'I' or is_const(p):
        return p
    g = _content(p)
    if g <= 1:
        return p
    d = {m: c // g for m, c in p.args[1] if m != ()}
    d[()] = -((-dict(p.args[1]).get((), 0)) // g)
    return _pmk('I', d)


def atoms_in(p):
    return {a for m, _ in p.args[1] for a, _ in m}


def _content(p):
    import math
    g = 0
    for m, c in p.args[1]:
        if m != ():
            g = math.gcd(g, abs(c))
    return g


def _canon_sign(p):
    for m, c in p.args[1]:
        if m != ():
            return 0 if c > 0 else 1
    return 0


# base operators whose elements have a parity given by their structure: one arbitrary but consistent choice for every output of an XOF
PARITY = []


def eq0(p):
    def f(p):
        p = num(p)
        if p.op == 'ite':
            return eq0(p)
        if is_const(p):
            return TRUE if cval(p) == 0 else FALSE
        if p.args[0] == 'I':
            r = _indicator_cases(p, eq0)
            if r is not None:
                return r
            if le0(padd(p, ONE)) or le0(psub(ONE, p)):
                return FALSE
            if le0(p) and le0(pneg(p)):
                return TRUE
            ms = p.args[1]
            if len(ms) == 1 and ms[0][1] in (1, -1) and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
                a = ms[0][0][0][0]
                if a.op == 'b2i':
                    return bnot(a.args[0])
                if a.op == 'pow2':
                    return FALSE
                if a.op == 'bitlen':
                    return eq0(a.args[0])
                if PARITY and a.op == 'mod' and const_of(a.args[1]) == 2:
                    x = a.args[0].args[1]
                    if len(x) == 1 and x[0][1] == 1 and len(x[0][0]) == 1 and x[0][0][0][0].op == 'idx' and x[0][0][0][0].args[0].op in PARITY:
                        return TRUE if int(key(a)[:8], 16) & 1 else FALSE
            if len(ms) == 1:
                # product zero iff some factor is zero
                if len(ms[0][0]) > 1 and all(type(e) is int and e > 0 for _, e in ms[0][0]):
                    return bor(*[eq0(patom(a)) for a, _ in ms[0][0]])
                if ms[0][1] not in (1, -1):
                    return eq0(patom(ms[0][0][0][0])) if len(ms[0][0]) == 1 and ms[0][0][0][1] == 1 else atom_bool(mk('eq0', p))
            if len(ms) == 2 and ms[0][0] == () or len(ms) == 2 and ms[1][0] == ():
                # b2i(x) == 1
                (m, c), = [x for x in ms if x[0] != ()]
                (_, k), = [x for x in ms if x[0] == ()]
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'b2i' and k == -c:
                    return m[0][0].args[0]
            # integer representatives of field elements are equal exactly when the elements are
            ns = [x for x in ms if x[0] != ()]
            if 1 <= len(ns) <= 2 and all(c in (1, -1) and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fint' for m, c in ns):
                k = dict(ms).get((), 0)
                x, c = ns[0][0][0][0].args[0], ns[0][1]
                if len(ns) == 1 and 0 <= -c * k < 2 ** 32:
                    return eq0(psub(x, _pmk(x.args[0], {(): -c * k})))
                if len(ns) == 2 and k == 0 and ns[1][1] == -c and ns[1][0][0][0].args[0].args[0] == x.args[0]:
                    return eq0(psub(x, ns[1][0][0][0].args[0]))
            # x // c == k is 0 <= x - c*k < c
            if len(ns) == 1 and ns[0][1] in (1, -1) and len(ns[0][0]) == 1 and ns[0][0][0][1] == 1 and ns[0][0][0][0].op == 'fdiv':
                x, y = ns[0][0][0][0].args
                if is_const(y) and cval(y) > 0 and not le(patom(ns[0][0][0][0]), ONE):
                    d = psub(x, pmul(y, pconst(-ns[0][1] * dict(ms).get((), 0))))
                    return band(bnot(lt0(d)), lt0(psub(d, y)))
            g = _content(p)
            if g > 1:
                c = dict(ms).get((), 0)
                if c % g:
                    return FALSE
                p = _pmk('I', {m: k // g for m, k in ms})
        if _canon_sign(p) == 1:
            p = _pscale(p, -1)
        return mk('ite', mk('eq0', p), TRUE, FALSE)
    return lift(f, p)


def solve_eq(p):
    """From p == 0 derive (atom, poly) with atom a leaf-ish atom of coefficient +-1."""
    if p.op != 'P':
        return None
    best = None
    for m, c in p.args[1]:
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            a = m[0][0]
            rest = _pmk(p.args[0], {mm: cc for mm, cc in p.args[1] if mm != m})
            if _occurs(a, rest):
                continue
            rank = {'v': 0, 'phi': 1, 'len': 2, 'sym': 3}.get(a.op, 5)
            cand = (rank, key(a), a, _pscale(rest, -1) if c == 1 else rest)
            if best is None or cand[:2] < best[:2]:
                best = cand
    if best is None:
        return None
    return best[2], best[3]


def _occurs(a, t):
    if not (a.fv <= t.fv):
        return False
    seen = set()

    def go(x):
        if type(x) is tuple:
            return any(go(y) for y in x)
        if type(x) is not T:
            return False
        if x is a:
            return True
        if x in seen or not (a.fv <= x.fv):
            return False
        seen.add(x)
        return any(go(y) for y in x.args)
    return go(t)


# ---------------------------------------------------------------- sequences
def U(e):
    return mk('u', e)


def seq_kind(t):
    k = kind_of(t)
    if k in ('bytes', 'str'):
        return k
    if type(k) is tuple and k[0] in ('list', 'tuple'):
        return k[0]
    return None


def elem_kind(base):
    k = kind_of(base)
    if k == 'bytes':
        return 'byte'
    if type(k) is tuple and k[0] in ('list', 'tuple', 'tuple*', 'seq') and len(k) > 1 and k[1] is not None:
        return k[1]
    return 'any'


def seq(kind, segs):
    """Normalised sequence from segments."""
    # hoist guarded (non-boolean) elements
    for j, s in enumerate(segs):
        if s.op == 'u' and s.args[0].op == 'ite' and not is_bool(s.args[0]):
            e = s.args[0]
            pre, post = list(segs[:j]), list(segs[j + 1:])
            at = e.args[0]
            return ite(mk('ite', at, TRUE, FALSE), seq(kind, pre + [U(e.args[1])] + post), seq(kind, pre + [U(e.args[2])] + post))
        if s.op in ('sl', 'map'):
            n = s.args[1]
            if s.op == 'sl' and (s.args[1].op == 'ite' or s.args[2].op == 'ite'):
                pre, post = list(segs[:j]), list(segs[j + 1:])
                at = (s.args[1] if s.args[1].op == 'ite' else s.args[2]).args[0]
                hi = sl(s.args[0], _cof(s.args[1], at, True), _cof(s.args[2], at, True))
                lo = sl(s.args[0], _cof(s.args[1], at, False), _cof(s.args[2], at, False))
                return ite(mk('ite', at, TRUE, FALSE), seq(kind, pre + hi + post), seq(kind, pre + lo + post))
    out = []
    for s in segs:
        _push(out, s)
    return mk('S', kind, tuple(out))


def _push(out, s):
    if s.op == 'sl':
        base, lo, hi = s.args
        d = psub(hi, lo)
        if d is ZERO:
            return
        # constant small slices of bytes stay slices
        if out:
            p = out[-1]
            if p.op == 'sl' and p.args[0] is base and p.args[2] is lo:
                out.pop()
                _push(out, mk('sl', base, p.args[1], hi))
                return
            if p.op == 'u' and p.args[0] is elem(base, psub(lo, ONE)):
                out.pop()
                _push(out, mk('sl', base, psub(lo, ONE), hi))
                return
        if d is ONE and elem_kind(base) != 'byte':
            _push(out, U(elem(base, lo)))
            return
        out.append(s)
        return
    if s.op == 'u':
        if out:
            p = out[-1]
            if p.op == 'sl' and s.args[0] is elem(p.args[0], p.args[2]):
                out.pop()
                _push(out, mk('sl', p.args[0], p.args[1], padd(p.args[2], ONE)))
                return
            if p.op == 'map' and is_unit_body(p):
                if inst(p, p.args[1]) is mk('S', 'list', (s,)):
                    out.pop()
                    n = padd(p.args[1], ONE)
                    _push(out, mk('map', p.args[0], n, p.args[2]))
                    return
            if p.op == 'u':
                b0, i0 = elem_parts(p.args[0])
                if b0 is not None:
                    b1, i1 = elem_parts(s.args[0])
                    if b0 is b1 and psub(i1, i0) is ONE:
                        out.pop()
                        out.append(mk('sl', b0, i0, padd(i1, ONE)))
                        return
        out.append(s)
        return
    if s.op == 'map':
        h, n, body = s.args
        c = const_of(n)
        if c is not None and c <= 0:
            return
        if body.op == 'S' and not body.args[1]:
            return
        if out:
            p = out[-1]
            if p.op == 'map':
                # map(a, f) ++ map(b, f(.+a))
                v = fresh(ZERO, n)
                if inst(s, patom(v)) is inst(p, padd(patom(v), p.args[1])):
                    out.pop()
                    _push(out, mk('map', p.args[0], padd(p.args[1], n), p.args[2]))
                    return
            elif p.op == 'u' and is_unit_body(s):
                if inst(s, pconst(-1)) is mk('S', 'list', (p,)):
                    out.pop()
                    v = fresh(ZERO, padd(n, ONE))
                    b = inst(s, psub(patom(v), ONE))
                    _push(out, _close_map(v, padd(n, ONE), b))
                    return
        out.append(s)
        return
    out.append(s)


def is_unit_body(m):
    b = m.args[2]
    return b.op == 'S' and len(b.args[1]) == 1 and b.args[1][0].op == 'u'


def inst(b, i):
    """Instantiate binder b (map-like: args h, n, body) at index i."""
    bv = mk('bv', b.args[0])
    body = b.args[-1]
    return subst(body, {bv: i})


def _close(v, *bodies):
    h = max([0] + [b.ht for b in bodies]) + 1
    bv = mk('bv', h)
    return (h,) + tuple(subst(b, {v: patom_or(bv)}) for b in bodies)


def patom_or(bv):
    return bv


def _close_map(v, n, body):
    h, b = _close(v, body)
    return mk('map', h, n, b)


def mapseg(v, n, body):
    """Segments of [body(v) for v in range(n)] flattened; body is a sequence term (S or guarded)."""
    n = as_int(n)
    c = const_of(n)
    if c is not None:
        if c <= 0:
            return []
        if c <= 16:
            out = []
            for k in range(c):
                out += segs_of(subst(body, {v: pconst(k)}))
            return out
    if body.op == 'ite':
        # loop-invariant conditions cannot be returned from here; handled by caller (seqmap)
        pass
    if body.op == 'S':
        ss = body.args[1]
        if not ss:
            return []
        # n copies of base[i*k + c : (i+1)*k + c]  ->  base[c : n*k + c]
        if len(ss) == 1:
            s = ss[0]
            r = _dense(v, n, s)
            if r is not None:
                return [r]
    return [_close_map(v, n, body)]


def _dense(v, n, s):
    if s.op == 'sl':
        base, lo, hi = s.args
        if v in base.fv:
            return None
        w = psub(hi, lo)
        if v in w.fv or lo.op != 'P':
            return None
        if v not in lo.fv:
            return None
        l0 = subst(lo, {v: ZERO})
        if psub(lo, l0) is pmul(w, patom(v)):
            return mk('sl', base, l0, padd(l0, pmul(n, w)))
        return None
    if s.op == 'u':
        e = s.args[0]
        b, i = elem_parts(e)
        if b is None or v in b.fv:
            return None
        i0 = subst(i, {v: ZERO}) if v in i.fv else None
        if i0 is not None and psub(i, i0) is patom(v):
            return mk('sl', b, i0, padd(i0, n))
    return None


def elem_parts(e):
    """(base, index) if e is exactly an element of an atomic base."""
    a = e
    if e.op == 'S':
        b = None
        if len(e.args[1]) == 1 and e.args[1][0].op == 'sl' and e.args[1][0].args[0].op == 'idx':
            b = e.args[1][0].args[0]
        elif e.args[0] == 'tuple' and e.args[1]:
            x = e.args[1][0]
            while True:
                if x.op in ('u', 'sl', 'item'):
                    x = x.args[0]
                elif x.op == 'P' and x.args[1] and x.args[1][0][0]:
                    x = x.args[1][0][0][0][0]
                elif x.op == 'S' and x.args[1]:
                    x = x.args[1][0]
                elif x.op == 'ite' and x.args[0].op == 'item':
                    x = x.args[0]
                else:
                    break
            if x.op == 'idx':
                b = x
        if b is not None and b.args[0].op != 'S' and elem(b.args[0], b.args[1]) is e:
            return b.args[0], b.args[1]
        return None, None
    if e.op == 'P':
        if len(e.args[1]) != 1 or e.args[1][0][1] != 1 or len(e.args[1][0][0]) != 1 or e.args[1][0][0][0][1] != 1:
            return None, None
        a = e.args[1][0][0][0][0]
        if a.op != 'idx':
            return None, None
        if elem(a.args[0], a.args[1]) is not e:
            return None, None
    elif e.op == 'ite' and e.args[1] is TRUE and e.args[2] is FALSE:
        a = e.args[0]
    if a.op != 'idx' or a.args[0].op == 'S':
        return None, None
    return a.args[0], a.args[1]


def seqmap(v, n, body, kind='list'):
    """Sequence [*body(v) for v in range(n)]."""
    n = as_int(n)
    if n.op == 'ite':
        return mapleaves(lambda m: seqmap(v, m, body, kind), n)
    c = const_of(n)
    if c is not None and c <= 0:
        return seq(kind, [])
    if body.op == 'ite':
        # hoist loop-invariant tests
        for at in sorted(atoms_of(body), key=key):
            if v not in at.fv:
                hi = restrict(body, at, True)
                lo = restrict(body, at, False)
                return ite(atom_bool(at), seqmap(v, n, hi, kind), seqmap(v, n, lo, kind))
        # split the index range at affine tests
        for at in sorted(atoms_of(body), key=key):
            sp = split_point(at, v, n)
            if sp is not None:
                return split_range(v, n, sp, lambda v2, n2, b2: seqmap(v2, n2, b2, kind), body, lambda xs: cat(kind, *xs))
    sp = seam(body, v, n)
    if sp is not None:
        return split_range(v, n, sp, lambda v2, n2, b2: seqmap(v2, n2, b2, kind), body, lambda xs: cat(kind, *xs))
    return seq(kind, mapseg(v, n, body))


def split_point(at, v, n):
    """If atom `at` changes truth value at an affine position c of index v, return (c, width)."""
    if at.op not in ('lt0', 'eq0') or v not in at.fv:
        return None
    p = at.args[0]
    if p.op != 'P' or p.args[0] != 'I':
        return None
    q, r = {}, {}
    for m, c in p.args[1]:
        if any(x is v for x, _ in m):
            if len(m) != 1 or m[0][1] != 1:
                return None
            q[()] = c
        else:
            r[m] = c
    if () not in q or q[()] not in (1, -1):
        return None
    r = _pmk('I', r)
    if v in r.fv:
        return None
    c = q[()]
    # c*v + r
    root = _pscale(r, -c)           # v = root
    if at.op == 'eq0':
        if le(ZERO, root) and lt(root, n):
            return root, True
        return None
    # v + r < 0  <=> v < -r = root ; -v + r < 0 <=> v > r=root  <=> v >= root+1
    cut = root if c == 1 else padd(root, ONE)
    if le(ZERO, cut) and le(cut, n):
        return cut, False
    return None


def seam(body, v, n):
    """(c, False) where an access to a concatenation at index v passes from one piece to the next at c, or None."""
    seen, todo = set(), [body]
    while todo:
        t = todo.pop()
        if type(t) is tuple:
            todo += [x for x in t if type(x) in (T, tuple)]
            continue
        if v not in t.fv or t in seen:
            continue
        seen.add(t)
        if t.op == 'idx' and t.args[0].op == 'S' and len(t.args[0].args[1]) > 1 and v not in t.args[0].fv:
            k = psub(t.args[1], patom(v)) if type(t.args[1]) is T else None
            if k is not None and k.op == 'P' and v not in k.fv:
                off = pneg(k)
                for g in t.args[0].args[1][:-1]:
                    off = padd(off, seglen(g))
                    if off.op == 'P' and off is not ZERO and off is not n and le(ZERO, off) and le(off, n):
                        return off, False
        todo += [x for x in t.args if type(x) in (T, tuple)]
    return None


def split_range(v, n, sp, build, body, join):
    cut, single = sp
    parts = []
    v1 = fresh(ZERO, cut)
    parts.append(build(v1, cut, resimplify(subst(body, {v: patom(v1)}))))
    if single:
        v0 = cut
        parts.append(build(fresh(ZERO, ONE), ONE, resimplify(subst(body, {v: v0}))))
        start = padd(cut, ONE)
    else:
        start = cut
    n2 = psub(n, start)
    v2 = fresh(ZERO, n2)
    parts.append(build(v2, n2, resimplify(subst(body, {v: padd(patom(v2), start)}))))
    return join(parts)


def resimplify(t):
    """Rebuild a term so that atoms are re-decided under current bounds/facts."""
    return rebuild_all(t)


def rebuild_all(t, memo=None):
    if memo is None:
        memo = {}
    return _sub(t, {}, memo, force=True)


def sl(base, lo, hi):
    """Segments of base[lo:hi] for an atomic base (in range)."""
    if psub(hi, lo) is ZERO:
        return []
    return [mk('sl', base, lo, hi)]


def segs_of(t):
    """Segments of an (unguarded) sequence value."""
    if t.op == 'S':
        return list(t.args[1])
    if t.op == 'ite':
        raise Blowup('guarded sequence where plain one expected')
    n = seqlen(t)
    return sl(t, ZERO, n)


def cat(kind, *xs):
    def f(*ys):
        out = []
        for y in ys:
            out += segs_of(y)
        return seq(kind, out)
    return lift(f, *xs)


def seglen(s):
    if s.op == 'u':
        return ONE
    if s.op == 'sl':
        return psub(s.args[2], s.args[1])
    if s.op == 'map':
        h, n, body = s.args
        v = fresh(ZERO, n)
        b = inst(s, patom(v))
        return psum(v, n, seqlen(b))
    if s.op == 'filt':
        return patom(mk('len', mk('S', 'list', (s,))))
    return patom(mk('len', s))


def seqlen(t):
    if t.op == 'ite':
        return mapleaves(seqlen, t)
    if t.op == 'S':
        r = ZERO
        for s in t.args[1]:
            r = padd(r, seglen(s))
        return r
    if t in LEN:
        return LEN[t]
    if t.op == 'tobytes':
        return t.args[2]
    if t.op == 'call' and t.args[0] in CALL_LEN:
        return CALL_LEN[t.args[0]](t)
    if t.op == 'idx' and t.args[0] in ELEM_LEN:
        r = ELEM_LEN[t.args[0]]
        return r(t.args[1]) if callable(r) else r
    if t.op == 'idx':
        r = ITEM_LEN.get(base_root(t))
        if r is not None:
            return r(t) if callable(r) else r
    if t.op == 'rand' and t.args[-1] == 'bytes':
        return t.args[1]
    if t.op == 'bytesconst':
        return pconst(len(t.args[0]))
    if t.op == 'str':
        return pconst(len(t.args[0]))
    return patom(mk('len', t))


CALL_LEN = {}
ELEM_LEN = {}


def bytesc(b):
    """Constant byte string as sequence of byte units."""
    return seq('bytes', [U(pconst(x)) for x in b])


def elem(base, i):
    """Element i of an atomic base, as a value."""
    if i.op == 'ite':
        return mapleaves(lambda j: elem(base, j), i)
    k = elem_kind(base)
    if base.op == 'tobytes':
        return num(mk('idx', base, i, 'byte'))
    t = mk('idx', base, i, k)
    if k in ('int', 'byte'):
        return patom(t)
    if k == 'felt':
        return patom(t, ('F', field_of_base(base)))
    if k == 'bool':
        return mk('ite', t, TRUE, FALSE)
    return wrap(t)


def wrap(t):
    """Canonical value form of an atomic term: sequences become S, records tuples."""
    if t.op in ('S', 'ite', 'P'):
        return t
    k = kind_of(t)
    if k == 'bytes':
        return seq('bytes', sl(t, ZERO, seqlen(t)))
    if k == 'int' or k == 'byte':
        return patom(t)
    if k == 'felt':
        return patom(t, ('F', field_of(t)))
    if k == 'bool':
        return atom_bool(t)
    if k == 'none':
        return NONE
    if type(k) is tuple:
        if k[0] in ('list', 'tuple'):
            return seq(k[0], sl(t, ZERO, seqlen(t)))
        if k[0] == 'tup':
            return mk('S', 'tuple', tuple(U(item(t, j, kj)) for j, kj in enumerate(k[1])))
    return t


def item(t, j, kj):
    r = mk('item', t, j, kj)
    root = base_root(r)
    f = ITEM_FIELD.get(root)
    if f is not None:
        FIELD[r] = f(r) if callable(f) else f
    l = ITEM_LEN.get(root)
    if l is not None:
        LEN[r] = l(r) if callable(l) else l
    return wrap(r)


ITEM_FIELD = {}
ITEM_LEN = {}


def base_root(t):
    """Path of a component inside an opaque value, indices abstracted: (root, j, '*', ...)."""
    path = []
    while t.op in ('idx', 'item'):
        path.append(t.args[1] if t.op == 'item' else '*')
        t = t.args[0]
    return (t.args[0] if t.op == 'call' else t,) + tuple(reversed(path))


def index(t, i):
    """t[i] with i a polynomial known (or assumed) in range."""
    i = num(i)
    if t.op == 'ite' or i.op == 'ite':
        return lift(index, t, i)
    c = const_of(i)
    if c is not None and c < 0:
        i = padd(seqlen(t), i)
        if is_const(i) and cval(i) < 0:
            return unsup('index out of range')
        return index(t, i)
    if t.op != 'S':
        if c is None and _neg_index(i):
            pass
        return elem(t, i)
    segs = t.args[1]
    # index given by a boolean: two-way select
    if c is None:
        r = _bool_index(t, i)
        if r is not None:
            return r
    off = ZERO
    for s in segs:
        L = seglen(s)
        rel = psub(i, off)
        if s.op == 'u':
            if rel is ZERO or same(rel, ZERO):
                return s.args[0]
            if le(ONE, rel):
                off = padd(off, ONE)
                continue
            break
        if le(ZERO, rel) and lt(rel, L):
            if s.op == 'sl':
                return elem(s.args[0], padd(s.args[1], rel))
            if s.op == 'map':
                if is_unit_body(s):
                    b = inst(s, rel)
                    return index(b, ZERO)
                r = _index_flat(s, rel)
                if r is not None:
                    return r
            break
        if le(L, rel):
            off = padd(off, L)
            continue
        # unknown whether rel < L; optimistic for the last segment
        if s is segs[-1] and le(ZERO, rel):
            if s.op == 'sl':
                return elem(s.args[0], padd(s.args[1], rel))
            if s.op == 'map' and is_unit_body(s):
                return index(inst(s, rel), ZERO)
        break
    else:
        if c is not None and not segs:
            return unsup('index out of range')
    # indices counted from the end
    n = seqlen(t)
    back = psub(n, i)
    off = ZERO
    for s in reversed(segs):
        L = seglen(s)
        rel = psub(back, off)   # 1..L  means inside s
        if s.op == 'u':
            if rel is ONE:
                return s.args[0]
            if le(pconst(2), rel):
                off = padd(off, ONE)
                continue
            break
        if le(ONE, rel) and le(rel, L):
            if s.op == 'sl':
                return elem(s.args[0], psub(s.args[2], rel))
            if s.op == 'map' and is_unit_body(s):
                return index(inst(s, psub(s.args[1], rel)), ZERO)
            break
        if lt(L, rel):
            off = padd(off, L)
            continue
        break
    if len(segs) == 1 and segs[0].op == 'map' and is_unit_body(segs[0]) and c is None:
        return index(inst(segs[0], i), ZERO)
    if len(segs) == 1 and segs[0].op == 'sl' and c is None:
        return elem(segs[0].args[0], padd(segs[0].args[1], i))
    k = _elem_kind_S(t)
    r = mk('idx', t, i, k)
    if k in ('int', 'byte'):
        return patom(r)
    if k == 'felt':
        return patom(r, ('F', _elem_field(t)))
    if k == 'bool':
        return mk('ite', r, TRUE, FALSE)
    return r


def _neg_index(i):
    return False


def _elem_field(t):
    for s in t.args[1]:
        e = s.args[0] if s.op == 'u' else None
        if s.op == 'map':
            b = s.args[2]
            if b.op == 'S' and b.args[1] and b.args[1][0].op == 'u':
                e = b.args[1][0].args[0]
        if e is not None and e.op == 'P' and e.args[0] != 'I':
            return e.args[0][1]
        if s.op == 'sl':
            return field_of_base(s.args[0])
    return None


def _elem_kind_S(t):
    if t.args[0] == 'bytes':
        return 'byte'
    for s in t.args[1]:
        if s.op == 'u':
            return kind_of(s.args[0])
        if s.op == 'sl':
            return elem_kind(s.args[0])
        if s.op == 'map':
            b = s.args[2]
            while b.op == 'ite':
                b = b.args[1]
            if b.op == 'S':
                k = _elem_kind_S(b)
                if k != 'any':
                    return k
    return 'any'


def _bool_index(t, i):
    """S of constant length indexed by c0 + c1*b2i(x)."""
    ats = [a for m, _ in i.args[1] for a, _ in m]
    if len(ats) == 1 and ats[0].op == 'b2i':
        b = ats[0].args[0]
        v1 = subst(i, {ats[0]: ONE})
        v0 = subst(i, {ats[0]: ZERO})
        if const_of(v1) is not None and const_of(v0) is not None:
            return ite(b, index(t, v1), index(t, v0))
    return None


def _index_flat(s, rel):
    """Index into an n-fold concatenation whose body has constant-in-v length w."""
    h, n, body = s.args
    v = fresh(ZERO, n)
    b = inst(s, patom(v))
    w = seqlen(b)
    if v in w.fv:
        return None
    q, r = fdiv(rel, w), mod(rel, w)
    if q.op != 'P' or r.op != 'P':
        return None
    if not (le(ZERO, r) and lt(r, w)):
        return None
    b = inst(s, q)
    if b.op == 'S' and all(x.op == 'u' for x in b.args[1]) and const_of(r) is None and len(b.args[1]) <= 4:
        # select among the units by r
        res = b.args[1][-1].args[0]
        for j in range(len(b.args[1]) - 2, -1, -1):
            res = ite(eq0(psub(r, pconst(j))), b.args[1][j].args[0], res)
        return res
    return index(b, r)


def slice_(t, lo, hi):
    """t[lo:hi]; lo/hi polys (hi None = to the end); Python clipping made explicit."""
    if t.op == 'ite':
        return lift(lambda x, a, b: slice_(x, a, b if b is not NONE else None), t, lo, hi if hi is not None else NONE)
    if lo.op == 'ite' or (hi is not None and hi.op == 'ite'):
        return lift(lambda x, a, b: slice_(x, a, b if b is not NONE else None), t, lo, hi if hi is not None else NONE)
    if t.op == 'S' and any(s.op == 'sl' and s.args[0].op in ('slice', 'bslice') for s in t.args[1]):
        t = _reslice(t)
    n = seqlen(t)
    if n.op == 'ite':
        return mapleaves(lambda _: unsup('guarded length'), n)

    def norm(x, default):
        if x is None:
            return default
        x = num(x)
        c = const_of(x)
        if c is not None and c < 0:
            x = imax(padd(n, x), ZERO)
            return x
        if c is None and le(x, pconst(-1)):
            return imax(padd(n, x), ZERO)
        return imin(x, n)
    lo = norm(lo, ZERO)
    hi = norm(hi, n)
    if not le(lo, hi):
        if le(hi, lo):
            return seq(seq_kind(t) or 'list', [])
        hi = imax(lo, hi)
    return cut(t, lo, hi)


def _reslice(t):
    """Slices that could not be resolved when they were taken, under the facts known now."""
    out = []
    for s in t.args[1]:
        if s.op == 'sl' and s.args[0].op in ('slice', 'bslice'):
            b, lo, hi = s.args[0].args
            if b.op == 'S' and any(x.op == 'sl' and x.args[0].op in ('slice', 'bslice') for x in b.args[1]):
                b = _reslice(b)
            if le(ZERO, lo) and le(lo, hi) and le(hi, seqlen(b)):
                r = cut(b, padd(lo, s.args[1]), padd(lo, s.args[2]))
                if r.op == 'S':
                    out += r.args[1]
                    continue
        out.append(s)
    return seq(t.args[0], out)


def cut(t, lo, hi):
    """t[lo:hi] with 0 <= lo <= hi <= len(t)."""
    if lo is ZERO and hi is seqlen(t):
        if t.op == 'S':
            return t
    kind = seq_kind(t) or 'list'
    if t.op != 'S':
        return seq(kind, sl(t, lo, hi))
    out = []
    parts = []
    off = ZERO
    segs = t.args[1]
    for j, s in enumerate(segs):
        L = seglen(s)
        end = padd(off, L)
        # portion of s inside [lo, hi)
        if le(end, lo):
            off = end
            continue
        if le(hi, off):
            break
        a = None
        if le(lo, off):
            a = ZERO
        elif le(off, lo) and (j == len(segs) - 1 or le(lo, end)):
            a = psub(lo, off)
        b = None
        if le(end, hi):
            b = L
        elif (j == len(segs) - 1 or le(hi, end)) and (j == 0 or le(off, hi)):
            b = psub(hi, off)
        if a is None or b is None:
            return _opaque_slice(t, lo, hi)
        if a is ZERO and b is L:
            out.append(s)
        elif s.op == 'u':
            # partial unit: a in {0,1}
            return _opaque_slice(t, lo, hi)
        elif s.op == 'sl' and s.args[0].op in ('slice', 'bslice') and s.args[0].args[0].op == 'S':
            b0, l0, _ = s.args[0].args
            l0 = padd(l0, s.args[1])
            r = cut(b0, padd(l0, a), padd(l0, b))
            parts += [seq(t.args[0], out), r]
            out = []
        elif s.op == 'sl':
            out += sl(s.args[0], padd(s.args[1], a), padd(s.args[1], b))
        elif s.op == 'map':
            r = _cut_map(s, a, b)
            if r is None:
                return _opaque_slice(t, lo, hi)
            if type(r) is T:
                parts += [seq(t.args[0], out), r]
                out = []
            else:
                out += r
        else:
            return _opaque_slice(t, lo, hi)
        off = end
    if parts:
        return cat(t.args[0], *parts, seq(t.args[0], out))
    return seq(t.args[0], out)


def _cut_map(s, a, b):
    h, n, body = s.args
    if is_unit_body(s):
        v = fresh(ZERO, psub(b, a))
        return mapseg(v, psub(b, a), inst(s, padd(patom(v), a)))
    v = fresh(ZERO, n)
    bd = inst(s, patom(v))
    w = seqlen(bd)
    if w.op != 'P' or v in w.fv:
        return None
    qa, ra = _split_div(a, w) if a is not ZERO else (ZERO, ZERO)
    qb, rb = _split_div(b, w)
    if const_of(w) is not None:
        # constant width: use division with remainder when exact
        pass
    if ra is ZERO and rb is ZERO:
        cnt = psub(qb, qa)
        if cnt is ONE and bd.op == 'ite':
            return inst(s, qa)
        v2 = fresh(ZERO, cnt)
        return mapseg(v2, cnt, inst(s, padd(patom(v2), qa)))
    # slice within one body copy
    fa = fdiv(a, w)
    d = psub(b, a)
    if fa.op == 'P':
        ra = psub(a, pmul(fa, w))
        if le(ZERO, ra) and le(padd(ra, d), w):
            r = mapleaves(lambda x: cut(x, ra, padd(ra, d)), inst(s, fa))
            if r.op == 'S':
                return list(r.args[1])
            if r.op == 'ite':
                return r
    c = const_of(w)
    if c is not None and c > 1 and fa.op == 'P':
        # the blocks the slice touches, from the offset in the first one
        ra = psub(a, pmul(fa, w))
        cnt = fdiv(padd(padd(ra, d), pconst(c - 1)), w)
        if cnt.op == 'P' and ra.op == 'P':
            v2 = fresh(ZERO, cnt)
            base = seq('list', mapseg(v2, cnt, inst(s, padd(patom(v2), fa))))
            if len(base.args[1]) == 1 and base.args[1][0].op == 'map':
                t = mk('bslice', base, ra, padd(ra, d))
                LEN[t] = d
                return [mk('sl', t, ZERO, d)]
    return None


def _opaque_slice(t, lo, hi):
    kind = t.args[0] if t.op == 'S' else seq_kind(t) or 'list'
    sl_t = mk('slice', t, lo, hi)
    LEN[sl_t] = psub(hi, lo)
    return seq(kind, [mk('sl', sl_t, ZERO, psub(hi, lo))])


def store(t, i, x):
    """t with element i replaced."""
    def f(t, i):
        n = seqlen(t)
        c = const_of(i)
        if c is not None and c < 0:
            i = padd(n, i)
        kind = seq_kind(t) or 'list'
        r = _bool_store(t, i, x, kind)
        if r is not None:
            return r
        pre, post = cut(t, ZERO, i), cut(t, padd(i, ONE), n)
        return lift(lambda p, q: seq(kind, segs_of(p) + [U(x)] + segs_of(q)), pre, post)
    return lift(f, t, num(i))


def _bool_store(t, i, x, kind):
    ats = [a for m, _ in i.args[1] for a, _ in m]
    if len(ats) == 1 and ats[0].op == 'b2i' and t.op == 'S' and all(s.op == 'u' for s in t.args[1]):
        b = ats[0].args[0]
        v1, v0 = subst(i, {ats[0]: ONE}), subst(i, {ats[0]: ZERO})
        if const_of(v1) is not None and const_of(v0) is not None:
            return ite(b, store(t, v1, x), store(t, v0, x))
    return None


# ---------------------------------------------------------------- sums and quantifiers
def psum(v, n, body, op='sum'):
    """sum_{v<n} body"""
    n = as_int(n)
    if n.op == 'ite':
        return mapleaves(lambda m: psum(v, m, body, op), n)
    body = num(body)
    c = const_of(n)
    if c is not None and c <= 0:
        return pconst(0, body.args[0]) if body.op == 'P' else ZERO
    if body.op == 'ite':
        for at in sorted(atoms_of(body), key=key):
            if v not in at.fv:
                return ite(atom_bool(at), psum(v, n, restrict(body, at, True)), psum(v, n, restrict(body, at, False)))
        for at in sorted(atoms_of(body), key=key):
            sp = split_point(at, v, n)
            if sp is not None:
                return split_range(v, n, sp, psum, body, lambda xs: padd(*xs))
        body = _by_indicators(body)
        if body.op == 'ite':
            ring = leaves(body)[0].args[0]
            h, b = _close(v, body)
            return patom(mk('sum', h, ring, n, b), ring)
    ring = body.args[0]
    sp = seam(body, v, n)
    if sp is not None:
        return split_range(v, n, sp, psum, body, lambda xs: padd(*xs))
    if c is not None and c <= 16:
        r = pconst(0, ring)
        for k in range(c):
            r = padd(r, subst(body, {v: pconst(k)}))
        return r
    tot = pconst(0, ring)
    for m, c in body.args[1]:
        ins, outs = {}, {}
        for a, e in m:
            fe = e.fv if type(e) is T else EMPTY
            if v in a.fv or v in fe:
                ins[a] = e
            else:
                outs[a] = e
        srt = lambda d: tuple(sorted(d.items(), key=lambda ae: (key(ae[0]), _ser(ae[1]))))
        outp = _pmk(ring, {srt(outs): c})
        if not ins:
            tot = padd(tot, pmul(outp, n))
            continue
        inp = _pmk(ring, {srt(ins): 1})
        if len(ins) == 1:
            (a, e), = ins.items()
            # telescoping bit sums etc. not needed; plain index sum
            if a is v and e == 1 and ring == 'I':
                tot = padd(tot, pmul(outp, fdiv(pmul(n, psub(n, ONE)), pconst(2))))
                continue
        r = _sum_of_bits(v, n, ins, ring) or _sum_of_chunks(v, n, inp, ring) or _sum_order(v, n, ins, ring)
        if r is not None:
            tot = padd(tot, pmul(outp, r))
            continue
        h, b = _close(v, inp)
        tot = padd(tot, pmul(outp, patom(mk('sum', h, ring, n, b), ring)))
    return tot


def _by_indicators(body):
    """Guarded polynomials as one polynomial over the indicators of their guards."""
    lv = sorted(set(leaves(body)), key=key)
    if len(lv) > 4 or len({l.args[0] for l in lv}) != 1 or any(l.op != 'P' for l in lv):
        return body
    ring = lv[0].args[0]
    zero = pconst(0, ring)
    base = zero if zero in lv else lv[0]
    out = base
    for l in lv:
        if l is not base:
            ind = num(mapleaves(lambda x: TRUE if x is l else FALSE, body))
            if ind.op != 'P':
                return body
            out = padd(out, pmul(psub(l, base), ind))
    return out


def _sum_order(v, n, ins, ring):
    """Nested sums over independent ranges, ordered by their ranges."""
    if any(x.op in ('v', 'bv') for x in n.fv):
        return None
    for a, e in ins.items():
        if a.op != 'sum' or e != 1 or a.args[1] != ring:
            continue
        m = a.args[2]
        if m.ht or any(x.op in ('v', 'bv') for x in m.fv) or key(m) >= key(n):
            continue
        u = fresh(ZERO, m)
        rest = _pmk(ring, {tuple(sorted(((x, f) for x, f in ins.items() if x is not a), key=lambda ae: (key(ae[0]), _ser(ae[1])))): 1})
        return psum(u, m, psum(v, n, pmul(rest, inst(a, patom(u)))))
    return None


def _sum_of_bits(v, n, ins, ring):
    """sum_{v<n} 2^v * (x // 2^v mod 2) -> x mod 2^n"""
    if len(ins) != 2 or any(e != 1 for e in ins.values()):
        return None
    w = [a for a in ins if a.op == 'pow2' and a.args[0] is patom(v)]
    b = [a for a in ins if a.op == 'mod' and const_of(a.args[1]) == 2]
    if not w or not b:
        return None
    inner = dict(b[0].args[0].args[1])
    k = inner.pop((), 0)
    d = [a for m, c in inner.items() if c == 1 and len(m) == 1 for a, e in m if e == 1]
    if len(inner) != 1 or len(d) != 1 or d[0].op != 'fdiv' or d[0].args[1] is not patom(w[0]) or v in d[0].args[0].fv:
        return None
    x = d[0].args[0]
    if k % 2:
        # the complement bit
        x = psub(pconst(-1), x)
    r = mod(x, pow2(imax(n, ZERO)))
    return r if ring == 'I' else embed(r, ring[1])


def _sum_of_chunks(v, n, inp, ring):
    """sum_i sum_{j<k} f(i*k + j) -> sum_{t<n*k} f(t)"""
    if len(inp.args[1]) != 1 or len(inp.args[1][0][0]) != 1 or inp.args[1][0][0][0][1] != 1:
        return None
    a = inp.args[1][0][0][0][0]
    if a.op != 'sum':
        return None
    h, r2, k, body = a.args
    if v in k.fv:
        return None
    j = fresh(ZERO, k)
    b = subst(body, {mk('bv', h): patom(j)})
    # replace i*k + j by t
    t = fresh(ZERO, pmul(n, k))
    b2 = subst(b, {j: psub(patom(t), pmul(patom(v), k))})
    if v in b2.fv or j in b2.fv:
        return None
    return psum(t, pmul(n, k), b2)


def exists(v, n, body):
    """Boolean: some v in range(n) satisfies body."""
    n = as_int(n)
    if n.op == 'ite':
        return mapleaves(lambda m: exists(v, m, body), n)
    if body is FALSE:
        return FALSE
    c = const_of(n)
    if c is not None:
        if c <= 0:
            return FALSE
        if c <= 16:
            return bor(*[subst(body, {v: pconst(k)}) for k in range(c)])
    if v not in body.fv:
        return band(lt0(pneg(n)), body)
    for at in sorted(atoms_of(body), key=key):
        if v not in at.fv:
            return ite(atom_bool(at), exists(v, n, restrict(body, at, True)), exists(v, n, restrict(body, at, False)))
    # disjunction of a positive atom: exists(a or b) = exists(a) or exists(b)
    if body.op == 'ite' and body.args[1] is TRUE and body.args[2] is not FALSE:
        return bor(exists(v, n, atom_bool(body.args[0])), exists(v, n, body.args[2]))
    if body.op == 'ite' and body.args[2] is TRUE and body.args[1] is not FALSE:
        return bor(exists(v, n, bnot(atom_bool(body.args[0]))), exists(v, n, body.args[1]))
    # monotone linear atoms
    if body.op == 'ite' and body.args[0].op == 'lt0' and {body.args[1], body.args[2]} == {TRUE, FALSE}:
        p = body.args[0].args[0]
        neg = body.args[1] is FALSE          # not (p < 0)  <=>  -p-1 < 0 ... p >= 0
        q = {}
        ok = True
        for m, c in p.args[1]:
            if any(x is v for x, _ in m):
                mm = tuple((x, e) for x, e in m if x is not v)
                if sum(e if type(e) is int else 99 for x, e in m if x is v) != 1:
                    ok = False
                q[mm] = c
            elif any(v in x.fv or (type(e) is T and v in e.fv) for x, e in m):
                ok = False
        if ok and q:
            qq = _pmk('I', q)
            s = _sign(qq, 6) if v not in qq.fv else None
            if s is not None:
                # exists p<0: smallest value; exists p>=0: largest value
                at_last = (s < 0) != neg
                pt = psub(n, ONE) if at_last else ZERO
                r = lt0(subst(p, {v: pt}))
                return band(lt0(pneg(n)), bnot(r) if neg else r)
    for at in sorted(atoms_of(body), key=key):
        sp = split_point(at, v, n)
        if sp is not None:
            return split_range(v, n, sp, exists, body, lambda xs: bor(*xs))
    sp = seam(body, v, n)
    if sp is not None:
        return split_range(v, n, sp, exists, body, lambda xs: bor(*xs))
    h, b = _close(v, body)
    return atom_bool(mk('exists', h, n, b))


def restrict(t, atom, val):
    return subst(t, {atom: TRUE if val else FALSE})


# ---------------------------------------------------------------- equality / misc values
def eqv(a, b):
    """a == b as a boolean diagram."""
    def f(x, y):
        if x is y:
            return TRUE
        kx, ky = kind_of(x), kind_of(y)
        if x is NONE or y is NONE:
            z = y if x is NONE else x
            kz = kind_of(z)
            if z.op in ('P', 'S', 'true', 'false') or (z.op not in ('call', 'sym', 'idx', 'item', 'attr', 'phi', 'v', 'rec', 'last')):
                return FALSE
            if not (kz in ('any', 'none') or (type(kz) is tuple and kz[0] == 'opt')):
                return FALSE
            return atom_bool(mk('isnone', z))
        if is_bool(x) and is_bool(y):
            return bnot(bxor(x, y))
        if x.op == 'P' or y.op == 'P' or kx in ('int', 'felt') or ky in ('int', 'felt'):
            if (x.op == 'P' or kx in ('int', 'felt', 'bool')) and (y.op == 'P' or ky in ('int', 'felt', 'bool')):
                return eq0(psub(num(x), num(y)))
        sx, sy = x.op == 'S', y.op == 'S'
        if x.op == 'str' and y.op == 'str':
            return TRUE if x is y else FALSE
        if sx or sy or seq_kind(x) or seq_kind(y):
            r = _eq_seq(x, y)
            if r is not None:
                return r
        if x.op == 'cls' and y.op == 'cls':
            return TRUE if x is y else FALSE
        l = sorted((x, y), key=key)
        return atom_bool(mk('eqv', *l))
    if is_bool(a) and is_bool(b):
        return bnot(bxor(a, b))
    return lift(f, a, b)


def _eq_seq(x, y):
    if x.op != 'S' and y.op != 'S':
        return None
    lx, ly = seqlen(x), seqlen(y)
    if lx.op == 'ite' or ly.op == 'ite':
        return None
    for a, la, b in ((x, lx, y), (y, ly, x)):
        if la is ZERO:
            return eq0(seqlen(b))
    cx, cy = const_of(lx), const_of(ly)
    if cx is not None and cy is not None:
        if cx != cy:
            return FALSE
        if cx <= 64 and all(s.op == 'u' for s in x.args[1] if x.op == 'S') and x.op == 'S' and y.op == 'S':
            xs = [index(x, pconst(k)) for k in range(cx)]
            ys = [index(y, pconst(k)) for k in range(cx)]
            if all(k in ('int', 'felt', 'bool', 'byte') for k in map(kind_of, xs)):
                return band(*[eqv(p, q) for p, q in zip(xs, ys)])
        elif x.op == 'S' and y.op == 'S' and all(s.op == 'u' and is_bool(s.args[0]) for s in x.args[1] + y.args[1]):
            es = [eqv(p.args[0], q.args[0]) for p, q in zip(x.args[1], y.args[1])]
            if FALSE in es:
                return FALSE
    elif lt(lx, ly) or lt(ly, lx):
        return FALSE
    return None


def ltv(a, b):
    """a < b for integers, otherwise an atom."""
    def f(x, y):
        kx, ky = kind_of(x), kind_of(y)
        if (x.op == 'P' or kx in ('int', 'bool')) and (y.op == 'P' or ky in ('int', 'bool')):
            return lt0(psub(num(x), num(y)))
        if x is y:
            return FALSE
        return atom_bool(mk('ltv', x, y))
    return lift(f, a, b)


def truth(t):
    if is_bool(t):
        return t

    def f(x):
        if x in (TRUE, FALSE):
            return x
        if x is NONE:
            return FALSE
        if x.op == 'P':
            return bnot(eq0(x))
        if x.op == 'S' or seq_kind(x):
            k = kind_of(x)
            if type(k) is tuple and k[0] == 'opt':
                return atom_bool(mk('truth', x))
            return bnot(eq0(seqlen(x)))
        k = kind_of(x)
        if k == 'int':
            return bnot(eq0(num(x)))
        if k == 'bool':
            return atom_bool(x)
        if x.op == 'str':
            return TRUE if x.args[0] else FALSE
        if x.op in ('py', 'cls', 'ref'):
            return TRUE
        return atom_bool(mk('truth', x))
    return lift(f, t)


def tobytes(x, n, order):
    def f(x, n):
        x, n = num(x), num(n)
        c, k = const_of(x), const_of(n)
        if c is not None and k is not None:
            try:
                return bytesc(c.to_bytes(k, order))
            except OverflowError:
                return unsup('to_bytes overflow')
        if k == 1 and x.op == 'P':
            return seq('bytes', [U(x)])
        # to_bytes(from_bytes(b, o), len(b), o) = b
        if x.op == 'P' and len(x.args[1]) == 1:
            m, cc = x.args[1][0]
            if cc == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'frombytes' \
                    and m[0][0].args[0] == order and same(seqlen(m[0][0].args[1]), n):
                return m[0][0].args[1]
        t = mk('tobytes', x, order, n)
        return seq('bytes', [mk('sl', t, ZERO, n)])
    return lift(f, x, n)


def _byte_run(es):
    """(base, lo, hi, ascending) when the values are consecutive bytes of one atomic string."""
    ats = []
    for e in es:
        if e.op != 'P' or len(e.args[1]) != 1 or e.args[1][0][1] != 1 or len(e.args[1][0][0]) != 1:
            return None
        a, k = e.args[1][0][0][0]
        if k != 1 or a.op != 'idx' or a.args[-1] != 'byte' or ats and a.args[0] is not ats[0].args[0]:
            return None
        ats.append(a)
    if len(ats) < 2:
        return None
    for up in (True, False):
        if all(psub(y.args[1], x.args[1]) is pconst(1 if up else -1) for x, y in zip(ats, ats[1:])):
            lo, hi = (ats[0], ats[-1]) if up else (ats[-1], ats[0])
            return ats[0].args[0], lo.args[1], padd(hi.args[1], ONE), up
    return None


def frombytes(b, order):
    def f(b):
        segs = segs_of(b)
        if not segs:
            return ZERO
        if all(s.op == 'u' for s in segs):
            r = ZERO
            es = [s.args[0] for s in segs]
            run = _byte_run(es)
            if run is not None:
                t, lo, hi, up = run
                return frombytes(seq('bytes', sl(t, lo, hi)), order if up else 'little' if order == 'big' else 'big')
            if order == 'big':
                es = es[::-1]
            for k, e in enumerate(es):
                r = padd(r, pmul(pconst(256 ** k), e))
            return r
        if len(segs) == 1 and segs[0].op == 'sl' and segs[0].args[0].op == 'tobytes':
            t, lo, hi = segs[0].args
            if t.args[1] == order and lo is ZERO and hi is t.args[2]:
                return t.args[0]
        if len(segs) == 1 and segs[0].op == 'sl' and psub(segs[0].args[2], segs[0].args[1]) is ONE:
            return elem(segs[0].args[0], segs[0].args[1])
        s = b if b.op == 'S' else seq('bytes', segs)
        if len(segs) == 1 and segs[0].op == 'map':
            # from_bytes(b[::-1], o) = from_bytes(b, other order)
            from sa.interp import reverse_seq
            r = reverse_seq(s)
            if len(segs_of(r)) == 1 and segs_of(r)[0].op == 'sl':
                return frombytes(r, 'little' if order == 'big' else 'big')
        return patom(mk('frombytes', order, s))
    return lift(f, b)


def fint(p):
    """Integer representative of a field element."""
    def f(p):
        p = num(p)
        if p.op == 'ite':
            return fint(p)
        if p.args[0] == 'I':
            return p
        if is_const(p) and cval(p) >= 0 and cval(p) < 2 ** 32:
            return pconst(cval(p))
        fl = p.args[0][1]
        # image of an integer known to be canonical
        q = mk('P', 'I', p.args[1])
        if all(kind_of(a) != 'felt' for m, _ in p.args[1] for a, _ in m) and \
                all(type(e) is T or e > 0 for m, _ in p.args[1] for _, e in m) and fl is not None:
            if le(ZERO, q) and lt(q, attr_int(fl, 'MODULUS')):
                return q
        return patom(mk('fint', p))
    return lift(f, p)


# ---------------------------------------------------------------- substitution
def subst(t, mp):
    """Replace subterms by mapping; result is renormalised."""
    if not mp:
        return t
    mp2 = {}
    for k, v in mp.items():
        mp2[k] = v
    return _sub(t, mp2, {}, False)


def _relevant(t, mp):
    for k in mp:
        if not k.fv or k.fv <= t.fv:
            return True
    return False


def _sub(t, mp, memo, force):
    r = memo.get(t)
    if r is not None:
        return r
    if t in mp:
        r = mp[t]
        memo[t] = r
        return r
    if not force and not _relevant(t, mp):
        return t
    r = _rebuild(t, mp, memo, force)
    memo[t] = r
    return r


def _subx(a, mp, memo, force):
    if type(a) is T:
        return _sub(a, mp, memo, force)
    if type(a) is tuple:
        return tuple(_subx(x, mp, memo, force) for x in a)
    return a


def _val(t, kindhint=None):
    return t


def _rebuild(t, mp, memo, force):
    op, args = t.op, t.args
    g = lambda x: _sub(x, mp, memo, force)
    if op in ('v', 'phi', 'sym', 'bv', 'true', 'false', 'none', 'str', 'unsup', 'cls', 'py', 'ref', 'bytesconst'):
        return t
    if op == 'P':
        ring = args[0]
        if ring != 'I' and ring[1] is not None:
            fl = g(ring[1])
            if fl.op == 'ite':
                return mapleaves(lambda f: _reP(('F', f), args[1], g), fl)
            ring = ('F', fl)
        return _reP(ring, args[1], g)
    if op == 'ite':
        c = g(args[0])
        if c.op not in ('true', 'false', 'ite'):
            c = atom_bool(c)
        if c is TRUE:
            return g(args[1])
        if c is FALSE:
            return g(args[2])
        return ite(c, g(args[1]), g(args[2]))
    if op == 'S':
        parts = []
        for s in args[1]:
            if s.op == 'u':
                e = g(s.args[0])
                parts.append(seq(args[0], [U(e)]))
            elif s.op == 'sl':
                b, lo, hi = g(s.args[0]), g(s.args[1]), g(s.args[2])
                if b.op in ('S', 'ite') or lo.op == 'ite' or hi.op == 'ite':
                    parts.append(lift(lambda bb, l, h: _recut(bb, l, h, args[0]), b, lo, hi))
                else:
                    parts.append(seq(args[0], sl(b, lo, hi)))
            elif s.op == 'map':
                n = g(s.args[1])
                v = fresh(ZERO, n if n.op == 'P' else None)
                body = _sub(inst(s, patom(v)), mp, {}, force)
                parts.append(seqmap(v, n, body, args[0]))
            else:
                parts.append(seq(args[0], [_rebuild_generic(s, g)]))
        return cat(args[0], *parts) if parts else t
    if op == 'sum':
        h, ring, n, body = args
        n2 = g(n)
        v = fresh(ZERO, n2 if n2.op == 'P' else None)
        b = _sub(subst(body, {mk('bv', h): patom(v)}), mp, {}, force)
        return psum(v, n2, b)
    if op == 'prod':
        h, ring, n, body = args
        n2 = g(n)
        v = fresh(ZERO, n2 if n2.op == 'P' else None)
        b = _sub(subst(body, {mk('bv', h): patom(v)}), mp, {}, force)
        return pprod(v, n2, b)
    if op == 'exists':
        h, n, body = args
        n2 = g(n)
        v = fresh(ZERO, n2 if n2.op == 'P' else None)
        b = _sub(subst(body, {mk('bv', h): patom(v)}), mp, {}, force)
        return exists(v, n2, b)
    if op == 'fold':
        return _rebuild_fold(t, mp, force)
    if op == 'firstidx':
        return _rebuild_firstidx(t, mp, force)
    if op in ('wfold', 'first', 'last', 'filt'):
        return _rebuild_binder(t, mp, force)
    if op == 'len':
        return seqlen(g(args[0]))
    if op == 'fdiv':
        return fdiv(g(args[0]), g(args[1]))
    if op == 'mod':
        return mod(g(args[0]), g(args[1]))
    if op == 'powmod':
        return powmod(g(args[0]), g(args[1]), g(args[2]))
    if op == 'pow2':
        return pow2(g(args[0]))
    if op == 'ipow':
        return ppow(g(args[0]), g(args[1]))
    if op == 'inv':
        return finv(g(args[0]))
    if op == 'min':
        return imin(g(args[0]), g(args[1]))
    if op == 'max':
        return imax(g(args[0]), g(args[1]))
    if op == 'bitlen':
        return bitlen(g(args[0]))
    if op == 'ixor':
        r = ZERO
        for x in args[0]:
            r = ixor(r, g(x))
        return r
    if op == 'iand':
        return iand(g(args[0]), g(args[1]))
    if op == 'ior':
        return ior(g(args[0]), g(args[1]))
    if op == 'b2i':
        return num(g(args[0]))
    if op == 'bits':
        b = g(args[0])
        return bits(b, g(args[1]), g(args[2]))
    if op == 'lt0':
        return lt0(g(args[0]))
    if op == 'eq0':
        return eq0(g(args[0]))
    if op == 'eqv':
        return eqv(g(args[0]), g(args[1]))
    if op == 'ltv':
        return ltv(g(args[0]), g(args[1]))
    if op == 'isnone':
        return eqv(g(args[0]), NONE)
    if op == 'truth':
        return truth(g(args[0]))
    if op == 'idx':
        b, i = g(args[0]), g(args[1])
        return index(b, i)
    if op == 'fint':
        return fint(g(args[0]))
    if op == 'frombytes':
        return frombytes(g(args[1]), args[0])
    if op == 'tobytes':
        x, n = g(args[0]), g(args[2])
        if x.op == 'ite' or n.op == 'ite':
            return tobytes(x, n, args[1])
        if x is args[0] and n is args[2]:
            return t
        return tobytes(x, n, args[1])
    if op in ('slice', 'bslice'):
        b, lo, hi = g(args[0]), g(args[1]), g(args[2])
        if b is args[0] and lo is args[1] and hi is args[2] and not force:
            return t
        return lift(lambda bb, l, h: cut(bb, l, h), b, lo, hi)
    if op == 'attr':
        b = g(args[0])
        if b.op == 'ite':
            return mapleaves(lambda x: _attr_re(x, args), b)
        return _attr_re(b, args)
    return _rebuild_generic(t, g)


def _attr_re(b, args):
    if args[2] == 'int':
        r = CLS_CONST.get((b, args[1]))
        if r is not None:
            return r
    return mk('attr', b, args[1], args[2])


def _recut(b, lo, hi, kind):
    r = cut(b, lo, hi)
    if r.op == 'S' and r.args[0] != kind:
        r = mk('S', kind, r.args[1])
    return r


def _reP(ring, monos, g):
    tot = pconst(0, ring)
    for m, c in monos:
        term = pconst(c, ring)
        for a, e in m:
            a2 = g(a)
            if type(e) is T:
                e2 = g(e)
                ce = const_of(e2) if e2.op == 'P' else None
            else:
                e2, ce = e, e
            if a2 is a and (e2 is e):
                f = mk('P', ring, ((((a, e),), 1),))
            else:
                base = num(a2)
                if ring != 'I' and ring[1] is not None:
                    base = mapleaves(lambda x: embed(x, ring[1]) if x.op == 'P' and x.args[0] == 'I' else x, base)
                if ce is not None:
                    if ce >= 0:
                        f = ppow(base, ce)
                    else:
                        f = ppow(finv(base), -ce)
                else:
                    f = ppow(base, e2)
            term = pmul(term, f)
        tot = padd(tot, term)
    return tot


def _rebuild_generic(t, g):
    """Uninterpreted operator: rebuild arguments, hoisting guards of direct term arguments."""
    def go(a):
        if type(a) is T:
            return g(a)
        if type(a) is tuple:
            return tuple(go(x) for x in a)
        return a
    new = [go(a) for a in t.args]
    idx = [k for k, a in enumerate(new) if type(a) is T and a.op == 'ite' and not is_bool(a)]
    if not idx:
        return mk(t.op, *new) if t.op not in BOOL_OPS else atom_bool(mk(t.op, *new))

    def f(*xs):
        nn = list(new)
        for k, x in zip(idx, xs):
            nn[k] = x
        return mk(t.op, *nn)
    r = lift(f, *[new[k] for k in idx])
    return r


def _rebuild_binder(t, mp, force):
    """fold-like binders: (h, ...) with bound variable bv(h) in all term arguments but those listed first."""
    h = t.args[0]
    v = fresh(ZERO)
    bv = mk('bv', h)

    def opn(a):
        if type(a) is T:
            return _sub(subst(a, {bv: patom(v)}), mp, {}, force)
        if type(a) is tuple:
            return tuple(opn(x) for x in a)
        return a
    new = [opn(a) for a in t.args[1:]]

    def ht(a):
        if type(a) is T:
            return a.ht
        if type(a) is tuple:
            return max([0] + [ht(x) for x in a])
        return 0
    h2 = max([0] + [ht(a) for a in new]) + 1
    bv2 = mk('bv', h2)

    def cl(a):
        if type(a) is T:
            return subst(a, {v: bv2})
        if type(a) is tuple:
            return tuple(cl(x) for x in a)
        return a
    return mk(t.op, h2, *[cl(a) for a in new])


def pprod(v, n, body):
    n = as_int(n)
    if n.op == 'ite':
        return mapleaves(lambda m: pprod(v, m, body), n)
    body = num(body)
    c = const_of(n)
    if c is not None and c <= 16 and body.op == 'P':
        r = pconst(1, body.args[0])
        for k in range(max(c, 0)):
            r = pmul(r, subst(body, {v: pconst(k)}))
        return r
    if v not in body.fv:
        return ppow(body, n)
    ring = body.args[0] if body.op == 'P' else leaves(body)[0].args[0]
    h, b = _close(v, body)
    return patom(mk('prod', h, ring, n, b), ring)


# ---------------------------------------------------------------- folds
def bp(h, j, kind, field=None):
    """Bound accumulator j of a fold at binder height h."""
    s = sym('~bp%d_%d' % (h, j), kind)
    if field is not None:
        FIELD[s] = field
    return s


def mkfold(h, n, inits, bodies, j, kind, field=None):
    """Accumulator j after n iterations of acc := bodies(acc, index)."""
    c = const_of(n) if n.op == 'P' else None
    if n.op == 'ite':
        return mapleaves(lambda m: mkfold(h, m, inits, bodies, j, kind, field), n)
    if c is not None and c <= 16:
        cur = list(inits)
        accs = [None] * len(inits)
        for t in _bps(bodies, h):
            accs[int(t.args[0].split('_')[1])] = t
        for k in range(max(c, 0)):
            mp = {mk('bv', h): pconst(k)}
            for q, a in enumerate(accs):
                if a is not None:
                    mp[a] = cur[q]
            cur = [subst(b, mp) for b in bodies]
        return cur[j]
    t = mk('fold', h, n, tuple(inits), tuple(bodies), j, kind)
    if field is not None:
        FIELD[t] = field
    return wrap(t)


def _bps(bodies, h):
    pre = '~bp%d_' % h
    out = set()
    for b in bodies:
        for x in b.fv:
            if x.op == 'sym' and x.args[0].startswith(pre):
                out.add(x)
    return out


def _rebuild_fold(t, mp, force):
    h, n, inits, bodies, j, kind = t.args
    n2 = _sub(n, mp, {}, force)
    in2 = tuple(_sub(x, mp, {}, force) for x in inits)
    v = fresh(ZERO, n2 if n2.op == 'P' else None)
    ops = sorted(_bps(bodies, h), key=key)
    op_ = {}
    back = {}
    for a in ops:
        ph = mk('phi', -next(_uid), a.args[1])
        if a in FIELD:
            FIELD[ph] = FIELD[a]
        op_[a] = ph
        back[ph] = a
    op_[mk('bv', h)] = patom(v)
    opened = [_sub(subst(b, op_), mp, {}, force) for b in bodies]
    h2 = max([0] + [b.ht for b in opened]) + 1
    cl = {v: mk('bv', h2)}
    for ph, a in back.items():
        cl[ph] = bp(h2, int(a.args[0].split('_')[1]), a.args[1], FIELD.get(a))
    closed = [subst(b, cl) for b in opened]
    return mkfold(h2, n2, in2, closed, j, kind, FIELD.get(t))


def _rebuild_firstidx(t, mp, force):
    h, n, body = t.args
    n2 = _sub(n, mp, {}, force) if n is not NONE else NONE
    v = fresh(ZERO, n2 if n2.op == 'P' else None)
    b = _sub(subst(body, {mk('bv', h): patom(v)}), mp, {}, force)
    h2, b2 = _close(v, b)
    r = mk('firstidx', h2, n2, b2)
    BOUNDS[r] = (ZERO, n2 if n2 is not NONE else None)
    return r


def _has(t, ops):
    """Does an operator of ops occur in the term?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple:
            st.extend(x)
            continue
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            return True
        st.extend(x.args)
    return False
