"""Valuations of integer terms: a reported difference between two integer or boolean normal forms must show on some valuation of their atoms."""
import random

from sa import terms as TM
from sa.terms import T, TRUE, FALSE, const_of

ARITH = {'mod', 'fdiv', 'b2i', 'pow2', 'min', 'max', 'ior', 'iand', 'ixor', 'bitlen'}
CONNECT = {'ite', 'lt0', 'eq0', 'P'}


def subterms(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if type(t) is tuple:
            st.extend(t)
            continue
        if type(t) is not T or t in seen:
            continue
        seen.add(t)
        st.extend(t.args)
    return seen


class NoValue(Exception):
    pass


class Valuation:
    def __init__(self, rng, small):
        self.rng, self.small = rng, small
        self.leafs, self.memo = {}, {}

    def val(self, t):
        if type(t) is not T:
            return t
        if t in self.memo:
            return self.memo[t]
        r = self.memo[t] = self.compute(t)
        return r

    def compute(self, t):
        op = t.op
        if t is TRUE:
            return 1
        if t is FALSE:
            return 0
        if op == 'P':
            if t.args[0] != 'I':
                raise NoValue
            s = 0
            for m, c in t.args[1]:
                for a, e in m:
                    if type(e) is not int or e < 0:
                        raise NoValue
                    c = c * self.val(a) ** e
                s += c
            return s
        if op == 'ite':
            return self.val(t.args[1] if self.val(t.args[0]) else t.args[2])
        if op == 'lt0':
            return int(self.val(t.args[0]) < 0)
        if op == 'eq0':
            return int(self.val(t.args[0]) == 0)
        if op in ('mod', 'fdiv'):
            x, y = self.val(t.args[0]), self.val(t.args[1])
            if y == 0:
                raise NoValue
            return x % y if op == 'mod' else x // y
        if op == 'b2i':
            return int(bool(self.val(t.args[0])))
        if op == 'pow2':
            e = self.val(t.args[0])
            if not 0 <= e < 4096:
                raise NoValue
            return 1 << e
        if op in ('min', 'max'):
            return (min if op == 'min' else max)(self.val(x) for x in t.args)
        if op == 'bitlen':
            return self.val(t.args[0]).bit_length()
        if op in ('ior', 'iand'):
            x, y = self.val(t.args[0]), self.val(t.args[1])
            return x | y if op == 'ior' else x & y
        if op == 'ixor':
            r = 0
            for x in t.args[0]:
                r ^= self.val(x)
            return r
        if op in TM.BINDERS or op in ('bv', 'S', 'ret', 'raise', 'fint'):
            raise NoValue
        return self.leaf(t)

    def leaf(self, t):
        k = (t.op,) + tuple(self.val(x) if type(x) is T and x.op == 'P' and x.args[0] == 'I' else x for x in t.args)
        if k not in self.leafs:
            if TM.is_bool(t) or TM.kind_of(t) == 'bool':
                self.leafs[k] = self.rng.randrange(2)
            else:
                lo, hi = TM._bounds_of_atom(t)
                lo = self.val(lo) if lo is not None else -5
                hi = self.val(hi) if hi is not None else lo + (6 if self.small else 300)
                if hi < lo:
                    raise NoValue
                self.leafs[k] = self.rng.choice((lo, hi, self.rng.randint(lo, hi), self.rng.randint(lo, min(hi, lo + 8))))
        return self.leafs[k]


def numeric(t):
    return t in (TRUE, FALSE) or t.op in CONNECT and all(x.op != 'P' or x.args[0] == 'I' for x in subterms((t,)) if x.op == 'P')


def agree(a, b, lits, facts):
    """True when no difference of two arithmetic terms shows on any of the valuations tried that meet the context."""
    if not (numeric(a) and numeric(b)) or not any(x.op in ARITH for x in subterms((a, b))):
        return False
    rng = random.Random(1)
    ok = 0
    for k in range(600):
        v = Valuation(rng, k % 2)
        try:
            x, y = v.val(a), v.val(b)
            if not all(met(v, at, val) for at, val in lits.items()) or any(v.val(f) > 0 for f in facts if numeric(f)):
                continue
        except NoValue:
            continue
        if x != y:
            return False
        ok += 1
    return ok >= 12


def same_byte(a, b, lits):
    """True when two arithmetic terms over one byte are equal for every value of the byte that meets the context."""
    if not (numeric(a) and numeric(b)):
        return False
    own = {x for x in subterms((a, b)) if x.op == 'idx' and x.args[-1] == 'byte'}
    if len(own) != 1:
        return False
    byte, = own

    def about(t):
        rest = [t]
        while rest:
            x = rest.pop()
            if type(x) is tuple:
                rest.extend(x)
            elif type(x) is T and x is not byte:
                if x.op not in CONNECT and x.op not in ('mod', 'fdiv'):
                    return False
                rest.extend(x.args)
        return True
    if not (about(a) and about(b)):
        return False
    cond = [(at, val) for at, val in lits.items() if at.op in ('lt0', 'eq0') and about(at) and byte in subterms((at,))]
    if not any(x.op in ('mod', 'fdiv') for x in subterms(tuple(at for at, _ in cond))):
        return False
    found = False
    for k in range(256):
        v = Valuation(None, 0)
        v.memo[byte] = k
        try:
            if all(bool(v.val(at)) == val for at, val in cond):
                found = True
                if v.val(a) != v.val(b):
                    return False
        except NoValue:
            return False
    return found


def met(v, at, val):
    if at.op not in ('lt0', 'eq0'):
        return True
    try:
        return bool(v.val(at)) == val
    except NoValue:
        return True
