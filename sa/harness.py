"""Analysis contexts: symbolic instances of the classes of the analysed tree."""
import sys

from sa.terms import *
from sa import terms as TM
from sa.project import Project
from sa.interp import (Interp, Config, State, Frame, OCell, LCell, Outcome, Unsup, Dead, NeedSplit, MissingAnchor, RAISE)

sys.setrecursionlimit(30000)

TM.ATTR_BOUNDS.update({
    'ENCODED_SIZE': (1, None), 'MODULUS': (3, None), 'SEED_SIZE': (1, 255), 'KEY_SIZE': (1, 255), 'MEAS_LEN': (1, None), 'OUTPUT_LEN': (1, None),
    'PROOF_LEN': (1, None), 'VERIFIER_LEN': (1, None), 'PROVE_RAND_LEN': (1, None), 'QUERY_RAND_LEN': (1, None),
    'JOINT_RAND_LEN': (0, None), 'SHARES': (1, 255), 'PROOFS': (1, 255), 'ID': (0, (1 << 32) - 1), 'NONCE_SIZE': (0, None),
    'ROUNDS': (1, None), 'VERIFY_KEY_SIZE': (0, None), 'RAND_SIZE': (0, None), 'ARITY': (1, None), 'DEGREE': (1, None), 'BITS': (1, None),
    'EVAL_OUTPUT_LEN': (0, None), 'VALUE_LEN': (1, None),
})

METHOD_LEN = {
    'Flp.encode': lambda s: TM.attr_int(s, 'MEAS_LEN'),
    'Flp.prove': lambda s: TM.attr_int(s, 'PROOF_LEN'),
    'Flp.query': lambda s: TM.attr_int(s, 'VERIFIER_LEN'),
    'Flp.truncate': lambda s: TM.attr_int(s, 'OUTPUT_LEN'),
}
for _k, _f in METHOD_LEN.items():
    TM.CALL_LEN[_k] = (lambda f: lambda t: f(t.args[1][0]))(_f)
    TM.CALL_FIELD[_k] = lambda t: flp_field(t.args[1][0])


FLP_FIELD = {}


def flp_field(b):
    """The field of a symbolic Flp, as the tree's annotations type it."""
    return FLP_FIELD.get(b) or mk('attr', b, 'field', ('cls', 'Field'))


class H:
    """One abstract flow of calls starting from symbolic inputs."""

    def __init__(self, project, cfg=None):
        self.p = project
        self.I = Interp(project, cfg)
        self.st = State({}, {})
        self.fr = Frame(None, None, None)
        self.I.frames.append(self.fr)

    # -------------------------------------------------- inputs
    def cls(self, name):
        c = self.p.classes.get(name)
        if c is None:
            raise MissingAnchor('class ' + name)
        return c

    def obj(self, clsname, name, attrs=None):
        """Symbolic instance of a class."""
        c = self.cls(clsname)
        b = sym(name, ('obj', clsname))
        return self.I.alloc(self.st, OCell(c, dict(attrs or {}), b))

    def bare(self, clsname, attrs=None):
        return self.I.alloc(self.st, OCell(self.cls(clsname), dict(attrs or {})))

    def attr(self, ref, name):
        return self.I.getattr_(ref, name, self.st, None)

    def setattr(self, ref, name, v):
        self.I.setattr_(ref, name, v, self.st, None)

    def list(self, content):
        return self.I.newlist(self.st, content)

    def felt(self, name, field):
        """Any element of the field."""
        s = sym(name, ('list', 'felt'))
        LEN[s], FIELD[s] = ONE, field
        return index(wrap(s), ZERO)

    def symlist(self, name, kind, length=None, field=None, frozen=False):
        """Caller-owned list of symbolic content."""
        s = sym(name, ('list', kind))
        if length is not None:
            LEN[s] = length
        if field is not None:
            FIELD[s] = field
        return wrap(s) if frozen else self.I.newlist(self.st, wrap(s))

    def bytes(self, name, length=None):
        s = sym(name, 'bytes')
        if length is not None:
            LEN[s] = length
        return wrap(s)

    def int(self, name, lo=None, hi=None):
        return patom(sym(name, 'int', num_(lo), num_(hi)))

    def assume(self, c):
        """Precondition."""
        self.st.assume(c)

    def fact(self, f):
        """Record f <= 0."""
        self.st.facts = self.st.facts + (f,)

    # -------------------------------------------------- calls
    def method(self, ref, name):
        f = self.I.getattr_(ref, name, self.st, None)
        return f

    def call(self, target, *args, **kw):
        """Value of a call; paths that raise are dropped from the flow (recorded in self.fr.exits)."""
        return self.value(lambda s: self._call(target, args, kw, s))

    def _call(self, target, args, kw, s):
        if isinstance(target, tuple):
            f = self.I.getattr_(target[0], target[1], s, None)
        elif isinstance(target, str):
            fn = self.p.func(target)
            if fn is None:
                raise MissingAnchor(target)
            self.fr.module = self.fr.module or fn.module
            return self.I.call_func(fn, list(args), kw, s, fn.node)
        else:
            f = target
        return self.I.call(f, list(args), kw, s, None)

    def value(self, f):
        self.st.use()
        while True:
            s0 = self.st.copy()
            ne = len(self.fr.exits)
            try:
                return f(self.st)
            except NeedSplit as e:
                raise Unsup('harness needs case distinction on %r' % (e.atom,))

    def outcome(self, target, *args, **kw):
        """Decision diagram over ret(value) / raise of a call; the flow itself is not changed."""
        s = self.st.copy()
        s.guard = TRUE
        s.use()
        saved = self.fr.exits
        self.fr.exits = []
        try:
            try:
                v = self._call(target, args, kw, s)
                v = self.I.deep(v, s)
                ok = s.guard
            except Dead:
                v, ok = None, FALSE
            ex = self.fr.exits
        finally:
            self.fr.exits = saved
            self.st.use()
        out = RAISE
        if v is not None:
            out = ite(ok, mk('ret', v) if is_bool(v) else mapleaves(lambda x: mk('ret', x), v), RAISE)
        return Outcome(out, s, ex, v, ok)

    def deep(self, v):
        return self.I.deep(v, self.st)


def num_(x):
    return pconst(x) if type(x) is int else x


def field_facts(h, F):
    """Size relation of a symbolic field (itself an obligation of P19 for every concrete field)."""
    h.fact(psub(TM.attr_int(F, 'MODULUS'), pow2(pmul(pconst(8), TM.attr_int(F, 'ENCODED_SIZE')))))


def flp_obj(h, joint, cls='Flp'):
    """Symbolic Flp without (joint = 0) or with joint randomness."""
    name = 'flp' if joint else 'flp0'
    flp = h.obj(cls, name)
    b = sym(name, ('obj', cls))
    if joint:
        h.fact(psub(ONE, TM.attr_int(b, 'JOINT_RAND_LEN')))
    else:
        TM.CLS_CONST[(b, 'JOINT_RAND_LEN')] = ZERO
    FLP_FIELD[b] = h.attr(flp, 'field')
    field_facts(h, FLP_FIELD[b])
    return flp


def prio3_obj(h, joint, shares=None, proofs=None, cls='Flp'):
    """Prio3 instance produced by the tree's own initialiser from symbolic parameters."""
    flp = flp_obj(h, joint, cls)
    v = h.obj('Prio3', 'prio3')
    shares = shares if shares is not None else h.int('shares', 2, 256)
    proofs = proofs if proofs is not None else h.int('proofs', 1, 256)
    h.call('Prio3.__init__', v, shares, flp, proofs)
    return v, flp


def tup(*xs):
    return seq('tuple', [U(x) for x in xs])


def concrete_fields(p):
    """Names of the concrete fields of the tree, with their size constants made known to the prover."""
    out = []
    for name, c in sorted(p.classes.items()):
        if c.module.name.startswith('spec.') or not c.isa('Field'):
            continue
        if c.find_assign('MODULUS') is None:
            continue
        h = H(p)
        F = mk('cls', name)
        for a in ('MODULUS', 'ENCODED_SIZE', 'GEN_ORDER'):
            if c.find_assign(a) is None:
                continue
            try:
                v = h.attr(F, a)
            except Exception:
                continue
            if const_of(v) is not None:
                TM.CLS_CONST[(F, a)] = v
        out.append(name)
    return out


def poplar1_obj(h, idpf=None):
    """Poplar1 instance of symbolic depth, built by the tree's own initialiser; its IDPF may be replaced by a probe."""
    concrete_fields(h.p)
    bits = h.int('bits', 1)
    v = h.bare('Poplar1')
    h.call('Poplar1.__init__', v, bits)
    if idpf is not None:
        i = h.bare(idpf)
        h.call('IdpfBBCGGI21.__init__', i, pconst(2), bits)
        h.setattr(v, 'idpf', i)
    return v, bits


def poplar1_param(h, bits, which):
    """Symbolic aggregation parameter at an inner level or at the leaf level."""
    if which == 'leaf':
        level = psub(bits, ONE)
    else:
        level = h.int('level', 0)
        h.fact(padd(psub(level, bits), pconst(2)))
    pre = sym('prefixes', ('tuple', ('tuple', 'bool')))
    TM.ITEM_LEN[pre] = padd(level, ONE)
    ELEM_LEN[pre] = padd(level, ONE)
    return level, wrap(pre)
