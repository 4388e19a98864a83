"""P22: the decision tests the circuit output and every gadget."""
from sa.check import *
from sa.harness import *
from sa.interp import NativeVal

LEVEL = 'proof'
R = Registry('P22', 'Query, proof and decision are normalised for circuits with arbitrary gadgets and for the circuits of the tree, with polynomial evaluation and extension as '
             'uninterpreted functions, and compared with the verifier message and the decision written out')
R.bounds = 'synthetic circuits with 1 to 3 gadgets, up to 17 calls, arity up to 3, degree up to 3, 1 to 3 outputs; circuits of the tree with small parameters'

TM.CALL_FIELD['lageval'] = lambda t: t.args[1][0]
TM.CALL_FIELD['lagext'] = lambda t: t.args[1][0]
TM.CALL_FIELD['gpoly'] = lambda t: t.args[1][1]
TM.CALL_FIELD['Any.eval'] = lambda t: t.args[1][1]
TM.CALL_LEN['lagext'] = lambda t: t.args[1][2]
TM.CALL_LEN['gpoly'] = lambda t: t.args[1][3]


def fieldof(I, st, obj):
    return I.getattr_(obj, 'field', st, None)


def eval_batched(I, st, f, args, kw, node):
    env, names = I.bind(f, args, kw, st, node)
    a = [env[k] for k in names]
    F = fieldof(I, st, a[0])
    polys, x = I.deep(a[1], st), a[2]
    n = const_of(seqlen(polys))
    if n is None:
        raise Unsup('number of polynomials')
    return I.newlist(st, seq('list', [U(I.mkcall('lageval', [F, index(polys, pconst(i)), x], 'felt')) for i in range(n)]))


def eval_one(I, st, f, args, kw, node):
    env, names = I.bind(f, args, kw, st, node)
    a = [env[k] for k in names]
    return I.mkcall('lageval', [fieldof(I, st, a[0]), I.deep(a[1], st), a[2]], 'felt')


def extend(I, st, f, args, kw, node):
    env, names = I.bind(f, args, kw, st, node)
    a = [env[k] for k in names]
    ref, n = a[1], a[2]
    old = I.deep(ref, st)
    more = I.mkcall('lagext', [fieldof(I, st, a[0]), old, psub(n, seqlen(old))], ('list', 'felt'))
    c = st.heap[ref.args[0]]
    st.heap[ref.args[0]] = type(c)(cat('list', old, more), c.kind, c.ext)
    return NONE


def any_poly(I, st, f, args, kw, node):
    """Values of some polynomial of the gadget's degree at the next power of two points."""
    g, F, polys = args
    polys = I.deep(polys, st)
    p = const_of(seqlen(index(polys, ZERO)))
    d = const_of(I.getattr_(g, 'DEGREE', st, None))
    n = 1 << (d * (p - 1)).bit_length()
    return I.newlist(st, wrap(I.mkcall('gpoly', [I.deep(g, st), F, polys, pconst(n)], ('list', 'felt'))))


def flow(r):
    h = r.flow(Config(opaque=('Any.eval',), unroll=64, while_bound=0, hooks={
        'Lagrange.poly_eval_batched': eval_batched, 'Lagrange.poly_eval': eval_one, 'Lagrange.extend_values_to_power_of_2': extend, 'Any.eval_poly': any_poly}))
    concrete_fields(h.p)
    return h


def ints(h, xs):
    return h.list(seq('list', [U(pconst(x)) for x in xs]))


SHAPES = [((1,), (1,), (1,), 1), ((2,), (2,), (1,), 1), ((2,), (2,), (3,), 2), ((1,), (3,), (4,), 1), ((2, 1), (2, 3), (1, 2), 1), ((1, 3), (3, 2), (2, 1), 3),
          ((1, 2, 1), (2, 2, 3), (1, 1, 2), 2), ((3, 2), (2, 2), (4, 5), 2), ((2,), (2,), (17,), 1)]
REAL = [('Count', ()), ('Sum', (5,)), ('Histogram', (5, 2)), ('SumVec', (2, 3, 3)), ('MultihotCountVec', (3, 2, 2))]


def cases(p):
    return [('arity %s degree %s calls %s outputs %d' % s, ('shape', s)) for s in SHAPES]


def real(p):
    return [('%s%r' % c, ('real', c)) for c in REAL]


def maker(h, F, kind, what):
    """Function of the field that builds the circuit."""
    def make(I, st, args):
        if kind == 'shape':
            ar, de, ca, out = what
            ref = I.alloc(st, OCell(h.cls('Circuit'), {}))
            I.call_func(h.p.func('Circuit.__init__'), [ref, args[0]] + [I.newlist(st, seq('list', [U(pconst(x)) for x in xs])) for xs in (ar, de, ca)] + [pconst(out)], {}, st, None)
            return ref
        name, par = what
        return I.construct(mk('cls', name), [args[0]] + [pconst(x) for x in par], {}, st, None)
    return NativeVal(make).t


def vec(h, F, name, n):
    return h.symlist(name, 'felt', length=pconst(n), field=F)


def setup(r, kind, what):
    h = flow(r)
    F = mk('cls', 'Field128')
    m = maker(h, F, kind, what)
    n = [const_of(x.args[0]) for x in h.deep(h.call('proofs:sizes', m, F)).args[1]]
    return h, F, m, n


@R.ob(['FlpBBCGGI19.query', 'QueryGadget'], cases=lambda p: cases(p) + real(p))
def verifier_message(r, kind, what):
    h, F, m, (ml, jl, pl, ql, prl, vl) = setup(r, kind, what)
    args = (m, F, vec(h, F, 'meas', ml), vec(h, F, 'proof', prl), vec(h, F, 'query_rand', ql), vec(h, F, 'joint_rand', jl), h.int('num_shares', 1, 256))
    r.expect(h, h.outcome('proofs:flp_query', *args).term, h.outcome('proofs:query', *args).term,
             'the verifier message is the reduced output and the evaluations of every wire and gadget polynomial')


@R.ob(['FlpBBCGGI19.prove', 'ProveGadget'], cases=cases)
def proof(r, kind, what):
    h, F, m, (ml, jl, pl, ql, prl, vl) = setup(r, kind, what)
    args = (m, F, vec(h, F, 'meas', ml), vec(h, F, 'prove_rand', pl), vec(h, F, 'joint_rand', jl))
    r.expect(h, h.outcome('proofs:flp_prove', *args).term, h.outcome('proofs:prove', *args).term,
             'the proof is the wire seeds and the gadget polynomial of every gadget')


@R.ob(['FlpBBCGGI19.decide'], cases=lambda p: cases(p) + real(p))
def decision(r, kind, what):
    h, F, m, (ml, jl, pl, ql, prl, vl) = setup(r, kind, what)
    args = (m, F, vec(h, F, 'verifier', vl))
    r.expect(h, h.outcome('proofs:flp_decide', *args).term, h.outcome('proofs:decide', *args).term,
             'the decision is positive exactly when the output is zero and every gadget agrees')
