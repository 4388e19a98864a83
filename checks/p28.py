"""P28: honest proofs are accepted."""
from sa.check import *
from sa.harness import *
from checks.p22 import maker
from checks.p26 import flow, vec

LEVEL = 'proof'
R = Registry('P28', 'The gadget polynomial of the prover equals the gadget applied to the wire polynomials at every point, and the composition of encoding, proof, query (also of shares) '
             'and decision reduces to acceptance except where the query point falls in the interpolation domain')
R.bounds = 'gadget polynomials over up to 32 values; every measurement of circuits with up to 15 gadget calls, with free randomness'


def gadget(h, name, *args):
    a = [h.list(seq('list', [U(pconst(x)) for x in v])) if isinstance(v, tuple) else pconst(v) for v in args]
    return h.call('honest:' + name, *a)


GADGETS = [('product', 'mul', (), 2, n) for n in (2, 4, 8, 16)] \
    + [('range check, %d calls' % c, 'poly_gadget', ((0, -1, 1), c), 1, n) for c, n in ((1, 2), (2, 4), (3, 4), (7, 8), (15, 16), (31, 32))] \
    + [('x^3 + 2x + 5, %d calls' % c, 'poly_gadget', ((5, 2, 0, 1), c), 1, n) for c, n in ((1, 2), (2, 4), (7, 8))] \
    + [('x^4 - x, %d calls' % c, 'poly_gadget', ((0, -1, 0, 0, 1), c), 1, n) for c, n in ((1, 2), (3, 4))] \
    + [('sum of %d products' % k, 'parallel', (k,), 2 * k, n) for k, n in ((1, 2), (1, 8), (2, 4), (3, 2), (3, 8), (5, 4), (33, 2), (70, 2), (100, 2))] \
    + [('sum of %d range checks' % k, 'parallel_poly', ((0, -1, 1), n - 1, k), k, n) for k, n in ((1, 4), (3, 4), (2, 8))]


@R.ob(['Gadget.eval_poly'], cases=[('%s: %s of length %d' % (f, what, n), (f, name, args, arity, n)) for what, name, args, arity, n in GADGETS
                                   for f in (('Field64', 'Field128') if n <= 8 and arity < 30 else ('Field128',))])
def gadget_polynomial(r, f, name, args, arity, n):
    h = flow(r)
    F = mk('cls', f)
    g = gadget(h, name, *args)
    polys = [h.list(seq('list', [U(vec(h, F, 'w%d' % j, n)) for j in range(arity)])) for _ in range(2)]
    r.expect(h, h.outcome('honest:repo_poly', g, F, polys[0]).term, h.outcome('honest:poly', g, F, polys[1]).term, 'values of the gadget on the wire polynomials')


def value(h, v):
    if isinstance(v, tuple):
        return h.list(seq('list', [U(value(h, x)) for x in v]))
    if isinstance(v, bool):
        return TRUE if v else FALSE
    return pconst(v)


MEAS = [('Field64', 'Count', (), (False, True)), ('Field64', 'Sum', (1,), (0, 1)), ('Field64', 'Sum', (5,), range(6)), ('Field64', 'Sum', (8,), (0, 7, 8)),
        ('Field128', 'Histogram', (1, 1), (0,)), ('Field128', 'Histogram', (3, 2), range(3)), ('Field128', 'Histogram', (4, 4), (0, 3)), ('Field128', 'Histogram', (7, 2), (0, 6)),
        ('Field128', 'SumVec', (1, 1, 1), ((0,), (1,))), ('Field128', 'SumVec', (2, 3, 2), ((0, 0), (3, 1), (2, 3))), ('Field128', 'SumVec', (2, 4, 4), ((4, 0), (3, 4))),
        ('Field128', 'MultihotCountVec', (3, 1, 2), ((False, False, False), (True, False, False))),
        ('Field128', 'MultihotCountVec', (3, 2, 2), ((True, True, False), (False, False, False), (False, True, False))), ('Field128', 'MultihotCountVec', (2, 2, 4), ((True, True), (True, False))),
        ('Field64', 'Sum', (255,), (0, 170, 255)), ('Field64', 'Sum', (2 ** 15,), (2 ** 15,)), ('Field128', 'Sum', (200,), (11, 200)),
        ('Field128', 'Histogram', (100, 10), (99, 0)), ('Field128', 'SumVec', (9, 7, 4), ((7, 6, 5, 4, 3, 2, 1, 0, 7),)),
        ('Field128', 'SumVec', (4, 100, 30), ((100, 0, 99, 63),)), ('Field64', 'SumVec', (5, 1, 1), ((1, 0, 1, 1, 0),)),
        ('Field128', 'MultihotCountVec', (10, 3, 4), ((True,) * 3 + (False,) * 7,)), ('Field128', 'MultihotCountVec', (12, 12, 4), ((True,) * 12, (False, True) * 6)),
        ('Field128', 'Histogram', (9, 1), (8,)), ('Field128', 'Pair', (2, 3), ((0, 0), (0, 1), (1, 0), (1, 1)))]
CASES = [('%s: %s%r, %r' % (f, c, par, m), (f, c, par, m)) for f, c, par, ms in MEAS for m in ms]
LARGE = (('Sum', (2 ** 15,)), ('Histogram', (100, 10)))


def setup(r, f, c, par):
    h = flow(r)
    F = mk('cls', f)
    m = maker(h, F, 'real', (c, par))
    n = [const_of(x.args[0]) for x in h.deep(h.call('proofs:sizes', m, F)).args[1]]
    return h, F, m, n


@R.ob(['FlpBBCGGI19.prove', 'FlpBBCGGI19.query', 'FlpBBCGGI19.decide'], cases=CASES)
def accepted(r, f, c, par, v):
    h, F, m, (ml, jl, pl, ql, prl, vl) = setup(r, f, c, par)
    q = vec(h, F, 'query_rand', ql)
    got = h.outcome('honest:accepted', m, F, value(h, v), vec(h, F, 'prove_rand', pl), q, vec(h, F, 'joint_rand', jl))
    r.expect(h, got.term, h.outcome('honest:expected', m, F, q).term, 'the proof is accepted')


@R.ob(['FlpBBCGGI19.prove', 'FlpBBCGGI19.query', 'FlpBBCGGI19.decide'], cases=[x for x in CASES if x[1][1:3] not in LARGE])
def accepted_when_shared(r, f, c, par, v):
    h, F, m, (ml, jl, pl, ql, prl, vl) = setup(r, f, c, par)
    q = vec(h, F, 'query_rand', ql)
    got = h.outcome('honest:shared', m, F, value(h, v), vec(h, F, 'mask', ml), vec(h, F, 'proof_mask', prl), vec(h, F, 'prove_rand', pl), q, vec(h, F, 'joint_rand', jl))
    r.expect(h, got.term, h.outcome('honest:expected', m, F, q).term, 'the shared proof is accepted')
