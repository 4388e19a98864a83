"""P29: the aggregate result of Prio3 is the aggregate of the measurements."""
from sa.check import *
from sa.harness import *
from checks.p26 import flow
from checks.p28 import value

LEVEL = 'proof'
R = Registry('P29', 'The composition of sharding, verification by all aggregators, aggregation and unsharding of concrete instances, over free randomness, reduces to the aggregate '
             'of the measurements except where a query point falls in the interpolation domain')
R.bounds = 'two or three aggregators, batches of up to three measurements, small parameters of every instance of the tree'

CASES = [('Prio3Count', (2,), (True,), 1), ('Prio3Count', (2,), (False,), 0), ('Prio3Count', (3,), (True, False, True), 2), ('Prio3Count', (5,), (True,), 1),
         ('Prio3Sum', (2, 1), (1, 0), 1), ('Prio3Sum', (2, 5), (5, 0), 5), ('Prio3Sum', (2, 5), (3, 4, 5), 12), ('Prio3Sum', (3, 100), (100, 64), 164), ('Prio3Sum', (4, 8), (7,), 7),
         ('Prio3Histogram', (2, 1, 1), (0, 0), (2,)), ('Prio3Histogram', (2, 4, 2), (3, 0), (1, 0, 0, 1)), ('Prio3Histogram', (3, 3, 2), (1, 1, 2), (0, 2, 1)),
         ('Prio3SumVec', (2, 2, 3, 2), ((3, 1), (2, 3)), (5, 4)), ('Prio3SumVec', (3, 1, 4, 3), ((4,), (2,)), (6,)), ('Prio3SumVec', (2, 3, 1, 5), ((1, 0, 1),), (1, 0, 1)),
         ('Prio3SumVecWithMultiproof', (2, 'Field64', 2, 2, 3, 2), ((3, 1), (2, 3)), (5, 4)), ('Prio3SumVecWithMultiproof', (2, 'Field64', 3, 1, 4, 1), ((4,),), (4,)),
         ('Prio3SumVecWithMultiproof', (3, 'Field128', 2, 2, 1, 2), ((0, 1),), (0, 1)),
         ('Prio3MultihotCountVec', (2, 3, 2, 2), ((True, True, False), (False, False, True)), (1, 1, 1)), ('Prio3MultihotCountVec', (3, 2, 1, 3), ((False, False), (False, True)), (0, 1)),
         ('Prio3MultihotCountVec', (2, 4, 4, 3), ((True, True, True, True),), (1, 1, 1, 1)), ('Prio3Sum', (2, 255), (255, 1), 256),
         ('Prio3Sum', (2, 1337), (1337, 99, 42), 1478), ('Prio3Sum', (2, 2 ** 14), (2 ** 14,), 2 ** 14), ('Prio3Histogram', (2, 20, 4), (19, 0), (1,) + (0,) * 18 + (1,)), ('Prio3Histogram', (2, 11, 3), (2, 10), (0, 0, 1) + (0,) * 7 + (1,)),
         ('Prio3SumVec', (2, 4, 255, 9), ((255, 0, 128, 17),), (255, 0, 128, 17)), ('Prio3SumVec', (3, 3, 32000, 7), ((10000, 32000, 9), (19342, 19615, 3061)), (29342, 51615, 3070)),
         ('Prio3MultihotCountVec', (4, 10, 2, 3), ((False, True) + (False,) * 7 + (True,),), (0, 1, 0, 0, 0, 0, 0, 0, 0, 1)), ('Prio3Count', (16,), (True,), 1), ('Prio3Histogram', (9, 2, 1), (1,), (0, 1)), ('Prio3Count', (2,), (True,) * 5, 5)]


def setup(r, name, par, n):
    h = flow(r)
    v = h.I.construct(mk('cls', name), [mk('cls', x) if isinstance(x, str) else value(h, x) for x in par], {}, h.st, None)
    nonces = h.list(seq('list', [U(h.bytes('nonce%d' % k, h.attr(v, 'NONCE_SIZE'))) for k in range(n)]))
    rands = h.list(seq('list', [U(h.bytes('rand%d' % k, h.attr(v, 'RAND_SIZE'))) for k in range(n)]))
    return h, v, h.bytes('key', h.attr(v, 'VERIFY_KEY_SIZE')), h.bytes('ctx'), nonces, rands


@R.ob(['Prio3'], cases=[('%s%r, %r' % (c[:3]), c) for c in CASES])
def result(r, name, par, batch, want):
    h, v, key, ctx, nonces, rands = setup(r, name, par, len(batch))
    got = h.outcome('whole:result', v, key, NONE, ctx, value(h, batch), nonces, rands)
    r.expect(h, got.term, h.outcome('whole:prio3_expected', v, key, ctx, nonces, value(h, want)).term, 'aggregate result')


@R.ob(['Prio3'], cases=[('%s%r, %r' % (c[:3]), c) for c in CASES if len(c[2]) > 1])
def result_of_merged_aggregates(r, name, par, batch, want):
    h, v, key, ctx, nonces, rands = setup(r, name, par, len(batch))
    got = h.outcome('whole:merged', v, key, NONE, ctx, value(h, batch), nonces, rands)
    r.expect(h, got.term, h.outcome('whole:prio3_expected', v, key, ctx, nonces, value(h, want)).term, 'aggregate result')


@R.ob(['Prio3'], cases=[('%s%r, %r' % (c[:3]), c) for c in CASES])
def result_over_the_wire(r, name, par, batch, want):
    h, v, key, ctx, nonces, rands = setup(r, name, par, len(batch))
    got = h.outcome('whole:wired_result', v, key, NONE, ctx, value(h, batch), nonces, rands)
    r.expect(h, got.term, h.outcome('whole:prio3_expected', v, key, ctx, nonces, value(h, want)).term, 'aggregate result')
