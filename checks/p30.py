"""P30: the aggregate result of Poplar1 counts the measurements under each prefix."""
from sa.check import *
from sa.harness import *
from checks.p21 import PATH, bits, fixed_control_bits, shown
from checks.p26 import flow
from checks.p28 import value

LEVEL = 'proof'
R = Registry('P30', 'The composition of sharding, verification by both aggregators, aggregation and unsharding, over free randomness, reduces to the number of measurements under each prefix')
R.bounds = 'chosen batches, levels and prefix sets at tree depths 1 to 160 (messages in encoded form below 160), batches of up to three measurements, one consistent choice of control bits'

CASES = [(1, (0,), 0, (0, 1)), (1, (1,), 0, (1,)), (1, (1, 0, 1), 0, (0, 1)), (2, (2,), 0, (0, 1)), (2, (2, 1), 1, (0, 1, 2, 3)), (2, (3, 3, 0), 1, (0, 3)), (3, (5, 1), 1, (0, 2, 3)),
         (3, (0, 7, 4), 2, (0, 4, 6, 7)), (4, (13, 9), 0, (0, 1)), (4, (13, 9), 2, (1, 4, 6)), (4, (13,), 3, (1, 3, 5, 7, 9, 13, 15)), (11, (0x641, 0x640), 10, (0, 0x640, 0x641, 0x7ff)),
         (11, (0x641,), 7, (0, 0xc7, 0xc8, 0xff)), (17, (0x1b38f, 0x00001), 15, (0, 1, 0xd9c7)), (17, (0x1b38f,), 16, (0x1b38e, 0x1b38f)), (64, (0xb38fe5174d20c6a9,), 62, (0x59c7f28ba6906354, 7)), (64, (0xb38fe5174d20c6a9,), 63, (0xb38fe5174d20c6a9, 7)),
         (100, (PATH >> 156,), 64, (PATH >> 191, PATH >> 191 ^ 1)), (160, (PATH >> 96,), 159, (PATH >> 96,))]
MODES = ('result', 'merged', 'wired_result')


def setup(r, depth, n):
    h = flow(r, 300)
    v = h.I.construct(mk('cls', 'Poplar1'), [pconst(depth)], {}, h.st, None)
    nonces = h.list(seq('list', [U(h.bytes('nonce%d' % k, h.attr(v, 'NONCE_SIZE'))) for k in range(n)]))
    rands = h.list(seq('list', [U(h.bytes('rand%d' % k, h.attr(v, 'RAND_SIZE'))) for k in range(n)]))
    return h, v, h.bytes('key', h.attr(v, 'VERIFY_KEY_SIZE')), h.bytes('ctx'), nonces, rands


def label(depth, batch, level, prefixes):
    return 'paths %s, prefixes %s' % (' '.join(shown(depth, m) for m in batch), ' '.join(shown(level + 1, p) for p in prefixes))


@R.ob(['Poplar1'], cases=[('%s, %s' % (label(*c), m.replace('_', ' ')), c + (m,)) for c in CASES for m in MODES if (m != 'merged' or len(c[1]) > 1) and (m == 'result' or c[0] < 160)])
def counts(r, depth, batch, level, prefixes, mode):
    h, v, key, ctx, nonces, rands = setup(r, depth, len(batch))
    with fixed_control_bits():
        param = tup(pconst(level), seq('tuple', [U(bits(level + 1, p)) for p in sorted(prefixes)]))
        ms = h.list(seq('list', [U(bits(depth, m)) for m in batch]))
        want = [sum(m >> (depth - 1 - level) == p for m in batch) for p in sorted(prefixes)]
        got = h.outcome('whole:' + mode, v, key, param, ctx, ms, nonces, rands)
        r.expect(h, got.term, h.outcome('whole:known', value(h, tuple(want))).term, 'number of measurements under each prefix')
