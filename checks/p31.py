"""P31: ping-pong between honest parties."""
from sa.check import *
from sa.harness import *
from checks.p21 import bits, fixed_control_bits, shown
from checks.p26 import flow
from checks.p28 import value
from checks.p29 import setup

LEVEL = 'proof'
R = Registry('P31', 'The composition of sharding, encoding and all ping-pong steps of both parties, over free randomness, reduces to the output shares that verification without messages '
             'gives, after the expected number of messages')
R.bounds = 'concrete instances of Prio3 with small parameters and Poplar1 of depth up to 8 with one consistent choice of control bits'

PRIO3 = [('PongCount', (2,), True), ('PongSum', (2, 5), 4), ('PongHistogram', (2, 4, 2), 3), ('PongSumVec', (2, 'Field64', 2, 2, 3, 2), (3, 1))]


@R.ob(['PingPong'], cases=[('%s%r, %r' % c, c) for c in PRIO3])
def one_round(r, name, par, m):
    h, v, key, ctx, nonces, rands = setup(r, name, par, 1)
    args = (v, key, NONE, ctx, value(h, m), index(h.deep(nonces), ZERO), index(h.deep(rands), ZERO))
    r.expect(h, h.outcome('exchange:exchange', *args).term, h.outcome('exchange:prio3_expected_exchange', *args).term, 'both parties finish with their output share')


POPLAR1 = [(1, 1, 0, (0, 1)), (2, 2, 0, (0, 1)), (2, 2, 1, (0, 2, 3)), (4, 13, 2, (1, 4, 6)), (4, 13, 3, (9, 13)), (8, 0xb3, 6, (0x58, 0x59)), (8, 0xb3, 7, (0xb3,))]


@R.ob(['PingPong'], cases=[('path %s, prefixes %s' % (shown(d, m), ' '.join(shown(l + 1, p) for p in ps)), (d, m, l, ps)) for d, m, l, ps in POPLAR1])
def two_rounds(r, depth, m, level, prefixes):
    h, v, key, ctx, nonces, rands = setup(r, 'PongPoplar1', (depth,), 1)
    with fixed_control_bits():
        param = tup(pconst(level), seq('tuple', [U(bits(level + 1, p)) for p in prefixes]))
        args = (v, key, param, ctx, bits(depth, m), index(h.deep(nonces), ZERO), index(h.deep(rands), ZERO))
        r.expect(h, h.outcome('exchange:exchange', *args).term, h.outcome('exchange:expected', *args).term, 'both parties finish with their output share')
