"""P24: what each party receives."""
from sa.check import *
from sa.prio3 import *

LEVEL = 'proof'
R = Registry('P24', 'shard reduces to the specified partition of the random input and to leader shares masked by every helper')


@R.ob(['Prio3.shard'], cases=SIZED)
def shard_partition(r, joint):
    x = P3(r, joint)
    h, v = x.h, x.v
    ctx, nonce, rand = h.bytes('ctx'), h.bytes('nonce'), h.bytes('rand')
    m = sym('measurement', 'any')
    r.expect(h, h.outcome((v, 'shard'), ctx, m, nonce, rand).term, h.outcome('prio3:shard', v, ctx, m, nonce, rand).term, 'shard')


@R.ob(['Poplar1.shard'])
def poplar1_shard_partition(r):
    h = r.flow()
    v, bits = poplar1_obj(h, idpf='ProbeIdpf')
    ctx, nonce, rand = h.bytes('ctx'), h.bytes('nonce'), h.bytes('rand')
    m = wrap(sym('measurement', ('tuple', 'bool')))
    r.expect(h, h.outcome((v, 'shard'), ctx, m, nonce, rand).term, h.outcome('poplar1:shard', v, ctx, m, nonce, rand).term, 'shard')
