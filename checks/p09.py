"""P09: what verification and joint randomness are bound to."""
from sa.check import *
from sa.prio3 import *

LEVEL = 'proof'
R = Registry('P09', 'the XOF inputs (seed, tag, binder) of every derivation that reaches the result of verify_init are the specified terms, for arbitrary '
             '(also malicious) public and input shares')


@R.ob(['Prio3.verify_init', 'Prio3.query_rands', 'Prio3.joint_rand_part', 'Prio3.joint_rand_seed', 'Prio3.joint_rands'],
      cases=[('leader, ' + l, (0,) + a) for l, a in SIZED] + [('helper, ' + l, (1,) + a) for l, a in SIZED])
def prio3_binding(r, helper, joint):
    x = P3(r, joint)
    h = x.h
    key, ctx, nonce, parts = h.bytes('key'), h.bytes('ctx'), h.bytes('nonce', h.attr(x.v, 'NONCE_SIZE')), x.parts()
    if helper:
        j, share = h.int('j', 1, x.shares), x.helper_share()
        want = h.outcome('prio3:verify_init_helper', x.v, key, ctx, j, nonce, parts, share).term
    else:
        j, share = ZERO, x.leader_share()
        want = h.outcome('prio3:verify_init_leader', x.v, key, ctx, nonce, parts, share).term
    got = h.outcome((x.v, 'verify_init'), key, ctx, j, NONE, nonce, parts, share).term
    r.expect(h, got, want, 'state and verifier share as derived from the specified randomness')


@R.ob(['Poplar1.verify_init'], cases=[('%s level, aggregator %d' % (w, j), (w, j)) for w in ('inner', 'leaf') for j in (0, 1)])
def poplar1_binding(r, which, agg_id):
    from checks.p11 import sketch_flow
    h, got, want = sketch_flow(r, which, agg_id)
    r.expect(h, got, want, 'sketch share as derived from the specified randomness')
