"""P06: the Prio3 acceptance gate."""
from sa.check import *
from sa.prio3 import *

LEVEL = 'proof'
R = Registry('P06', 'verifier_shares_to_message and verify_next have exactly the raising guards of the specification: the sum of all shares of every proof '
             'is decided, and the seeds are compared; the state holds the truncation of the share that is queried')


@R.ob(['Prio3.verifier_shares_to_message'], cases=SIZED)
def every_proof_is_decided(r, joint):
    x = P3(r, joint)
    h = x.h
    n = h.int('n', 1, 256) if not isinstance(joint, tuple) else x.shares
    joint = x.joint
    vs = sym('verifiers', ('list', ('list', 'felt')))
    LEN[vs] = n
    TM.ITEM_FIELD[vs] = x.F
    ps = sym('parts', ('list', 'bytes'))
    LEN[ps] = n
    TM.ITEM_LEN[ps] = x.seed
    ELEM_LEN[ps] = x.seed
    i = fresh(ZERO, n)
    pair = mk('S', 'tuple', (U(index(wrap(vs), patom(i))), U(index(wrap(ps), patom(i)) if joint else NONE)))
    shares = h.list(seqmap(i, n, seq('list', [U(pair)])))
    ctx = h.bytes('ctx')
    got = h.outcome((x.v, 'verifier_shares_to_message'), ctx, NONE, shares).term
    want = h.outcome('prio3:combine', x.v, ctx, h.list(wrap(vs)), h.list(wrap(ps))).term
    r.expect(h, got, want, 'message exists exactly when every proof is accepted')


@R.ob(['Prio3.verify_next'], cases=JOINT)
def seeds_are_compared(r, joint):
    x = P3(r, joint)
    h = x.h
    out = x.vec('out', x.A('OUTPUT_LEN'))
    # the message is chosen by the peers: any byte string, or absent
    own, ctx = x.sd('own'), h.bytes('ctx')
    for label, agreed in (('present', h.bytes('agreed')), ('absent', NONE)):
        got = h.outcome((x.v, 'verify_next'), ctx, tup(out, own), agreed).term
        r.expect(h, got, h.outcome('prio3:finish', out, own, agreed).term, 'the output share is released exactly for equal seeds (message %s)' % label)


@R.ob(['Prio3.verify_init'], cases=[('leader', (0,)), ('helper', (1,))])
def released_share_is_the_verified_one(r, helper):
    for joint in (0, 1):
        x = P3(r, joint, cls='MeasFlp')
        h = x.h
        TM.CLS_CONST[(x.b, 'VERIFIER_LEN')] = x.A('MEAS_LEN')
        h.setattr(x.v, 'PROOFS', ONE)
        share = x.helper_share() if helper else x.leader_share()
        j = h.int('j', 1, x.shares) if helper else ZERO
        args = (x.v, h.bytes('key'), h.bytes('ctx'), j, h.bytes('nonce', h.attr(x.v, 'NONCE_SIZE')), x.parts(), share)
        r.expect(h, h.outcome('probe:released', *args).term, h.outcome('probe:queried', *args).term, 'the share kept for release is the share queried')
