"""P07: Prio3 input shares reconstruct measurement and proofs."""
from sa.check import *
from sa.prio3 import *

LEVEL = 'proof'
R = Registry('P07', 'the shares expanded by all aggregators from the output of shard sum, in the value-flow normal form, to the encoded measurement and '
             'to the proofs of the specification')


@R.ob(['Prio3.shard', 'Prio3.verify_init'], cases=SIZED)
def measurement_shares_sum_to_the_encoding(r, joint):
    x = P3(r, joint, cls='ProbeFlp')
    h = x.h
    key = h.bytes('key')
    args = (x.v, key) + x.report()
    got = h.outcome('probe:output_sum', *args).term
    r.expect(h, got, h.outcome('probe:encoded', x.v, args[3]).term, 'sum of the measurement shares')


@R.ob(['Prio3.shard', 'Prio3.verify_init'], cases=SIZED)
def proof_shares_sum_to_the_proofs(r, joint):
    x = P3(r, joint, cls='ProbeFlp')
    h = x.h
    TM.CLS_CONST[(x.b, 'VERIFIER_LEN')] = x.A('PROOF_LEN')
    ctx, m, nonce, rand = x.report()
    got = h.outcome('probe:verifier_sum', x.v, h.bytes('key'), ctx, m, nonce, rand).term
    enc = h.call('probe:encoded', x.v, m)
    want = h.outcome('prio3:proofs', x.v, ctx, enc, nonce, rand).term
    r.expect(h, got, want, 'sum of the proof shares')


@R.ob(['Prio3.shard'], cases=SIZED)
def one_share_per_aggregator(r, joint):
    x = P3(r, joint)
    h = x.h
    r.expect(h, h.outcome('probe:number_of_shares', x.v, *x.report()).term, mk('ret', x.shares), 'number of input shares')
