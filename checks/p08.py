"""P08: honest Prio3 reports verify."""
from sa.check import *
from sa.prio3 import *

LEVEL = 'proof'
R = Registry('P08', 'the composition shard, verify_init (all aggregators), verifier_shares_to_message, verify_next reduces to the truncated share without '
             'a raising path, and client and aggregators derive equal terms for joint and query randomness')
OPS = ['Prio3.shard', 'Prio3.verify_init', 'Prio3.verifier_shares_to_message', 'Prio3.verify_next']


def flow(r, joint, cls):
    x = P3(r, joint, cls=cls)
    return x, x.h, (x.v, x.h.bytes('key')) + x.report()


def helpers(x):
    n = const_of(x.shares)
    return [x.h.int('j', 1, x.shares)] if n is None else [pconst(j) for j in range(1, n)]


@R.ob(OPS, cases=SIZED)
def leader_finishes(r, joint):
    x, h, args = flow(r, joint, 'AcceptFlp')
    r.expect(h, h.outcome('probe:run_leader', *args).term, h.outcome('probe:output_leader', *args).term,
             'the leader releases the truncation of its share of an honest report whose proofs are accepted')


@R.ob(OPS, cases=SIZED)
def helper_finishes(r, joint):
    x, h, args = flow(r, joint, 'AcceptFlp')
    for j in helpers(x):
        r.expect(h, h.outcome('probe:run', *args, j).term, h.outcome('probe:output_helper', *args, j).term,
                 'every helper releases the truncation of its share of an honest report whose proofs are accepted')


@R.ob(OPS, cases=SIZED)
def released_shares_sum_to_the_measurement(r, joint):
    x, h, args = flow(r, joint, 'AcceptAllFlp')
    r.expect(h, h.outcome('probe:result_sum', *args).term, h.outcome('probe:encoded', x.v, args[3]).term, 'sum of the released shares')


@R.ob(OPS[:2], cases=[('leader', (0,)), ('helper', (1,))])
def joint_randomness_agrees_with_the_prover(r, helper):
    x, h, args = flow(r, 1, 'ProbeRandFlp')
    TM.CLS_CONST[(x.b, 'PROOF_LEN')] = x.A('JOINT_RAND_LEN')
    TM.CLS_CONST[(x.b, 'VERIFIER_LEN')] = x.A('JOINT_RAND_LEN')
    v, key, ctx, m, nonce, rand = args
    if helper:
        got = h.outcome('probe:helper_verifier', *args, h.int('j', 1, x.shares)).term
    else:
        got = h.outcome('probe:leader_verifier', *args).term
    enc = h.call('probe:encoded', v, m)
    want = h.outcome('prio3:proofs', v, ctx, enc, nonce, rand).term
    r.expect(h, got, want, 'joint randomness of the aggregator is that of the prover, for every proof')


@R.ob(OPS[:2], cases=SIZED)
def query_randomness_is_common(r, joint):
    x, h, args = flow(r, joint, 'QueryRandFlp')
    TM.CLS_CONST[(x.b, 'VERIFIER_LEN')] = x.A('QUERY_RAND_LEN')
    for j in helpers(x):
        r.expect(h, h.outcome('probe:helper_verifier', *args, j).term, h.outcome('probe:leader_verifier', *args).term, 'query randomness of helper and leader')
