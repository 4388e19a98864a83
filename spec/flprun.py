"""Running a proof system on shares."""
import random

from vdaf_poc.flp import additive_secret_share, run_flp
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19
from spec.gadgets import total


def shares(field, vec, n):
    masks = [field.rand_vec(len(vec)) for k in range(n - 1)]
    return masks + [[vec[i] - sum([m[i] for m in masks], field(0)) for i in range(len(vec))]]


def run(flp, meas, n):
    joint_rand = flp.field.rand_vec(flp.JOINT_RAND_LEN)
    prove_rand = flp.field.rand_vec(flp.PROVE_RAND_LEN)
    query_rand = flp.field.rand_vec(flp.QUERY_RAND_LEN)
    proof = flp.prove(meas, prove_rand, joint_rand)
    a = shares(flp.field, meas, n)
    b = shares(flp.field, proof, n)
    queries = [flp.query(a[k], b[k], query_rand, joint_rand, n) for k in range(n)]
    return flp.decide(total(flp.field, queries, len(queries[0])))


def shares_sum(field, vec, n):
    return total(field, additive_secret_share(vec, n, field), len(vec))


def same(field, vec):
    return [x for x in vec]


def real(make, field, measurement, n):
    flp = FlpBBCGGI19(make(field))
    return run_flp(flp, flp.encode(measurement), n)


def uniform(field, n):
    return [field(random.randrange(field.MODULUS)) for k in range(n)]
