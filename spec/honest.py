"""Honest proofs: what the prover sends and what the verifier concludes."""
from spec.proofs import power
from spec.transforms import lagrange_value, root
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Mul, ParallelSum, PolyEval, Valid


class Pair(Valid):
    """A circuit with two gadgets: several products of two bits."""

    def __init__(self, field, products, checks):
        self.field = field
        self.GADGETS = [Mul(), PolyEval([0, -1, 1], checks)]
        self.GADGET_CALLS = [products, checks]
        self.MEAS_LEN = 3
        self.JOINT_RAND_LEN = 1
        self.OUTPUT_LEN = 1
        self.EVAL_OUTPUT_LEN = products + checks

    def encode(self, measurement):
        x, y = measurement
        return [self.field(x), self.field(y), self.field(x * y)]

    def truncate(self, meas):
        return meas[2:]

    def decode(self, agg, num_measurements):
        return agg[0].int()

    def eval(self, meas, joint_rand, num_shares):
        out = [joint_rand[0] * (self.GADGETS[0].eval(self.field, [meas[k % 2], meas[1 - k % 2]]) - meas[2]) for k in range(self.GADGET_CALLS[0])]
        return out + [self.GADGETS[1].eval(self.field, [meas[k % 3]]) for k in range(self.GADGET_CALLS[1])]


def mul():
    return Mul()


def poly_gadget(p, calls):
    return PolyEval(p, calls)


def parallel(count):
    return ParallelSum(Mul(), count)


def parallel_poly(p, calls, count):
    return ParallelSum(PolyEval(p, calls), count)


def repo_poly(g, field, wires):
    """The gadget polynomial the prover sends, at the points of the next power of two."""
    return g.eval_poly(field, wires)


def poly(g, field, wires):
    """The values of the gadget applied to the values of the wire polynomials."""
    n = power(g.DEGREE * (len(wires[0]) - 1) + 1)
    return [g.eval(field, [lagrange_value(field, w, root(field, n) ** k) for w in wires]) for k in range(n)]


def accepted(make, field, measurement, prove_rand, query_rand, joint_rand):
    """Whether the proof of an honest client is accepted."""
    flp = FlpBBCGGI19(make(field))
    meas = flp.encode(measurement)
    proof = flp.prove(meas, prove_rand, joint_rand)
    return flp.decide(flp.query(meas, proof, query_rand, joint_rand, 1))


def shared(make, field, measurement, mask, proof_mask, prove_rand, query_rand, joint_rand):
    """The same when measurement and proof are split between two verifiers."""
    flp = FlpBBCGGI19(make(field))
    meas = flp.encode(measurement)
    proof = flp.prove(meas, prove_rand, joint_rand)
    a = flp.query([meas[i] - mask[i] for i in range(len(meas))], [proof[i] - proof_mask[i] for i in range(len(proof))], query_rand, joint_rand, 2)
    b = flp.query(mask, proof_mask, query_rand, joint_rand, 2)
    return flp.decide([a[i] + b[i] for i in range(len(a))])


def expected(make, field, query_rand):
    """Always, unless a query point falls in the interpolation domain."""
    valid = make(field)
    n = len(valid.GADGETS)
    for i in range(n):
        if query_rand[len(query_rand) - n + i] ** power(1 + valid.GADGET_CALLS[i]) == field(1):
            raise ValueError()
    return True
