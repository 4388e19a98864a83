"""The proof system in terms of what a verifier has to test."""
from vdaf_poc.field import Lagrange
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Gadget, Valid


class Any(Gadget):
    """A gadget computing an arbitrary function."""

    def __init__(self, arity, degree, tag):
        self.ARITY = arity
        self.DEGREE = degree
        self.tag = tag

    def eval(self, field, inp):
        return field(0)

    def eval_poly(self, field, inp_poly):
        return []


class Circuit(Valid):
    """A circuit with arbitrary gadgets, each call on its own wires, and all gadget outputs in every output."""

    def __init__(self, field, arity, degree, calls, outputs):
        self.field = field
        self.GADGETS = [Any(arity[i], degree[i], i) for i in range(len(arity))]
        self.GADGET_CALLS = calls
        self.MEAS_LEN = sum([arity[i] * calls[i] for i in range(len(arity))])
        self.JOINT_RAND_LEN = outputs
        self.OUTPUT_LEN = 1
        self.EVAL_OUTPUT_LEN = outputs

    def eval(self, meas, joint_rand, num_shares):
        outs = []
        pos = 0
        for i in range(len(self.GADGETS)):
            a = self.GADGETS[i].ARITY
            for k in range(self.GADGET_CALLS[i]):
                outs.append(self.GADGETS[i].eval(self.field, meas[pos:pos + a]))
                pos += a
        return [sum([outs[k] * self.field(k + l + 1) for k in range(len(outs))], joint_rand[l] * self.field(num_shares))
                for l in range(self.EVAL_OUTPUT_LEN)]


class Record(Gadget):
    """Records its inputs and returns given outputs in turn."""

    def __init__(self, outs, g):
        self.ARITY = g.ARITY
        self.DEGREE = g.DEGREE
        self.outs = outs
        self.inputs = []
        self.k = 0

    def eval(self, field, inp):
        self.inputs = self.inputs + [[x for x in inp]]
        self.k += 1
        return self.outs[self.k - 1]

    def eval_poly(self, field, inp_poly):
        return []


class Compute(Gadget):
    """Records its inputs and computes its outputs."""

    def __init__(self, g):
        self.ARITY = g.ARITY
        self.DEGREE = g.DEGREE
        self.g = g
        self.inputs = []

    def eval(self, field, inp):
        self.inputs = self.inputs + [[x for x in inp]]
        return self.g.eval(field, inp)

    def eval_poly(self, field, inp_poly):
        return []


def power(n):
    """Smallest power of two not below n."""
    return 2 ** (n - 1).bit_length()


def wire_polys(field, seeds, inputs, p):
    """Values of every wire polynomial at the interpolation points: seed, calls in order, zeros."""
    return [[seeds[j]] + [inputs[k][j] for k in range(len(inputs))] + [field(0) for z in range(p - 1 - len(inputs))] for j in range(len(seeds))]


def query(make, field, meas, proof, query_rand, joint_rand, num_shares):
    valid = make(field)
    n = len(valid.GADGETS)
    seeds = []
    polys = []
    taps = []
    pos = 0
    for i in range(n):
        g = valid.GADGETS[i]
        p = power(1 + valid.GADGET_CALLS[i])
        seeds.append(proof[pos:pos + g.ARITY])
        pos += g.ARITY
        size = g.DEGREE * (p - 1) + 1
        poly = [x for x in proof[pos:pos + size]]
        pos += size
        Lagrange(field).extend_values_to_power_of_2(poly, power(size))
        polys.append(poly)
        taps.append(Record([poly[(k + 1) * (power(size) // p)] for k in range(valid.GADGET_CALLS[i])], g))
    valid.GADGETS = taps
    out = valid.eval(meas, joint_rand, num_shares)
    if len(out) > 1:
        verifier = [sum([query_rand[l] * out[l] for l in range(len(out))], field(0))]
        points = query_rand[len(out):]
    else:
        verifier = [out[0]]
        points = query_rand
    for i in range(n):
        p = power(1 + valid.GADGET_CALLS[i])
        if points[i] ** p == field(1):
            raise ValueError()
        for w in wire_polys(field, seeds[i], taps[i].inputs, p):
            verifier.append(Lagrange(field).poly_eval(w, points[i]))
        verifier.append(Lagrange(field).poly_eval(polys[i], points[i]))
    return verifier


def prove(make, field, meas, prove_rand, joint_rand):
    valid = make(field)
    gs = valid.GADGETS
    taps = [Compute(g) for g in gs]
    valid.GADGETS = taps
    valid.eval(meas, joint_rand, 1)
    proof = []
    pos = 0
    for i in range(len(gs)):
        p = power(1 + valid.GADGET_CALLS[i])
        seeds = prove_rand[pos:pos + gs[i].ARITY]
        pos += gs[i].ARITY
        poly = gs[i].eval_poly(field, wire_polys(field, seeds, taps[i].inputs, p))
        proof = proof + seeds + poly[:gs[i].DEGREE * (p - 1) + 1]
    return proof


def decide(make, field, verifier):
    valid = make(field)
    if verifier[0] != field(0):
        return False
    pos = 1
    for g in valid.GADGETS:
        if g.eval(field, verifier[pos:pos + g.ARITY]) != verifier[pos + g.ARITY]:
            return False
        pos += g.ARITY + 1
    return True


def flp_query(make, field, meas, proof, query_rand, joint_rand, num_shares):
    return FlpBBCGGI19(make(field)).query(meas, proof, query_rand, joint_rand, num_shares)


def flp_prove(make, field, meas, prove_rand, joint_rand):
    return FlpBBCGGI19(make(field)).prove(meas, prove_rand, joint_rand)


def flp_decide(make, field, verifier):
    return FlpBBCGGI19(make(field)).decide(verifier)


def sizes(make, field):
    f = FlpBBCGGI19(make(field))
    return (f.MEAS_LEN, f.JOINT_RAND_LEN, f.PROVE_RAND_LEN, f.QUERY_RAND_LEN, f.PROOF_LEN, f.VERIFIER_LEN)
