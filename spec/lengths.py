"""Lengths a circuit announces and lengths it produces."""
from spec.gadgets import Tap


def encoded(valid, m):
    return len(valid.encode(m))


def truncated(valid, meas):
    return len(valid.truncate(meas))


def evaluated(valid, meas, joint_rand, outs, num_shares):
    tap = Tap(outs)
    valid.GADGETS = [tap]
    out = valid.eval(meas, joint_rand, num_shares)
    return (len(out), tap.k, [len(w) for w in tap.wires])


def announced(valid, calls, arity):
    return (valid.EVAL_OUTPUT_LEN, calls, [arity for i in range(calls)])


def power(n):
    return 2 ** (n - 1).bit_length()


def sizes(valid):
    return (valid.prove_rand_len(), valid.query_rand_len(), valid.proof_len(), valid.verifier_len())


def sizes_spec(arity, degree, calls, outputs):
    n = len(arity)
    return (sum([arity[i] for i in range(n)]),
            n + (outputs if outputs > 1 else 0),
            sum([arity[i] + degree[i] * (power(1 + calls[i]) - 1) + 1 for i in range(n)]),
            1 + sum([arity[i] + 1 for i in range(n)]))


def ceil_div(a, b):
    return (a + b - 1) // b


def bits(m):
    return m.bit_length()


# measurement, output, joint randomness, circuit output, calls of the gadget, its arity and degree
def count():
    return (1, 1, 0, 1, 1, 2, 2)


def sum_(max_measurement):
    n = bits(max_measurement)
    return (n, 1, 0, n, n, 1, 2)


def histogram(length, chunk):
    return (length, length, ceil_div(length, chunk), 2, ceil_div(length, chunk), 2 * chunk, 2)


def sumvec(length, max_measurement, chunk):
    n = length * bits(max_measurement)
    return (n, length, ceil_div(n, chunk), 1, ceil_div(n, chunk), 2 * chunk, 2)


def multihotcountvec(length, max_weight, chunk):
    n = length + bits(max_weight)
    return (n, length, ceil_div(n, chunk), 2, ceil_div(n, chunk), 2 * chunk, 2)


def own(valid):
    g = valid.GADGETS[0]
    if len(valid.GADGETS) != 1 or len(valid.GADGET_CALLS) != 1:
        raise ValueError()
    return (valid.MEAS_LEN, valid.OUTPUT_LEN, valid.JOINT_RAND_LEN, valid.EVAL_OUTPUT_LEN, valid.GADGET_CALLS[0], g.ARITY, g.DEGREE)


def flp(flp_class, valid):
    f = flp_class(valid)
    return (f.MEAS_LEN, f.OUTPUT_LEN, f.JOINT_RAND_LEN, f.PROVE_RAND_LEN, f.QUERY_RAND_LEN, f.PROOF_LEN, f.VERIFIER_LEN)


def flp_spec(valid):
    return (valid.MEAS_LEN, valid.OUTPUT_LEN, valid.JOINT_RAND_LEN, valid.prove_rand_len(), valid.query_rand_len(), valid.proof_len(), valid.verifier_len())
