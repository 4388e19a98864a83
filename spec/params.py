"""Which parameters are admissible, and the sizes they announce."""
from vdaf_poc.flp_bbcggi19 import Count, Histogram, MultihotCountVec, Sum, SumVec, FlpBBCGGI19
from vdaf_poc.vdaf_prio3 import Prio3Count, Prio3Histogram, Prio3MultihotCountVec, Prio3Sum, Prio3SumVec, Prio3SumVecWithMultiproof
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field128
from spec.circuits import chunks


def sizes(v):
    return v.MEAS_LEN, v.OUTPUT_LEN, v.JOINT_RAND_LEN, v.EVAL_OUTPUT_LEN, v.GADGET_CALLS, [g.ARITY for g in v.GADGETS], [g.DEGREE for g in v.GADGETS]


def check(ok):
    if not ok:
        raise ValueError()


def count(field):
    return sizes(Count(field))


def count_sizes(field):
    return 1, 1, 0, 1, [1], [2], [2]


def sum_(field, max_measurement):
    return sizes(Sum(field, max_measurement))


def sum_sizes(field, max_measurement):
    check(max_measurement >= 1)
    bits = max_measurement.bit_length()
    check(2 ** bits < field.MODULUS)
    return bits, 1, 0, bits, [bits], [1], [2]


def chunked(meas, out, outputs, chunk_length):
    calls = chunks(meas, chunk_length)
    return meas, out, calls, outputs, [calls], [2 * chunk_length], [2]


def histogram(field, length, chunk_length):
    return sizes(Histogram(field, length, chunk_length))


def histogram_sizes(field, length, chunk_length):
    check(length >= 1)
    check(chunk_length >= 1)
    return chunked(length, length, 2, chunk_length)


def sumvec(field, length, max_measurement, chunk_length):
    return sizes(SumVec(field, length, max_measurement, chunk_length))


def sumvec_sizes(field, length, max_measurement, chunk_length):
    check(length >= 1)
    check(max_measurement >= 1)
    check(chunk_length >= 1)
    bits = max_measurement.bit_length()
    check(2 ** bits < field.MODULUS)
    return chunked(length * bits, length, 1, chunk_length)


def multihotcountvec(field, length, max_weight, chunk_length):
    return sizes(MultihotCountVec(field, length, max_weight, chunk_length))


def multihotcountvec_sizes(field, length, max_weight, chunk_length):
    check(length >= 1)
    check(1 <= max_weight)
    check(max_weight <= length)
    check(chunk_length >= 1)
    check(length < field.MODULUS)
    return chunked(length + max_weight.bit_length(), length, 2, chunk_length)


def vdaf(v):
    return v.SHARES, v.PROOFS, v.RAND_SIZE, v.ROUNDS, v.NONCE_SIZE, v.VERIFY_KEY_SIZE


def prio3(shares, proofs, seed_size, joint_rand_len):
    check(2 <= shares <= 255)
    check(1 <= proofs <= 255)
    return shares, proofs, shares * seed_size * (2 if joint_rand_len > 0 else 1)


def prio3_count(shares):
    return vdaf(Prio3Count(shares)), Prio3Count(shares).flp.field


def standard(shares, proofs, joint):
    check(2 <= shares <= 255)
    check(1 <= proofs <= 255)
    return shares, proofs, shares * 32 * (2 if joint else 1), 1, 16, 32


def prio3_count_sizes(shares):
    return standard(shares, 1, False), Field64


def prio3_sum(shares, max_measurement):
    v = Prio3Sum(shares, max_measurement)
    return vdaf(v), v.flp.field, v.flp.MEAS_LEN


def prio3_sum_sizes(shares, max_measurement):
    s = sum_sizes(Field64, max_measurement)
    return standard(shares, 1, False), Field64, s[0]


def prio3_histogram(shares, length, chunk_length):
    v = Prio3Histogram(shares, length, chunk_length)
    return vdaf(v), v.flp.field, v.flp.MEAS_LEN, v.flp.OUTPUT_LEN, v.flp.JOINT_RAND_LEN


def prio3_histogram_sizes(shares, length, chunk_length):
    s = histogram_sizes(Field128, length, chunk_length)
    return standard(shares, 1, True), Field128, s[0], s[1], s[2]


def prio3_sumvec(shares, length, max_measurement, chunk_length):
    v = Prio3SumVec(shares, length, max_measurement, chunk_length)
    return vdaf(v), v.flp.field, v.flp.MEAS_LEN, v.flp.OUTPUT_LEN, v.flp.JOINT_RAND_LEN


def prio3_sumvec_sizes(shares, length, max_measurement, chunk_length):
    s = sumvec_sizes(Field128, length, max_measurement, chunk_length)
    return standard(shares, 1, True), Field128, s[0], s[1], s[2]


def prio3_multiproof(shares, field, proofs, length, max_measurement, chunk_length):
    v = Prio3SumVecWithMultiproof(shares, field, proofs, length, max_measurement, chunk_length)
    return vdaf(v), v.flp.MEAS_LEN, v.flp.OUTPUT_LEN, v.flp.JOINT_RAND_LEN


def prio3_multiproof_sizes(shares, field, proofs, length, max_measurement, chunk_length):
    s = sumvec_sizes(field, length, max_measurement, chunk_length)
    return standard(shares, proofs, True), s[0], s[1], s[2]


def prio3_multihotcountvec(shares, length, max_weight, chunk_length):
    v = Prio3MultihotCountVec(shares, length, max_weight, chunk_length)
    return vdaf(v), v.flp.field, v.flp.MEAS_LEN, v.flp.OUTPUT_LEN, v.flp.JOINT_RAND_LEN


def prio3_multihotcountvec_sizes(shares, length, max_weight, chunk_length):
    s = multihotcountvec_sizes(Field128, length, max_weight, chunk_length)
    return standard(shares, 1, True), Field128, s[0], s[1], s[2]


def poplar1(bits):
    v = Poplar1(bits)
    return v.SHARES, v.ROUNDS, v.NONCE_SIZE, v.RAND_SIZE, v.VERIFY_KEY_SIZE, v.idpf.BITS, v.idpf.VALUE_LEN


def poplar1_sizes(bits):
    check(bits >= 1)
    return 2, 2, 16, 3 * 32 + 2 * 16, 32, bits, 2


def idpf(value_len, bits):
    v = IdpfBBCGGI21(value_len, bits)
    return v.VALUE_LEN, v.BITS


def idpf_sizes(value_len, bits):
    check(value_len >= 1)
    check(bits >= 1)
    return value_len, bits


def prio3_built(v, shares, flp, proofs):
    v.__init__(shares, flp, proofs)
    return v.SHARES, v.PROOFS, v.RAND_SIZE
