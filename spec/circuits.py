"""What each validity circuit accepts, and what it contributes to the aggregate."""


def weights(max_measurement):
    """Bit weights: powers of two, then whatever makes the total the maximum."""
    bits = max_measurement.bit_length()
    return [2 ** l for l in range(bits - 1)] + [max_measurement - (2 ** (bits - 1) - 1)]


def encode_int(field, value, max_measurement):
    if value < 0 or value > max_measurement:
        raise ValueError()
    bits = max_measurement.bit_length()
    last = max_measurement - (2 ** (bits - 1) - 1)
    top = value > 2 ** (bits - 1) - 1
    rest = value - last if top else value
    return [field((rest >> l) & 1) for l in range(bits - 1)] + [field(1) if top else field(0)]


def decode_int(field, encoded, max_measurement):
    bits = max_measurement.bit_length()
    last = max_measurement - (2 ** (bits - 1) - 1)
    return sum([field(1 << l) * encoded[l] for l in range(bits - 1)], field(0)) + field(last) * encoded[bits - 1]


def count_encode(field, m):
    if m < 0 or m > 1:
        raise ValueError()
    return [field(m)]


def histogram_encode(field, length, m):
    if m < 0 or m >= length:
        raise ValueError()
    return [field(1) if i == m else field(0) for i in range(length)]


def sum_vec_encode(field, length, max_measurement, m):
    if len(m) != length:
        raise ValueError()
    for x in m:
        if x < 0 or x > max_measurement:
            raise ValueError()
    out = []
    for x in m:
        out += encode_int(field, x, max_measurement)
    return out


def multihot_encode(field, length, max_weight, m):
    if len(m) != length:
        raise ValueError()
    weight = sum([1 if x else 0 for x in m])
    if weight > max_weight:
        raise ValueError()
    return [field(1) if x else field(0) for x in m] + encode_int(field, weight, max_weight)


def other_integer(m):
    for x in m:
        if x != 0 and x != 1:
            return True
    return False


def count_truncate(field, meas):
    return meas


def sum_truncate(field, meas, max_measurement):
    return [decode_int(field, meas, max_measurement)]


def histogram_truncate(field, meas, length, chunk_length):
    return meas


def sumvec_truncate(field, meas, length, max_measurement, chunk_length):
    bits = max_measurement.bit_length()
    return [decode_int(field, meas[i * bits:(i + 1) * bits], max_measurement) for i in range(length)]


def multihotcountvec_truncate(field, meas, length, max_weight, chunk_length):
    return meas[:length]


def first(output):
    return output[0].int()


def counts(output):
    return [x.int() for x in output]


def one_hot(length, m):
    return [1 if i == m else 0 for i in range(length)]


def sum_vec_contribution(m, max_measurement):
    for x in m:
        if x < 0 or x > max_measurement:
            raise ValueError()
    return m


def multihot_contribution(m, max_weight):
    if sum([1 if x else 0 for x in m]) > max_weight:
        raise ValueError()
    return [1 if x else 0 for x in m]


def contribution(valid, m):
    """What a measurement adds to the aggregate."""
    return valid.decode(valid.truncate(valid.encode(m)), 1)


def chunks(length, chunk_length):
    return (length + chunk_length - 1) // chunk_length


def bit_checks(field, meas, joint_rand, chunk_length, num_shares):
    """One bit check per element, each with its own power of the randomness of its chunk."""
    inv = field(num_shares).inv()
    total = field(0)
    for i in range(chunks(len(meas), chunk_length)):
        for j in range(chunk_length):
            k = i * chunk_length + j
            x = meas[k] if k < len(meas) else field(0)
            total += joint_rand[i] ** (j + 1) * x * (x - inv)
    return total


def count_eval(field, meas, joint_rand, num_shares):
    return [meas[0] * meas[0] - meas[0]]


def sum_eval(field, meas, joint_rand, num_shares, max_measurement):
    return [x * x - x for x in meas]


def histogram_eval(field, meas, joint_rand, num_shares, length, chunk_length):
    return [bit_checks(field, meas, joint_rand, chunk_length, num_shares), sum(meas, field(0)) - field(num_shares).inv()]


def sumvec_eval(field, meas, joint_rand, num_shares, length, max_measurement, chunk_length):
    return [bit_checks(field, meas, joint_rand, chunk_length, num_shares)]


def multihotcountvec_eval(field, meas, joint_rand, num_shares, length, max_weight, chunk_length):
    return [bit_checks(field, meas, joint_rand, chunk_length, num_shares),
            sum(meas[:length], field(0)) - decode_int(field, meas[length:], max_weight)]
