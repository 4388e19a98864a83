"""What the byte-string helpers and the field-vector encoding have to compute."""


def le_bytes(value, length):
    if value < 0:
        raise ValueError()
    if value >= 2 ** (8 * length):
        raise ValueError()
    return value.to_bytes(length, 'little')


def be_bytes(value, length):
    if value < 0:
        raise ValueError()
    if value >= 2 ** (8 * length):
        raise ValueError()
    return value.to_bytes(length, 'big')


def from_le(encoded):
    return int.from_bytes(encoded, 'little')


def from_be(encoded):
    return int.from_bytes(encoded, 'big')


def one_byte(value):
    if value < 0:
        raise ValueError()
    if value >= 256:
        raise ValueError()
    return value.to_bytes(1, 'little')


def encode_vec(field, vec):
    return b''.join([vec[i].int().to_bytes(field.ENCODED_SIZE, 'little') for i in range(len(vec))])


def front(length, vec):
    if length > len(vec):
        raise ValueError()
    return (vec[:length], vec[length:])
