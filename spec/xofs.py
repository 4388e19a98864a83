"""What the extendable output functions have to return."""
from Cryptodome.Cipher import AES
from Cryptodome.Hash import TurboSHAKE128

from vdaf_poc.xof import Xof


def sponge(domain, message, n):
    h = TurboSHAKE128.new(domain=domain)
    h.update(message)
    return h.read(n)


def le(value, length):
    if value >= 256 ** length:
        raise ValueError()
    return value.to_bytes(length, 'little')


def turbo_stream(seed, dst, binder, n):
    return sponge(1, le(len(dst), 2) + dst + le(len(seed), 1) + seed + binder, n)


def block(key, x):
    y = x[8:] + bytes([x[8 + i] ^ x[i] for i in range(8)])
    z = AES.new(key, AES.MODE_ECB).encrypt(y)
    return bytes([z[i] ^ y[i] for i in range(16)])


def fixed_stream(seed, dst, binder, n):
    if len(seed) != 16:
        raise ValueError()
    key = sponge(2, le(len(dst), 2) + dst + binder, 16)
    blocks = [block(key, bytes([seed[j] ^ le(i, 16)[j] for j in range(16)])) for i in range((n + 15) // 16)]
    return b''.join(blocks)[:n]


def reads1(xof, seed, dst, binder, n1):
    x = xof(seed, dst, binder)
    return x.next(n1)


def reads2(xof, seed, dst, binder, n1, n2):
    x = xof(seed, dst, binder)
    a = x.next(n1)
    b = x.next(n2)
    return (a, b)


def reads3(xof, seed, dst, binder, n1, n2, n3):
    x = xof(seed, dst, binder)
    a = x.next(n1)
    b = x.next(n2)
    c = x.next(n3)
    return (a, b, c)


def turbo1(seed, dst, binder, n1):
    return turbo_stream(seed, dst, binder, n1)


def fixed1(seed, dst, binder, n1):
    return fixed_stream(seed, dst, binder, n1)


def turbo2(seed, dst, binder, n1, n2):
    s = turbo_stream(seed, dst, binder, n1 + n2)
    return (s[:n1], s[n1:])


def fixed2(seed, dst, binder, n1, n2):
    s = fixed_stream(seed, dst, binder, n1 + n2)
    return (s[:n1], s[n1:])


def turbo3(seed, dst, binder, n1, n2, n3):
    s = turbo_stream(seed, dst, binder, n1 + n2 + n3)
    return (s[:n1], s[n1:n1 + n2], s[n1 + n2:])


def fixed3(seed, dst, binder, n1, n2, n3):
    s = fixed_stream(seed, dst, binder, n1 + n2 + n3)
    return (s[:n1], s[n1:n1 + n2], s[n1 + n2:])


class Script(Xof):
    """An XOF whose output is a given list of pieces."""

    def __init__(self, pieces, size):
        self.pieces = pieces
        self.size = size
        self.pos = 0

    def next(self, length):
        if length != self.size:
            raise ValueError()
        if self.pos >= len(self.pieces):
            raise ValueError()
        x = self.pieces[self.pos]
        self.pos += 1
        return x


class Stream(Xof):
    """An XOF whose output is the encoding of a vector of field elements."""

    def __init__(self, field, vec):
        self.field = field
        self.vec = vec
        self.pos = 0

    def next(self, length):
        x = self.vec[self.pos].int().to_bytes(self.field.ENCODED_SIZE, 'little')
        self.pos += 1
        return x


def sampled(field, pieces, length):
    x = Script(pieces, field.ENCODED_SIZE)
    v = x.next_vec(field, length)
    return (v, x.pos)


def sampled_spec(field, pieces, length):
    bits = (field.MODULUS - 1).bit_length()
    out = []
    used = 0
    for i in range(len(pieces)):
        if len(out) < length:
            used = i + 1
            y = int.from_bytes(pieces[i], 'little') % 2 ** bits
            if y < field.MODULUS:
                out = out + [field(y)]
    if len(out) < length:
        raise ValueError()
    return (out, used)


def sampled_twice(field, pieces, n1, n2):
    x = Script(pieces, field.ENCODED_SIZE)
    a = x.next_vec(field, n1)
    b = x.next_vec(field, n2)
    return (a + b, x.pos)


def passed(field, vec, length):
    x = Stream(field, vec)
    v = x.next_vec(field, length)
    return (v, x.pos)


def passed_spec(field, vec, length):
    return (vec[:length], length)


def seed_derived(xof, seed, dst, binder):
    return xof.derive_seed(seed, dst, binder)


def seed_derived_spec(xof, seed, dst, binder):
    x = xof(seed, dst, binder)
    return x.next(xof.SEED_SIZE)


def expanded(xof, field, seed, dst, binder, length):
    return xof.expand_into_vec(field, seed, dst, binder, length)


def expanded_spec(xof, field, seed, dst, binder, length):
    x = xof(seed, dst, binder)
    return x.next_vec(field, length)
