"""P03: field-vector encoding."""
from sa.check import *
from sa.harness import *

LEVEL = 'proof'
R = Registry('P03', 'decode_vec after encode_vec and encode_vec after decode_vec reduce to the identity in the value-flow normal form, '
             'for a field of any size and vectors of any length; integer helpers compared with their specification')


def field(h):
    F = sym('field', ('cls', 'Field'))
    field_facts(h, F)
    return F


@R.ob(['Field.encode_vec', 'Field.decode_vec'])
def decoding_inverts_encoding(r):
    h = r.flow()
    F = field(h)
    vec = h.symlist('vec', 'felt', field=F)
    enc = h.call((F, 'encode_vec'), vec)
    r.expect(h, h.outcome((F, 'decode_vec'), enc).term, mk('ret', h.deep(vec)), 'decode_vec(encode_vec(v)) is v')


@R.ob(['Field.encode_vec', 'Field.decode_vec'])
def accepted_bytes_are_canonical(r):
    h = r.flow()
    F = field(h)
    e = h.bytes('enc')
    v = h.call((F, 'decode_vec'), e)
    r.expect(h, h.outcome((F, 'encode_vec'), v).term, mk('ret', e), 'encode_vec(decode_vec(b)) is b whenever b is accepted')


@R.ob(['Field.encode_vec'])
def encoding_is_fixed_width_little_endian(r):
    h = r.flow()
    F = field(h)
    vec = h.symlist('vec', 'felt', field=F)
    r.expect(h, h.outcome((F, 'encode_vec'), vec).term, h.outcome('common:encode_vec', F, vec).term,
             'encode_vec is the concatenation of ENCODED_SIZE-byte little-endian integers')


@R.ob(['to_le_bytes', 'to_be_bytes', 'byte'], cases=[('to_le_bytes', ('to_le_bytes', 'common:le_bytes', 2)), ('to_be_bytes', ('to_be_bytes', 'common:be_bytes', 2)),
                                                    ('byte', ('byte', 'common:one_byte', 1))])
def integers_encode_in_range_only(r, fn, spec, arity):
    h = r.flow()
    args = [h.int('value'), h.int('length', 0)][:arity]
    r.expect(h, h.outcome(fn, *args).term, h.outcome(spec, *args).term, '%s encodes exactly the values that fit' % fn)


@R.ob(['from_le_bytes', 'from_be_bytes'], cases=[('from_le_bytes', ('from_le_bytes', 'common:from_le')), ('from_be_bytes', ('from_be_bytes', 'common:from_be'))])
def integers_decode(r, fn, spec):
    h = r.flow()
    e = h.bytes('encoded')
    r.expect(h, h.outcome(fn, e).term, h.outcome(spec, e).term, fn)


@R.ob(['front'])
def front_splits_or_refuses(r):
    h = r.flow()
    e = h.bytes('encoded')
    n = h.int('length', 0)
    r.expect(h, h.outcome('front', n, e).term, h.outcome('common:front', n, e).term, 'front')
