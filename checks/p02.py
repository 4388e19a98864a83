"""P02: Poplar1 and IDPF codecs."""
from sa.check import *
from sa.harness import *
from sa.interp import Config

LEVEL = 'proof'
R = Registry('P02', 'decode after encode and encode after decode of every Poplar1 and IDPF message reduce to the identity in the value-flow normal form, '
             'for any level, number of prefixes and payload length (bit counts split by their residue modulo eight); public shares at tree depths up to 17')
R.bounds = 'public shares at tree depths up to 17; everything else for any size'
LEVELS = [('inner level', ('inner',)), ('leaf level', ('leaf',))]
RES = [('%d bits over' % k, (k,)) for k in range(8)]


def poplar(r):
    h = r.flow()
    v, bits = poplar1_obj(h)
    return h, v, bits


def roundtrip(r, h, v, m, val, dargs):
    got = h.outcome('codecs:there_and_back', h.attr(v, 'encode_' + m), h.attr(v, 'decode_' + m), val, *dargs)
    r.expect(h, got.term, mk('ret', h.deep(val)), 'decode_%s(encode_%s(x)) is x' % (m, m))


def canonical(r, h, v, m, dargs, enc):
    x = h.call((v, 'decode_' + m), *dargs, enc)
    r.expect(h, h.outcome((v, 'encode_' + m), x).term, mk('ret', enc), 'encode_%s(decode_%s(b)) is b for every accepted b' % (m, m))


def share(h, v, bits):
    inner, leaf = h.attr(h.attr(v, 'idpf'), 'field_inner'), h.attr(h.attr(v, 'idpf'), 'field_leaf')
    return tup(h.bytes('idpf_key', pconst(16)), h.bytes('corr_seed', h.attr(h.attr(v, 'xof'), 'SEED_SIZE')),
               h.symlist('corr_inner', 'felt', length=pmul(pconst(2), psub(bits, ONE)), field=inner),
               h.symlist('corr_leaf', 'felt', length=pconst(2), field=leaf))


@R.ob(['Poplar1.encode_input_share', 'Poplar1.decode_input_share'], name='input_share: decoding inverts encoding')
def input_forward(r):
    h, v, bits = poplar(r)
    roundtrip(r, h, v, 'input_share', share(h, v, bits), (h.int('agg_id', 0, 2),))


@R.ob(['Poplar1.encode_input_share', 'Poplar1.decode_input_share'], name='input_share: accepted bytes are the encoding')
def input_backward(r):
    h, v, bits = poplar(r)
    canonical(r, h, v, 'input_share', (h.int('agg_id', 0, 2),), h.bytes('enc'))


def vec_args(h, v, bits, which, m):
    level, prefixes = poplar1_param(h, bits, which)
    F = h.attr(h.attr(v, 'idpf'), 'field_inner' if which == 'inner' else 'field_leaf')
    if m in ('out_share', 'agg_share'):
        return F, (tup(level, prefixes),)
    return F, (tup(h.bytes('step'), level, h.symlist('mem', 'felt', field=F)),)


def vec_forward(r, m, which):
    h, v, bits = poplar(r)
    F, dargs = vec_args(h, v, bits, which, m)
    n = h.int('n', 1 if m == 'verifier_message' else 0)
    roundtrip(r, h, v, m, h.symlist('vec', 'felt', field=F, length=n), dargs)


def vec_backward(r, m, which):
    h, v, bits = poplar(r)
    F, dargs = vec_args(h, v, bits, which, m)
    canonical(r, h, v, m, dargs, h.bytes('enc'))


for _m in ('verifier_share', 'verifier_message', 'out_share', 'agg_share'):
    R.ob(['Poplar1.encode_' + _m, 'Poplar1.decode_' + _m], name=_m + ': decoding inverts encoding', cases=[(l, (_m, w)) for l, (w,) in LEVELS])(vec_forward)
    R.ob(['Poplar1.encode_' + _m, 'Poplar1.decode_' + _m], name=_m + ': accepted bytes are the encoding', cases=[(l, (_m, w)) for l, (w,) in LEVELS])(vec_backward)


@R.ob(['Poplar1.encode_verifier_message', 'Poplar1.decode_verifier_message'], name='empty verifier_message: decoding inverts encoding', cases=LEVELS)
def none_forward(r, which):
    h, v, bits = poplar(r)
    F, dargs = vec_args(h, v, bits, which, 'verifier_message')
    roundtrip(r, h, v, 'verifier_message', NONE, dargs)


@R.ob(['Poplar1.encode_agg_param', 'Poplar1.decode_agg_param'], name='agg_param: decoding inverts encoding', cases=RES)
def param_forward(r, k):
    h, v, bits = poplar(r)
    q = h.int('q', 0 if k else 1, 8192 if k else 8193)
    level = padd(pmul(pconst(8), q), pconst(k - 1))
    h.fact(psub(level, pconst(65535)))
    pre = sym('prefixes', ('tuple', ('tuple', 'bool')), length=h.int('num_prefixes', 0, 1 << 32))
    TM.ITEM_LEN[pre] = padd(level, ONE)
    ELEM_LEN[pre] = padd(level, ONE)
    roundtrip(r, h, v, 'agg_param', tup(level, wrap(pre)), ())


@R.ob(['Poplar1.encode_agg_param', 'Poplar1.decode_agg_param'], name='agg_param: accepted bytes are the encoding', cases=RES)
def param_backward(r, k):
    h, v, bits = poplar(r)
    q = h.int('q', 0 if k else 1, 8192 if k else 8193)
    level = padd(pmul(pconst(8), q), pconst(k - 1))
    h.fact(psub(level, pconst(65535)))
    enc = cat('bytes', h.call('to_be_bytes', level, pconst(2)), h.bytes('enc'))
    canonical(r, h, v, 'agg_param', (), enc)


DEPTHS = [('depth %d' % k, (k,)) for k in (1, 2, 3, 4, 5, 6, 9)]
DEEP = [('depth %d' % k, (k,)) for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17)]


def idpf(r, k):
    h = r.flow(Config(unroll=48))
    concrete_fields(h.p)
    bits = pconst(k)
    n = h.int('value_len', 1)
    i = h.bare('IdpfBBCGGI21')
    h.call('IdpfBBCGGI21.__init__', i, n, bits)
    return h, i, bits, n


def lists(name, kind, length, item, field=None):
    s = sym(name, ('list', kind))
    LEN[s] = length
    TM.ITEM_LEN[s] = item
    ELEM_LEN[s] = item
    if field is not None:
        TM.FIELD[s] = TM.ITEM_FIELD[s] = field
    return wrap(s)


@R.ob(['IdpfBBCGGI21.encode_public_share', 'IdpfBBCGGI21.decode_public_share'], name='public_share: decoding inverts encoding', cases=DEPTHS)
def public_forward(r, k):
    h, i, bits, n = idpf(r, k)
    seeds = lists('seeds', 'bytes', bits, h.attr(i, 'KEY_SIZE'))
    inner = lists('inner', ('list', 'felt'), psub(bits, ONE), n, h.attr(i, 'field_inner'))
    leaf = h.symlist('leaf', 'felt', length=n, field=h.attr(i, 'field_leaf'))
    left, right = h.symlist('left', 'bool', length=bits), h.symlist('right', 'bool', length=bits)
    val = h.call('idpf:public_share', h.list(seeds), left, right, h.list(inner), leaf)
    roundtrip(r, h, i, 'public_share', val, ())


@R.ob(['IdpfBBCGGI21.encode_public_share', 'IdpfBBCGGI21.decode_public_share'], name='public_share: accepted bytes are the encoding', cases=DEPTHS[:4])
def public_backward(r, k):
    h, i, bits, n = idpf(r, k)
    canonical(r, h, i, 'public_share', (), h.bytes('enc'))


@R.ob(['Poplar1.encode_public_share', 'Poplar1.decode_public_share'], name='public_share: Poplar1 uses the IDPF encoding', cases=DEEP)
def poplar_public(r, k):
    h = r.flow(Config(unroll=48))
    concrete_fields(h.p)
    v = h.bare('Poplar1')
    h.call('Poplar1.__init__', v, pconst(k))
    canonical(r, h, v, 'public_share', (), h.bytes('enc'))
